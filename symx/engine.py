"""Proxy-based symbolic execution of the real Python code with z3.

A harness is an ordinary function  h(ctx, **params).  It creates symbolic inputs through `ctx`, calls the real
repository code on them, and states the property with ctx.check(...).  `explore` runs it again and again, each time
following a different feasible sequence of branch outcomes (depth first, solver-guided), until every feasible path has
been executed; on each path the solver decides every check for ALL values of the symbolic inputs that follow the path.

Engine signals derive from BaseException, so the code under test cannot swallow them.
"""
import sys, time, math
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
    import z3
    sys.path.remove(_VT)
else:
    import z3

import numpy as np
z3.z3.Z3_DEBUG = False


class EngineSignal(BaseException): pass
class Infeasible(EngineSignal): pass          # the current path is infeasible / assumed away
class Inconclusive(EngineSignal):             # solver gave up, unsupported operation, budget
    pass
class CheckFailed(EngineSignal): pass         # concrete mode: a check is false
class StopExploring(EngineSignal): pass


CONC_CAP = 3
CTX = None                                     # the context of the harness being run


def to_frac(x):
    if isinstance(x, Fraction): return x
    if isinstance(x, (bool, np.bool_)): return Fraction(int(x))
    if isinstance(x, (int, np.integer)): return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isnan(f) or math.isinf(f): return None
        return Fraction(f)
    return None


def make_token(ctx, x, spec):
    """Text standing for the number x. With ctx.unify_tokens equal numbers give equal texts (a symbolic branch per earlier token)."""
    if getattr(ctx, 'unify_tokens', False):
        for i, (y, s) in enumerate(ctx.tokens):
            if s == spec and (y is x or bool(y == x)): return f'⟦{i}⟧'
    ctx.tokens.append((x, spec))
    return f'⟦{len(ctx.tokens) - 1}⟧'


def z3_rat(fr): return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def rterm(x):
    """z3 Real term of a number or proxy; None if x is not numeric."""
    if isinstance(x, SymReal): return x.t
    if isinstance(x, SymInt): return z3.ToReal(x.t)
    if isinstance(x, SymBool): return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, np.ndarray) and x.size == 1: return rterm(x.reshape(-1)[0])
    f = to_frac(x)
    return None if f is None else z3_rat(f)


def iterm(x):
    if isinstance(x, SymInt): return x.t
    if isinstance(x, (bool, int, np.integer, np.bool_)): return z3.IntVal(int(x))
    return None


def bterm(x):
    if isinstance(x, SymBool): return x.t
    if isinstance(x, z3.BoolRef): return x
    return z3.BoolVal(bool(x))


def mk_bool(t):
    s = z3.simplify(t)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return SymBool(s)


def And(*xs):
    xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else list(xs)
    if not any(isinstance(x, (SymBool, z3.BoolRef)) for x in xs): return all(xs)
    return mk_bool(z3.And(*[bterm(x) for x in xs]))
def Or(*xs):
    xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else list(xs)
    if not any(isinstance(x, (SymBool, z3.BoolRef)) for x in xs): return any(xs)
    return mk_bool(z3.Or(*[bterm(x) for x in xs]))
def Not(x): return mk_bool(z3.Not(bterm(x))) if isinstance(x, (SymBool, z3.BoolRef)) else not x
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool): return mk_bool(bterm(a) == bterm(b))
    return bool(a) == bool(b)
def Ite(c, a, b):
    if not isinstance(c, SymBool): return a if c else b
    if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)) and not isinstance(a, bool):
        return SymInt(z3.If(c.t, iterm(a), iterm(b)))
    return SymReal(z3.If(c.t, rterm(a), rterm(b)))


class SymBool:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __bool__(self): return CTX.branch(self.t)
    def __and__(self, o): return And(self, o) if isinstance(o, (SymBool, bool, np.bool_)) else NotImplemented
    __rand__ = __and__
    def __or__(self, o): return Or(self, o) if isinstance(o, (SymBool, bool, np.bool_)) else NotImplemented
    __ror__ = __or__
    def __invert__(self): return Not(self)
    def logical_not(self): return Not(self)
    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)): return Iff(self, o)
        return bool(self) == o
    def __ne__(self, o): return Not(self == o)
    def __hash__(self): return hash(bool(self))
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def _i(self): return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))
    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __deepcopy__(self, m): return self
    def __copy__(self): return self
    def __repr__(self): return f'SymBool({self.t})'
    def __reduce__(self): raise Inconclusive('pickling a symbolic value')


def _coerce_real(o):
    return rterm(o)


class SymNum:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __deepcopy__(self, m): return self
    def __copy__(self): return self
    def __reduce__(self): raise Inconclusive('pickling a symbolic value')
    # comparisons
    def _cmp(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim > 0: return NotImplemented
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            o = float(o)
            if math.isnan(o): return f is _NE
            return bool(f(0.0, o))
        a, b = self._pair(o)
        if a is None: return NotImplemented
        return mk_bool(f(a, b))
    def __lt__(self, o): return self._cmp(o, _LT)
    def __le__(self, o): return self._cmp(o, _LE)
    def __gt__(self, o): return self._cmp(o, _GT)
    def __ge__(self, o): return self._cmp(o, _GE)
    def __eq__(self, o):
        r = self._cmp(o, _EQ)
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r
    def __ne__(self, o):
        r = self._cmp(o, _NE)
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r
    def __bool__(self):
        r = (self != 0)
        return r if isinstance(r, bool) else bool(r)
    # numpy object-array hooks
    def conjugate(self): return self
    def item(self): return self
    def isnan(self): return False
    def isfinite(self): return True


def _LT(a, b): return a < b
def _LE(a, b): return a <= b
def _GT(a, b): return a > b
def _GE(a, b): return a >= b
def _EQ(a, b): return a == b
def _NE(a, b): return a != b


class SymInt(SymNum):
    __slots__ = ()
    def _pair(self, o):
        b = iterm(o)
        if b is not None: return self.t, b
        b = rterm(o) if not isinstance(o, np.ndarray) else None
        return (None, None) if b is None else (z3.ToReal(self.t), b)
    def _ar(self, o, fi, rev = False):
        if isinstance(o, np.ndarray): return NotImplemented
        if isinstance(o, SymBool): o = o._i()
        b = iterm(o)
        if b is not None: return SymInt(z3.simplify(fi(b, self.t) if rev else fi(self.t, b)))
        if rterm(o) is None: return NotImplemented
        me = SymReal(z3.ToReal(self.t))
        return fi(o, me) if rev else fi(me, o)
    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: a - b, True)
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)): return o * self.__index__()
        return self._ar(o, lambda a, b: a * b)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)): return o * self.__index__()
        return self._ar(o, lambda a, b: a * b, True)
    def __neg__(self): return SymInt(z3.simplify(-self.t))
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.t < 0, -self.t, self.t))
    def _real(self): return SymReal(z3.ToReal(self.t))
    def __truediv__(self, o): return self._real() / o
    def __rtruediv__(self, o): return o / self._real()
    def _divmod(self, a, b):     # python floor semantics
        if bool(SymInt(b) == 0): raise ZeroDivisionError('integer division or modulo by zero')
        q = z3.If(b > 0, a / b, (-a) / (-b))   # z3 int division by positive divisor is floor
        return q, a - q * b
    def __floordiv__(self, o):
        b = iterm(o)
        return NotImplemented if b is None else SymInt(z3.simplify(self._divmod(self.t, b)[0]))
    def __rfloordiv__(self, o):
        a = iterm(o)
        return NotImplemented if a is None else SymInt(z3.simplify(self._divmod(a, self.t)[0]))
    def __mod__(self, o):
        b = iterm(o)
        return NotImplemented if b is None else SymInt(z3.simplify(self._divmod(self.t, b)[1]))
    def __rmod__(self, o):
        a = iterm(o)
        return NotImplemented if a is None else SymInt(z3.simplify(self._divmod(a, self.t)[1]))
    def __pow__(self, n):
        if isinstance(n, (int, np.integer)) and n >= 0:
            r = SymInt(z3.IntVal(1))
            for _ in range(int(n)): r = r * self
            return r
        return self._real() ** n
    def __index__(self): return CTX.concretise(self.t)
    __int__ = __index__
    def __float__(self): return float(CTX.concretise(self.t))
    def __hash__(self): return hash(CTX.concretise(self.t))
    def __round__(self, n = None): return self
    def __trunc__(self): return self
    def __ceil__(self): return self
    def __floor__(self): return self
    def __format__(self, spec): return CTX.token(self, spec)
    def __str__(self): return CTX.token(self, '')
    def __repr__(self): return f'SymInt({self.t})'
    def log(self): return self._real().log()
    def sqrt(self): return self._real().sqrt()
    def exp(self): return self._real().exp()


class SymReal(SymNum):
    __slots__ = ()
    def _pair(self, o):
        b = None if isinstance(o, np.ndarray) else rterm(o)
        return (None, None) if b is None else (self.t, b)
    def _ar(self, o, f):
        if isinstance(o, np.ndarray): return NotImplemented
        b = rterm(o)
        return NotImplemented if b is None else SymReal(f(self.t, b))
    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._ar(o, lambda a, b: b * a)
    def __truediv__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        b = rterm(o)
        return NotImplemented if b is None else SymReal(CTX.div(self.t, b))
    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        b = rterm(o)
        return NotImplemented if b is None else SymReal(CTX.div(b, self.t))
    def __neg__(self): return SymReal(-self.t)
    def __pos__(self): return self
    def __abs__(self):
        if CTX.fork_abs: return self if CTX.nonneg(self.t) else -self
        return SymReal(z3.If(self.t < 0, -self.t, self.t))
    def absolute(self): return abs(self)
    def __pow__(self, n):
        if isinstance(n, np.ndarray): return NotImplemented
        if isinstance(n, (float, np.floating)) and float(n).is_integer(): n = int(n)
        if isinstance(n, (int, np.integer)):
            n = int(n)
            if n < 0: return 1 / (self ** (-n))
            if n == 0: return SymReal(z3.RealVal(1))
            r = self.t
            for _ in range(n - 1): r = r * self.t
            return SymReal(r)
        if isinstance(n, (float, np.floating)) and float(n) == 0.5: return self.sqrt()
        if isinstance(n, (float, np.floating)) and float(n) == -0.5: return 1 / self.sqrt()
        raise Inconclusive(f'power {n!r} of a symbolic real')
    def __rpow__(self, o):
        raise Inconclusive('symbolic exponent')
    def square(self): return self * self
    def sqrt(self): return CTX.fn_sqrt(self)
    def exp(self): return CTX.fn('exp', self)
    def log(self): return CTX.fn('log', self)
    def cos(self): return CTX.fn('cos', self)
    def sin(self): return CTX.fn('sin', self)
    def tanh(self): return CTX.fn('tanh', self)
    def i0(self): return CTX.fn('i0', self)
    def i1(self): return CTX.fn('i1', self)
    def sign(self): return Ite(self > 0, 1, Ite(self < 0, -1, 0))
    def reciprocal(self): return 1 / self
    def __float__(self): return CTX.concretise_real(self.t)
    def __int__(self): raise Inconclusive('int() of a symbolic real')
    def __hash__(self): return 0x5EED      # one bucket: a dictionary or set of symbolic reals decides equality of its keys
    def __round__(self, n = None):
        if n is None: return SymInt(z3.ToInt(self.t + z3.Q(1, 2)))
        u = z3.RealVal(10 ** n) if n >= 0 else z3.Q(1, 10 ** -n)
        r = SymRounded(z3.ToReal(z3.ToInt(self.t * u + z3.Q(1, 2))) / u)
        r.orig = self
        return r
    def __floor__(self): return SymInt(z3.ToInt(self.t))
    def __ceil__(self): return SymInt(-z3.ToInt(-self.t))
    def __trunc__(self): return SymInt(z3.ToInt(self.t) if CTX.nonneg(self.t) else -z3.ToInt(-self.t))
    def floor(self): return SymReal(z3.ToReal(z3.ToInt(self.t)))
    def ceil(self): return SymReal(-z3.ToReal(z3.ToInt(-self.t)))
    def rint(self): return SymReal(z3.ToReal(z3.ToInt(self.t + z3.Q(1, 2))))
    def trunc(self): return SymReal(z3.ToReal(self.__trunc__().t))
    def round(self, decimals = 0, out = None): return self.__round__(int(decimals))
    def __format__(self, spec): return CTX.token(self, spec)
    def __str__(self): return CTX.token(self, '')
    def __repr__(self): return f'SymReal({self.t})'


class SymRounded(SymReal):
    """A rounded real; when displayed it stands for the exact one, as any displayed value does."""
    __slots__ = ('orig',)
    def __format__(self, spec): return CTX.token(self.orig, spec)
    def __str__(self): return CTX.token(self.orig, '')


def is_sym(x): return isinstance(x, (SymNum, SymBool))


class BaseCtx:
    symbolic = False
    fork_abs = False
    def And(self, *a): return And(*a)


class Stats:
    def __init__(self):
        self.paths = 0; self.infeasible = 0; self.decisions = 0; self.queries = 0; self.sat = 0; self.unsat = 0
        self.solver_s = 0.0; self.checks = 0; self.trivial_checks = 0; self.validated = 0; self.vars = 0; self.maxdepth = 0
        self.samples = []; self.inconclusive = []; self.violations = []; self.concretised_reals = 0
        self.covered = {}
        self.reduced = []                # generality lost (recorded, never silent)


PARITY = {'cos': 0, 'i0': 0, 'sin': 1, 'i1': 1, 'tanh': 1}     # 0 even, 1 odd
class SymCtx(BaseCtx):
    symbolic = True
    def __init__(self, timeout_ms = 20000, logic = None, axioms = None):
        self.solver = z3.SolverFor(logic) if logic else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.stats = Stats()
        self.prefix = []            # list of decision records for the current DFS position
        self.pushed = 0
        self.cur = None             # a model of all current assertions, if one is at hand
        self.axioms = axioms
        self.failed = None

    # ---- path life cycle
    def start(self):
        global CTX
        CTX = self
        self.pos = 0                # decisions consumed so far
        self.vars = {}              # name -> (kind, z3 const or choice)
        self.order = []
        self.tokens = []
        self.fncache = {}
        self.facts = {}
        self.memos = {}
        self.nfresh = 0
        self.path_checks = 0
        self.trace = []
        self.fork_abs = False
        self.positive = set()       # symbols declared positive
        self.prefer = []            # soft constraints used only to pick more telling models

    def _add(self, c):
        # constraints of replayed levels are already in the solver
        if self.pos >= len(self.prefix) and not self._same_as_replayed(): self._assert(c)
    def _same_as_replayed(self): return self._replaying
    @property
    def _replaying(self): return self.pos < self.replay_len

    def add(self, c):
        if not self._replaying: self._assert(c)

    def _assert(self, c):
        self.solver.add(c)
        if self.cur is not None and not self._holds(c): self.cur = None
    def _holds(self, c):
        """Is c true in the model at hand (a model of everything asserted so far)?"""
        if self.cur is None: return False
        try: return z3.is_true(self.cur.eval(c, model_completion = True))
        except z3.Z3Exception: return False
    def _sat(self, c):
        return self._holds(c) or self._check(c)

    def _check(self, *assumptions, quick = False):
        t0 = time.time()
        if quick: self.solver.set('timeout', 2000)
        r = self.solver.check(*assumptions)
        if quick: self.solver.set('timeout', self.timeout_ms)
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if quick and r == z3.unknown: raise Inconclusive('solver: quick attempt')
        if r == z3.unknown:
            # one fresh non-incremental attempt with a longer limit before giving up
            s2 = z3.Solver(); s2.set('timeout', 3 * self.timeout_ms)
            s2.add(*self.solver.assertions()); s2.add(*assumptions)
            t0 = time.time(); r = s2.check(); self.stats.solver_s += time.time() - t0
            self.stats.queries += 1
            if r == z3.sat: self._model_cache = s2.model()
            elif r == z3.unknown: raise Inconclusive('solver: ' + s2.reason_unknown())
        elif r == z3.sat: self._model_cache = self.solver.model()
        if r == z3.sat:
            self.stats.sat += 1; self.cur = self._model_cache
        else: self.stats.unsat += 1
        return r == z3.sat

    # ---- decisions
    def _decide(self, options):
        """options: list of z3 constraints, mutually exclusive; returns the index chosen."""
        i = self.pos
        if i < self.replay_len:
            rec = self.prefix[i]
            self.pos += 1
            return rec['cur']
        feas = []
        for k, c in enumerate(options):
            if k == len(options) - 1 and not feas: feas.append(k); break     # the last one must hold (path is feasible)
            if self._sat(c): feas.append(k)
        rec = {'cur': feas[0], 'rest': feas[1:], 'opts': options, 'kind': 'opts'}
        self.prefix = self.prefix[:i] + [rec]
        self.solver.push()
        self._assert(options[feas[0]])
        self.pos += 1
        self.replay_len = max(self.replay_len, 0)
        if len(feas) > 1: self.stats.decisions += 1
        return feas[0]

    def branch(self, t):
        hit = self.facts.get(t.get_id())
        if hit is not None: return hit[0]
        n = z3.simplify(z3.Not(t))
        r = self._decide([t, n]) == 0
        self.facts[t.get_id()] = (r, t); self.facts[n.get_id()] = (not r, n)
        return r

    def concretise(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t): return t.as_long()
        i = self.pos
        if i < self.replay_len:
            rec = self.prefix[i]; self.pos += 1
            return rec['cur']
        cap = []
        if self._check(t > 40) or self._check(t < -40):
            # the code needs the number itself and it is unbounded: explore the values up to CONC_CAP only (recorded in the evidence)
            cap = [t <= CONC_CAP, t >= -CONC_CAP]
            note = f'unbounded integers forced to a value by the code: explored up to {CONC_CAP} only'
            if note not in self.stats.reduced: self.stats.reduced.append(note)
        if not self._check(*cap): raise Infeasible()
        v = self._model_cache.eval(t, model_completion = True).as_long()
        rec = {'cur': v, 'tried': [v], 'term': t, 'kind': 'enum', 'cap': cap}
        self.prefix = self.prefix[:i] + [rec]
        self.solver.push(); self._assert(t == v); self.pos += 1
        self.stats.decisions += 1
        return v

    def concretise_real(self, t):
        t = z3.simplify(t)
        if z3.is_rational_value(t): return float(t.as_fraction())
        # the code forces a machine float out of a symbolic real: continue with one value (recorded: no longer for all values)
        note = 'symbolic reals forced into machine floats by the code: one value explored per path'
        if note not in self.stats.reduced: self.stats.reduced.append(note)
        if self._replaying:
            rec = self.prefix[self.pos]; self.pos += 1
            return rec['cur']
        if not self._check(): raise Infeasible()
        m = self._model_cache.eval(t, model_completion = True)
        if z3.is_algebraic_value(m): raise Inconclusive('the code forces a symbolic irrational into a machine float')
        f = m.as_fraction()
        v = float(f)
        rec = {'cur': v, 'rest': [], 'kind': 'opts'}
        self.prefix = self.prefix[:self.pos] + [rec]
        self.solver.push(); self._assert(t == m); self.pos += 1
        return v

    def backtrack(self):
        """Move to the next unexplored decision; False when the tree is exhausted."""
        while self.prefix:
            rec = self.prefix[-1]
            self.solver.pop()
            if rec['kind'] == 'opts':
                if rec['rest']:
                    rec['cur'] = rec['rest'].pop(0)
                    self.solver.push(); self._assert(rec['opts'][rec['cur']])
                    self.replay_len = len(self.prefix)
                    return True
            else:
                t0 = time.time()
                if self._check(*[rec['term'] != v for v in rec['tried']], *rec['cap']):
                    v = self._model_cache.eval(rec['term'], model_completion = True).as_long()
                    rec['tried'].append(v); rec['cur'] = v
                    self.solver.push(); self._assert(rec['term'] == v)
                    self.replay_len = len(self.prefix)
                    return True
            self.prefix.pop()
        return False

    # ---- inputs
    def _var(self, name, kind, const):
        assert name not in self.vars, f'duplicate symbolic variable {name}'
        self.vars[name] = (kind, const); self.order.append(name)
    def real(self, name, lo = None, hi = None, gt = None, lt = None):
        c = z3.Real(name); self._var(name, 'real', c)
        if gt is not None and gt >= 0: self.positive.add(c.get_id())
        for cond in ([c >= lo] if lo is not None else []) + ([c <= hi] if hi is not None else []) + \
                    ([c > gt] if gt is not None else []) + ([c < lt] if lt is not None else []): self.add(cond)
        return SymReal(c)
    def int(self, name, lo = None, hi = None):
        c = z3.Int(name); self._var(name, 'int', c)
        if lo is not None: self.add(c >= lo)
        if hi is not None: self.add(c <= hi)
        return SymInt(c)
    def bool(self, name):
        c = z3.Bool(name); self._var(name, 'bool', c)
        return SymBool(c)
    def choice(self, name, options):
        """A symbolic index over a finite list of structural alternatives; forks when used (immediately)."""
        options = list(options)
        if len(options) == 1:
            self.vars[name] = ('choice', 0); self.order.append(name)
            return options[0]
        c = z3.Int(name); self._var(name, 'int', c)
        self.add(z3.And(c >= 0, c < len(options)))
        return options[self._decide([c == k for k in range(len(options))])]
    def fresh(self, stem):
        self.nfresh += 1
        return z3.Real(f'!{stem}{self.nfresh}')

    def assume(self, cond):
        if cond is True: return
        if cond is False: raise Infeasible()
        t = bterm(cond)
        if self._replaying: return
        if not self._sat(t): raise Infeasible()
        self._assert(t)

    def assert_fact(self, t):     # facts about uninterpreted functions (sound axioms)
        self.add(t)

    # ---- function symbols
    def div(self, a, b):
        b = z3.simplify(b)
        if z3.is_rational_value(b):
            if b.as_fraction() == 0: raise Inconclusive('division by the constant zero')
            return a / b
        for f in self._factors(b):
            key = ('nz', f.get_id())
            if key not in self.fncache:
                self.fncache[key] = f
                if self._decide([f == 0, f != 0]) == 0: raise ZeroDivisionError('symbolic division by zero')
        return a / b
    def _factors(self, t):
        """Non-constant factors of numerator and denominators (denominators are already known to be non-zero)."""
        kind, ch = t.decl().kind(), t.children()
        if z3.is_rational_value(t): return [] if t.as_fraction() != 0 else [t]
        if kind == z3.Z3_OP_MUL: return [f for c in ch for f in self._factors(c)]
        if kind == z3.Z3_OP_UMINUS or kind == z3.Z3_OP_DIV or kind == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction() > 0: return self._factors(ch[0])
        return [t]
    def fn_sqrt(self, x):
        t = z3.simplify(x.t, som = True)
        if z3.is_rational_value(t):
            f = t.as_fraction()
            r = Fraction(math.isqrt(f.numerator), math.isqrt(f.denominator)) if f >= 0 else None
            if r is not None and r * r == f: return SymReal(z3_rat(r))
        form, c = self._canonical(t)
        key = ('sqrt', form)
        if key in self.fncache: return self.fncache[key][0]
        s = self.fresh('sqrt')
        self.assume(SymReal(t) >= 0)
        self.add(z3.And(s >= 0, s * s == t))
        self.fncache[key] = (SymReal(s), t)
        return self.fncache[key][0]
    def nonneg(self, t):
        """Fork on the sign of t, up to positive factors; at most once per term and its negation."""
        from symx import poly
        r = poly.sign_form(t, self.positive, self.memos)
        if r is None: return bool(SymReal(t) >= 0)
        num, flip, u = r
        key = ('sign', num)
        if key not in self.memos: self.memos[key] = bool(SymReal(u) >= 0)
        return self.memos[key] != flip
    def _canonical(self, t):
        from symx import poly
        r = poly.canonical(t, self.memos, self.roots())
        return r if r is not None else (t.get_id(), t.as_fraction() if z3.is_rational_value(t) else None)
    def fn(self, name, x):
        t = z3.simplify(x.t, som = True)
        form, f = self._canonical(t)
        if name in PARITY and isinstance(form, tuple) and form[0] and form[0][-1][1] < 0:       # f(-t) = ± f(t)
            r = self.fn(name, SymReal(-t))
            return -r if PARITY[name] else r
        key = (name, form)
        if key in self.fncache: return self.fncache[key][0]
        if f is not None:
            if (name, f) in (('exp', 0), ('cos', 0), ('i0', 0)): return SymReal(z3.RealVal(1))
            if (name, f) in (('log', 1), ('sin', 0), ('i1', 0), ('tanh', 0)): return SymReal(z3.RealVal(0))
        r = self.fresh(name)
        self.fncache[key] = (SymReal(r), t)
        if self.axioms: self.axioms(self, name, t, r)
        return self.fncache[key][0]
    def fn_apps(self, name): return [(v[1], v[0].t) for k, v in self.fncache.items() if k[0] == name]

    def token(self, x, spec):
        return make_token(self, x, spec)

    # ---- properties
    def check(self, cond, label, **info):
        self.path_checks += 1
        self.stats.checks += 1
        if isinstance(cond, np.bool_): cond = bool(cond)
        if cond is True: self.stats.trivial_checks += 1; return
        if self._replaying:         # already decided on an earlier path with the same prefix
            return
        t = bterm(cond)
        # prefer a counterexample that survives floating point
        if self._holds(z3.Not(t)):
            self._model_cache = self.cur
            self._prefer(z3.Not(t))
            raise Violation(label, self.model_values(self._model_cache), {k: _show(v) for k, v in info.items()})
        if self._check(z3.Not(t)):
            self._prefer(z3.Not(t))
            raise Violation(label, self.model_values(self._model_cache), {k: _show(v) for k, v in info.items()})

    def same(self, a, b, label, at = (), **info):
        """a == b over the reals (concretely: up to rounding). at: what else a counterexample should fulfil, about symbols that occur neither in
        a and b nor in path conditions."""
        self.path_checks += 1; self.stats.checks += 1
        if self._replaying: return
        d = z3.simplify(rterm(a) - rterm(b), som = True)
        if z3.is_rational_value(d) and d.as_fraction() == 0: self.stats.trivial_checks += 1; return
        if self.zero(d): self.stats.trivial_checks += 1; return
        if self.prefer:            # a counterexample among the preferred values first (evaluation instead of solving)
            try:
                if self._check(*self.prefer, *at, quick = True) and self._holds(d != 0) and not self._holds(z3.And(d < z3.Q(1, 10000), d > -z3.Q(1, 10000))):
                    raise Violation(label, self.model_values(self._model_cache), {**{k: _show(v) for k, v in info.items()}, 'lhs': _show(a), 'rhs': _show(b)})
            except Inconclusive: pass
        if self._check(d != 0):
            m = self._model_cache
            big = z3.Or(d > z3.Q(1, 100), d < -z3.Q(1, 100))
            try:
                if at and self._check(d != 0, *at): m = self._model_cache
                if self._check(big, *at, quick = True): m = self._model_cache
                if self._prefer(big, *at) or self._prefer(d != 0, *at): m = self._model_cache
            except Inconclusive: pass
            raise Violation(label, self.model_values(m), {**{k: _show(v) for k, v in info.items()}, 'lhs': _show(a), 'rhs': _show(b)})

    def squares(self):
        """Terms under a square root, as squares of it."""
        return {t.get_id(): r * r for t, r in self.fn_apps('sqrt') if z3.is_const(t)}
    def roots(self):
        """Square root symbols of other terms -> the term they square to."""
        return {r.get_id(): t for t, r in self.fn_apps('sqrt') if not z3.is_const(t)}
    def zero(self, d):
        """Is the term zero as a rational function (denominators are non-zero on this path)?"""
        from symx import poly
        return poly.is_zero(d, self.squares(), self.memos, self.roots())
    def lemma(self, t, label, hint = None, **info):
        """A sufficient condition about fresh variables only; a counterexample to it is looked for on the path as a whole."""
        self.path_checks += 1; self.stats.checks += 1
        if self._replaying: return
        s = z3.Solver(); s.set('timeout', 3 * self.timeout_ms); s.add(z3.Not(t))
        t0 = time.time(); r = s.check(); self.stats.solver_s += time.time() - t0; self.stats.queries += 1
        if r == z3.unsat: self.stats.unsat += 1; return
        if r == z3.unknown: raise Inconclusive('solver: ' + s.reason_unknown())
        self.stats.sat += 1
        # not within the sufficient condition: any path model that violates the property itself is reported after replay
        if not self._check(): raise Infeasible()
        if hint is not None: self.prefer = hint(s.model()) + self.prefer
        self._prefer()
        raise Violation(label, self.model_values(self._model_cache), {k: _show(v) for k, v in info.items()})

    def decide(self, cond):
        """Fork on a condition of the oracle (not of the code)."""
        return cond if isinstance(cond, bool) else bool(cond)

    def valid(self, t):
        """Does t hold for every value on this path? (oracle bookkeeping; no fork)"""
        return not self._check(z3.Not(bterm(t)))
    def _prefer(self, *also):
        """Move the model to the preferred values if they are possible."""
        if not self.prefer: return False
        keep = self._model_cache
        for k in (len(self.prefer), len(self.prefer) // 2):
            try:
                if self._check(*also, *self.prefer[:k], quick = True): return True
            except Inconclusive: pass
        self._model_cache = keep
        return False
    def model_values(self, m):
        out = {}
        for n in self.order:
            kind, c = self.vars[n]
            if kind == 'choice': out[n] = 0; continue
            v = m.eval(c, model_completion = True)
            if kind == 'real':
                if z3.is_algebraic_value(v): v = v.approx(12)
                f = v.as_fraction(); out[n] = f'{f.numerator}/{f.denominator}'
            elif kind == 'int': out[n] = v.as_long()
            else: out[n] = bool(z3.is_true(v))
        return out
    def path_model(self):
        if not self._check(): return None
        self._prefer()
        return self.model_values(self._model_cache)


def _show(v):
    if callable(v):
        try: v = v()
        except Exception as e: v = f'<{e}>'
    if is_sym(v): return repr(v)[:400]
    return str(v)[:400]


def derivative(ctx, t, x, through = True):
    """d t / d x of a real term of the current path, through the function symbols it contains."""
    defs = {v[0].t.get_id(): (k[0], v[1]) for k, v in ctx.fncache.items() if k[0] in ('exp', 'log', 'cos', 'sin', 'sqrt', 'i0', 'i1', 'tanh')} if through else {}
    memo = ctx.memos.setdefault(('d', x.get_id(), through), {('x',): x})
    zero = z3.RealVal(0)
    isz = lambda e: z3.is_rational_value(e) and e.as_fraction() == 0
    def go(t):
        k = t.get_id()
        if k not in memo: memo[k] = (t, step(t))
        return memo[k][1]
    def step(t):
        if t.eq(x): return z3.RealVal(1)
        kind, ch = t.decl().kind(), t.children()
        if t.get_id() in defs:
            name, arg = defs[t.get_id()]
            d = go(arg)
            if isz(d): return zero
            A = SymReal(arg)
            if name == 'exp': return t * d
            if name == 'log': return ctx.div(d, arg)
            if name == 'cos': return -A.sin().t * d
            if name == 'sin': return A.cos().t * d
            if name == 'sqrt': return ctx.div(d, 2 * t)
            if name == 'i0': return A.i1().t * d
            if name == 'i1': return (A.i0().t - ctx.div(A.i1().t, arg)) * d
            if name == 'tanh': return (1 - t * t) * d
        if not ch: return zero
        ds = [go(c) if z3.is_arith(c) else zero for c in ch]
        if kind == z3.Z3_OP_ITE: return z3.If(ch[0], ds[1], ds[2]) if not (isz(ds[1]) and isz(ds[2])) else zero
        if all(isz(d) for d in ds): return zero
        if kind == z3.Z3_OP_ADD: return z3.Sum([d for d in ds if not isz(d)])
        if kind == z3.Z3_OP_SUB:
            r = ds[0]
            for d in ds[1:]: r = r - d
            return r
        if kind == z3.Z3_OP_UMINUS: return -ds[0]
        if kind == z3.Z3_OP_MUL:
            out = []
            for i, d in enumerate(ds):
                if isz(d): continue
                p = d
                for j, c in enumerate(ch):
                    if j != i: p = p * c
                out.append(p)
            return z3.Sum(out)
        if kind == z3.Z3_OP_DIV: return (ds[0] * ch[1] - ch[0] * ds[1]) / (ch[1] * ch[1])
        if kind == z3.Z3_OP_POWER and isz(ds[1]) and z3.is_rational_value(ch[1]): return ch[1] * ch[0] ** (ch[1] - 1) * ds[0]
        raise Inconclusive(f'derivative of {t.decl().name()}')
    return SymReal(go(t))


class Violation(EngineSignal):
    def __init__(self, label, values, info): self.label, self.values, self.info = label, values, info


class TNum(Fraction):
    """Exact number that formats as a token (so that texts can be parsed back without rounding)."""
    def __format__(self, spec): return CTX.token(self, spec)
    def __str__(self): return CTX.token(self, '')
    def __round__(self, n = None): return self if n is not None else Fraction.__round__(self)
    def __deepcopy__(self, m): return self
    def __copy__(self): return self
    def sqrt(self):
        f = Fraction(self)
        return TNum(Fraction(math.sqrt(f)))
def _tn(op):
    f = getattr(Fraction, op)
    def g(self, *a):
        if a and isinstance(a[0], (float, np.floating)) and math.isfinite(a[0]): a = (Fraction(float(a[0])),)
        r = f(self, *a)
        return TNum(r) if isinstance(r, (Fraction, int)) else r
    return g
for _op in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__neg__', '__abs__'): setattr(TNum, _op, _tn(_op))
def _tpow(self, n): return TNum(Fraction.__pow__(self, n)) if isinstance(n, int) else Fraction.__pow__(self, n)
TNum.__pow__ = _tpow


class ConcreteCtx(BaseCtx):
    """Runs a harness on ordinary values: replay of counterexamples, and validation of path models on unproxied code."""
    symbolic = False
    def __init__(self, values, exact = False):
        self.values = values; self.exact = exact; self.tokens = []; self.path_checks = 0; self.order = []; self.fork_abs = False; self.prefer = []
    def start(self):
        global CTX
        CTX = self
    def _num(self, name):
        f = Fraction(self.values[name])
        return TNum(f) if self.exact == 'token' else f if self.exact else float(f)
    def token(self, x, spec):
        return make_token(self, x, spec)
    def real(self, name, lo = None, hi = None, gt = None, lt = None): return self._num(name) if name in self.values else 0.5
    def int(self, name, lo = None, hi = None): return int(self.values.get(name, lo or 0))
    def bool(self, name): return bool(self.values.get(name, False))
    def choice(self, name, options): return list(options)[int(self.values.get(name, 0))]
    def assume(self, cond):
        if not cond: raise Infeasible()
    def assert_fact(self, t): pass
    def decide(self, cond): return bool(cond)
    def check(self, cond, label, **info):
        self.path_checks += 1
        if not bool(cond): raise ConcreteFailure(label, {k: _show(v) for k, v in info.items()})
    def same(self, a, b, label, tol = 1e-6, at = (), **info):
        self.path_checks += 1
        a, b = float(a), float(b)
        if not (abs(a - b) <= tol * (1 + abs(a) + abs(b))): raise ConcreteFailure(label, {**{k: _show(v) for k, v in info.items()}, 'lhs': a, 'rhs': b})


class ConcreteFailure(EngineSignal):
    def __init__(self, label, info): self.label, self.info = label, info


def run_concrete(fn, params, values, exact = False):
    """-> ('ok'|'fail'|'exception'|'infeasible', detail)"""
    import traceback
    global CTX
    old = CTX
    ctx = ConcreteCtx(values, exact)
    ctx.start()
    try:
        fn(ctx, **params)
        return 'ok', ctx.path_checks
    except ConcreteFailure as e: return 'fail', {'label': e.label, 'info': e.info}
    except Infeasible: return 'infeasible', None
    except EngineSignal as e: return 'engine', f'{type(e).__name__}: {e}'
    except Exception as e:
        return 'exception', {'label': f'unexpected {type(e).__name__}: {e}', 'info': {'traceback': traceback.format_exc()[-3000:]}}
    finally: CTX = old


def explore(fn, params, deadline, max_paths = 200000, validate = 'all', timeout_ms = 20000, logic = None, axioms = None,
            max_violations = 3, exact_replay = False):
    """Symbolically execute fn(ctx, **params) on every feasible path."""
    import traceback
    ctx = SymCtx(timeout_ms, logic, axioms)
    ctx.replay_len = 0
    st = ctx.stats
    seen_labels = set()
    nval = 0
    while True:
        if time.time() > deadline:
            st.reduced.append('time budget exhausted before all paths were explored'); break
        ctx.start()
        cand = None
        done = False
        try:
            fn(ctx, **params)
            done = True
        except Infeasible: st.infeasible += 1
        except Violation as v: cand = (v.label, v.values, v.info)
        except Inconclusive as e: st.inconclusive.append(f'{e} [{_where()}]')
        except EngineSignal: raise
        except Exception as e:
            tb = traceback.format_exc()[-3000:]
            try:
                vals = ctx.path_model()
                if vals is None: st.infeasible += 1
                else: cand = (f'unexpected {type(e).__name__}: {e}', vals, {'traceback': tb})
            except Inconclusive as e2: st.inconclusive.append(str(e2) + ' | ' + tb[-600:])
        st.maxdepth = max(st.maxdepth, ctx.pos)
        st.vars = max(st.vars, len(ctx.order))
        if done:
            st.paths += 1
            if ctx.path_checks == 0: st.inconclusive.append('a completed path reached no check (vacuous)')
            if validate == 'all' or (validate and nval < validate):
                try:
                    vals = ctx.path_model()
                    if vals is not None:
                        nval += 1
                        kind, det = run_concrete(fn, params, vals, exact_replay)
                        if kind == 'ok': st.validated += 1
                        elif kind == 'infeasible': pass
                        elif kind in ('fail', 'exception'): cand = ('path model: ' + det['label'], vals, det['info'])
                        else: st.inconclusive.append('path model replay: ' + str(det))
                        if len(st.samples) < 2: st.samples.append({'path_model': vals, 'checks_on_path': ctx.path_checks, 'replay': kind})
                except Inconclusive as e: st.inconclusive.append('path model: ' + str(e))
        if cand:
            label, vals, info = cand
            kind, det = run_concrete(fn, params, vals, exact_replay)
            if kind in ('fail', 'exception'):
                key = det['label'][:80]
                deadline = min(deadline, time.time() + 10)
                if key not in seen_labels:
                    seen_labels.add(key)
                    st.violations.append({'label': label, 'values': vals, 'info': info, 'replay': det})
            else:
                st.inconclusive.append(f'counterexample did not reproduce concretely ({kind}): {label} {vals} {str(info)[:1500]} {str(det)[:300]}')
        if len(st.violations) >= max_violations or len(st.inconclusive) >= 5: break
        if st.paths + st.infeasible >= max_paths: st.reduced.append('path limit reached'); break
        try:
            if not ctx.backtrack(): break
        except Inconclusive as e: st.inconclusive.append(str(e)); break
    if st.paths == 0 and not st.violations and not st.inconclusive and not st.reduced: st.inconclusive.append('no feasible path (vacuous harness)')
    return st


def _where():
    import traceback
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    repo = [f for f in fr if '/GPy_ABCD/' in f.filename]
    f = (repo or fr)[-1]
    return f'{f.filename}:{f.lineno}'
