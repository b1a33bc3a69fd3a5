"""Covariance functions as compositions: leaf abstraction and the independent reading of (annotated) expressions.

Symbolic runs: every leaf kernel (base kernels and sigmoidal gates) evaluates to  variance * atom(kind, parameters, x, x'),
an uninterpreted value (1 at x = x' for the stationary kinds, 0 / 1 for white noise on different / equal points of one set,
1 for constants); sums, products, change operators, parameter storage and propagation are the real code.
Concrete runs: nothing is replaced and the leaves of the reading are evaluated with their textbook formulas.
"""
import math
from fractions import Fraction
import numpy as np
from symx import engine
from symx.engine import SymReal, z3, rterm
from checks import kerns, trees as T

PARS = {'PER': ('period', 'lengthscale'), 'SE': ('lengthscale',), 'C': (), 'WN': (), 'LIN': ('offset',),
        'S': ('location', 'slope'), 'Sr': ('location', 'slope'), 'SI': ('location', 'slope', 'width'), 'SIr': ('location', 'slope', 'width')}


def sc(v):
    """Scalar out of a Param / array / number."""
    if isinstance(v, np.ndarray): v = np.asarray(v).reshape(-1)[0]
    return v


class Points:
    """Two input sets: X = (x0, x1) and Z = (z0,)."""
    def __init__(self, ctx):
        self.x = [ctx.real('x0'), ctx.real('x1')]; self.z = [ctx.real('z0')]
        ctx.prefer += [] if not ctx.symbolic else [self.x[0].t == z3.Q(3, 10), self.x[1].t == z3.Q(17, 10), self.z[0].t == -z3.Q(11, 10)]
        self.X, self.Z = kerns.col(self.x), kerns.col(self.z)
    def entries(self):   # (same set?, i, j, a, b)
        return [(True, 0, 0, self.x[0], self.x[0]), (True, 0, 1, self.x[0], self.x[1]), (False, 1, 0, self.x[1], self.z[0])]
    def of(self, kern):
        K, Kc = kern.K(self.X), kern.K(self.X, self.Z)
        return [K[0, 0], K[0, 1], Kc[1, 0]]


def atom(kind, pars, same, i, j, a, b):
    """Value of the unit-variance leaf at the pair (a, b)."""
    ctx = engine.CTX
    if kind == 'C': return 1
    if kind == 'WN': return 1 if same and i == j else 0
    if not ctx.symbolic: return formula(kind, [float(p) for p in pars], float(a), float(b))
    ts = [z3.simplify(rterm(p)) for p in pars]
    ab = sorted([z3.simplify(rterm(a)), z3.simplify(rterm(b))], key = lambda t: t.get_id())
    if kind in ('PER', 'SE') and ab[0].eq(ab[1]): return 1
    if kind == 'SE': return se_atom(ctx, ts[0], ab)
    key = ('atom', kind, tuple(t.get_id() for t in ts + ab))
    if key not in ctx.fncache: ctx.fncache[key] = (SymReal(ctx.fresh('atom_' + kind)), (ts, ab))
    return ctx.fncache[key][0]


def se_atom(ctx, l, ab):
    """exp(-d²/2l²): products of these multiply to one whose 1/l² is the sum."""
    reg = ctx.fncache.setdefault(('SE', tuple(t.get_id() for t in ab)), ([], ab))[0]
    for lt, val, base in reg:
        if lt.eq(l): return val
    plain = z3.is_const(l)
    if not plain:
        import itertools
        basics = [(lt, val) for lt, val, base in reg if base]
        for n in range(1, len(basics) + 1):
            for sub in itertools.combinations(basics, n):
                prod = z3.RealVal(1)
                for lt, _ in sub: prod = prod * lt * lt
                s = z3.RealVal(0)
                for k in range(n):
                    p = z3.RealVal(1)
                    for m, (lt, _) in enumerate(sub):
                        if m != k: p = p * lt * lt
                    s = s + p
                if _invsq(ctx, l, s, prod):
                    val = SymReal(z3.RealVal(1))
                    for _, v in sub: val = val * v
                    reg.append((l, val, False)); return val
    val = SymReal(ctx.fresh('atom_SE'))
    reg.append((l, val, plain)); return val
def _invsq(ctx, l, num, den):
    """1/l² == num/den on this path?  (quick refutation on the preferred values first)"""
    m = ctx._model_cache if ctx._check(*ctx.prefer) else None
    if m is not None:
        try:
            f = lambda t: float(Fraction(m.eval(t, model_completion = True).as_fraction())) if z3.is_rational_value(m.eval(t, model_completion = True)) else float(m.eval(t, model_completion = True).approx(20).as_fraction())
            L = f(l)
            if abs(L * L * f(num) - f(den)) > 1e-6 * abs(f(den)): return False
        except Exception: pass
    return ctx.valid(z3.And(l * l * num == den))


def formula(kind, p, x, y):
    if kind == 'SE': return math.exp(-(x - y) ** 2 / (2 * p[0] ** 2))
    if kind == 'LIN': return (x - p[0]) * (y - p[0]) if p else x * y
    if kind == 'PER':
        per, l = p
        if T.flags()['stdper']: return math.exp(-.5 * (math.sin(math.pi * (x - y) / per) / l) ** 2)
        from scipy.special import ive
        w = 1 / l ** 2
        if w < 1e-8: return math.cos(2 * math.pi * (x - y) / per)
        i0 = float(ive(0, w))                     # exp(-w) I0(w)
        return (math.exp((math.cos(2 * math.pi * (x - y) / per) - 1) * w) - i0) / (1 - i0)
    g = lambda t: gate(kind, p, t)
    return g(x) * g(y)
def gate(kind, p, x):
    sig = lambda u: (1 + u / (1 + abs(u))) / 2
    if kind in ('S', 'Sr'):
        v = sig((x - p[0]) / p[1])
    else:
        l, s, w = p
        v = (sig((x - l) / s) - sig((x - l - w) / s)) / ((w / (2 * s)) / (1 + w / (2 * s)))
    return 1 - v if kind.endswith('r') else v


# ---- leaf shims
def leaf_types():
    from GPy_ABCD.KernelExpansion.kernelOperations import base_str_to_ker
    return {type(base_str_to_ker(b)): b for b in T.BASES}


def leaf_params(kind, ker):
    return [sc(getattr(ker, n)) for n in PARS[kind] if hasattr(ker, n)]


def shim_leaves():
    from GPy_ABCD.Kernels import baseKernels as B
    res = []
    def put(cls, kindof):
        orig = cls.K
        def K(self, X, X2 = None, *a, **k):
            if not kerns.symbolic(): return orig(self, X, X2, *a, **k)
            same = X2 is None
            xs = [X[i, 0] for i in range(X.shape[0])]
            ys = xs if same else [X2[i, 0] for i in range(X2.shape[0])]
            kind = kindof(self)
            out = np.empty((len(xs), len(ys)), dtype = object)
            for i in range(len(xs)):
                for j in range(len(ys)):
                    out[i, j] = sc(self.variance) * atom(kind, leaf_params(kind, self), same, i, j, xs[i], ys[j])
            return out
        res.append((cls, 'K', K))
    for cls, b in leaf_types().items(): put(cls, lambda s, b = b: b)
    put(type(B.S()), lambda s: 'Sr' if s.reverse else 'S')
    put(type(B.SI()), lambda s: 'SIr' if s.reverse else 'SI')
    return res


SHIMS = kerns.NUM + (shim_leaves,)


# ---- reading of a tree with parameters
# ('S', [..]) ('P', [..]) ('CP'|'CW', {location, [slope], [width]}, left, right) ('L', base, {params, variance}) ('V', scale)
def default_slope():
    from GPy_ABCD.Kernels import baseKernels as B
    k = B.CP(B.WN(), B.WN())
    return float(sc(k.slope))
def gate_pars(cp, d):
    slope = d['slope'] if 'slope' in d else default_slope()
    return [d['location'], slope] + ([d['width']] if cp == 'CW' else [])


def read(t, entry):
    same, i, j, a, b = entry
    if t[0] == 'V': return t[1]
    if t[0] == 'L':
        pars = [t[2][n] for n in PARS[t[1]] if n in t[2]]
        return t[2].get('variance', 1) * atom(t[1], pars, same, i, j, a, b)
    if t[0] == 'S':
        r = 0
        for k in t[1]: r = r + read(k, entry)
        return r
    if t[0] == 'P':
        r = 1
        for k in t[1]: r = r * read(k, entry)
        return r
    kl, kr = ('Sr', 'S') if t[0] == 'CP' else ('SIr', 'SI')
    g = gate_pars(t[0], t[1])
    return read(t[2], entry) * atom(kl, g, same, i, j, a, b) + read(t[3], entry) * atom(kr, g, same, i, j, a, b)


def params_of(t):
    """All parameter values occurring in the reading."""
    if t[0] == 'V': return [t[1]]
    if t[0] == 'L': return list(t[2].values())
    if t[0] in 'SP': return [v for k in t[1] for v in params_of(k)]
    return list(t[1].values()) + params_of(t[2]) + params_of(t[3])


def same_multiset(ctx, got, want):
    """Every wanted symbol occurs exactly once among the values got, and nothing else does."""
    if ctx.symbolic:
        g = sorted(rterm(v).get_id() for v in got); w = sorted(rterm(v).get_id() for v in want)
        return g == w
    g, w = sorted(float(v) for v in got), sorted(float(v) for v in want)
    return len(g) == len(w) and all(abs(a - b) < 1e-9 * (1 + abs(a)) for a, b in zip(g, w))


def symbolic_kernel(ctx, kex):
    """The real kernel of the expression with a symbolic value for each exposed parameter -> (kernel, {flat name: value})."""
    ker = kex.to_kernel()
    names = [str(n) for n in ker.parameter_names_flat()]
    return ker, names, name_values(ctx, names)
def name_values(ctx, names, prefix = ''):
    vals = {}
    for i, n in enumerate(names):
        last = n.split('.')[-1]
        free = last in ('location', 'offset')
        vals[n] = ctx.real(prefix + n) if free else ctx.real(prefix + n, gt = 0)
    generic(ctx, vals.values())
    return vals
def generic(ctx, vs):
    if ctx.symbolic:
        for i, v in enumerate(vs): ctx.prefer.append(v.t == z3.Q(5 + 3 * (len(ctx.prefer) % 11) + i, 11))
