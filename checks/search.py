"""Model searches over a small universe of kernel expressions with symbolic log-likelihoods and symbolic expansion relations.

The real explore_model_space / model_search_rounds / expand / GPModel run; the list fitter is a stand-in that records what it
is asked to fit and returns real GPModel objects whose underlying GP is a stand-in with a symbolic log-likelihood.
"""
import contextlib, io
from copy import deepcopy
import numpy as np
from checks import trees as T
from symx.engine import And

POOL = [('S', ['WN']), ('S', ['LIN']), ('S', ['PER']), ('P', ['LIN', 'LIN']), ('S', ['PER', 'LIN']), ('P', ['PER', 'LIN']), ('S', ['PER', 'C']), ('P', ['PER', 'PER'])]
# sums and products whose operands are expressions themselves, in either order of these
NEST = {20: ('S', ['WN'], [('P', ['PER', 'LIN']), ('P', ['LIN', 'LIN'])]), 21: ('P', [], [('S', ['PER', 'LIN']), ('S', ['WN', 'C'])])}


def key(t):
    """Canonical name of a concrete R-tree."""
    if t[0] == 'L': return ('L', tuple(sorted((b, int(c)) for b, c in t[1].items() if c)))
    if T.is_change(t): return (t[0], key(t[1]), key(t[2]))
    return (t[0], tuple(sorted((b, int(c)) for b, c in t[1].items() if c)), tuple(sorted(map(key, t[2]))))
def kkey(kex): return key(T.of(kex))
def flat(t): return (t[0], tuple(sorted((b, t[1].count(b)) for b in set(t[1]))), tuple(sorted(flat(c) for c in t[2])) if len(t) > 2 else ())
def pkey(i): return flat(NEST[i] if i in NEST else POOL[i])
PKEYS = {pkey(i): i for i in [*range(len(POOL)), *NEST]}
def kex_of(i, turn = 0):
    """turn: odd = operands in the opposite order."""
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE
    cls = {'S': SumKE, 'P': ProductKE}
    if i not in NEST: return cls[POOL[i][0]](list(POOL[i][1]))._initialise()
    op, bs, cs = NEST[i]
    return cls[op](list(bs), [cls[c[0]](list(c[1])) for c in (reversed(cs) if turn % 2 else cs)])._initialise()


class GP:
    """Stand-in for a fitted GPRegression: only what scoring needs."""
    def __init__(self, X, Y, ll, k): self.X, self.Y, self.num_data, self._ll, self._np = np.reshape(np.asarray(X), (-1, 1)), np.reshape(np.asarray(Y), (-1, 1)), len(X), ll, k
    def log_likelihood(self): return self._ll
    def _size_transformed(self): return self._np


class World:
    """sym: names of expressions with a symbolic log-likelihood ('all' or a number: the first so many met); edges: {i: [j or (j, 'symbolic')]}"""
    def __init__(self, ctx, edges = None, sym = 'all', rules = None, ns = None):
        self.ctx, self.edges, self.sym, self.met, self.calls, self.bits, self.asked = ctx, edges, sym, {}, [], {}, 0
        self.rules = [self.rule(r) for r in range(ns or 1)] if rules is None else rules
        self.X, self.Y = [0., 1., 2.5, 4., 4.5, 6., 7.], [1., 2., 0., 3., -1., 2., 2.5]
    def successors(self, i, r = None):
        out = []
        for e in self.edges.get(i, []):
            j, bit, on = (e, None, 0) if isinstance(e, int) else (e + (0,))[:3]
            if r is not None and on != r: continue
            if bit is None or self.bit(f'{bit}{i}-{j}'): out.append(j)
        return out
    def bit(self, name):
        if name not in self.bits: self.bits[name] = bool(self.ctx.bool(name))
        return self.bits[name]
    def rule(self, r):
        def some_rule(S):
            self.asked += 1
            return [[kex_of(j, self.asked) for j in self.successors(PKEYS.get(kkey(S), -1), r)]]
        some_rule.__name__ = f'rule{r}'
        return some_rule
    def ll(self, kex):
        k = kkey(kex)
        if k not in self.met:
            n = len(self.met)
            self.met[k] = (self.ctx.real(f'll {n}') if self.sym == 'all' or n < self.sym else -50. - 3 * ((7 * n) % 11), 1 + (n * 2) % 3)
        return self.met[k]
    def fitter(self, X, Y, k_exprs, restarts = 5, optimiser = 'lbfgsb', max_retries = 1):
        from GPy_ABCD.Models.model import GPModel
        ks = list(k_exprs)
        self.calls.append(dict(X = X, Y = Y, keys = [kkey(k) for k in ks], restarts = restarts, optimiser = optimiser, max_retries = max_retries, out = []))
        for k in ks:
            m = GPModel(X, Y, k)
            m.model = GP(X, Y, *self.ll(k))
            self.calls[-1]['out'].append(m)
        return list(self.calls[-1]['out'])
    def submitted(self): return [k for c in self.calls for k in c['keys']]
    def fitted(self): return [m for c in self.calls for m in c['out']]


def criterion(name):
    from GPy_ABCD.Util import modelUtil as U
    if name != 'own': return getattr(U, name)
    def own_criterion(m, ll, n, k): return 3 - ll * 2 + k
    return own_criterion
def formula(name, ll, n, k):
    if name == 'BIC': return -2 * ll + k * float(np.log(n))
    if name == 'AIC': return 2 * k - 2 * ll
    if name == 'AICc': return 2 * k - 2 * ll + 2 * k * (k + 1) / (n - k - 1)
    return 3 - ll * 2 + k


SETTINGS = dict(restarts = 7, optimiser = 'scg', max_retries = 2)
def explore(w, starts, crit, rounds, beam, verbose = False, **kw):
    import GPy_ABCD
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        return GPy_ABCD.explore_model_space(w.X, w.Y, start_kernels = starts, p_rules = w.rules, utility_function = criterion(crit), rounds = rounds, beam = beam,
                                            model_list_fitter = w.fitter, verbose = verbose, **{**SETTINGS, **kw})
def carry_on(w, state, crit, rounds, beam, verbose = False):
    import GPy_ABCD
    with contextlib.redirect_stdout(io.StringIO()):
        return GPy_ABCD.model_search_rounds(w.X, w.Y, *state, w.fitter, w.rules, criterion(crit), rounds, beam, SETTINGS['restarts'], SETTINGS['optimiser'], SETTINGS['max_retries'], verbose)


def starts_of(ids, named = False):
    """Start kernels, base kernels by name if asked."""
    return [POOL[i][1][0] if named and POOL[i][0] == 'S' and len(POOL[i][1]) == 1 else kex_of(i) for i in ids]


def same_set(xs, ys): return len(xs) == len(ys) and {id(x) for x in xs} == {id(y) for y in ys}
def score(w, crit, m):
    ll, k = w.met[kkey(m.kernel_expression)]
    return formula(crit, ll, len(w.X), k)
def nondecreasing(vals): return And([a <= b for a, b in zip(vals, vals[1:])])
def eps(ctx): return 0 if ctx.symbolic else 1e-9
def le(ctx, a, b): return a <= b + eps(ctx)


def names(models): return [kkey(m.kernel_expression) for m in models]


def beams(beam, rounds):
    if isinstance(beam, int): return [beam] * rounds
    return [beam[min(i, len(beam) - 1)] for i in range(rounds)]


def round_sets(sizes, expanded, beam, rounds):
    """Split the expanded models by round: in each the beam's value, or all available ones if fewer. -> [(expanded in the round)], total"""
    out, at, avail = [], 0, 0
    for r, b in enumerate(beams(beam, rounds)):
        avail += sizes[r]
        n = min(b, avail)
        out.append(expanded[at:at + n]); at += n; avail -= n
    return out, at
def T_start(b):
    from GPy_ABCD.KernelExpressions.all import SumKE
    return SumKE([b])._initialise()
