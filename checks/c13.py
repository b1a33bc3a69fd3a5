"""C13: every kernel is a valid covariance (two-point conditions)."""
import numpy as np
from checks import kerns, cov, axioms
from checks.c12 import make, short
from symx.engine import And, z3

CONFIGS = ['', 'LINOFF=0', 'FIXSLOPE=0', 'STDPER=1', 'INDCW=1']
META = {
    'bounds': 'white noise, constant, linear (with and without offset), SE, periodic (pure and standard), both gate kernels plain and reversed (slope fixed or fitted), change points and windows (also the alternative window kernel with shifted sides) over pairs of these; every pair of input points, all parameter values',
    'outside': 'three or more points at once; lengthscales of the pure periodic kernel beyond 1e4 (documented limit); floating-point rounding',
    'assumptions': ['positive parameters are positive'],
    'stubs': 'exp, cos, sin, sqrt and I0 are function symbols with range, monotonicity and parity facts (1 <= I0(t) <= cosh t, I0(t) < exp t for t > 0); numpy float storage holds symbolic values; numba-compiled helpers run as the Python functions they are compiled from, with the conversions and array forms of their signatures',
}
SHIMS = kerns.NUM + (kerns.shim_bessel,)


def points(ctx):
    x = [ctx.real('x0'), ctx.real('x1')]
    if ctx.symbolic: ctx.prefer += [x[0].t == z3.Q(3, 10), x[1].t == z3.Q(17, 10)]
    return x


def build(ctx, name, reach):
    k = make(name)
    names = [str(n) for n in k.parameter_names_flat()]
    vals = cov.name_values(ctx, names)
    for n in names:
        if n.endswith('pure_std_periodic.lengthscale'):
            l = vals[n]
            if reach.startswith('at '): ctx.assume(l * 10 == int(reach[3:]))
            else: ctx.assume(l * l * 15 <= 4 if reach == 'short' else And(l * l * 15 > 4, l <= 10000))
    kerns.set_params(k, [vals[n] for n in names])
    return k


def white(name): return 'WN' in str(name)


def shape(ctx, name, reach):
    """Symmetry, the spelled-out second input set, the diagonal shortcut."""
    ctx.fork_abs = True
    x = points(ctx)
    k = build(ctx, name, reach)
    X = kerns.col(x)
    K, Kd = k.K(X), k.Kdiag(X)
    ctx.check(np.shape(K) == (2, 2) and np.shape(Kd) == (2,), 'the covariance has one row and column per point', shapes = (np.shape(K), np.shape(Kd)))
    ctx.same(K[0, 1], K[1, 0], 'the covariance is symmetric')
    for i in (0, 1): ctx.same(Kd[i], K[i, i], 'the diagonal shortcut is the diagonal')
    if not white(name):
        K2 = k.K(X, kerns.col(x))
        for i in (0, 1):
            for j in (0, 1): ctx.same(K2[i, j], K[i, j], 'spelling out the second input set changes nothing')
        K3 = k.K(kerns.col(x[:1]), kerns.col(x[1:]))
        ctx.check(np.shape(K3) == (1, 1), 'a rectangular covariance has one row and column per point')
        ctx.same(K3[0, 0], K[0, 1], 'a rectangular covariance has the entries of the square one')


def bound(ctx, name, reach):
    ctx.fork_abs = True
    x = points(ctx)
    k = build(ctx, name, reach)
    K = k.K(kerns.col(x))
    within(ctx, K)
def within(ctx, K):
    from symx.engine import rterm
    for i in (0, 1): ctx.check(K[i, i] >= 0, 'no variance is negative', variance = K[i, i])
    if ctx.symbolic and ctx.zero(rterm(K[0, 0]) - rterm(K[1, 1])):
        # equal variances: the bound is the variance itself
        ctx.check(K[0, 1] <= K[0, 0], 'no covariance exceeds the bound of the two variances', cov = K[0, 1])
        ctx.check(-K[0, 1] <= K[0, 0], 'no covariance exceeds the bound of the two variances', cov = K[0, 1])
    else: ctx.check(K[0, 1] * K[0, 1] <= K[0, 0] * K[1, 1] + (0 if ctx.symbolic else 1e-9 * (1 + abs(K[0, 0] * K[1, 1]))), 'no covariance exceeds the bound of the two variances', cov = K[0, 1])


def change_bound(ctx, name, reach):
    """A change kernel over valid sides: when its covariance is side × reversed gate + side × gate (decided exactly), the bound follows from
    those of the parts (decided by `bound` for each) by two lemmas over arbitrary reals; otherwise the bound is asked for directly."""
    from symx.engine import rterm
    ctx.fork_abs = True
    x = points(ctx)
    k = build(ctx, name, reach)
    X = kerns.col(x)
    K = k.K(X)
    if ctx.symbolic:
        op, *sides = name
        gates = [make(g) for g in (('Sr', 'S') if op == 'CP' else ('SIr', 'SI'))]
        own = {short(n): v for n, v in zip(k.parameter_names_flat(), k.param_array) if str(n).count('.') == 1}
        parts, at, i = [], 0, 0
        vals = list(k.param_array)
        for s in sides:
            q = make(s); n = len(q.param_array)
            kerns.set_params(q, vals[i:i + n]); i += n
            parts.append(q.K(X))
        for g in gates:
            if 'slope' not in own: g.slope = cov.sc(k.slope)
            kerns.set_params(g, [1 if short(n) == 'variance' else own[short(n)] for n in g.parameter_names_flat()])
        if hasattr(k, 'shift_variance'):          # first × reversed gate + second × window + (first + shift) × gate at the end
            end = make('S')
            end.slope = cov.sc(k.slope)
            kerns.set_params(end, [1 if short(n) == 'variance' else own['location'] + own['width'] for n in end.parameter_names_flat()])
            rev = make('Sr')
            rev.slope = cov.sc(k.slope)
            kerns.set_params(rev, [1 if short(n) == 'variance' else own['location'] for n in rev.parameter_names_flat()])
            gates = [rev, gates[1], end, end]
            parts += [parts[0], own['shift_variance'] + 0 * parts[0]]
        P = [p * g.K(X) for p, g in zip(parts, gates)]
        same = lambda a, b: ctx.zero(rterm(a) - rterm(b))
        f = [g.phi(X) for g in gates]
        rank1 = all(same(g.K(X)[a, b], cov.sc(v[a]) * cov.sc(v[b])) for g, v in zip(gates, f) for a, b in ((0, 0), (0, 1), (1, 1)))
        if rank1 and all(same(K[a, b], sum((p[a, b] for p in P[1:]), P[0][a, b])) for a, b in ((0, 0), (0, 1), (1, 1))):
            a, b, c, d, e, f, g, h = z3.Reals('!a !b !c !d !e !f !g !h')
            psd = lambda a, b, c: z3.And(a >= 0, b >= 0, c * c <= a * b)
            ctx.lemma(z3.Implies(psd(a, b, c), psd(a * g * g, b * h * h, c * g * h)), 'a gated side is a valid covariance')
            ctx.lemma(z3.Implies(z3.And(psd(a, b, c), psd(d, e, f)), psd(a + d, b + e, c + f)), 'a sum of valid covariances is one')
            return
    within(ctx, K)


BASE = ['WN', 'C', 'LIN', 'SE', 'PER', 'S', 'Sr', 'SI', 'SIr']
CHANGES = [(c, a, b) for c in ('CP', 'CW') for a, b in (('C', 'LIN'), ('LIN', 'C'), ('WN', 'LIN'), ('LIN', 'WN'), ('SE', 'C'), ('C', 'PER'), ('LIN', 'LIN'))]


def jobs(tier):
    out = []
    for cfg in CONFIGS:
        for name in BASE + CHANGES:
            flat = str(name)
            if cfg == 'LINOFF=0' and 'LIN' not in flat or cfg == 'STDPER=1' and 'PER' not in flat or cfg == 'FIXSLOPE=0' and not (name in ('S', 'Sr', 'SI', 'SIr') or isinstance(name, tuple)) or cfg == 'INDCW=1' and name[0] != 'CW': continue
            per = 'PER' in flat and cfg != 'STDPER=1'
            for f in (shape, bound if name in BASE else change_bound):
                for reach in (('long', 'short') + (('at 6', 'at 7', 'at 9', 'at 11', 'at 20') if name == 'PER' else ()) if per else ('long',)):
                    out.append({'name': f'{f.__name__} {name} {reach}', 'fn': f, 'params': {'name': name, 'reach': reach}, 'config': cfg, 'shims': SHIMS,
                                'opts': {'validate': 6, 'axioms': axioms.facts}, 'weight': len(flat)})
    return out
