"""C12: training gradients are the derivatives of the covariance."""
import numpy as np
from checks import kerns, cov, axioms
from symx import engine, poly
from symx.engine import And, z3

CONFIGS = ['', 'LINOFF=0', 'FIXSLOPE=0', 'STDPER=1', 'INDCW=1']
META = {
    'bounds': 'white noise, constant, linear (with and without offset), SE, periodic (pure and standard), both gate kernels plain and reversed (slope fixed or fitted), and the two side gradients of change points and windows (also the alternative window kernel with shifted sides) over pairs of these; square input sets of 2 points and rectangular ones of 2x1, 1x2 and 1x1 points (thorough: two sets of 2); all parameter values, points and weights (symmetric weights for square sets, as training produces)',
    'outside': 'the lengthscale gradient of the pure periodic kernel for lengthscales beyond 1e4 (a documented small constant; its other gradients are covered there); below 1/sqrt(3.75) it evaluates a polynomial approximation, whose gradient is required to agree to 1e-5 of its scale; floating-point rounding; location, slope and width of change kernels (one-gate approximation by design)',
    'assumptions': ['positive parameters are positive', 'weights on a square input set are symmetric'],
    'stubs': 'exp, cos, sin, sqrt and the Bessel functions I0, I1 are function symbols with their derivative rules; numpy float storage holds symbolic values; numba-compiled helpers run as the Python functions they are compiled from, with the conversions and array forms of their signatures',
}
SHIMS = kerns.NUM + (kerns.shim_bessel,)


def short(k): return str(k).split('.')[-1]


def make(name):
    from GPy_ABCD.Kernels import baseKernels as B
    if isinstance(name, tuple): return getattr(B, name[0])(make(name[1]), make(name[2]))
    return getattr(B, name)()


def inputs(ctx, mode):
    """-> X, X2 (None: the same), weights."""
    x = [ctx.real('x0'), ctx.real('x1')]
    if ctx.symbolic: ctx.prefer += [x[0].t == z3.Q(3, 10), x[1].t == z3.Q(17, 10)]
    if mode in ('square', 'spelled'):
        d = [ctx.real('w00'), ctx.real('w01'), ctx.real('w11')]
        W = kerns.arr([d[0], d[1], d[1], d[2]], (2, 2))
        X = kerns.col(x)
        return X, None if mode == 'square' else X, W
    z = ctx.real('z0')
    if ctx.symbolic: ctx.prefer += [z.t == -z3.Q(11, 10)]
    if mode == 'single': return kerns.col(x[:1]), kerns.col([z]), kerns.arr([ctx.real('w0')], (1, 1))
    if mode == 'pair': return kerns.col(x), kerns.col([z, ctx.real('z1')]), kerns.arr([ctx.real(f'w{i}') for i in range(4)], (2, 2))
    W = kerns.arr([ctx.real('w0'), ctx.real('w1')], (2, 1) if mode == 'tall' else (1, 2))
    return (kerns.col(x), kerns.col([z]), W) if mode == 'tall' else (kerns.col([z]), kerns.col(x), W)


def total(W, K):
    r = 0
    for i in np.ndindex(*W.shape): r = r + W[i] * cov.sc(np.asarray(K)[i])
    return r


def gradients(ctx, name, mode, reach):
    ctx.fork_abs = True
    X, X2, W = inputs(ctx, mode)
    k = make(name)
    names = [str(n) for n in k.parameter_names_flat()]
    vals = cov.name_values(ctx, names)
    scale = None
    for n in names:
        if n.endswith('pure_std_periodic.lengthscale'):
            l = vals[n]
            if reach == 'short': ctx.assume(l * l * 15 <= 4); scale = l
            if reach == 'short' and ctx.symbolic: ctx.prefer = [l.t == z3.Q(2, 5)] + [c for c in ctx.prefer if not occurs(c, l.t)]
            elif reach == 'huge': ctx.assume(l > 10000)
            else: ctx.assume(And(l * l * 15 > 4, l <= 10000))
    kerns.set_params(k, [vals[n] for n in names])
    K = k.K(X, X2)
    k.update_gradients_full(W, X, X2)
    g = np.asarray(k.gradient).reshape(-1).copy()
    skip = () if not isinstance(name, tuple) else ('location', 'slope', 'width')
    want = {}
    for i, n in enumerate(names):
        if short(n) in skip or reach == 'huge' and n.endswith('pure_std_periodic.lengthscale'): continue
        if ctx.symbolic: want[n] = engine.derivative(ctx, engine.rterm(total(W, K)), vals[n].t)
        else: want[n] = numeric(name, [vals[m] for m in names], i, X, X2, W)
    for i, n in enumerate(names):
        if n not in want: continue
        if reach == 'short' and 'pure_std_periodic' in n:
            v = vals[[m for m in names if m.endswith('pure_std_periodic.variance')][0]]
            near(ctx, g[i], want[n], W, n, scale, v)
        else: same(ctx, g[i], want[n], W, n)


def same(ctx, a, b, W, n):
    """Equality for all weights: equal slopes in each weight (everywhere), and equal at zero weights."""
    label = 'the gradient of a parameter is the derivative of the weighted covariance'
    if not ctx.symbolic: return ctx.same(a, b, label, tol = 1e-4, parameter = n)
    ws = {engine.rterm(w).get_id(): engine.rterm(w) for w in np.asarray(W).reshape(-1)}.values()
    a, b = engine.rterm(a), engine.rterm(b)
    for w in ws: ctx.same(engine.derivative(ctx, a, w), engine.derivative(ctx, b, w), label, at = [u == (1 if u.eq(w) else 0) for u in ws], parameter = n, weight = str(w))
    zero = [(w, z3.RealVal(0)) for w in ws]
    ctx.same(engine.SymReal(z3.substitute(a, *zero)), engine.SymReal(z3.substitute(b, *zero)), label, at = [w == 0 for w in ws], parameter = n, weight = 'none')


TOL = 1e-5
def near(ctx, a, b, W, n, l, v):
    """Equality up to TOL times the scale of the gradient (variance / lengthscale³ per unit weight), where the code evaluates a polynomial
    approximation of the Bessel functions."""
    label = 'the gradient of a parameter is the derivative of the weighted covariance'
    if not ctx.symbolic:
        s = sum(abs(float(w)) for w in np.asarray(W).reshape(-1)) * v * (1 + 1 / l ** 3)
        return ctx.check(abs(a - b) <= 2 * TOL * s + 1e-4 * min(abs(a), abs(b)), label, parameter = n, got = a, want = b)
    ws = {engine.rterm(w).get_id(): engine.rterm(w) for w in np.asarray(W).reshape(-1)}.values()
    zero = [(w, z3.RealVal(0)) for w in ws]
    a, b = engine.rterm(a), engine.rterm(b)
    ctx.same(engine.SymReal(z3.substitute(a, *zero)), engine.SymReal(z3.substitute(b, *zero)), label, parameter = n, weight = 'none')
    for w in ws:
        d = engine.derivative(ctx, engine.derivative(ctx, a, w).t - engine.derivative(ctx, b, w).t, v.t).t       # per unit weight and variance
        if poly.is_zero(d, ctx.squares()): ctx.check(True, label); continue
        for x in [v.t, *ws]: ctx.same(engine.derivative(ctx, d, x), 0, 'the gradient is linear in weights and variance', parameter = n)
        # d is affine in each covariance factor (exp) and cosine: extreme at their extreme values
        fs = [r for _, r in ctx.fn_apps('exp')]; cs = [r for _, r in ctx.fn_apps('cos')]
        corners = [z3.simplify(d)]
        for x, ends in [(r, (0, 1)) for r in fs] + [(r, (-1, 1)) for r in cs]:
            if not occurs(d, x): continue
            if not poly.is_zero(partial(ctx, partial(ctx, d, x), x), ctx.squares()): ctx.check(False, label, parameter = n, why = 'not affine in a covariance factor')
            corners = [z3.substitute(c, (x, z3.RealVal(e))) for c in corners for e in ends]
        s = z3.Real('!s')                                  # 1 / lengthscale
        sub = [(l.t, 1 / s)] + [(r, s) for t, r in ctx.fn_apps('sqrt') if poly.is_zero(t * l.t * l.t - 1)]
        for c in corners:
            num, den = poly.rational(z3.simplify(z3.substitute(c, *sub) / (s * s * s)))
            at = {s.get_id(): s}
            nt, dt = poly.to_z3(num, at), z3.RealVal(1)
            for f, p in den.values():
                for _ in range(p): dt = dt * poly.to_z3(f, at)
            bad = z3.And(s * s * 4 >= 15, z3.Or(nt * dt > z3.Q(1, 100000) * dt * dt, -nt * dt > z3.Q(1, 100000) * dt * dt))
            def hint(m):
                v = m.eval(s, model_completion = True)
                v = v.as_fraction() if z3.is_rational_value(v) else v.approx(6).as_fraction()
                return [l.t == z3.Q(v.denominator, v.numerator)] + [w == 1 for w in ws]
            ctx.lemma(z3.Not(bad), label, hint, parameter = n, corner = lambda c = c: str(c)[:200])
def occurs(t, x):
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.eq(x): return True
        if u.get_id() in seen: continue
        seen.add(u.get_id()); todo += u.children()
    return False
def partial(ctx, t, x):
    """Derivative with every other symbol kept fixed."""
    return engine.derivative(ctx, t, x, through = False).t


def numeric(name, vals, i, X, X2, W):
    """Central difference on a fresh kernel."""
    h = 1e-5 * (1 + abs(vals[i])) if abs(vals[i]) > 1e-3 else abs(vals[i]) * 1e-4 or 1e-6
    def f(v):
        k = make(name)
        kerns.set_params(k, [v if j == i else vals[j] for j in range(len(vals))])
        return float(np.sum(W * k.K(X, X2)))
    return (f(vals[i] + h) - f(vals[i] - h)) / (2 * h)


BASE = ['WN', 'C', 'LIN', 'SE', 'PER', 'S', 'Sr', 'SI', 'SIr']
CHANGES = [('CP', 'C', 'LIN'), ('CP', 'LIN', 'C'), ('CW', 'C', 'LIN'), ('CW', 'LIN', 'C'), ('CP', 'LIN', 'SE'), ('CW', 'PER', 'WN'), ('CP', 'WN', 'LIN'), ('CP', ('CP', 'C', 'LIN'), 'C')]


def jobs(tier):
    out = []
    for cfg in CONFIGS:
        for name in BASE + CHANGES:
            flat = str(name)
            gates = name in ('S', 'Sr', 'SI', 'SIr')
            if cfg == 'LINOFF=0' and 'LIN' not in flat or cfg == 'STDPER=1' and 'PER' not in flat or cfg == 'FIXSLOPE=0' and not (gates or isinstance(name, tuple)) or cfg == 'INDCW=1' and name[0] != 'CW': continue
            if cfg and tier == 'quick' and isinstance(name, tuple) and name not in CHANGES[:4]: continue
            per = 'PER' in flat and cfg != 'STDPER=1'
            modes = ('square', 'spelled', 'tall', 'wide', 'single') if not cfg or gates and tier != 'quick' else ('square', 'tall', 'single')
            for mode in modes + (('pair',) if tier != 'quick' and not per and not isinstance(name, tuple) else ()):
                for reach in (('long', 'short', 'huge') if per and not isinstance(name, tuple) else ('long',)):
                    out.append({'name': f'{name} {mode} {reach}', 'fn': gradients, 'params': {'name': name, 'mode': mode, 'reach': reach}, 'config': cfg, 'shims': SHIMS,
                                'opts': {'validate': 6, 'axioms': axioms.light}, 'weight': 300 if name in ('SI', 'SIr') else len(flat)})
    return out
