"""C14: change kernels gate their own two fitted sides with their own parameters."""
import itertools
import numpy as np
from checks import kerns, cov, axioms
from checks.c12 import short
from symx import engine
from symx.engine import z3, Or

CONFIGS = ['', 'FIXSLOPE=0', 'INDCW=1']
META = {
    'bounds': 'change points and windows (slope fixed or fitted, and the alternative window kernel with a shifted after-side) over pairs of base kernels, sums, products and other change kernels; two successive arbitrary assignments of all parameters, and one of every single parameter, through the parameter array and through the exposed parameters themselves; copies and combinations of the kernel; one arbitrary point of each of two input sets, square, rectangular and diagonal; arbitrary weights for the gradients',
    'outside': 'kernels of the window classes no configuration uses; the optimiser\'s transformed parameter space (paramz)',
    'assumptions': ['positive parameters are positive', 'base kernels evaluate to their covariance (C11-C13)'],
    'stubs': 'exp, cos, sin, sqrt and Bessel functions are function symbols; numpy float storage holds symbolic values; numba-compiled helpers run as the Python functions they are compiled from, with the conversions and array forms of their signatures',
}
SHIMS = kerns.NUM + (kerns.shim_bessel,)


def make(name):
    from GPy_ABCD.Kernels import baseKernels as B
    if not isinstance(name, tuple): return getattr(B, name)()
    a, b = make(name[1]), make(name[2])
    return a + b if name[0] == '+' else a * b if name[0] == '*' else getattr(B, name[0])(a, b)


NAMES = {}
def names_of(name):
    """Exposed parameters of a kernel, in order."""
    if name not in NAMES:
        with kerns.plain(): NAMES[name] = [str(n) for n in make(name).parameter_names_flat()]
    return NAMES[name]


def split(name, vals):
    """-> values of the first side, of the second, {own parameter: value}."""
    own = {i for i, n in enumerate(names_of(name)) if n.count('.') == 1} if name[0] in ('CP', 'CW') else set()
    rest = [v for i, v in enumerate(vals) if i not in own]
    n1 = len(names_of(name[1]))
    return rest[:n1], rest[n1:], {short(n): v for i, (n, v) in enumerate(zip(names_of(name), vals)) if i in own}


def value(name, vals, x, z, same, gated = None):
    """Covariance of x and z (same: the same point of one input set)."""
    if not isinstance(name, tuple):
        k = kerns.set_params(make(name), vals)
        return cov.sc(k.K(kerns.col([x]), None if same else kerns.col([z])))
    a, b, own = split(name, vals)
    A, B = value(name[1], a, x, z, same), value(name[2], b, x, z, same)
    if name[0] == '+': return A + B
    if name[0] == '*': return A * B
    g = cov.gate_pars(name[0], own)
    kr, k = ('Sr', 'S') if name[0] == 'CP' else ('SIr', 'SI')
    if 'shift_variance' in own:  # the alternative window: the first side before, and shifted after
        after = [g[0] + g[2], g[1]]
        second = B * cov.gate(k, g, x) * cov.gate(k, g, z)
        if gated: return second
        return A * cov.gate('Sr', g[:2], x) * cov.gate('Sr', g[:2], z) + second + (A + own['shift_variance']) * cov.gate('S', after, x) * cov.gate('S', after, z)
    second = B * cov.gate(k, g, x) * cov.gate(k, g, z)
    return second if gated else A * cov.gate(kr, g, x) * cov.gate(kr, g, z) + second


def pvals(ctx, name, prefix):
    ns = names_of(name)
    vals = cov.name_values(ctx, ns, prefix)
    for n in ns:
        if n.endswith('pure_std_periodic.lengthscale'): ctx.assume(vals[n] * vals[n] * 15 > 4); ctx.assume(vals[n] <= 10000)
    return [vals[n] for n in ns]


def points(ctx):
    x, z = ctx.real('x0'), ctx.real('z0')
    if ctx.symbolic: ctx.prefer += [x.t == z3.Q(3, 10), z.t == -z3.Q(11, 10)]
    return x, z


def evaluates(ctx, k, name, vals, x, z, label, at = None):
    X, Z = at or (kerns.col([x]), kerns.col([z]))
    ctx.same(cov.sc(k.K(X)), value(name, vals, x, x, True), label, at = 'a point')
    ctx.same(cov.sc(k.Kdiag(X)), value(name, vals, x, x, True), label, at = 'the diagonal')
    ctx.same(cov.sc(k.K(X, Z)), value(name, vals, x, z, False), label, at = 'two input sets')


GATED = 'a change kernel is its first side before and its second side after the change, at its exposed parameter values'
def twice(ctx, name, how):
    """Two successive assignments of all parameters."""
    ctx.fork_abs = True
    x, z = points(ctx)
    k = make(name)
    v1, v2 = pvals(ctx, name, ''), pvals(ctx, name, 'new ')
    kerns.set_params(k, v1)
    if how == 'fresh': return evaluates(ctx, k, name, v1, x, z, GATED)
    X, Z = at = kerns.obs([x]), kerns.obs([z])  # the same inputs, before and after, as a model holds them
    if how in ('copy', 'copied'):
        if how == 'copied' and name[0] == 'CP': k.K(X); k.K(X, Z); k.Kdiag(X)
        c = k.copy()
        kerns.set_params(c, v2)
        if how == 'copy': return evaluates(ctx, k, name, v1, x, z, 'changing a copy of a change kernel leaves it alone', at)
        k = c
    else: k.K(X); k.K(X, Z); k.Kdiag(X)
    if how == 'array': kerns.set_params(k, v2)
    elif how == 'exposed':
        for p, v in zip(leaves(k), v2): assign(p, v)
    evaluates(ctx, k, name, v2, x, z, GATED, at)
    if how == 'array': ctx.check(all(cov.sc(p) is not None for p in leaves(k)) and len(leaves(k)) == len(v2), 'the exposed parameters are those of the kernel')
    for p, v in zip(leaves(k), v2): ctx.same(cov.sc(p), v, 'an exposed parameter has the value it was given')


def leaves(k):
    """The exposed parameter objects."""
    out = []
    def go(p):
        ps = getattr(p, 'parameters', [])
        if not ps: out.append(p)
        for q in ps: go(q)
    go(k)
    return out
def assign(p, v):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p[...] = v if kerns.symbolic() else float(v)


def single(ctx, name, i):
    """Changing one exposed parameter is reflected in the covariance."""
    ctx.fork_abs = True
    x, z = points(ctx)
    k = make(name)
    v = pvals(ctx, name, '')
    kerns.set_params(k, v)
    X, Z = at = kerns.obs([x]), kerns.obs([z])
    k.K(X); k.K(X, Z); k.Kdiag(X)
    w = pvals(ctx, name, 'new ')[i]
    assign(leaves(k)[i], w)
    evaluates(ctx, k, name, v[:i] + [w] + v[i + 1:], x, z, 'changing one exposed parameter is reflected in the covariance', at)


def part(ctx, name, op, other):
    """A change kernel that is a part of a bigger kernel (which copies or links its parts)."""
    ctx.fork_abs = True
    x, z = points(ctx)
    whole = (op, name, other)
    k = make(whole)
    v1, v2 = pvals(ctx, whole, ''), pvals(ctx, whole, 'new ')
    kerns.set_params(k, v1)
    X, Z = at = kerns.obs([x]), kerns.obs([z])
    if op != 'CP': k.K(X); k.K(X, Z)
    kerns.set_params(k, v2)
    evaluates(ctx, k, whole, v2, x, z, 'a change kernel inside another kernel is gated by its exposed parameters', at)


REACH = 'the training gradient of a change kernel reaches its exposed parameters'
def gradients(ctx, name, mode):
    ctx.fork_abs = True
    x, z = points(ctx)
    w, w1 = ctx.real('w'), ctx.real('w before')
    k = make(name)
    v1, v2 = pvals(ctx, name, ''), pvals(ctx, name, 'new ')
    X, Z = kerns.obs([x]), None if mode == 'square' else kerns.obs([z])
    if mode == 'again':
        kerns.set_params(k, v1)
        k.K(X, Z); k.update_gradients_full(kerns.arr([w1], (1, 1)), X, Z)
    kerns.set_params(k, v2)
    k.update_gradients_full(kerns.arr([w], (1, 1)), X, Z)
    g = [cov.sc(p.gradient) for p in leaves(k)]
    flat = np.asarray(k.gradient).reshape(-1)
    ns = names_of(name)
    ctx.check(len(flat) == len(g) == len(ns), REACH + ' (one entry each)')
    at = (x, x, True) if mode == 'square' else (x, z, False)
    full = w * value(name, v2, *at)
    gate = w * value(name, v2, *at, gated = True)
    for i, n in enumerate(ns):
        ctx.same(flat[i], g[i], 'the gradient of the kernel is that of its exposed parameters', parameter = n)
        deriv = lambda f, gated: engine.derivative(ctx, engine.rterm(f), v2[i].t) if ctx.symbolic else numeric(name, v2, i, at, w, gated)
        d = deriv(full, None)
        if n.count('.') > 1: nested(ctx, name, n, g[i], d, i, v2, at, w); continue
        # location, slope and width: of the whole covariance, or of the gated second side only (the documented approximation)
        e = deriv(gate, True)
        if ctx.symbolic:
            if ctx.zero(engine.rterm(g[i]) - engine.rterm(d)) or ctx.zero(engine.rterm(g[i]) - engine.rterm(e)): ctx.check(True, REACH); continue
            ctx.check(Or(g[i] == d, g[i] == e), REACH, parameter = n)
        else: ctx.check(close(g[i], d) or close(g[i], e), REACH, parameter = n, got = g[i])
def close(a, b): return abs(a - b) <= 1e-4 * (1 + abs(a) + abs(b))
def nested(ctx, name, n, got, d, i, v, at, w):
    """A side's parameter; that of a nested change kernel's own gate is only required to be trained the same way by its own kernel."""
    if 'change_' in n.split('.', 1)[1] and n.split('.')[-2].startswith('change_'): return
    ctx.same(got, d, REACH, tol = 1e-4, parameter = n)
def numeric(name, vals, i, at, w, gated):
    h = 1e-5 * (1 + abs(vals[i])) if abs(vals[i]) > 1e-3 else abs(vals[i]) * 1e-4 or 1e-6
    f = lambda q: float(w) * float(value(name, [q if j == i else float(vals[j]) for j in range(len(vals))], *at, gated = gated))
    return (f(float(vals[i]) + h) - f(float(vals[i]) - h)) / (2 * h)


SIDES = [('C', 'LIN'), ('LIN', 'C'), ('LIN', 'LIN'), ('SE', 'PER'), ('WN', 'SE')]
DEEP = [(('+', 'C', 'LIN'), 'LIN'), ('C', ('*', 'LIN', 'LIN'))]


def jobs(tier):
    out = []
    def job(fn, cfg, weight = 1, **p):
        out.append({'name': f'{fn.__name__} ' + ' '.join(str(v) for v in p.values()), 'fn': fn, 'params': p, 'config': cfg, 'shims': SHIMS,
                    'opts': {'validate': 6, 'axioms': axioms.light}, 'weight': weight})
    for cfg in CONFIGS:
        if cfg == 'INDCW=1':
            for how in ('fresh', 'array', 'exposed', 'copy') + (('copied',) if tier != 'quick' else ()): job(twice, cfg, 30, name = ('CW', 'C', 'LIN'), how = how)
            for mode in ('square',) + (('again', 'rectangular') if tier != 'quick' else ()): job(gradients, cfg, 60, name = ('CW', 'C', 'LIN'), mode = mode)
            for i in range(6): job(single, cfg, 30, name = ('CW', 'C', 'LIN'), i = i)
            job(part, cfg, 40, name = ('CW', 'C', 'LIN'), op = '+', other = 'C')
            if tier != 'quick':
                for sides in SIDES[1:] + DEEP: job(twice, cfg, 60, name = ('CW', *sides), how = 'array')
            continue
        for op in ('CP', 'CW'):
            wt = 1 if op == 'CP' else 10
            for sides in SIDES + DEEP:
                name = (op, *sides)
                hows = ('fresh', 'array', 'exposed', 'copy', 'copied') if sides in SIDES[:1] or tier != 'quick' else ('fresh', 'array')
                for how in hows:
                    if op == 'CW' and how not in ('fresh', 'array') and sides != SIDES[0]: continue
                    job(twice, cfg, wt * 3, name = name, how = how)
                for mode in ('square', 'rectangular', 'again'):
                    if mode == 'again' and (sides != SIDES[0] or op == 'CW') and tier == 'quick': continue
                    if mode == 'rectangular' and op == 'CW' and (sides not in SIDES[:2] if not cfg else sides != SIDES[0]) and tier == 'quick': continue
                    job(gradients, cfg, wt * (3 if mode == 'square' else 10), name = name, mode = mode)
            name = (op, 'LIN', 'SE')
            for i in range(4 + 1 + (op == "CW") + (cfg == "FIXSLOPE=0")): job(single, cfg, wt * 2, name = name, i = i)
            for o, other in (('+', 'C'), ('*', 'LIN'), ('CP', 'C')):
                if o == 'CP' and op == 'CW' and tier == 'quick': continue
                job(part, cfg, wt * 4, name = (op, 'C', 'LIN'), op = o, other = other)
    return out
