"""C11: the sigmoidal gates."""
from checks import kerns, cov
from symx.engine import And, Implies, z3

CONFIGS = ['', 'FIXSLOPE=0']
META = {
    'bounds': 'both gate kernels, plain and reversed, slope fixed or fitted; all real inputs and locations, all positive slopes and widths (reals); gates evaluated on columns of up to 3 points; tails: every multiple M >= 0 of the slope away from the gate',
    'outside': 'floating-point rounding; non-positive slopes or widths (excluded by their constraints)',
    'assumptions': ['slope and width are positive'],
    'stubs': 'numpy float storage holds symbolic values; numba-compiled helpers run as the Python functions they are compiled from, with the conversions and array forms of their signatures',
}


def gate(ctx, window, reverse, l, s, w):
    """The real gate kernel with these parameter values."""
    from GPy_ABCD.Kernels import baseKernels as B
    k = {(0, 0): B.S, (0, 1): B.Sr, (1, 0): B.SI, (1, 1): B.SIr}[window, reverse]()
    names = [str(n).split('.')[-1] for n in k.parameter_names_flat()]
    if 'slope' not in names: k.slope = s
    kerns.set_params(k, [{'variance': 1, 'location': l, 'slope': s, 'width': w}[n] for n in names])
    return k


def at(k, *xs):
    f = k.phi(kerns.col(list(xs)))
    return [cov.sc(f[i]) for i in range(len(xs))]


def pars(ctx):
    ctx.fork_abs = True
    l, s, w = ctx.real('location'), ctx.real('slope', gt = 0), ctx.real('width', gt = 0)
    if ctx.symbolic: ctx.prefer += [l.t == z3.Q(3, 2), s.t == z3.Q(1, 4), w.t == z3.Q(5, 4)]
    return l, s, w


def point(ctx, reverse):
    l, s, w = pars(ctx)
    k = gate(ctx, 0, reverse, l, s, w)
    x = ctx.real('x')
    g, h = at(k, x, l)
    ctx.check(And(0 <= g, g <= 1), 'the change-point gate lies between 0 and 1', g = g)
    ctx.same(h, .5, 'the change-point gate is one half at its location')
    if reverse:
        p, = at(gate(ctx, 0, 0, l, s, w), x)
        ctx.same(g, 1 - p, 'the reversed gate is one minus the plain one')
def point_monotone(ctx, reverse):
    l, s, w = pars(ctx)
    k = gate(ctx, 0, reverse, l, s, w)
    x, y = ctx.real('x'), ctx.real('y')
    ctx.assume(x < y)
    a, b = at(k, x, y)
    ctx.check(a > b if reverse else a < b, 'the change-point gate is strictly monotone', at_x = a, at_y = b)
def point_tails(ctx, reverse):
    l, s, w = pars(ctx)
    k = gate(ctx, 0, reverse, l, s, w)
    M = ctx.real('M', lo = 0)
    lo, hi = at(k, l - M * s, l + M * s)
    if reverse: lo, hi = hi, lo
    ctx.check(lo * (1 + M) <= 1, 'the gate tends to 0 far before its location', g = lo)
    ctx.check((1 - hi) * (1 + M) <= 1, 'the gate tends to 1 far after its location', g = hi)


def window(ctx, reverse):
    l, s, w = pars(ctx)
    k = gate(ctx, 1, reverse, l, s, w)
    x = ctx.real('x')
    g, m = at(k, x, l + w / 2)
    ctx.check(And(0 <= g, g <= 1), 'the change-window gate lies between 0 and 1', g = g)
    ctx.same(m, 0 if reverse else 1, 'the change-window gate reaches exactly 1 at the middle of the window')
    if reverse:
        p, = at(gate(ctx, 1, 0, l, s, w), x)
        ctx.same(g, 1 - p, 'the reversed gate is one minus the plain one')
def window_symmetric(ctx, reverse):
    l, s, w = pars(ctx)
    k = gate(ctx, 1, reverse, l, s, w)
    d = ctx.real('d', lo = 0)
    a, b = at(k, l + w / 2 - d, l + w / 2 + d)
    ctx.same(a, b, 'the change-window gate is symmetric around the middle')
def window_unimodal(ctx, reverse):
    l, s, w = pars(ctx)
    k = gate(ctx, 1, reverse, l, s, w)
    x, y = ctx.real('x'), ctx.real('y')
    ctx.assume(And(x < y, y <= l + w / 2))
    a, b = at(k, x, y)
    ctx.check(a > b if reverse else a < b, 'the change-window gate is strictly monotone up to the middle', at_x = a, at_y = b)


def covariance(ctx, win, reverse):
    """The gate kernels' covariance is variance times the product of the gates, spelled out second input set or not."""
    l, s, w = pars(ctx)
    k = gate(ctx, win, reverse, l, s, w)
    x, y = ctx.real('x'), ctx.real('y')
    X = kerns.col([x, y])
    a, b = at(k, x, y)
    K, K2, Kd = k.K(X), k.K(X, kerns.col([y])), k.Kdiag(X)
    for got, want in ((K[0, 0], a * a), (K[0, 1], a * b), (K[1, 0], a * b), (K2[0, 0], a * b), (K2[1, 0], b * b), (Kd[0], a * a), (Kd[1], b * b)):
        ctx.same(got, want, 'the covariance is the product of the gates')


def jobs(tier):
    out = []
    for cfg in CONFIGS:
        for r in (0, 1):
            for f in (point, point_monotone, point_tails, window, window_symmetric, window_unimodal):
                out.append({'name': f'{f.__name__} {"reversed" if r else "plain"}', 'fn': f, 'params': {'reverse': r}, 'config': cfg, 'shims': kerns.NUM, 'opts': {'validate': 40}})
            for win in (0, 1): out.append({'name': f'covariance {"window" if win else "point"} {"reversed" if r else "plain"}', 'fn': covariance, 'params': {'win': win, 'reverse': r}, 'config': cfg, 'shims': kerns.NUM, 'opts': {'validate': 40}})
    return out
