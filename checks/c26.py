"""C26: synthetic change-point and change-window data follow their piecewise definition."""
import contextlib
import numpy as np
from symx import engine
from symx.engine import SymInt, SymReal, SymNum, And, Or, Ite, z3, Inconclusive

CONFIGS = ['']
META = {
    'bounds': '1 to 4 inputs (real or integer, as list, array or column), all change points and windows, all weights and noise values, pieces that are arbitrary quadratics with real or integer coefficients in every combination, lined up or not',
    'outside': 'more inputs (each is handled independently), pieces that are no quadratics, windows that end before they start',
    'assumptions': ['the window starts no later than it ends'],
    'stubs': 'the normal random numbers of numpy.random are arbitrary reals; numpy.vectorize: its documented rule for the type of the result (that of the first value unless otypes is given) over symbolic values',
}


def trunc(v):
    """Conversion of a number to an integer."""
    if isinstance(v, SymReal): return SymInt(z3.simplify(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))))
    return v if isinstance(v, SymInt) else int(v)
def real(v): return v._real() if isinstance(v, SymInt) else v


class Vectorize:
    """numpy.vectorize over symbolic values."""
    def __init__(self, pyfunc = None, otypes = None, doc = None, excluded = None, cache = False, signature = None):
        if excluded or signature: raise Inconclusive('vectorize with signature or excluded arguments')
        self.f, self.otypes = pyfunc, otypes
    def __call__(self, *args):
        arrs = np.broadcast_arrays(*[np.asarray(a, dtype = object) for a in args])
        outs = [self.f(*[a[i] for a in arrs]) for i in np.ndindex(*arrs[0].shape)]
        if self.otypes is not None: kind = np.dtype(self.otypes[0]).kind
        else: kind = 'i' if isinstance(outs[0], (SymInt, int, np.integer)) else 'f' if isinstance(outs[0], (SymReal, float, np.floating)) else 'O'
        r = np.empty(len(outs), dtype = object)
        for i, o in enumerate(outs): r[i] = trunc(o) if kind in 'iub' else real(o) if kind == 'f' else o
        return r.reshape(arrs[0].shape)


@contextlib.contextmanager
def world(ctx, noise):
    """Random numbers from the list noise, in order; vectorize over symbolic values."""
    at = [0]
    def draw(n):
        at[0] += n
        return noise[at[0] - n:at[0]]
    def shaped(size):
        if size is None: return draw(1)[0]
        size = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        a = np.empty(int(np.prod(size)), dtype = object if ctx.symbolic else float)
        vals = draw(len(a))
        if len(vals) < len(a): raise Inconclusive('more random numbers drawn than there are data')
        for i, v in enumerate(vals): a[i] = v
        return a.reshape(size)
    randn = lambda *s: shaped(s or None)
    std = lambda size = None: shaped(size)
    gauss = lambda loc = 0., scale = 1., size = None: shaped(size) * scale + loc
    class Rng:
        standard_normal = staticmethod(std); normal = staticmethod(gauss)
    puts = [(np.random, 'randn', randn), (np.random, 'standard_normal', std), (np.random, "normal", gauss), (np.random, 'default_rng', lambda *a: Rng)]
    if ctx.symbolic: puts.append((np, 'vectorize', Vectorize))
    saved = [(o, n, getattr(o, n)) for o, n, v in puts]
    for o, n, v in puts: setattr(o, n, v)
    try: yield at
    finally:
        for o, n, v in saved: setattr(o, n, v)


def number(ctx, name, kind): return ctx.int(name, -9, 9) if kind == 'int' else ctx.real(name)
def piece(ctx, name, kind):
    a, b, c = (number(ctx, f'{name}{k}', kind) for k in 'abc')
    return lambda x: a * x * x + b * x + c


def inputs(ctx, n, kind, form):
    xs = [number(ctx, f'x{i}', kind) for i in range(n)]
    if form == 'list': return xs, xs
    a = np.empty(n, dtype = object) if ctx.symbolic else np.empty(n, dtype = int if kind == 'int' else float)
    for i, x in enumerate(xs): a[i] = x
    return xs, (a if form == 'array' else a[:, None])


def expected(ctx, what, x, f1, f2, at, line_up):
    """The signal at x by its definition."""
    if what == 'cp':
        if ctx.decide(x < at[0]): return f1(x)
        return f2(x) + (f1(at[0]) - f2(at[0]) if line_up else 0)
    s, e = at
    if ctx.decide(x < s): return f1(x)
    if ctx.decide(x > e): return f1(x) + (f2(e) - f2(s) + f1(s) - f1(e) if line_up else 0)
    return f2(x) + (f1(s) - f2(s) if line_up else 0)


def maker(ctx, what, n, kinds, form, line_up, generate):
    from GPy_ABCD.Util import dataAndPlottingUtil as D
    xk, k1, k2, ck = kinds
    f1, f2 = piece(ctx, 'f', k1), piece(ctx, 'g', k2)
    at = [number(ctx, 'change', ck)] if what == 'cp' else [number(ctx, 'start', ck), number(ctx, 'end', ck)]
    if what == 'cw': ctx.assume(at[0] <= at[1])
    xs, X = inputs(ctx, n, xk, form)
    noise = [ctx.real(f'noise {i}') for i in range(n)]
    w, nw = (number(ctx, 'weight', generate), number(ctx, 'noise weight', generate)) if generate in ('real', 'int') else (1, 1)
    with world(ctx, noise) as drawn:
        if not generate:
            Y = (D.cp_f_maker if what == 'cp' else D.cw_f_maker)(f1, f2, *at, line_up)(X if form != 'list' else np.array(X))
            noise, nw = [0] * n, 0
        else:
            f = D.generate_changepoint_data if what == 'cp' else D.generate_changewindow_data
            X2, Y = f(X, f1, f2, *at, line_up = line_up) if generate == 'default' else f(X, f1, f2, *at, w, nw, line_up)
            ctx.check(np.shape(X2) == (n, 1) and np.shape(Y) == (n, 1), 'data come as columns', got = (np.shape(X2), np.shape(Y)))
            for i, x in enumerate(xs): ctx.same(real(X2[i, 0]), real(x), 'the inputs are returned')
            ctx.check(drawn[0] == n, 'one noise value per input', got = drawn[0])
    Y = np.reshape(Y, -1)
    ctx.check(len(Y) == n, 'one value per input', got = len(Y))
    for i, x in enumerate(xs):
        want = expected(ctx, what, x, f1, f2, at, line_up)
        ctx.same(real(Y[i]), real(want * w + noise[i] * nw), 'the signal follows its piecewise definition' if not generate else 'the data are the weighted signal plus the weighted noise', index = i, x = lambda: x)


def continuous(ctx, what):
    """Lined-up pieces meet: the value at a change equals the continuation of the piece before it."""
    from GPy_ABCD.Util import dataAndPlottingUtil as D
    f1, f2 = piece(ctx, 'f', 'real'), piece(ctx, 'g', 'real')
    at = [ctx.real('change')] if what == 'cp' else [ctx.real('start'), ctx.real('end')]
    if what == 'cw': ctx.assume(at[0] < at[1])
    with world(ctx, []):
        y = lambda x: np.reshape((D.cp_f_maker if what == 'cp' else D.cw_f_maker)(f1, f2, *at, True)(np.array([x])), -1)[0]
        ctx.same(y(at[0]), f1(at[0]), 'the signal is continuous at the first change')
        if what == 'cw':
            d = ctx.real('beyond', gt = 0)
            ctx.same(y(at[1] + d) - y(at[1]), f1(at[1] + d) - f1(at[1]), 'the signal is continuous at the end of the window')


def plain(ctx, n, xk, k, generate):
    from GPy_ABCD.Util import dataAndPlottingUtil as D
    f = piece(ctx, 'f', k)
    xs, X = inputs(ctx, n, xk, 'list')
    noise = [ctx.real(f'noise {i}') for i in range(n)]
    w, nw = number(ctx, 'weight', generate), number(ctx, 'noise weight', generate)
    def g(x): return f(x) if ctx.decide(x < 1) else f(x) / 2
    with world(ctx, noise): X2, Y = D.generate_data(g, X, w, nw)
    for i, x in enumerate(xs): ctx.same(real(np.reshape(Y, -1)[i]), real(g(x) * w + noise[i] * nw), 'generated data are the weighted signal plus the weighted noise', index = i)


def jobs(tier):
    out = []
    def add(fn, wt, **p): out.append({'name': f'{fn.__name__} ' + ' '.join(f'{k}={v}' for k, v in p.items()), 'fn': fn, 'params': p, 'opts': {'validate': 10}, 'weight': wt})
    R, I = 'real', 'int'
    kinds = [(R, R, R, R), (I, I, R, R), (I, I, I, R), (I, R, I, I), (R, I, I, R), (I, I, I, I), (I, I, R, I)]
    for what in ('cp', 'cw'):
        for ks in kinds:
            for line_up in (False, True):
                add(maker, 10, what = what, n = 3, kinds = ks, form = 'column', line_up = line_up, generate = R)
                if ks[1] != ks[2] or ks[0] == R: add(maker, 10, what = what, n = 2, kinds = ks, form = 'array', line_up = line_up, generate = '')
        for form in ('list', 'array', 'column'):
            add(maker, 10, what = what, n = 1 if form == 'list' else 3, kinds = kinds[0], form = form, line_up = form != 'array', generate = 'default')
        add(maker, 10, what = what, n = 3, kinds = kinds[0], form = 'list', line_up = True, generate = I)
        add(continuous, 5, what = what)
    for ks in ((R, R), (I, I)): add(plain, 5, n = 2, xk = ks[0], k = ks[1], generate = R)
    if tier != 'quick':
        for what in ('cp', 'cw'):
            for ks in kinds:
                for line_up in (False, True): add(maker, 100, what = what, n = 4, kinds = ks, form = 'list', line_up = line_up, generate = R)
    return out
