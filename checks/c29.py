"""C29: a one-off fit is one fit of the given expression to the given data with the given settings, scored as asked."""
import numpy as np
from checks import fits as F, trees as T
from symx.engine import And

CONFIGS = ['']
META = {
    'bounds': 'expressions of the listed shapes with base-kernel multiplicities 0..1 (thorough 0..2), built but not yet initialised; 1 and 3 data points with arbitrary real inputs and outputs, each given as list, flat array or column; every number of restarts >= 1; every shipped optimiser name and further fit option passed or left out; every log-likelihood; the shipped criteria and one of the caller',
    'outside': 'data of several input dimensions; the plot of the GPy-kernel variant',
    'assumptions': ['the optimiser may return any log-likelihood'],
    'stubs': 'GPRegression: records what it is given; its log-likelihood and number of parameters are symbolic',
}
SHAPES = [('S', ['PER', 'LIN', 'C', 'WN'], []), ('P', ['PER', 'LIN', 'WN', 'C'], []), ('P', ['LIN'], [('S', ['PER', 'WN'], [])]), ('CP', ('?', ['LIN', 'PER']), ('P', ['PER', 'LIN'], [])), ('S', ['WN'], [('CW', 'LIN', ('?', ['PER', 'C']))])]


def given(ctx, kind, vals):
    a = np.array(vals, dtype = object if ctx.symbolic else float)
    return list(vals) if kind == 'list' else a if kind == 'flat' else a[:, None]


FORMS = ['list', 'flat', 'column']
def one(ctx, sk, hi, criterion, q):
    from GPy_ABCD.Util import modelUtil as U
    kex = T.raw(ctx, T.instantiate(ctx, sk, hi = hi))
    if isinstance(kex, str): return
    want = T.nf(ctx, T.of(kex), T.flags()['linoff'])
    n = ctx.choice('points', [1, 3])
    xs, ys = [ctx.real(f'x{i}') for i in range(n)], [ctx.real(f'y{i}') for i in range(n)]
    ax, ay = ctx.choice('data as', [('list', 'flat'), ('column', 'list'), ('flat', 'column')] if q else [(a, b) for a in FORMS for b in FORMS])
    X, Y = given(ctx, ax, xs), given(ctx, ay, ys)
    kx, ky = (list(X) if isinstance(X, list) else X.copy()), (list(Y) if isinstance(Y, list) else Y.copy())
    r = ctx.int('restarts', 0, None)
    opts = ctx.choice('options', [{}, {'optimiser': 'scg'}, {'robust': True}, {'optimiser': 'lbfgsb', 'max_iters': 7}])
    ll, k = ctx.real('log-likelihood'), ctx.int('parameters', 0, 3)
    lab = F.Lab(ctx)
    class GP(F.FakeGP):
        def log_likelihood(self): return ll
        def _size_transformed(self): return k
    seen = []
    def mine(m, ll, n, k):
        seen.append(m)
        return 3 * ll - n + k
    with F.installed(lab, F.everywhere('GPRegression', F_real(), GP)):
        if criterion is None: m = U.fit_kex(X, Y, kex, r, **opts)
        else: m = U.fit_kex(X, Y, kex, r, mine if criterion == 'mine' else getattr(U, criterion), **opts)
    info = dict(expr = lambda: T.show(want))
    ctx.check(len(lab.attempts) == 1 and lab.attempts[0]['done'], 'one fit is made', got = len(lab.attempts))
    a = lab.attempts[0]
    ctx.check(a['X'].shape == (n, 1) and a['Y'].shape == (n, 1), 'the data are fitted as columns', got = (a['X'].shape, a['Y'].shape))
    for i in range(n):
        ctx.same(a['X'][i, 0], xs[i], 'the inputs are those given'); ctx.same(a['Y'][i, 0], ys[i], 'the outputs are those given')
    ctx.check(a['restarts'] == r, 'the given number of restarts is used', got = a['restarts'])
    o = dict(opts); opt = o.pop('optimiser', 'lbfgsb')
    ctx.check(a['optimizer'] == opt, 'the given (or default) optimiser is used', got = a['optimizer'])
    ctx.check(all(a['other'].get(kk) == v for kk, v in o.items()) and (o or not a['other'].get('robust')), 'further options are passed on', got = a['other'])
    ctx.check(T.eq(T.of(m.kernel_expression), want), 'the expression of the model is the one given', got = lambda: T.show(T.of(m.kernel_expression)), **info)
    ctx.check(m.kernel_expression.root is m.kernel_expression and T.link_violation(m.kernel_expression) is None, 'the expression of the model is initialised', **info)
    ctx.check(a['kernel'] == F.shape_of(m.kernel_expression.to_kernel()), 'the kernel fitted is that of the expression', **info)
    name = criterion or 'BIC'
    ctx.check(m.cached_utility_function_type == name, 'the model is scored with the given criterion (BIC unless given)', got = m.cached_utility_function_type)
    if name == 'mine': ctx.check(len(seen) == 1 and seen[0] is m.model, 'the criterion is given the fitted model')
    score = {'BIC': lambda: k * float(np.log(n)) - 2 * ll, 'AIC': lambda: 2 * k - 2 * ll, 'mine': lambda: 3 * ll - n + k}[name]()
    ctx.same(m.cached_utility_function, score, 'the score is that of the fitted model')
    ctx.check(And([p == q for p, q in zip(np.asarray(X, dtype = object).ravel(), np.asarray(kx, dtype = object).ravel())]) and np.shape(X) == np.shape(kx) and np.shape(Y) == np.shape(ky), 'the data given are left alone')


GPY = {'PER+LIN': lambda B: B.PER() + B.LIN(), 'WN*C': lambda B: B.WN() * B.C(), 'CP(LIN, PER)': lambda B: B.CP(B.LIN(), B.PER()), 'C': lambda B: B.C()}
def plain(ctx, kernel, criterion):
    """The variant which fits a given covariance."""
    import contextlib, io
    from matplotlib import pyplot as plt
    from GPy_ABCD.Util import modelUtil as U
    from GPy_ABCD.Kernels import baseKernels as B
    ker = GPY[kernel](B)
    before = (F.shape_of(ker), [float(v) for v in ker.param_array])
    n = ctx.choice('points', [1, 3])
    xs, ys = [ctx.real(f'x{i}') for i in range(n)], [ctx.real(f'y{i}') for i in range(n)]
    ax, ay = ctx.choice('data as', [(a, b) for a in FORMS for b in FORMS])
    X, Y = given(ctx, ax, xs), given(ctx, ay, ys)
    kx, ky = (list(X) if isinstance(X, list) else X.copy()), (list(Y) if isinstance(Y, list) else Y.copy())
    r = ctx.int('restarts', 0, None)
    opts = ctx.choice('options', [{}, {'optimizer': 'scg'}, {'robust': True, 'verbose': False}])
    ll, k = ctx.real('log-likelihood'), ctx.int('parameters', 0, 3)
    lab = F.Lab(ctx)
    class GP(F.FakeGP):
        def log_likelihood(self): return ll
        def _size_transformed(self): return k
        def plot(self, *a, **kw): pass
    seen = []
    def mine(*a):
        seen.append(a)
        return 3 * a[1] - a[2] + a[3]
    def shown(*a, **kw): pass
    out = io.StringIO()
    with F.installed(lab, F.everywhere('GPRegression', F_real(), GP) + [(plt, 'show', shown)]), contextlib.redirect_stdout(out):
        if criterion is None: m = U.fit_GPy_kern(X, Y, ker, r, **opts)
        else: m = U.fit_GPy_kern(X, Y, ker, r, mine if criterion == 'mine' else getattr(U, criterion), **opts)
    ctx.check(len(lab.attempts) == 1 and lab.attempts[0]['done'], 'one fit is made', got = len(lab.attempts))
    a = lab.attempts[0]
    ctx.check(isinstance(m, F.FakeGP) and m.attempt is a, 'the fitted GPy model is returned')
    ctx.check(a['X'].shape == (n, 1) and a['Y'].shape == (n, 1), 'the data are fitted as columns', got = (a['X'].shape, a['Y'].shape))
    for i in range(n):
        ctx.same(a['X'][i, 0], xs[i], 'the inputs are those given'); ctx.same(a['Y'][i, 0], ys[i], 'the outputs are those given')
    ctx.check(a['restarts'] == r, 'the given number of restarts is used', got = a['restarts'])
    ctx.check(a['optimizer'] == opts.get('optimizer'), 'the given optimiser is used', got = a['optimizer'])
    ctx.check(all(a['other'].get(kk) == v for kk, v in opts.items() if kk == 'robust') and (opts.get('robust') or not a['other'].get('robust')), 'further options are passed on', got = a['other'])
    ctx.check(a['kernel'] == before[0] and (F.shape_of(ker), [float(v) for v in ker.param_array]) == before, 'the kernel fitted is the given one', got = a['kernel'])
    name = criterion or 'BIC'
    if name == 'mine':
        ctx.check(len(seen) >= 1 and all(s[0] is m for s in seen), 'the criterion is given the fitted model')
        for s in seen: ctx.same(s[1], ll, 'the criterion is given the log-likelihood of the fit'); ctx.check(And(s[2] == n, s[3] == k), 'the criterion is given the numbers of points and of parameters', got = s[2:])
    score = {'BIC': lambda: k * float(np.log(n)) - 2 * ll, 'AIC': lambda: 2 * k - 2 * ll, 'mine': lambda: 3 * ll - n + k}[name]()
    import re
    for what, want in ((name, score), ('Log-Likelihood', ll)):
        got = re.findall(rf'{what}: (\S+)', out.getvalue())
        ctx.check(len(got) == 1, 'the criterion and the log-likelihood are printed', got = out.getvalue()[-200:], what = what)
        tok = re.fullmatch(r'⟦(\d+)⟧', got[0])
        ctx.same(ctx.tokens[int(tok[1])][0] if tok else float(got[0]), want, 'the printed value is that of the fitted model', what = what)
    ctx.check(And([p == q for p, q in zip(np.asarray(X, dtype = object).ravel(), np.asarray(kx, dtype = object).ravel())]) and np.shape(X) == np.shape(kx) and np.shape(Y) == np.shape(ky), 'the data given are left alone')


def F_real():
    from GPy.models import gp_regression
    return gp_regression.GPRegression


def jobs(tier):
    q = tier == 'quick'
    return [{'name': f'fit {sk} {c}', 'fn': one, 'params': dict(sk = sk, hi = 1 if sk[0] not in 'SP' or sk[2] or q else 2, criterion = c, q = q), 'opts': {'validate': 5}, 'weight': 5}
            for i, sk in enumerate(SHAPES) for c in ((None, 'AIC', 'mine') if not q or i == 2 else ((None, 'AIC', 'mine')[i % 3],))] + \
           [{'name': f'covariance {kn} {c}', 'fn': plain, 'params': dict(kernel = kn, criterion = c), 'opts': {'validate': 5}, 'weight': 5}
            for i, kn in enumerate(GPY) for c in ((None, 'AIC', 'mine') if not q else ((None, 'AIC', 'mine')[i % 3],))]
