"""C19: model criteria equal their formulas on the fitted model."""
import numpy as np
from symx.engine import And

CONFIGS = ['']
META = {
    'bounds': 'every real log-likelihood, 1 <= n <= 10^9 data points, 0 <= k parameters (k other than n - 1 for AICc); scoring: real GP objects on 3 to 8 points with four kernels and every subset of their parameters held fixed, sequences of up to three scorings and a refit, every log-likelihood',
    'outside': 'AICc where n - k - 1 = 0 (undefined); the leave-one-out values themselves (computed by GPy)',
    'assumptions': ['the logarithm is an uninterpreted function (the same on both sides)'],
    'stubs': 'log_likelihood of the real GPRegression returns a symbolic value',
}


def formula(name, ll, n, log_n, k):
    if name == 'BIC': return k * log_n - 2 * ll
    a = 2 * k - 2 * ll
    return a if name == 'AIC' else a + 2 * k * (k + 1) / (n - k - 1)


def numbers(ctx, name):
    ll, n, k = ctx.real('ll'), ctx.int('n', 1, 10 ** 9), ctx.int('k', 0, 10 ** 9)
    if name == 'AICc': ctx.assume(n - k - 1 != 0)
    return ll, n, k
def log(ctx, n): return np.log(np.array([n], dtype = object))[0] if ctx.symbolic else float(np.log(float(n)))


def value(ctx, name):
    from GPy_ABCD.Util import modelUtil as U
    ll, n, k = numbers(ctx, name)
    ctx.same(getattr(U, name)(None, ll, n, k), formula(name, ll, n, log(ctx, n), k), f'{name} equals its formula')


def decreasing(ctx, name):
    from GPy_ABCD.Util import modelUtil as U
    ll, n, k = numbers(ctx, name)
    d = ctx.real('gain', gt = 0)
    if not ctx.symbolic and d < 1e-6 * (1 + abs(ll)): return
    ctx.check(getattr(U, name)(None, ll + d, n, k) < getattr(U, name)(None, ll, n, k), f'{name} is lower for a higher log-likelihood')


KERNELS = {'RBF': lambda G: G.kern.RBF(1), 'Lin+Bias': lambda G: G.kern.Linear(1) + G.kern.Bias(1), 'Per*RBF': lambda G: G.kern.StdPeriodic(1) * G.kern.RBF(1), 'White': lambda G: G.kern.White(1)}
def own(name, seen):
    def f(m, ll, n, k):
        seen.append((m, ll, n, k))
        return ll * 3 - n + 2 * k
    f.__name__ = name
    return f


def scoring(ctx, kernel, names):
    import GPy
    from GPy_ABCD.Models.model import GPModel
    from GPy_ABCD.Util import modelUtil as U
    from GPy_ABCD.KernelExpressions.all import SumKE
    n = int(ctx.int('points', 3, 8))
    X = np.linspace(0., 5., n)[:, None]
    m = GPModel(X, X * 2 + 1, SumKE(['LIN'])._initialise())
    def gp(tag):
        g = GPy.models.GPRegression(X, X * 2 + 1, KERNELS[kernel](GPy))
        leaves, free = [p for p in g.flattened_parameters if not p.is_fixed], 0
        for i, p in enumerate(leaves):
            if bool(ctx.bool(f'{tag} fixed {i}')): p.fix(warning = False)
            else: free += p.size
        ll = ctx.real(f'{tag} log-likelihood')
        g.log_likelihood = lambda: ll
        return g, ll, free
    for t, batch in enumerate(names):
        m.model, ll, k = gp(f'fit {t}')
        for j, name in enumerate(batch):
            if j and name in batch[:j]:       # the fitted model changes in place between two scorings with the same criterion
                ll = ctx.real(f'fit {t} log-likelihood {j}')
                m.model.log_likelihood = lambda ll = ll: ll
            if name == 'AICc' and n - k - 1 == 0: continue
            seen = []
            f = own(name, seen) if name.startswith('own') else getattr(U, name)
            r = m.compute_utility(f)
            if seen or name.startswith('own'):
                ctx.check(len(seen) == 1 and seen[0][0] is m.model, 'the criterion is given the fitted model', got = len(seen))
                ctx.same(seen[0][1], ll, 'the criterion is given the log-likelihood of the model')
                ctx.check(seen[0][2] == n, 'the criterion is given the number of data points', got = seen[0][2], want = n)
                ctx.check(seen[0][3] == k, 'the criterion is given the number of optimised parameters', got = seen[0][3], want = k)
                want = ll * 3 - n + 2 * k
            else:
                want = formula(name, ll, n, float(np.log(n)), k)
            ctx.same(r, want, 'scoring returns the value of the criterion')
            ctx.same(m.cached_utility_function, want, 'the model records the value of the criterion')
            ctx.check(m.cached_utility_function_type == name, 'the model records the name of the criterion', got = m.cached_utility_function_type)


def leave_one_out(ctx):
    """The leave-one-out criterion: the mean of the values the model's own inference reports for its own fit."""
    from GPy_ABCD.Util import modelUtil as U
    n = int(ctx.int('points', 1, 6))
    vals = [ctx.real(f'v{i}') for i in range(n)]
    asked = []
    class Inference:
        def LOO(self, *a, **k):
            asked.append(a + tuple(k.values()))
            return np.array(vals, dtype = object if ctx.symbolic else float)[:, None]
    class Model: pass
    m = Model()
    m.inference_method, m.kern, m.X, m.Y, m.likelihood, m.posterior = Inference(), object(), object(), object(), object(), object()
    got = U.LA_LOO(m, ctx.real('ll'), n, ctx.int('k', 0, 9))
    ctx.check(len(asked) == 1 and all(p is q for p, q in zip(asked[0], (m.kern, m.X, m.Y, m.likelihood, m.posterior))), 'the leave-one-out values are those of the fit')
    ctx.same(got, sum(vals[1:], vals[0]) / n, 'the leave-one-out criterion is the mean of the values of the points')


def jobs(tier):
    out = [{'name': 'leave one out', 'fn': leave_one_out, 'params': {}, 'opts': {'validate': 5}, 'weight': 1}]
    for name in ('BIC', 'AIC', 'AICc'):
        for fn in (value, decreasing): out.append({'name': f'{fn.__name__} {name}', 'fn': fn, 'params': dict(name = name), 'opts': {'validate': 5}, 'weight': 5})
    for kernel in KERNELS:
        for names in ([['own']], [['BIC', 'own2', 'AIC'], ['own']], [['AICc'], ['AIC', 'BIC']], [['BIC', 'BIC'], ['BIC']], [['own', 'own']]):
            if kernel == 'Per*RBF' and tier == 'quick' and len(names) > 1: continue
            out.append({'name': f'scoring {kernel} {names}', 'fn': scoring, 'params': dict(kernel = kernel, names = names), 'opts': {'validate': 20}, 'weight': 20})
    return out
