"""C23: predictions return the labelled quantities of the underlying fitted model."""
import inspect
import numpy as np
from checks import fits as F

CONFIGS = ['']
META = {
    'bounds': '1 to 3 new inputs with arbitrary values; every combination of full_cov, include_likelihood, kern, likelihood and Y_metadata given or left out, by name or by position; arbitrary pairs of quantiles (tuple or list); sequences of two predictions and a refit between them',
    'outside': 'what GPy itself computes for given arguments',
    'assumptions': ["predictions of GPy's fitted model are functions of their arguments (uninterpreted)"],
    'stubs': 'predict and predict_quantiles of the fitted GPRegression: uninterpreted functions of all their arguments with the signatures of the installed GPy',
}


class Model:
    """A fitted model whose predictions are uninterpreted functions of the arguments."""
    def __init__(self, ctx, tag):
        import GPy
        G = GPy.models.GPRegression
        self.ctx, self.tag, self.memo, self.sigs = ctx, tag, {}, {n: inspect.signature(getattr(G, n)) for n in ('predict', 'predict_quantiles')}
    def _key(self, v):
        if isinstance(v, np.ndarray): return ('array', v.shape, tuple(self._key(x) for x in v.reshape(-1)))
        if isinstance(v, (tuple, list)): return tuple(self._key(x) for x in v)
        if hasattr(v, 't'): return ('sym', v.t.sexpr())
        if isinstance(v, (bool, int, float, str, type(None))): return ('val', type(v) is bool, float(v) if isinstance(v, (int, float)) else v)
        return ('obj', id(v))
    def _call(self, name, a, k):
        b = self.sigs[name].bind(self, *a, **k); b.apply_defaults()
        args = {n: v for n, v in b.arguments.items() if n != 'self'}
        key = (name,) + tuple((n, self._key(v)) for n, v in sorted(args.items()))
        if key not in self.memo: self.memo[key] = len(self.memo)
        i = self.memo[key]
        n = len(b.args[1])
        if name == 'predict': return self._vals(f'{self.tag} mean {i}', (n, 1)), self._vals(f'{self.tag} cov {i}', (n, n) if args.get('full_cov') else (n, 1))
        return [self._vals(f'{self.tag} quantile {i} {j}', (n, 1)) for j in range(len(args['quantiles']))]
    def _vals(self, stem, shape):
        if not hasattr(self, 'made'): self.made = {}
        if stem not in self.made:
            a = np.empty(shape, dtype = object)
            for i in np.ndindex(*shape): a[i] = self.ctx.real(f'{stem} {i}')
            self.made[stem] = a
        return self.made[stem].copy()
    def predict(self, *a, **k): return self._call('predict', a, k)
    def predict_quantiles(self, *a, **k): return self._call('predict_quantiles', a, k)


def equal(ctx, got, want, label, **info):
    got = np.asarray(got, dtype = object)
    ctx.check(got.shape == want.shape, f'{label}: shape', got = got.shape, want = want.shape, **info)
    for i in np.ndindex(*want.shape): ctx.same(got[i], want[i], label, index = i, **info)


def predict(ctx, n, form, fits = 1, names = ('quantiles', 'full_cov', 'Y_metadata', 'kern', 'likelihood', 'include_likelihood')):
    from GPy_ABCD.Models.model import GPModel
    m = GPModel(*F.data(), F.kexes([('S', ['LIN'])])[0])
    objs = {'Y_metadata': {'output_index': 1}, 'kern': object(), 'likelihood': object()}
    for t in range(fits):
        m.model = Model(ctx, f'fit {t}')
        X = np.empty((n, 1), dtype = object)
        for i in range(n): X[i, 0] = ctx.real(f'x {t} {i}')
        args = {}
        for a in names:
            if form == 'positional' or bool(ctx.bool(f'{a} given {t}')):
                if a == 'quantiles':
                    args[a] = tuple(ctx.real(f'q{j} {t}', gt = 0, lt = 100) for j in range(2))
                    if form == 'list': args[a] = list(args[a])
                elif a in objs: args[a] = objs[a] if form != 'positional' or bool(ctx.bool(f'{a} given {t}')) else None
                else: args[a] = bool(ctx.bool(f'{a} {t}'))
        r = m.predict(X, *args.values()) if form == 'positional' else m.predict(X, **args)
        ctx.check(set(r) >= {'mean', 'covariance', 'low_quantile', 'high_quantile'}, 'the prediction has its four entries', got = sorted(r))
        info = dict(arguments = sorted(args))
        mean, cov = m.model.predict(X, **{k: v for k, v in args.items() if k != 'quantiles'})
        low, high = m.model.predict_quantiles(X, quantiles = args.get('quantiles', (2.5, 97.5)), **{k: v for k, v in args.items() if k in objs})
        equal(ctx, r['mean'], mean, "the mean is the fitted model's", **info)
        equal(ctx, r['covariance'], cov, "the covariance is the fitted model's", **info)
        equal(ctx, r['low_quantile'], low, "the low quantile is the fitted model's first requested quantile", **info)
        equal(ctx, r['high_quantile'], high, "the high quantile is the fitted model's second requested quantile", **info)


def jobs(tier):
    out = []
    def add(wt, **p): out.append({'name': 'predict ' + ' '.join(f'{k}={v}' for k, v in p.items()), 'fn': predict, 'params': p, 'opts': {'validate': 10}, 'weight': wt})
    for n in (1, 2, 3): add(20, n = n, form = 'named')
    add(20, n = 2, form = 'list')
    add(20, n = 2, form = 'positional')
    add(20, n = 1, form = 'named', fits = 2, names = ('quantiles', 'full_cov', 'kern'))
    if tier != 'quick': add(200, n = 6, form = 'named'); add(200, n = 2, form = 'named', fits = 3, names = ('quantiles', 'full_cov', 'kern'))
    return out
