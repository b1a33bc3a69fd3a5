"""A fitted model with symbolic parameter values: the real GPModel and the real GPRegression over the real kernel, whose
parameter values (normally produced by the optimiser) are replaced by symbolic ones."""
import numpy as np
from checks import kerns


class KernView:
    """The fitted kernel, reporting the given values for its parameters."""
    def __init__(self, kern, values): self.__dict__.update(_k = kern, _v = values)
    @property
    def param_array(self):
        a = np.empty(len(self._v), dtype = object)
        a[:] = self._v
        return a
    def __getattr__(self, n): return getattr(self._k, n)
class ModelView:
    def __init__(self, model, kern): self.__dict__.update(_m = model, kern = kern)
    def __getattr__(self, n): return getattr(self._m, n)


X = np.array([[0.], [1.], [2.5]]); Y = np.array([[0.], [1.], [.5]])
_names = {}


def gp(kex):
    from GPy.models import GPRegression
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return GPRegression(X, Y, kex.to_kernel())


def fit(ctx, kex, prefix = ''):
    """-> (GPModel, {full parameter name: symbolic value}); positive values except locations and offsets."""
    from GPy_ABCD.Models.model import GPModel
    m = GPModel(X, Y, kex)
    with kerns.plain(): g = gp(kex)
    names = g.kern.parameter_names_flat()
    vals = {}
    for n in names:
        last = n.split('.')[-1]
        vals[n] = ctx.real(prefix + n) if last in ('location', 'offset') else ctx.real(prefix + n, gt = 0)
    m.restarts = 1
    m.model = ModelView(g, KernView(g.kern, [vals[n] for n in names]))
    return m, vals
