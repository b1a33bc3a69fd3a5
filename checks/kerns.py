"""The real kernels (GPy, paramz and GPy_ABCD classes, parameter linking, caching and change propagation included) over
arrays of symbolic reals.

While a symbolic path runs, the modules of paramz, GPy.kern.src and GPy_ABCD.Kernels see a numpy whose float64 is
`object` (so parameter storage holds symbolic values) and whose elementwise exp/log/sqrt/cos/sin accept such arrays.  In a
concrete run (replay, validation of path models) the facade is numpy itself, bit by bit.
"""
import sys, types, math, warnings, contextlib
import numpy as np
from symx import engine
from symx.engine import SymReal, SymNum, SymInt


OFF = [0]
def symbolic(): return not OFF[0] and engine.CTX is not None and engine.CTX.symbolic
@contextlib.contextmanager
def plain():
    """Ordinary float numpy for the extent of the block."""
    OFF[0] += 1
    try: yield
    finally: OFF[0] -= 1


def lift(v):
    """A number as a symbolic real (symbolic runs) or float."""
    if not symbolic(): return float(v)
    return v if isinstance(v, SymReal) else SymReal(engine.rterm(v))
class SymArr(np.ndarray):
    """Array of symbolic reals; a cast to float leaves them as they are."""
    def astype(self, dtype, *a, **k):
        if self.dtype == object and np.dtype(dtype).kind == 'f': return self.copy()
        return np.ndarray.astype(self, dtype, *a, **k)
def arr(vals, shape = None):
    if not symbolic(): a = np.array([float(v) for v in vals])
    else:
        a = np.empty(len(vals), dtype = object).view(SymArr)
        for i, v in enumerate(vals): a[i] = lift(v)
    return a if shape is None else a.reshape(shape)
def col(vals): return arr(vals, (-1, 1))
OBS = []
def obs(vals):
    """The column as a model holds its inputs: an observable array, which paramz's caches accept."""
    from paramz import ObsAr
    if not symbolic(): return ObsAr(col(vals))
    if not OBS:
        class ObsSymArr(SymArr, ObsAr):
            def __new__(cls, a): return a.view(cls)
            def __array_wrap__(self, out, context = None): return out.view(SymArr)
        OBS.append(ObsSymArr)
    from paramz.core.observable import Observable
    a = OBS[0](col(vals))
    Observable.__init__(a)
    return a


def _el(name, orig):
    one = {'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'cos': math.cos, 'sin': math.sin, 'tanh': math.tanh, 'expm1': math.expm1, 'log1p': math.log1p}[name]
    def e1(v):
        if isinstance(v, SymInt): v = v._real()
        if isinstance(v, SymReal):
            if name == 'expm1': return v.exp() - 1
            if name == 'log1p': return (v + 1).log()
            return getattr(v, name)()
        if name == 'log' and not v: return -math.inf     # as numpy's
        return getattr(lift(v), name)() if symbolic() and name in ('exp', 'sqrt', 'cos', 'sin') else one(v)
    def f(x, *a, **k):
        if isinstance(x, SymNum): return e1(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype = object)
            for i in np.ndindex(*x.shape): out[i] = e1(np.asarray(x)[i] if x.ndim else np.asarray(x).item())
            return out
        return orig(x, *a, **k)
    return f


def _mk(name):
    orig = getattr(np, name)
    def f(*a, **k):
        if symbolic():
            if name in ('zeros', 'empty', 'ones', 'eye', 'full', 'identity', 'zeros_like', 'empty_like', 'ones_like', 'full_like'):
                dt = k.get('dtype', None)
                if dt in (None, float, np.float64, object) or isinstance(dt, np.dtype) and dt.kind in 'fO':
                    k['dtype'] = object
                    if name in ('empty', 'empty_like'): return (np.zeros if name == 'empty' else np.zeros_like)(*a, **k)
        return orig(*a, **k)
    return f


def _einsum(orig):
    def f(spec, *ops, **k):
        if not any(isinstance(o, np.ndarray) and o.dtype == object for o in ops): return orig(spec, *ops, **k)
        ins, _, out = spec.replace(' ', '').partition('->')
        ins = ins.split(',')
        if '->' not in spec: out = ''.join(sorted(c for c in set(''.join(ins)) if ''.join(ins).count(c) == 1))
        dims = {}
        for s, o in zip(ins, ops):
            for c, n in zip(s, np.shape(o)): dims[c] = n
        allc = sorted(dims)
        res = np.zeros([dims[c] for c in out], dtype = object)
        for idx in np.ndindex(*[dims[c] for c in allc]):
            m = dict(zip(allc, idx))
            p = 1
            for s, o in zip(ins, ops): p = p * o[tuple(m[c] for c in s)]
            res[tuple(m[c] for c in out)] = res[tuple(m[c] for c in out)] + p
        return res if out else res.item()
    return f


class NP(types.ModuleType):
    """numpy, with object storage for reals while a symbolic path runs."""
    def __init__(self):
        super().__init__('numpy')
        d = self.__dict__
        for n in ('zeros', 'empty', 'ones', 'eye', 'full', 'identity', 'zeros_like', 'empty_like', 'ones_like', 'full_like'): d[n] = _mk(n)
        d['einsum'] = _einsum(np.einsum)
    def __getattr__(self, n):
        if n in ('float64', 'float_', 'double') and symbolic(): return object
        return getattr(np, n)


FACADE = NP()


def _targets():
    import GPy, GPy.kern, paramz, GPy_ABCD.Kernels.baseKernels
    out = []
    for name, m in list(sys.modules.items()):
        if m is None or not name.startswith(('paramz', 'GPy.kern.src', 'GPy.core.parameterization', 'GPy_ABCD.Kernels')): continue
        for k, v in list(m.__dict__.items()):
            if v is np and k in ('np', 'numpy'): out.append((m, k, FACADE))
    return out


def shim_numpy():
    out = _targets()
    for n in ('exp', 'log', 'sqrt', 'cos', 'sin', 'tanh', 'expm1', 'log1p'): out.append((np, n, _el(n, getattr(np, n))))
    return out


def shim_blas():
    """GPy's tdot (a BLAS call) -> X Xᵀ for object arrays."""
    import GPy.util.linalg as L
    orig = L.tdot
    def tdot(mat, out = None):
        if isinstance(mat, np.ndarray) and mat.dtype == object: return np.dot(np.asarray(mat), np.asarray(mat).T)
        return orig(mat, out)
    res = []
    for name, m in list(sys.modules.items()):
        if m is not None and name.startswith(('GPy.', 'GPy_ABCD')) and getattr(m, 'tdot', None) is orig: res.append((m, 'tdot', tdot))
    return res


def shim_bessel():
    """scipy.special.i0/i1 on symbolic values -> the function symbols of the engine."""
    import scipy.special as S
    res = []
    one = {'i0': lambda v: v.i0(), 'i1': lambda v: v.i1(), 'i0e': lambda v: (-abs(v)).exp() * v.i0(), 'i1e': lambda v: (-abs(v)).exp() * v.i1()}
    for n in one:
        orig = getattr(S, n)
        def f(x, n = n, orig = orig):
            if isinstance(x, SymNum): return one[n](x)
            if isinstance(x, np.ndarray) and x.dtype == object:
                out = np.empty(x.shape, dtype = object)
                for i in np.ndindex(*x.shape): out[i] = one[n](lift(np.asarray(x)[i]))
                return out
            return orig(x)
        for name, m in list(sys.modules.items()):
            if m is not None and name.startswith('GPy_ABCD') and getattr(m, n, None) is orig: res.append((m, n, f))
        res.append((S, n, f))
    return res


NUM = (shim_numpy, shim_blas)


def set_params(kern, vals):
    """The values an optimiser hands to the kernel (constrained values), change notification included."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        kern.param_array[...] = arr(vals)
        kern._trigger_params_changed()
    return kern
