"""Library stand-ins used while proxies are flowing (each is part of the claim).

All of them dispatch on the argument: ordinary values go to the original function.
 - math.sqrt/exp/log/cos/sin/fabs/isnan/isinf/isclose/hypot on symbolic reals -> the symbolic operation
 - numpy.isnan / isfinite on object arrays of symbolic reals -> elementwise (a symbolic real is never NaN)
"""
import contextlib, math
import numpy as np
from symx import engine
from symx.engine import SymReal, SymInt, SymNum


def _m1(name, orig):
    def f(x):
        if isinstance(x, SymInt): x = x._real()
        if isinstance(x, SymReal): return getattr(x, name)()
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1: return getattr(x.reshape(-1)[0], name)()
        return orig(x)
    return f


def _has_sym(a):
    return isinstance(a, SymNum) or (isinstance(a, np.ndarray) and a.dtype == object)


def _np_false(orig, val):
    def f(x, *args, **kw):
        if isinstance(x, SymNum): return val
        if isinstance(x, np.ndarray) and x.dtype == object: return np.full(x.shape, val)
        return orig(x, *args, **kw)
    return f


@contextlib.contextmanager
def installed(extra = ()):
    saved = []
    def put(obj, name, val):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)
    for n in ('sqrt', 'exp', 'log', 'cos', 'sin', 'tanh'): put(math, n, _m1(n, getattr(math, n)))
    fabs = math.fabs
    put(math, 'fabs', lambda x: abs(x) if isinstance(x, SymNum) else fabs(x))
    misnan, misinf, mfin = math.isnan, math.isinf, math.isfinite
    put(math, 'isnan', lambda x: False if isinstance(x, SymNum) else misnan(x))
    put(math, 'isinf', lambda x: False if isinstance(x, SymNum) else misinf(x))
    put(math, 'isfinite', lambda x: True if isinstance(x, SymNum) else mfin(x))
    hyp = math.hypot
    def hypot(*xs):
        if any(isinstance(x, SymNum) for x in xs):
            r = 0
            for x in xs: r = r + x * x
            return r.sqrt()
        return hyp(*xs)
    put(math, 'hypot', hypot)
    put(np, 'isnan', _np_false(np.isnan, False))
    put(np, 'isfinite', _np_false(np.isfinite, True))
    for f in extra:
        for obj, name, val in f(): put(obj, name, val)
    try: yield
    finally:
        for obj, name, val in reversed(saved): setattr(obj, name, val)
