"""numba.njit with its code run as Python: an explicit signature still converts the arguments and checks their form."""
import inspect
import numpy as np
from symx import engine
from symx.engine import SymReal, SymInt, z3


def truncated(v):
    """The whole number numba passes for a real given where an integer is declared."""
    if isinstance(v, SymReal):
        if engine.CTX.nonneg(v.t): return SymReal(z3.ToReal(z3.ToInt(v.t)))
        return SymReal(-z3.ToReal(z3.ToInt(-v.t)))
    if isinstance(v, SymInt): return v
    return int(v)


def convert(v, ty):
    from numba.core import types
    if isinstance(ty, types.Array):
        if not isinstance(v, np.ndarray) or v.ndim != ty.ndim: raise TypeError('No matching definition for these argument types (array form)')
        return v
    if isinstance(v, np.ndarray) and v.ndim: raise TypeError('No matching definition for these argument types (array given for a number)')
    if isinstance(ty, types.Integer): return truncated(v)
    if isinstance(ty, types.Boolean): return bool(v)
    return v


def njit(orig):
    def new(*args, **kw):
        from numba.core import sigutils, types
        if not args or inspect.isfunction(args[0]): return orig(*args, **kw)
        try: pars, ret = sigutils.normalize_signature(args[0])
        except Exception: return orig(*args, **kw)
        def deco(f):
            def g(*a, **k):
                a = [convert(v, t) for v, t in zip(a, pars)] + list(a[len(pars):])
                r = f(*a, **k)
                if isinstance(ret, types.Integer): r = truncated(r)
                if isinstance(ret, types.BaseTuple) and isinstance(r, tuple): r = tuple(truncated(v) if isinstance(t, types.Integer) else v for v, t in zip(r, ret.types))
                return r
            g.__name__, g.__doc__, g.py_func, g.__wrapped__ = f.__name__, f.__doc__, f, f
            return g
        return deco
    return new


def install():
    import numba
    numba.njit = njit(numba.njit)
