"""Facts about the transcendental function symbols (each true of the real functions), added when a symbol is introduced."""
from symx.engine import z3


def zero(t):
    t = z3.simplify(t, som = True)
    return z3.is_rational_value(t) and t.as_fraction() == 0


def facts(ctx, name, t, r):
    """Sign and range facts; relations to the applications introduced before."""
    if name == 'exp':
        ctx.add(r > 0)
        ctx.add(z3.And(z3.Implies(t <= 0, r <= 1), z3.Implies(t < 0, r < 1), z3.Implies(t >= 0, r >= 1)))
        for u, q in ctx.fn_apps('exp'):
            if u.eq(t): continue
            if zero(u + t): ctx.add(q * r == 1)
            elif zero(u - t): ctx.add(q == r)
            else: ctx.add(z3.And(z3.Implies(u <= t, q <= r), z3.Implies(t <= u, r <= q)))
    elif name in ('cos', 'sin'):
        ctx.add(z3.And(r >= -1, r <= 1))
        for u, q in ctx.fn_apps(name):
            if u.eq(t): continue
            if zero(u + t): ctx.add(q == (r if name == 'cos' else -r))
            elif zero(u - t): ctx.add(q == r)
        for u, q in ctx.fn_apps('sin' if name == 'cos' else 'cos'):
            if zero(u - t) or zero(u + t): ctx.add(r * r + q * q == 1)
    elif name == 'i0':        # 1 <= I0(t) <= cosh t, I0(t) < e^t for t > 0
        from symx.engine import SymReal
        e, f = SymReal(t).exp().t, SymReal(-t).exp().t
        ctx.add(z3.And(r >= 1, 2 * r <= e + f, z3.Implies(t > 0, z3.And(r < e, r > 1))))
    elif name == 'i1':
        for u, q in ctx.fn_apps('i0'):
            if zero(u - t): ctx.add(z3.Implies(t >= 0, z3.And(r >= 0, r < q)))


def light(ctx, name, t, r):
    """Only what keeps denominators away from zero."""
    if name == 'exp': ctx.add(r > 0)
    elif name == 'i0':
        from symx.engine import SymReal
        ctx.add(z3.Implies(t > 0, r < SymReal(t).exp().t))
