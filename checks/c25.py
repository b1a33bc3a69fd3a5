"""C25: stationarity and base-kernel queries."""
from checks import trees as T, c01
from symx.engine import And, Or, Not, Iff

CONFIGS = ['', 'SE=1']
META = {
    'bounds': 'tree shapes of up to 3 levels and 4 sum/product nodes plus change nodes (listed as jobs); base-kernel multiplicities are unbounded non-negative integers; queried sets: every single kernel and every pair, as a string or a list',
    'outside': 'deeper or wider trees; queries of three or more kernels at once',
    'assumptions': ['queries are asked of simplified expressions (as all constructors produce)'],
    'stubs': 'none',
}
ALL = ['PER', 'SE', 'C', 'WN', 'LIN']


def occurs(t, b):
    if t[0] == 'L': return t[1].get(b, 0) > 0
    if T.is_change(t): return Or(occurs(t[1], b), occurs(t[2], b))
    return Or([t[1].get(b, 0) > 0] + [occurs(k, b) for k in t[2]])
def has_change(t):
    if t[0] == 'L': return False
    return T.is_change(t) or any(has_change(k) for k in t[2])


def harness(ctx, sk):
    real = T.raw(ctx, T.instantiate(ctx, sk))._initialise()
    t = T.of(real)
    st = real.is_stationary()
    ctx.check(Iff(st, And(Not(occurs(t, 'LIN')), not has_change(t))), 'stationary iff no linear kernel and no change anywhere', expr = lambda: T.show(t), got = st)
    for b in ALL:
        got = real.contains_base(b)
        ctx.check(Iff(got, occurs(t, b)), f'contains_base is exact', base = b, expr = lambda: T.show(t), got = got)
        ctx.check(Iff(real.contains_base([b]), occurs(t, b)), f'contains_base of a one-element list is exact', base = b, expr = lambda: T.show(t))
    for i, a in enumerate(ALL):
        for b in ALL[:i]:
            ctx.check(Iff(real.contains_base([a, b]), Or(occurs(t, a), occurs(t, b))), 'contains_base of a pair is exact', pair = (a, b), expr = lambda: T.show(t))
    ctx.check(Iff(real.contains_base([]), False), 'no kernel of an empty list is contained')


def jobs(tier):
    return [{'name': f'query {sk}', 'fn': harness, 'params': {'sk': sk}, 'config': cfg, 'opts': {'validate': 40}, 'weight': len(str(sk))}
            for cfg in CONFIGS for sk in c01.skeletons(tier)]
