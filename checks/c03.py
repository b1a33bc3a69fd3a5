"""C03: expression equality is the order-insensitive structural equivalence; textual representation round-trips."""
from copy import deepcopy
from checks import trees as T
from symx.engine import And, Or, Not, Iff

CONFIGS = {'quick': [''], 'thorough': ['', 'LINOFF=0']}
META = {
    'bounds': 'all ordered pairs of the listed tree shapes (up to 3 operands per node, up to 3 levels); base-kernel multiplicities are unbounded non-negative integers for the equality part (0..1 for operands shuffled at every level of deeper trees) and 0..2 per kernel for the textual round trip',
    'outside': 'deeper or wider trees',
    'assumptions': ['expressions are built through the public constructors (hence simplified)'],
    'stubs': 'none',
}
ALL = ['PER', 'SE', 'C', 'WN', 'LIN']
L2 = ['PER', 'LIN']

SHAPES = [
    ('S', ALL, []), ('P', ALL, []),
    ('S', L2, [('P', L2, [])]), ('P', L2, [('S', L2, [])]),
    ('S', [], [('P', L2, []), ('P', L2, [])]), ('P', [], [('S', L2, []), ('S', L2, [])]),
    ('S', ['WN'], [('P', ['PER'], [('S', L2, [])])]),
    ('CP', ('?', L2), ('?', L2)), ('CW', ('?', L2), ('?', L2)),
    ('CP', ('S', L2, []), ('?', L2)), ('CP', ('P', L2, []), ('S', L2, [])), ('CP', ('?', L2), ('S', L2, [])),
    ('S', ['PER'], [('CP', ('?', L2), ('?', L2)), ('CW', ('?', L2), ('?', L2))]),
    ('P', ['PER'], [('CP', ('?', L2), ('?', L2)), ('CP', ('?', L2), ('?', L2))]),
    ('S', ['PER'], [('CP', ('?', L2), ('?', L2)), ('P', L2, [])]),
]
WIDE = [('S', [], [('P', ['PER'], []), ('P', ['PER'], []), ('P', ['PER'], [])]), ('P', [], [('S', ['PER'], []), ('S', ['PER'], []), ('S', ['PER', 'LIN'], [])]),
        ('S', [], [('P', L2, []), ('P', L2, []), ('P', ['PER'], [])])]


def pair(ctx, a, b):
    x = T.raw(ctx, T.instantiate(ctx, a, 'a'))
    y = T.raw(ctx, T.instantiate(ctx, b, 'b'))
    x, y = x._initialise(), y._initialise()
    tx, ty = T.of(x), T.of(y)
    sx, sy = T.snapshot(x), T.snapshot(y)
    want = T.eq(tx, ty)
    got = (x == y)
    ctx.check(Iff(got, want), 'equal exactly when structurally equal up to order', a = lambda: T.show(tx), b = lambda: T.show(ty), got = lambda: got)
    ctx.check(Iff(y == x, got), 'symmetric', a = lambda: T.show(tx), b = lambda: T.show(ty))
    ctx.check(Iff(x != y, Not(got)), '!= is the negation', a = lambda: T.show(tx), b = lambda: T.show(ty))
    ctx.check(And(T.unchanged(sx, T.snapshot(x)), T.unchanged(sy, T.snapshot(y))), 'comparing alters neither operand')
    # root, parent and parameters are not looked at
    x.parameters['PER'].append({'period': 1.})
    ctx.check(Iff(x == y, got), 'parameters do not matter', a = lambda: T.show(tx), b = lambda: T.show(ty))
    from GPy_ABCD.KernelExpressions.all import SumKE
    z = deepcopy(y).set_parent(x).set_root(x)
    ctx.check(Iff(x == z, got), 'root and parent do not matter', a = lambda: T.show(tx), b = lambda: T.show(ty))
    ctx.check(Not(x == 'PER'), 'an expression is not a base kernel name')
    ctx.check(Not(x == None), 'an expression is not None')


def reflexive(ctx, a):
    x = T.raw(ctx, T.instantiate(ctx, a, 'a'))._initialise()
    ctx.check(x == x, 'reflexive')
    ctx.check(x == deepcopy(x), 'a copy is equal')
    t = T.of(x)
    if x.__class__.__name__ != 'ChangeKE' and len(x.composite_terms) > 1:
        y = deepcopy(x)
        y.composite_terms = y.composite_terms[1:] + y.composite_terms[:1]
        ctx.check(x == y, 'operand order does not matter', t = lambda: T.show(t))


def roundtrip(ctx, a):
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
    x = T.raw(ctx, T.instantiate(ctx, a, 'a', hi = 2))._initialise()
    t = T.of(x)
    text = repr(x)
    y = eval(text, {'SumKE': SumKE, 'ProductKE': ProductKE, 'ChangeKE': ChangeKE})
    ctx.check(T.eq(T.of(y), t), 'the representation evaluates to an equal expression', text = text)
    ctx.check(y == x, 'the representation evaluates to an expression that compares equal', text = text)


A1, B1, C1 = ('P', {'PER': 1, 'LIN': 1}, []), ('P', {'LIN': 2}, []), ('S', {'PER': 1, 'LIN': 1}, [])
NESTED = [('S', ['WN'], [('P', {'PER': 1}, [('S', {}, [A1, B1])])]), ('S', {'WN': 1}, [('P', ['PER'], [('S', {'LIN': 1}, [A1, B1]), C1]), A1]),
          ('P', ['PER'], [('S', {'PER': 1}, [A1, ('CP', 'PER', 'LIN')]), ('S', {'WN': 1, 'PER': 1}, [])]), ('S', ['PER'], [('CP', ('S', {}, [A1, B1]), 'LIN'), ('CW', 'PER', ('P', {'LIN': 1}, [C1, ('S', ['WN', 'LIN'], [])]))]),
          ('CP', ('S', ['PER'], [A1, B1]), ('P', ['LIN'], [C1, ('S', {'WN': 1, 'LIN': 1}, [])])), ('P', {}, [('S', ['WN'], [A1, A1]), ('S', ['WN'], [A1, B1])])]


def shuffle(ctx, t, name = 'o'):
    """The same tree with the operands of every sum and product in either order."""
    if t[0] == 'L': return t
    if T.is_change(t): return (t[0], shuffle(ctx, t[1], name + 'l'), shuffle(ctx, t[2], name + 'r'))
    kids = [shuffle(ctx, k, f'{name}{i}') for i, k in enumerate(t[2])]
    return (t[0], dict(reversed(list(t[1].items()))), kids[::-1] if len(kids) > 1 and ctx.decide(ctx.bool(name + '_reversed')) else kids)


def shuffled(ctx, sk):
    t = T.instantiate(ctx, sk, 'a', hi = 1)
    x, y = T.raw(ctx, t)._initialise(), T.raw(ctx, shuffle(ctx, t))._initialise()
    ctx.check(T.eq(T.of(x), T.of(y)), 'operand order does not matter to simplification')
    ctx.check(And(x == y, y == x), 'operand order does not matter at any depth', x = lambda: T.show(T.of(x)), y = lambda: T.show(T.of(y)))
    z = T.raw(ctx, T.instantiate(ctx, sk, 'b', hi = 1))._initialise()
    ctx.check(Iff(y == z, T.eq(T.of(y), T.of(z))), 'equal exactly when structurally equal up to order at any depth', y = lambda: T.show(T.of(y)), z = lambda: T.show(T.of(z)))


def jobs(tier):
    return jobs_shapes(tier) + [{'name': f'shuffled {sk}', 'fn': shuffled, 'params': {'sk': sk}, 'config': cfg, 'opts': {'validate': 25}, 'weight': 60} for cfg in CONFIGS[tier] for sk in NESTED]


def jobs_shapes(tier):
    js = []
    cfgs = CONFIGS[tier]
    for cfg in cfgs:
        prs = [(a, b) for i, a in enumerate(SHAPES) for b in SHAPES[:i + 1]] + [(w, w) for w in WIDE] + [(WIDE[0], WIDE[2])]
        for a, b in prs:
            js.append({'name': f'eq {a} vs {b}', 'fn': pair, 'params': {'a': a, 'b': b}, 'config': cfg, 'opts': {'validate': 25}, 'weight': len(str(a)) + len(str(b)) + 50 * str((a, b)).count('PER')})
        for a in SHAPES + WIDE:
            js.append({'name': f'refl {a}', 'fn': reflexive, 'params': {'a': a}, 'config': cfg, 'opts': {'validate': 25}})
            js.append({'name': f'repr {a}', 'fn': roundtrip, 'params': {'a': a}, 'config': cfg, 'opts': {'validate': 25}})
    return js
