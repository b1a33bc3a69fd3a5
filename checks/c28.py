"""C28: traversing and folding an expression reaches every node exactly once."""
from checks import trees as T, c01
from symx.engine import And

CONFIGS = ['', 'SE=1']
META = {
    'bounds': 'tree shapes of up to 3 levels and 4 sum/product nodes plus change nodes (listed as jobs), changes inside changes included; base-kernel multiplicities are unbounded non-negative integers; the folded value and the weights of the folding function are arbitrary numbers',
    'outside': 'deeper or wider trees; folding functions which restructure the expression while it is folded',
    'assumptions': ['expressions are simplified and initialised'],
    'stubs': 'none',
}
ALL = ['PER', 'SE', 'C', 'WN', 'LIN']
MORE = [('CP', ('CW', 'PER', ('?', ALL)), ('CP', ('?', ['LIN', 'WN']), 'C')), ('CW', ('CP', ('S', ['PER', 'LIN'], []), 'WN'), ('P', ['LIN'], [('CP', 'LIN', 'LIN')])),
        ('S', ['WN'], [('CP', 'LIN', 'PER'), ('CP', 'LIN', 'PER'), ('CW', ('P', ['PER', 'LIN'], []), ('P', ['PER', 'LIN'], []))])]


def expected(ke):
    """[(node or None for a lone side, its tree, its parent)] in pre-order, read off the fields of the expression."""
    out = [(ke, T.of(ke), ke.parent)]
    if type(ke).__name__ == 'ChangeKE':
        for s in (ke.left, ke.right): out += [(None, ('S', {s: 1}, []), ke)] if isinstance(s, str) else expected(s)
    else:
        for k in ke.composite_terms: out += expected(k)
    return out


def right_nodes(ctx, got, want, root, what, info):
    ctx.check(len(got) == len(want), f'{what}: every node and lone side once', got = [str(type(g).__name__) for g in got], **info)
    ctx.check(all(w is None or g is w for g, (w, _, _) in zip(got, want)), f'{what}: the nodes themselves, a node before its operands and in their order', **info)
    ctx.check(And([T.eq(T.of(g), t) for g, (_, t, _) in zip(got, want)]), f'{what}: a lone side of a change is visited as its one-term sum', **info)
    ctx.check(all(g.parent is p and g.root is root for g, (_, _, p) in zip(got, want)), f'{what}: visited nodes know their parent and root', **info)


def harness(ctx, sk):
    ke = T.raw(ctx, T.instantiate(ctx, sk))._initialise()
    if isinstance(ke, str) : return
    before = T.snapshot(ke)
    want = expected(ke)
    info = dict(expr = lambda: T.show(T.of(ke)))
    right_nodes(ctx, ke.traverse(), want, ke, 'traversal', info)
    # every inner node can be traversed as well
    for w, _, _ in want[1:]:
        if w is not None: right_nodes(ctx, w.traverse(), expected(w), ke, 'traversal of an operand', info)
    seen = ke.reduce(lambda node, acc: acc + [node], [])
    right_nodes(ctx, seen, want, ke, 'fold', info)
    # an order-sensitive numeric fold over arbitrary numbers
    a, r = ctx.real('a'), ctx.real('r')
    w = {b: ctx.real('w_' + b) for b in ALL}
    value = lambda counts, n: sum((counts.get(b, 0) * w[b] for b in ALL), n)
    def f(node, acc):
        if type(node).__name__ == 'ChangeKE': return acc * r + 1
        return acc * r + value(node.base_terms, len(node.composite_terms))
    exp = a
    for _, t, _ in want: exp = exp * r + (1 if T.is_change(t) else value(t[1], len(t[2])))
    ctx.same(ke.reduce(f, a), exp, 'folding applies the function to every node once, in order, from the given value', **info)
    ctx.check(T.unchanged(before, T.snapshot(ke)), 'neither alters the expression', **info)


def jobs(tier):
    return [{'name': f'visit {sk}', 'fn': harness, 'params': {'sk': sk}, 'config': cfg, 'opts': {'validate': 20}, 'weight': len(str(sk))}
            for cfg in CONFIGS for sk in c01.skeletons(tier) + MORE]
