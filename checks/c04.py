"""C04: the expression operators perform their documented rewrites and leave their operands alone."""
from checks import trees as T, rules as R
from symx.engine import And, Or, Not

CONFIGS = ['', 'LINOFF=0']
META = {
    'bounds': 'every ordered pair of the listed operand kinds (base kernel, sums, products and changes, nested up to 3 levels); multiplicities 0..2 per base kernel and node (1..5 kernels per node), 0..4 for the single-operand operators',
    'outside': 'larger operands; order and repetition of the returned alternatives (compared as sets)',
    'assumptions': ['operands are simplified expressions'],
    'stubs': 'none',
}
ALL = ['PER', 'SE', 'C', 'WN', 'LIN']
ALT = ['PER', 'C', 'WN', 'LIN']


def operand(ctx, sk, name, hi):
    """(real operand, R-tree of it)"""
    t = T.instantiate(ctx, sk, name, hi = hi)
    real = T.raw(ctx, t)
    if t[0] == 'L': return real, T.lone(real)
    real = real._initialise()
    return real, T.of(real)


def same_set(ctx, got, want, op):
    lin = T.flags()['linoff']
    g = [T.of(x) for x in got]
    w = [T.nf(ctx, t, lin) for t in want]
    sh = lambda: (([T.show(x) for x in g]), ([T.show(x) for x in w]))
    ctx.check(T.subset(g, w), f'{op}: every result is a documented rewrite', got_want = sh)
    ctx.check(T.subset(w, g), f'{op}: every documented rewrite is offered', got_want = sh)


def grow(x):
    """Modify a freshly built result through the public interface."""
    if type(x).__name__ == 'ChangeKE': kids = [k for k in (x.left, x.right) if not isinstance(k, str)]
    else: kids = list(x.composite_terms)
    for k in kids: grow(k)
    if type(x).__name__ != 'ChangeKE': x.new_base('PER')


def run(ctx, op, ops, reals, trees, extra = ()):
    from GPy_ABCD.KernelExpansion import kernelExpressionOperations as KO
    snaps = [T.snapshot(r) for r in reals]
    got = getattr(KO, op)(*reals[:1], *extra, *reals[1:])
    same = And([T.unchanged(s, T.snapshot(r)) for s, r in zip(snaps, reals)])
    ctx.check(same, f'{op}: operands are not modified')
    want = getattr(R, op)(ctx, *trees[:1], *extra, *trees[1:])
    same_set(ctx, got, want, op)
    if op in ('add', 'multiply'):
        one = getattr(KO, op)(*reals, with_nested_case = False)
        ctx.check(T.eq(T.of(one), T.nf(ctx, want[0], T.flags()['linoff'])), f'{op} without the nested cases: the plain rewrite', got = lambda: T.show(T.of(one)))
    if op in ('add', 'multiply', 'swap_base', 'one_change', 'both_changes', 'higher_curves'):
        for g in got:
            if not isinstance(g, str): grow(g)
        ctx.check(And([T.unchanged(s, T.snapshot(r)) for s, r in zip(snaps, reals)]), f'{op}: modifying a result does not reach the operands')


def binary(ctx, op, a, b, hi):
    x, tx = operand(ctx, a, 'a', hi)
    y, ty = operand(ctx, b, 'b', hi)
    run(ctx, op, (a, b), [x, y], [tx, ty])


def swap(ctx, a, hi):
    x, tx = operand(ctx, a, 'a', hi)
    b = ctx.choice('B', ALL)
    from GPy_ABCD.KernelExpansion import kernelExpressionOperations as KO
    if isinstance(x, str):
        ctx.check(list(KO.swap_base(x, b)) == [b], 'swap_base of a lone kernel'); return
    run_b(ctx, 'swap_base', x, tx, b)
def run_b(ctx, op, x, tx, b):
    from GPy_ABCD.KernelExpansion import kernelExpressionOperations as KO
    snap = T.snapshot(x)
    got = KO.swap_base(x, b)
    ctx.check(T.unchanged(snap, T.snapshot(x)), 'swap_base: operand is not modified')
    same_set(ctx, got, R.swap_base(ctx, tx, b), 'swap_base')
    for g in got: grow(g)
    ctx.check(T.unchanged(snap, T.snapshot(x)), 'swap_base: modifying a result does not reach the operand')


def unary(ctx, op, a, hi):
    x, tx = operand(ctx, a, 'a', hi)
    run(ctx, op, (a,), [x], [tx])


def change(ctx, a, b, hi):
    x, tx = operand(ctx, a, 'a', hi)
    y, ty = operand(ctx, b, 'b', hi) if b is not None else (None, None)
    k = ctx.choice('kind', ['CP', 'CW'])
    r, t = ([x], [tx]) if y is None else ([x, y], [tx, ty])
    run(ctx, 'one_change', (a, b), r, t, (k,))
    run(ctx, 'both_changes', (a, b), r, t)


def jobs(tier):
    q = tier == 'quick'
    leaf = ('?', ALL)
    comp = [('S', ALT, []), ('P', ALT, []), ('P', ['SE', 'WN', 'PER'], []),
            ('S', ['C', 'WN'], [('P', ['PER', 'LIN'], [])]), ('P', ['LIN', 'WN'], [('S', ['PER', 'C'], [])]),
            ('CP', ('?', ['PER', 'C']), ('?', ['LIN', 'WN'])), ('CW', ('S', ['PER', 'C'], []), ('?', ['LIN', 'SE']))]
    small = [('S', ['C', 'LIN'], []), ('P', ['WN', 'LIN'], []), ('P', ['SE', 'C'], []), ('S', ['PER', 'WN'], []), ('S', ['C'], [('P', ['PER', 'LIN'], [])]), ('P', ['LIN'], [('S', ['PER', 'C'], [])]),
             ('CP', ('?', ['PER', 'C']), ('?', ['LIN'])), ('CW', ('S', ['PER'], []), ('P', ['LIN'], []))]
    js = []
    def j(name, fn, cfg, **p): js.append({'name': name, 'fn': fn, 'params': p, 'config': cfg, 'opts': {'validate': 25}, 'weight': len(str(p))})
    for cfg in CONFIGS:
        for op in ('add', 'multiply'):
            j(f'{op} leaf leaf', binary, cfg, op = op, a = leaf, b = leaf, hi = None)
            for c in comp:
                j(f'{op} leaf {c}', binary, cfg, op = op, a = leaf, b = c, hi = 2)
                j(f'{op} {c} leaf', binary, cfg, op = op, a = c, b = leaf, hi = 2)
            for a in small:
                for b in small: j(f'{op} {a} {b}', binary, cfg, op = op, a = a, b = b, hi = 2 if q else 3)
        for c in [leaf] + comp + [('S', ALL, []), ('P', ALL, [])]:
            j(f'swap {c}', swap, cfg, a = c, hi = 2 if q else 4)
            if c != leaf:
                j(f'remove {c}', unary, cfg, op = 'remove_a_term', a = c, hi = 4)
                j(f'higher {c}', unary, cfg, op = 'higher_curves', a = c, hi = 4)
            j(f'change {c}', change, cfg, a = c, b = None, hi = 3)
            j(f'change leaf {c}', change, cfg, a = c, b = leaf, hi = 1)
        for a in small:
            for b in small:
                j(f'change {a} {b}', change, cfg, a = a, b = b, hi = 1)
                j(f'replace {a} {b}', binary, cfg, op = 'replace_node', a = a, b = b, hi = 1)
            j(f'replace {a} leaf', binary, cfg, op = 'replace_node', a = a, b = leaf, hi = 1)
        # two composite operands
        w = ('S', ['C'], [('P', ['PER', 'LIN'], []), ('CP', ('?', ['C']), ('?', ['PER']))])
        v = ('P', ['LIN'], [('S', ['PER', 'LIN'], []), ('S', ['PER', 'WN'], [])])
        for c in (w, v):
            j(f'remove {c}', unary, cfg, op = 'remove_a_term', a = c, hi = 2)
            j(f'higher {c}', unary, cfg, op = 'higher_curves', a = c, hi = 2)
            j(f'swap {c}', swap, cfg, a = c, hi = 1)
            j(f'add leaf {c}', binary, cfg, op = 'add', a = leaf, b = c, hi = 1)
            j(f'multiply leaf {c}', binary, cfg, op = 'multiply', a = leaf, b = c, hi = 1)
    return js
