"""C01: simplification applies exactly the documented identities (and C02's structural part reuses the same harness)."""
from checks import trees as T
from symx.engine import And

CONFIGS = ['', 'LINOFF=0']
META = {
    'bounds': 'tree shapes of up to 3 levels and 4 sum/product nodes (listed as jobs); base-kernel multiplicities are unbounded non-negative integers (every node has at least one term); '
              'nodes of larger shapes draw from the subsets of base kernels named in the job',
    'outside': 'deeper or wider trees; order of operands (compared as multisets)',
    'assumptions': ['a sum or product is never built with zero terms', 'expressions are built bottom-up through the public constructors'],
    'stubs': 'none',
}

ALL = ['PER', 'SE', 'C', 'WN', 'LIN']


def harness(ctx, sk):
    lin = T.flags()['linoff']
    t = T.instantiate(ctx, sk)
    real = T.raw(ctx, t)
    want = T.nf(ctx, t, lin)
    got = T.of(real)
    ctx.check(T.eq(got, want), 'constructed expression is the documented normal form', got = lambda: T.show(got), want = lambda: T.show(want))
    init = real._initialise() if hasattr(real, '_initialise') else real.simplify()
    got2 = T.of(init)
    ctx.check(T.eq(got2, want), 'initialised expression is the documented normal form', got = lambda: T.show(got2), want = lambda: T.show(want))


def grow(ctx, sk, extra):
    """Terms added to an existing expression (the public new_base / re-simplify route) are simplified by the same identities."""
    lin = T.flags()['linoff']
    t = T.instantiate(ctx, sk)
    real = T.raw(ctx, t)._initialise()
    cur = T.nf(ctx, t, lin)
    for i in range(extra):
        b = ctx.choice(f'add{i}', ALL)
        real.new_base(b)
        cur = T.nf(ctx, (cur[0], T.plus(cur[1], {b: 1}), cur[2]), lin)
    real = real.simplify()
    want = T.nf(ctx, cur, lin)
    ctx.check(T.eq(T.of(real), want), 'expression with added terms is the documented normal form', got = lambda: T.show(T.of(real)), want = lambda: T.show(want))


def skeletons(tier):
    A = ALL
    out = []
    for x in 'SP':
        y = 'P' if x == 'S' else 'S'
        out.append((x, A, []))
        # one child, full alphabets
        out.append((x, A, [(x, A, [])]))
        out.append((x, A, [(y, A, [])]))
        subs = [['C', 'WN'], ['C', 'LIN'], ['SE', 'C'], ['WN', 'LIN'], ['PER', 'WN'], ['SE', 'WN']]
        if tier == 'thorough': subs += [['C', 'WN', 'LIN'], ['SE', 'C', 'WN'], ['PER', 'SE', 'LIN']]
        for s in subs:
            # two children / three levels
            out.append((x, s, [(x, s, []), (y, s, [])]))
            out.append((x, s, [(y, s, []), (y, s, [])]))
            out.append((x, s, [(x, s, []), (x, s, [])]))
            out.append((x, s, [(y, s, [(x, s, [])])]))
            out.append((x, s, [(y, s, [(y, s, [])])]))
            out.append((x, s, [(x, s, [(y, s, [])])]))
            out.append((x, s, [(x, s, [(x, s, [])])]))
            out.append((x, s, [(y, [], [(x, s, [])])]))
            out.append((x, s[:1], [(y, s, [(x, s, []), (y, s, [])])]))
        out.append((x, A, [('CP', ('?', A), (y, ['C', 'LIN'], []))]))
        out.append((x, ['C', 'WN', 'LIN'], [('CW', (x, ['C', 'WN'], []), (y, ['C', 'WN'], []))]))
        out.append(('CP', (x, A, []), ('?', A)))
        out.append(('CW', ('?', ['LIN']), (x, A, [])))
        out.append(('CP', (x, ['C', 'WN'], [(y, ['C', 'WN', 'LIN'], [])]), ('?', ['C'])))
        out.append(('CW', (x, ['C', 'SE'], []), ('CP', (y, ['WN', 'LIN', 'C'], []), ('?', ['PER']))))
    return out


def gated(tier):
    """Products with gate factors."""
    G = T.GATES
    out = [('P', ['C'] + G[:2], []), ('P', ['C', 'S', 'SI', 'LIN'], []), ('P', ['WN', 'Sr', 'LIN', 'PER'], []), ('P', ['C', 'WN', 'SI', 'SIr'], []), ('P', ['SE', 'C', 'S'], []),
           ('P', ['S', 'C'], [('P', ['S', 'C'], [])]), ('P', ['SI'], [('S', ['C', 'WN'], [])]), ('S', ['C'], [('P', ['C', 'S', 'Sr'], []), ('P', ['PER', 'SI'], [])])]
    return out + ([('P', ['C', 'WN', 'LIN'] + G, []), ('P', ['SE', 'PER', 'S', 'SIr', 'C'], [])] if tier == 'thorough' else [])


def jobs(tier):
    js = []
    for cfg in CONFIGS:
        for sk in skeletons(tier) + gated(tier):
            js.append({'name': f'nf {sk}', 'fn': harness, 'params': {'sk': sk}, 'config': cfg, 'opts': {'validate': 60}, 'weight': len(str(sk))})
        for x in 'SP':
            js.append({'name': f'grow {x}', 'fn': grow, 'params': {'sk': (x, ['C', 'WN', 'LIN', 'SE'], []), 'extra': 1 if tier == 'quick' else 2}, 'config': cfg, 'opts': {'validate': 60}})
            y = 'P' if x == 'S' else 'S'
            js.append({'name': f'grow {x}{y}', 'fn': grow, 'params': {'sk': (x, ['C', 'WN'], [(y, ['PER', 'LIN'], [])]), 'extra': 2}, 'config': cfg, 'opts': {'validate': 60}})
    return js
