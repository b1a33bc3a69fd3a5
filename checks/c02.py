"""C02: simplified expressions are canonical fixpoints with consistent tree links."""
from copy import deepcopy
from checks import trees as T, c01

CONFIGS = ['', 'LINOFF=0']
META = {
    'bounds': 'tree shapes of up to 3 levels and 4 sum/product nodes plus change nodes (listed as jobs); base-kernel multiplicities are unbounded non-negative integers (every node has at least one term)',
    'outside': 'deeper or wider trees; expressions mutated through new_composite without re-simplification',
    'assumptions': ['a sum or product is never built with zero terms', 'expressions are built bottom-up through the public constructors, or put together by assigning operands to nodes (jobs assembled)'],
    'stubs': 'none',
}


def harness(ctx, sk):
    real = T.raw(ctx, T.instantiate(ctx, sk))
    init = real._initialise()
    v = T.canonical_violation(ctx, init)
    ctx.check(v is None, 'no one-term, empty or same-kind operand remains', why = v)
    v = T.link_violation(init)
    ctx.check(v is None, 'parent and root links are right after initialisation', why = v)
    ctx.check(bool(init._check_all_parents()), 'the parent checker agrees')
    ctx.check(init.is_root() is True, 'the root is the root')
    before = T.of(init)
    again = init.simplify()
    after = T.of(again)
    ctx.check(T.eq(after, before), 'simplifying again changes nothing', before = lambda: T.show(before), after = lambda: T.show(after))
    v = T.link_violation(again)
    ctx.check(v is None, 'parent and root links are right after simplifying again', why = v)
    copy = deepcopy(again)
    v = T.link_violation(copy)
    ctx.check(v is None, 'parent and root links of a copy point into the copy', why = v)
    ctx.check(T.eq(T.of(copy._initialise()), before), 'initialising a copy changes nothing')


def assembled(ctx, sk):
    """A tree whose operands were put in place directly (nothing simplified, links left over from elsewhere)."""
    t = T.instantiate(ctx, sk)
    real = T.assembled(ctx, t)
    init = real._initialise()
    init = init.extract_if_singleton()
    if isinstance(init, str): return ctx.check(T.eq(T.of(init), T.collapse(ctx, T.nf(ctx, t, T.flags()['linoff']))), 'a lone term is that term')
    if init is not real: return ctx.check(T.canonical_violation(ctx, init) is None, 'a lone operand is canonical')
    v = T.canonical_violation(ctx, init)
    ctx.check(v is None, 'no one-term, empty or same-kind operand remains in an assembled tree', why = v)
    v = T.link_violation(init)
    ctx.check(v is None, 'parent and root links of an assembled tree are right after initialisation', why = v)
    got, want = T.of(init), T.nf(ctx, t, T.flags()['linoff'])
    ctx.check(T.eq(got, want), 'an assembled tree is simplified to the documented normal form', got = lambda: T.show(got), want = lambda: T.show(want))


F = {'PER': 1, 'LIN': 1}
ASSEMBLED = [('S', ['PER'], [('P', ['LIN', 'C'], [('S', ['WN'], [('P', F, [])])])]), ('S', F, [('P', ['LIN'], [('S', ['PER'], [('P', ['PER', 'LIN'], [])])])]),
             ('P', ['PER'], [('S', ['LIN', 'C'], [('P', ['WN'], [('S', F, [])])])]),
             ('S', F, [('CP', ('S', ['LIN', 'WN'], []), ('P', ['PER'], [('S', F, [])]))]), ('S', ['PER'], [('CP', ('P', F, []), ('P', F, [('S', ['PER', 'LIN'], [])]))]),
             ('P', F, [('CW', ('P', ['PER'], [('S', F, [])]), ('S', ['PER', 'C'], []))]), ('P', ['LIN'], [('CW', 'LIN', ('S', F, [])), ('S', ['PER', 'WN'], [])]),
             ('CP', ('S', ['PER'], [('P', F, [])]), ('P', F, [('S', ['LIN', 'PER'], [])])),
             ('CW', ('?', ['PER', 'LIN']), ('P', ['LIN', 'PER'], [('CP', ('S', ['PER', 'LIN'], []), 'PER')])),
             ('CW', ('CP', ('S', ['PER', 'LIN'], []), ('P', F, [])), ('CW', 'LIN', ('S', ['C', 'PER'], []))),
             ('S', [], [('S', ['C', 'WN'], [('P', F, [])]), ('P', ['LIN'], [('P', ['WN', 'LIN'], [])])]),
             ('P', [], [('P', ['C', 'SE'], [('S', F, [])]), ('S', ['LIN'], [('S', ['WN', 'LIN'], [])])])]


def jobs(tier):
    return jobs_built(tier) + [{'name': f'assembled {sk}', 'fn': assembled, 'params': {'sk': sk}, 'config': cfg, 'opts': {'validate': 25}, 'weight': 500 + len(str(sk))} for cfg in CONFIGS for sk in ASSEMBLED]


def jobs_built(tier):
    return [{'name': f'fix {sk}', 'fn': harness, 'params': {'sk': sk}, 'config': cfg, 'opts': {'validate': 40}, 'weight': len(str(sk))}
            for cfg in CONFIGS for sk in c01.skeletons(tier) + c01.gated(tier)]
