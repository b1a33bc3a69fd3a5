"""C05: expansion yields exactly the one-rule-applied neighbours."""
from checks import trees as T, rules as R
from symx.engine import And, Or, Not

CONFIGS = ['', 'SE=1', 'LINOFF=0']
META = {
    'bounds': 'every shipped production rule alone and every shipped group, on the listed expression shapes (up to 3 levels, 4 rewritable nodes); multiplicities 0..2 per base kernel and node of small shapes, 0..1 of larger ones; every shipped start kernel list',
    'outside': 'larger expressions; order of the returned list; user-defined rules',
    'assumptions': ['the expanded expression is initialised'],
    'stubs': 'none',
}
ALL = ['PER', 'SE', 'C', 'WN', 'LIN']


def bases():
    return ['PER', 'C', 'WN', 'LIN'] + (['SE'] if T.flags()['se'] else [])


def reference(ctx, rule, s):
    B = bases(); NC = [b for b in B if b != 'C']
    L = T.lone
    flat = lambda xs: [y for x in xs for y in x]
    if rule == 'plus_base': return flat(R.add(ctx, s, L(b)) for b in B)
    if rule == 'times_base': return flat(R.multiply(ctx, s, L(b)) for b in NC)
    if rule == 'replace_base': return flat(R.swap_base(ctx, s, b) for b in B)
    if rule == 'change_new_base': return flat(R.both_changes(ctx, s, L(b)) for b in NC)
    if rule == 'change_same': return R.both_changes(ctx, s)
    if rule == 'change_window_constant': return R.one_change(ctx, s, 'CW', L('C'))
    if rule == 'change_window_linear': return R.one_change(ctx, s, 'CW', L('LIN'))
    if rule == 'change_point_linear': return R.one_change(ctx, s, 'CP', L('LIN'))
    if rule == 'times_shifted_base': return [R.prod_(s, R.sum_(L(b), L('C'))) for b in NC]
    if rule == 'replace_with_singleton': return [R.as_node(L(b)) for b in B]
    if rule == 'remove_some_term': return R.remove_a_term(ctx, s)
    if rule == 'try_higher_curves': return R.higher_curves(ctx, s)
    raise KeyError(rule)
RULES = ['plus_base', 'times_base', 'replace_base', 'change_new_base', 'change_same', 'change_window_constant', 'change_window_linear', 'change_point_linear',
         'times_shifted_base', 'replace_with_singleton', 'remove_some_term', 'try_higher_curves']
GROUPS = {'All': RULES,
          'Original_ABCD': ['plus_base', 'times_base', 'replace_base', 'change_same', 'change_window_constant', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term'],
          'Minimal': ['plus_base', 'times_base', 'replace_base', 'change_same'],
          'Default': ['plus_base', 'times_base', 'replace_base', 'change_point_linear', 'change_window_linear', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term']}


def harness(ctx, sk, hi, rules, group = None):
    import GPy_ABCD
    from GPy_ABCD.KernelExpansion import grammar as G
    lin = T.flags()['linoff']
    real = T.raw(ctx, T.instantiate(ctx, sk, hi = hi))._initialise()
    t = T.of(real)
    snap = T.snapshot(real)
    if group: prs = GPy_ABCD.production_rules[group]
    else: prs = [{k: v for d in GPy_ABCD.production_rules_by_type.values() for k, v in d.items()}[r] for r in rules]
    got = G.expand(real, prs)
    ctx.check(T.unchanged(snap, T.snapshot(real)), 'the expanded expression is unchanged')
    v = T.link_violation(real)
    ctx.check(v is None, 'the links of the expanded expression are unchanged', why = v)
    g = [T.of(x) for x in got]
    want = [T.standard(ctx, T.replace_at(t, path, new), lin) for path, node in T.nodes(t) for r in rules for new in reference(ctx, r, node)]
    uw = []
    for w in want:                               # drop syntactic repetitions of the oracle
        if not any(T.eq(w, u) is True for u in uw): uw.append(w)
    info = dict(expr = lambda: T.show(t))
    for x in g: ctx.check(Or([T.eq(x, w) for w in uw]), 'every result is one rule applied at one node', result = lambda: T.show(x), **info)
    for w in uw: ctx.check(Or([T.eq(x, w) for x in g]), 'every one-rule neighbour is returned', missing = lambda: T.show(w), got = lambda: [T.show(x) for x in g], **info)
    ctx.check(And([Not(T.eq(x, y)) for i, x in enumerate(g) for y in g[:i]]), 'results are pairwise different', got = lambda: [T.show(x) for x in g], **info)
    for r in got:
        v = T.link_violation(r) or T.canonical_violation(ctx, r)
        ctx.check(v is None, 'results are linked, rooted and canonical', why = v, **info)


def starts(ctx):
    import GPy_ABCD
    from GPy_ABCD.KernelExpansion import grammar as G
    lin = T.flags()['linoff']
    grp = ctx.choice('group', sorted(GPy_ABCD.start_kernels))
    ks = GPy_ABCD.start_kernels[grp]
    k = ctx.choice('kernel', ks)
    v = T.link_violation(k) or T.canonical_violation(ctx, k)
    ctx.check(v is None, 'start kernels are linked, rooted and canonical', why = v, kernel = str(k))
    ctx.check(T.eq(T.of(k), T.standard(ctx, T.of(k), lin)), 'start kernels are in standard form', kernel = str(k))
    ctx.check(sum(1 for x in ks if T.eq(T.of(x), T.of(k)) is True) == 1, 'start kernels are pairwise different', kernel = str(k))


def simple(ctx):
    """Base kernel names given as start kernels become one-term sums; anything unknown is refused."""
    from GPy_ABCD.KernelExpansion import grammar as G
    b = ctx.choice('b', ALL)
    (k,) = G.make_simple_kexs([b])
    ctx.check(T.eq(T.of(k), ('S', {b: 1}, [])), 'a base kernel name stands for a one-term sum')
    ctx.check(T.link_violation(k) is None, 'it is linked')
    for bad in ('XX', 'CP', ''):
        try: G.make_simple_kexs([b, bad]); ok = False
        except ValueError: ok = True
        ctx.check(ok, 'an unknown kernel name is refused', bad = bad)


def jobs(tier):
    q = tier == 'quick'
    A = ['PER', 'C', 'WN', 'LIN']
    small = [('S', A, []), ('P', A, []), ('CP', ('?', ['PER', 'LIN', 'C']), ('?', ['LIN', 'WN'])), ('CW', ('?', ['SE', 'PER']), ('?', ['SE', 'LIN']))]
    big = [('S', ['C', 'WN'], [('P', ['PER', 'LIN'], [])]), ('P', ['LIN'], [('S', ['PER', 'C'], [])]),
           ('S', ['PER'], [('P', ['PER', 'LIN'], []), ('P', ['LIN'], [])]),
           ('CP', ('S', ['PER', 'C'], []), ('?', ['LIN', 'PER'])), ('CW', ('?', ['LIN', 'PER']), ('P', ['PER', 'LIN'], [])),
           ('CP', ('P', ['LIN', 'PER'], []), ('S', ['PER', 'WN'], [])),
           ('S', ['LIN'], [('CP', ('?', ['PER', 'C']), ('?', ['PER', 'LIN']))]), ('P', ['PER'], [('CW', ('?', ['PER', 'LIN']), ('S', ['C', 'LIN'], []))]),
           ('CW', ('CP', ('?', ['PER']), ('?', ['LIN', 'PER'])), ('?', ['C', 'PER'])),
           ('P', [], [('S', ['PER', 'C'], []), ('S', ['PER', 'C'], [])]),
           ('S', ['C'], [('P', ['PER'], [('S', ['C', 'LIN'], [])])])]
    # rewrites that put a sum (product) with operands of its own into a sum (product)
    nested = [('S', ['WN'], [('CP', ('S', ['PER'], [('P', ['LIN', 'PER'], [])]), ('?', ['LIN']))]), ('P', ['LIN'], [('CW', ('?', ['C', 'LIN']), ('P', ['PER'], [('S', ['WN', 'C'], [])]))]),
              ('CP', ('S', ['PER'], [('CW', ('P', ['PER', 'LIN'], []), ('S', ['WN'], [('P', ['LIN', 'PER'], [])]))]), ('?', ['C']))]
    js = []
    for cfg in CONFIGS:
        for r in RULES:
            for sk in small + big:
                if cfg == 'LINOFF=0' and 'C' not in str(sk): continue
                js.append({'name': f'{r} {sk}', 'fn': harness, 'params': {'sk': sk, 'hi': (2 if sk in small else 1) + (0 if q else 1), 'rules': [r]}, 'config': cfg,
                           'opts': {'validate': 10}, 'weight': len(str(sk)) * (5 if r in ('plus_base', 'change_new_base', 'times_shifted_base') else 1)})
        for r in ('remove_some_term', 'times_base', 'plus_base', 'change_same'):
            if cfg: continue
            for sk in nested if r == 'remove_some_term' else nested[:2] if not q else nested[:1]:
                js.append({'name': f'{r} nested {sk}', 'fn': harness, 'params': {'sk': sk, 'hi': 1, 'rules': [r]}, 'config': cfg, 'opts': {'validate': 10}, 'weight': 1000})
        for g, rs in GROUPS.items():
            for sk in [('S', ['PER', 'LIN'], []), ('P', ['C', 'LIN'], []), ('CP', ('?', ['PER', 'LIN']), ('?', ['LIN'])), ('S', ['WN'], [('P', ['PER', 'LIN'], [])])]:
                js.append({'name': f'group {g} {sk}', 'fn': harness, 'params': {'sk': sk, 'hi': 1, 'rules': rs, 'group': g}, 'config': cfg, 'opts': {'validate': 5}, 'weight': 2000})
        js.append({'name': 'start kernels', 'fn': starts, 'params': {}, 'config': cfg})
        js.append({'name': 'kernel names', 'fn': simple, 'params': {}, 'config': cfg})
    return js
