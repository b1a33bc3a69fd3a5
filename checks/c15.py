"""C15: a search returns every fitted model, each once, correctly ranked and grouped."""
from checks import search as S
from symx.engine import And, z3

CONFIGS = ['']
META = {
    'bounds': 'searches of 0 to 3 rounds from 1 to 3 start kernels over universes of up to 7 expressions with arbitrary expansion relations (symbolic, overlapping, cyclic and empty ones included) through one or two production rules, every beam of values 0..3, and searches with the shipped rules; every log-likelihood of every model (ties included), all four kinds of criterion (BIC, AIC, AICc, user-defined)',
    'outside': 'larger universes and more rounds; user-defined fitters that do not return models in the order of their expressions; repeated start kernels',
    'assumptions': ['start kernels are pairwise different', 'the list fitter returns one model per expression in order (C21)'],
    'stubs': 'list fitter: records its inputs and returns real models whose log-likelihood is symbolic',
}
SIX = {0: [2, (3, 'a')], 1: [(2, 'a'), 3], 2: [4, 0], 3: [(4, 'a'), 5], 4: [5], 5: [0]}


def judge(ctx, w, res, crit, rounds, beam, starts):
    sorted_models, tested_models, tested_k_exprs, expanded, not_expanded = res
    fitted = w.fitted()
    info = dict(names = lambda: [str(m.kernel_expression) for m in sorted_models])
    ctx.check(S.same_set(sorted_models, fitted), 'the ranked list holds every fitted model, each once', **info)
    ctx.check(len(tested_models) == rounds + 1, 'there is one group per round', got = len(tested_models))
    ctx.check(S.same_set([m for g in tested_models for m in g], fitted), 'the groups hold every fitted model, each once', **info)
    for m in fitted:
        ctx.same(m.cached_utility_function, S.score(w, crit, m), 'each model carries its own value of the criterion')
        ctx.check(m.cached_utility_function_type == S.criterion(crit).__name__, 'each model carries the name of the criterion', got = m.cached_utility_function_type)
    for c in w.calls:
        ctx.check([S.kkey(m.kernel_expression) for m in c['out']] == c['keys'], 'each model carries the expression it was fitted with')
        ctx.check(S.np.shape(c['X']) == (len(w.X), 1) and S.np.shape(c['Y']) == (len(w.Y), 1) and list(S.np.asarray(c['X'])[:, 0]) == list(S.np.reshape(w.X, -1)) and list(S.np.asarray(c['Y'])[:, 0]) == list(S.np.reshape(w.Y, -1)), 'models are fitted to the given data')
        ctx.check(all(c[k] == v for k, v in S.SETTINGS.items()), 'models are fitted with the given settings', got = {k: c[k] for k in S.SETTINGS})
    ranked(ctx, w, crit, sorted_models, 'the ranked list is sorted by the criterion')
    for g in tested_models: ranked(ctx, w, crit, g, 'each round is sorted by the criterion')
    # which models belong to which round
    ctx.check(sorted(S.names(tested_models[0])) == sorted(S.kkey(k) for k in starts), 'the first round fits exactly the start kernels', **info)
    per, total = S.round_sets([len(g) for g in tested_models], expanded, beam, rounds)
    seen, done = set(S.names(tested_models[0])), []
    for r, chosen in enumerate(per):
        avail = [m for g in tested_models[:r + 1] for m in g if not any(m is d for d in done)]
        ctx.check(all(any(m is a for a in avail) for m in chosen), 'a round expands models not expanded before', round = r + 1)
        rest = [m for m in avail if not any(m is c for c in chosen)]
        for c in chosen:
            for o in rest: ctx.check(S.le(ctx, S.score(w, crit, c), S.score(w, crit, o)), 'a round expands the best models not expanded before', round = r + 1, expanded = str(c.kernel_expression), left = str(o.kernel_expression))
        want = {k for m in chosen for k in neighbours(w, m)} - seen
        got = S.names(tested_models[r + 1])
        ctx.check(len(got) == len(set(got)) and set(got) == want, 'a round fits exactly the not yet tested expansions of the models it expands', round = r + 1, got = got, want = sorted(want))
        seen |= set(got); done += chosen


def neighbours(w, m):
    if w.edges is not None: return [S.pkey(j) for j in w.successors(S.PKEYS[S.kkey(m.kernel_expression)])]
    from GPy_ABCD.KernelExpansion.grammar import expand
    return [S.kkey(k) for k in expand(S.deepcopy(m.kernel_expression), w.rules)]


def ranked(ctx, w, crit, models, label):
    vals = [S.score(w, crit, m) for m in models]
    for a, b in zip(vals, vals[1:]): ctx.check(S.le(ctx, a, b), label)


def search(ctx, edges, starts, rounds, beam, crit, nrules = 1, named = False, check = judge):
    w = S.World(ctx, edges, ns = nrules)
    ks = S.starts_of(starts, named)
    res = S.explore(w, ks, crit, rounds, beam)
    check(ctx, w, res, crit, rounds, beam, [S.kex_of(i) for i in starts])


def shipped(ctx, rules, starts, rounds, beam, crit, sym, check = judge):
    """The shipped production rules; the first few expressions met have symbolic log-likelihoods."""
    import GPy_ABCD
    rs = {k: v for d in GPy_ABCD.production_rules_by_type.values() for k, v in d.items()}
    w = S.World(ctx, sym = sym, rules = [rs[r] for r in rules])
    res = S.explore(w, list(starts), crit, rounds, beam)
    check(ctx, w, res, crit, rounds, beam, [S.T_start(b) for b in starts])


def data(ctx, form, check = judge):
    w = S.World(ctx, SIX)
    if form == 'columns': w.X, w.Y = S.np.array(w.X)[:, None], S.np.array(w.Y)[:, None]
    if form == 'arrays': w.X, w.Y = S.np.array(w.X), S.np.array(w.Y)
    res = S.explore(w, S.starts_of([0, 1]), 'BIC', 1, 1)
    check(ctx, w, res, 'BIC', 1, 1, [S.kex_of(0), S.kex_of(1)])


def cases(tier):
    """(name, function, parameters, weight)"""
    out = []
    def add(fn, wt, **p): out.append((f'{fn.__name__} ' + ' '.join(f'{k}={v}' for k, v in p.items()), fn, p, wt))
    crits = ['BIC', 'AIC', 'AICc', 'own']
    bit = lambda *js: [(j, 'e') for j in js]
    # one round, every expansion relation
    full = {0: [0] + bit(1, 2, 3), 1: bit(0, 2, 3)}
    for b in (0, 1, 2, 3): add(search, 20 * b, edges = full, starts = [0, 1], rounds = 1, beam = b, crit = crits[b])
    two = {0: [(2, 'a', 0), (2, 'b', 1), (3, 'a', 1)], 1: [(3, 'a', 0), (4, 'b', 1), (0, 'b', 1)]}
    for b in (1, 2): add(search, 30, edges = two, starts = [0, 1], rounds = 1, beam = b, crit = 'BIC', nrules = 2)
    # several rounds
    six = {i: v for i, v in SIX.items()}
    chain = {0: [1], 1: [2], 2: [3], 3: [4]}
    star = {0: [1, 2, 3], 1: [2, 0], 2: [4], 3: [4, 1]}
    for beam in ([1, 1], [2, 1], [1, 2], [1], [3], [0, 2], [2, 0, 1]):
        add(search, 60, edges = six, starts = [0, 1], rounds = 2, beam = beam, crit = crits[sum(beam) % 4])
        add(search, 30, edges = star, starts = [0], rounds = 2, beam = beam, crit = crits[(sum(beam) + 1) % 4])
    for beam in (1, 2, [1, 2], [1, 0, 2]): add(search, 40, edges = chain, starts = [0], rounds = 3, beam = beam, crit = 'AIC')
    add(search, 100, edges = star, starts = [0], rounds = 3, beam = 1, crit = 'BIC')
    for n in (0, 2): add(search, 5, edges = star, starts = [0, 1, 2], rounds = 0, beam = n, crit = 'BIC', named = True)
    add(search, 5, edges = star, starts = [0, 1, 2], rounds = 1, beam = 1, crit = 'AICc', named = True)
    add(search, 5, edges = {}, starts = [0, 1], rounds = 2, beam = 1, crit = 'BIC')
    # the same sum or product of expressions reached with its operands in another order
    nested = {0: [20, 21], 1: [21, 20, 2], 20: [21, 0], 21: [20, 1]}
    for beam in (2, [1, 1]): add(search, 30, edges = nested, starts = [0, 1], rounds = 2, beam = beam, crit = 'BIC')
    add(search, 30, edges = nested, starts = [0], rounds = 3, beam = 1, crit = 'AIC')
    for form in ('lists', 'arrays', 'columns'): add(data, 3, form = form)
    for rules, starts in ((['plus_base'], ['WN']), (['replace_base', 'remove_some_term'], ['LIN', 'PER']), (['change_same'], ['LIN', 'C']), (['plus_base', 'times_base'], ['LIN'])):
        add(shipped, 40, rules = rules, starts = starts, rounds = 2 if len(rules) == 1 else 1, beam = [1, 2], crit = 'BIC', sym = 3)
    if tier != 'quick':
        for beam in ([1, 1, 1], [2, 1], [1, 2, 3], 2): add(search, 500, edges = SIX, starts = [0, 1], rounds = 3, beam = beam, crit = 'BIC')
        more = {0: bit(2, 3, 4), 1: bit(2, 3), 2: bit(0, 5), 3: [5], 4: [5]}
        for beam in ([1, 1], [2, 1], [1, 2], [2, 2]): add(search, 900, edges = more, starts = [0, 1], rounds = 2, beam = beam, crit = 'own')
        add(shipped, 300, rules = ['plus_base', 'times_base', 'replace_base', 'change_same'], starts = ['LIN', 'PER', 'WN'], rounds = 2, beam = 2, crit = 'BIC', sym = 4)
    return out


def jobs(tier, check = judge):
    return [{'name': n, 'fn': f, 'params': dict(p, check = check), 'opts': {'validate': 20}, 'weight': wt} for n, f, p, wt in cases(tier)]
