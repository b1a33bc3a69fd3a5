"""C18: continuing a search from its outputs equals having run it longer; progress output changes nothing."""
from checks import search as S

CONFIGS = ['']
META = {
    'bounds': 'searches of up to 3 rounds split at every point (0 rounds on either side included), beams of values 0..3 as numbers and lists of matching, shorter and longer length, universes of up to 7 expressions with symbolic, cyclic and empty expansion relations through one or two rules, and the shipped rules; every log-likelihood of every model, ties included; progress output on and off in every combination; continuations chained twice; four criteria',
    'outside': 'empty beam lists; larger universes and more rounds; continuing with another criterion, rules or data than the search used',
    'assumptions': ['start kernels are pairwise different', 'the criterion, rules, data and fit settings of the continuation are those of the search', 'the list fitter is deterministic (one model per expression in order: C21)'],
    'stubs': 'list fitter: records its inputs and returns real models whose log-likelihood is symbolic, the same for equal expressions',
}


def outcome(res): return [S.names(res[0]), [S.names(g) for g in res[1]], [S.kkey(k) for k in res[2]], S.names(res[3]), S.names(res[4])]
PARTS = ['ranked models', 'models by round', 'tested expressions', 'expanded models', 'models not expanded']
def compare(ctx, a, b, label):
    for x, y, part in zip(outcome(a), outcome(b), PARTS): ctx.check(x == y, f'{label}: {part}', got = x, want = y)


def twin(w):
    """Another search over the same universe."""
    v = S.World(w.ctx, w.edges, w.sym, rules = None if w.edges is not None else w.rules, ns = len(w.rules))
    v.met, v.bits, v.X, v.Y = w.met, w.bits, w.X, w.Y
    return v


def continued(ctx, edges, starts, parts, whole, crit, nrules = 1, verbose = (False, False), sym = 'all', rules = None, data = 'list'):
    """parts: [(rounds, beam)], first the search itself; whole: the beam of the one long search."""
    if rules is not None:
        import GPy_ABCD
        rs = {k: v for d in GPy_ABCD.production_rules_by_type.values() for k, v in d.items()}
        w = S.World(ctx, sym = sym, rules = [rs[r] for r in rules])
        ks = lambda: list(starts)
    else:
        w = S.World(ctx, edges, ns = nrules)
        ks = lambda: S.starts_of(starts)
    if data == 'array': w.X, w.Y = S.np.array(w.X), S.np.array(w.Y)
    if data == 'column': w.X, w.Y = S.np.array(w.X)[:, None], S.np.array(w.Y)[:, None]
    one = S.explore(w, ks(), crit, sum(r for r, b in parts), list(whole) if isinstance(whole, list) else whole)
    v = twin(w)
    (r, b), *more = parts
    res = S.explore(v, ks(), crit, r, b, verbose = verbose[0])
    for (r, b) in more: res = S.carry_on(v, res, crit, r, b, verbose = verbose[1])
    compare(ctx, res, one, 'continuing equals the longer search')
    if len(parts) > 1: ctx.check(S.same_set(res[0], v.fitted()), 'the ranked models of a continued search are all models fitted in both parts, those fitted before included')
    for c in v.calls: ctx.check(S.np.shape(c['X']) == (len(w.X), 1) and S.np.shape(c['Y']) == (len(w.Y), 1), 'continuing fits to the same columns of data', got = (S.np.shape(c['X']), S.np.shape(c['Y'])))
    ctx.check([c['keys'] for c in w.calls if c['keys']] == [c['keys'] for c in v.calls if c['keys']], 'continuing fits the same expressions', got = [c['keys'] for c in v.calls], want = [c['keys'] for c in w.calls])


def printed(ctx, edges, starts, rounds, beam, crit, nrules = 1):
    """Progress output on and off."""
    w = S.World(ctx, edges, ns = nrules)
    off = S.explore(w, S.starts_of(starts), crit, rounds, beam)
    v = twin(w)
    try: on = S.explore(v, S.starts_of(starts), crit, rounds, beam, verbose = True)
    except Exception as e:
        return ctx.check(False, 'progress output does not break a search', error = repr(e))
    compare(ctx, on, off, 'progress output changes nothing')
    ctx.check([c['keys'] for c in w.calls] == [c['keys'] for c in v.calls], 'progress output does not change what is fitted')


def jobs(tier):
    out = []
    def add(fn, wt, **p): out.append({'name': f'{fn.__name__} ' + ' '.join(f'{k}={v}' for k, v in p.items()), 'fn': fn, 'params': p, 'opts': {'validate': 15}, 'weight': wt})
    bit = lambda *js: [(j, 'e') for j in js]
    six = {0: [2, 3], 1: [2, (4, 'a')], 2: [4, 0], 3: [4], 4: [5]}
    star = {0: [1, 2, 3], 1: [2, 0], 2: [4], 3: [4, 1]}
    chain = {0: [1], 1: [2], 2: [3], 3: [4]}
    part = {0: [2, (3, 'a', 1)], 1: [(2, 'b', 1), 3], 2: [(4, 'c', 1)], 3: [0]}
    both = [(False, False), (True, True)]
    for v in both:
        add(continued, 30, edges = six, starts = [0, 1], parts = [(1, 1), (1, 1)], whole = [1, 1], crit = 'BIC', verbose = v)
        add(continued, 60, edges = star, starts = [0], parts = [(1, [1]), (1, [2])], whole = [1, 2], crit = 'AIC', verbose = v)
        add(continued, 60, edges = star, starts = [0], parts = [(0, 2), (2, [1, 2])], whole = [1, 2], crit = 'own', verbose = v)
        add(continued, 30, edges = chain, starts = [0], parts = [(2, [1]), (1, 1)], whole = 1, crit = 'AICc', verbose = v)
        add(continued, 30, edges = chain, starts = [0], parts = [(1, 2), (2, [1, 2, 5])], whole = [2, 1, 2], crit = 'BIC', verbose = v)
    add(continued, 50, edges = six, starts = [0, 1], parts = [(1, [2, 7]), (1, 1)], whole = [2, 1], crit = 'own', verbose = (True, False))
    add(continued, 50, edges = six, starts = [0, 1], parts = [(1, [0]), (1, [3])], whole = [0, 3], crit = 'BIC', verbose = (False, True))
    add(continued, 40, edges = part, starts = [0, 1], parts = [(1, 1), (1, 2)], whole = [1, 2], crit = 'BIC', nrules = 2, verbose = (False, True))
    add(continued, 40, edges = chain, starts = [0], parts = [(1, 1), (1, 1), (1, 1)], whole = 1, crit = 'BIC', verbose = (True, True))
    add(continued, 40, edges = star, starts = [0], parts = [(2, [1, 1]), (0, 3), (0, [2])], whole = [1, 1], crit = 'BIC', verbose = (False, False))
    add(continued, 10, edges = {}, starts = [0, 1, 2], parts = [(1, 1), (1, 1)], whole = 1, crit = 'BIC', verbose = (True, True))
    add(continued, 40, edges = None, starts = ['LIN', 'C'], parts = [(1, 1), (1, 1)], whole = [1, 1], crit = 'BIC', verbose = (True, True), rules = ['change_same'], sym = 2)
    add(continued, 40, edges = None, starts = ['WN'], parts = [(1, 1), (1, 1)], whole = 1, crit = 'BIC', verbose = (False, True), rules = ['plus_base'], sym = 3)
    for data in ('list', 'array', 'column'): add(continued, 5, edges = chain, starts = [0], parts = [(1, 1), (1, 1)], whole = 1, crit = 'BIC', data = data)
    for rounds, beam in ((0, 1), (0, 0), (1, 0), (1, 1), (1, 5), (2, [0]), (2, [1, 2]), (2, [2])):
        add(printed, 30, edges = six if rounds < 2 else star, starts = [0, 1] if rounds < 2 else [0], rounds = rounds, beam = beam, crit = 'BIC')
    add(printed, 10, edges = {}, starts = [0, 1], rounds = 2, beam = 1, crit = 'AICc')
    add(printed, 10, edges = chain, starts = [0], rounds = 3, beam = [1, 0, 2, 9], crit = 'own')
    add(printed, 30, edges = {0: [0] + bit(1, 2, 3)}, starts = [0], rounds = 1, beam = 1, crit = 'AIC')
    for v in both if tier != 'quick' else [(True, False)]:
            for parts, whole in (([(1, 1), (2, [2, 1])], [1, 2, 1]), ([(2, [2, 1]), (1, 2)], [2, 1, 2]), ([(1, 2), (1, 1), (1, 1)], [2, 1, 1]), ([(0, 1), (3, 1)], 1)):
                add(continued, 500, edges = six, starts = [0, 1], parts = parts, whole = whole, crit = 'BIC', verbose = v)
            more = {0: bit(2, 3, 4), 1: bit(2, 3), 2: bit(0, 5), 3: [5], 4: [5]}
            for a, b in ((1, 1), (2, 1), (1, 2)) if tier != 'quick' else [(1, 1)]: add(continued, 500, edges = more, starts = [0, 1], parts = [(1, a), (1, b)], whole = [a, b], crit = 'own', verbose = v)
    if tier != 'quick':
        add(continued, 300, edges = None, starts = ['LIN', 'PER'], parts = [(1, 1), (1, 2)], whole = [1, 2], crit = 'BIC', verbose = (True, True), rules = ['plus_base', 'times_base'], sym = 4)
    return out
