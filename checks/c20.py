"""C20: beam arguments are normalised as documented."""
from checks import search as S

CONFIGS = ['']
META = {
    'bounds': '0 to 4 rounds; every integer beam 0..4 and every list of 1 to 5 values 0..3 (values symbolic), through whole searches and continued ones over a universe in which more models stay available than the beam takes, or fewer; every ordering of the models; sixteen kinds of argument that are neither integers nor lists of integers',
    'outside': 'negative values; empty lists; booleans',
    'assumptions': ['lists are not empty', 'beam values are not negative'],
    'stubs': 'list fitter: records its inputs and returns real models whose log-likelihood is symbolic',
}
# wide: every expanded model brings new ones; narrow: the search runs out
WIDE = {0: [3, 4], 1: [4, 5], 2: [5, 6], 3: [6], 4: [7], 5: [0], 6: [1]}
NARROW = {0: [1], 1: [2], 2: [0]}


def values(ctx, n, hi): return [int(ctx.int(f'beam {i}', 0, hi)) for i in range(n)]




def through_search(ctx, edges, starts, rounds, n, hi, sym, split = None, verbose = False, container = list):
    """A whole search, or one continued after `split` rounds."""
    w = S.World(ctx, edges, sym = sym)
    beam = values(ctx, 1, hi)[0] if n == 0 else values(ctx, n, hi)
    given = beam if n == 0 else list(beam)
    if split is None: res = S.explore(w, S.starts_of(starts), 'BIC', rounds, given, verbose = verbose)
    else:
        res = S.explore(w, S.starts_of(starts), 'BIC', split, 1)
        res = S.carry_on(w, res, 'BIC', rounds, given, verbose = verbose)
    ctx.check(given == beam and isinstance(given, type(beam)), "the caller's beam is not modified", got = given, want = beam)
    full = S.beams(beam, rounds) if split is None else [1] * split + S.beams(beam, rounds)
    total = rounds + (split or 0)
    sorted_models, tested_models, _, expanded, not_expanded = res
    ctx.check(len(tested_models) == total + 1, 'the search runs the given number of rounds', got = len(tested_models) - 1, want = total)
    if total:
        per, count = S.round_sets([len(g) for g in tested_models], expanded, full, total)
        ctx.check(len(expanded) == count, 'each round expands the number of models its beam value gives, or all there are', got = len(expanded), want = count, beam = full)
        seen = set(S.names(tested_models[0]))
        for r, chosen in enumerate(per):
            got = S.names(tested_models[r + 1])
            want = {S.pkey(j) for m in chosen for j in w.successors(S.PKEYS[S.kkey(m.kernel_expression)])} - seen
            ctx.check(set(got) == want, 'what a round fits are the expansions of as many models as its beam value gives', round = r + 1, got = got, want = sorted(want), beam = full)
            seen |= set(got)
    else: ctx.check(not expanded and len(not_expanded) == len(starts), 'a search without rounds expands nothing')


WRONG = {'tuple': (1, 2), 'str': '2', 'None': None, 'float': 2., 'list with a float': [1, 2.], 'list with a str': [1, '2'], 'list with None': [None], 'set': {1, 2}, 'dict': {1: 2}, 'generator': (x for x in [1]),
         'nested list': [[1]], 'range': range(3), 'list of floats': [1.5, 2.5], 'late float': [1, 1, 1, 2.], 'numpy array': S.np.array([1, 2]), 'bytes': b'12'}
def rejected(ctx, kind, rounds, how):
    w = S.World(ctx, {}, sym = 0)
    try:
        if how == 'search': S.explore(w, S.starts_of([0, 1]), 'BIC', rounds, WRONG[kind])
        else: S.carry_on(w, S.explore(w, S.starts_of([0, 1]), 'BIC', 0, 1), 'BIC', rounds, WRONG[kind])
        ctx.check(False, f'anything but an integer or a list of integers is rejected with a TypeError', kind = kind)
    except TypeError: ctx.check(True, 'rejected')


def kinds(ctx, how, rounds):
    kind = ctx.choice('kind', sorted(WRONG))
    rejected(ctx, kind, rounds, how)


def jobs(tier):
    out = []
    def add(fn, wt, **p): out.append({'name': f'{fn.__name__} ' + ' '.join(f'{k}={v}' for k, v in p.items() if k != 'edges') + (' narrow' if p.get('edges') is NARROW else ''), 'fn': fn, 'params': p, 'opts': {'validate': 10}, 'weight': wt})
    for verbose in (False, True):
        for rounds in (0, 1, 2, 3): add(through_search, 20, edges = WIDE, starts = [0, 1, 2], rounds = rounds, n = 0, hi = 4, sym = 2, verbose = verbose)
        for n in (1, 2, 3): add(through_search, 60, edges = WIDE, starts = [0, 1, 2], rounds = 2, n = n, hi = 2 if n > 2 else 3, sym = 2, verbose = verbose)
    for n in (1, 2, 4): add(through_search, 60, edges = WIDE, starts = [0, 1, 2], rounds = 3, n = n, hi = 2, sym = 0)
    for n in (1, 3, 5): add(through_search, 60, edges = WIDE, starts = [0, 1, 2], rounds = 4, n = n, hi = 3 if n == 1 else 2, sym = 0)
    for n, rounds in ((0, 2), (2, 3), (3, 2)): add(through_search, 20, edges = NARROW, starts = [0], rounds = rounds, n = n, hi = 2, sym = 2)
    for n in (1, 3): add(through_search, 20, edges = WIDE, starts = [0, 1, 2], rounds = 0, n = n, hi = 2, sym = 2, verbose = n == 3)
    for n, rounds, split in ((0, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (3, 2, 0), (1, 0, 1)): add(through_search, 40, edges = WIDE, starts = [0, 1, 2], rounds = rounds, n = n, hi = 2, sym = 2 if n < 2 else 0, split = split, verbose = n == 2)
    for how in ('search', 'continuation'):
        for rounds in (0, 1, 2): add(kinds, 2, how = how, rounds = rounds)
    if tier != 'quick':
        for n in (0, 1, 2, 3): add(through_search, 500, edges = WIDE, starts = [0, 1, 2], rounds = 3, n = n, hi = 3, sym = 4)
        for n in (2, 3, 4, 5): add(through_search, 500, edges = WIDE, starts = [0, 1, 2], rounds = 4, n = n, hi = 3, sym = 2)
    return out
