"""C16: no expression is fitted twice; the beam bookkeeping partitions the models."""
from checks import search as S, c15

CONFIGS = ['']
META = {
    'bounds': 'searches of 0 to 3 rounds from 1 to 3 start kernels over universes of up to 7 expressions with arbitrary expansion relations (symbolic, overlapping, cyclic and empty ones included) through one or two production rules, beams of values 0..3 (constant, short and long lists), searches with the shipped rules, and searches continued from given histories; every log-likelihood of every model, ties included; four criteria',
    'outside': 'larger universes and more rounds; repeated start kernels',
    'assumptions': ['start kernels are pairwise different', 'the list fitter returns one model per expression in order (C21)'],
    'stubs': 'list fitter: records its inputs and returns real models whose log-likelihood is symbolic',
}


def judge(ctx, w, res, crit, rounds, beam, starts):
    sorted_models, tested_models, tested_k_exprs, expanded, not_expanded = res
    submitted, fitted = w.submitted(), w.fitted()
    ctx.check(len(set(submitted)) == len(submitted), 'no expression equal to a tested one is submitted for fitting', submitted = submitted)
    ctx.check([S.kkey(k) for k in tested_k_exprs] == submitted, 'the tested expressions are those submitted, in order', submitted = submitted, tested = [str(k) for k in tested_k_exprs])
    ctx.check(S.same_set(expanded + not_expanded, fitted), 'expanded and not expanded models are disjoint and together all fitted ones', expanded = lambda: S.names(expanded), left = lambda: S.names(not_expanded))
    c15.ranked(ctx, w, crit, not_expanded, 'the models not expanded are in ranking order')
    at = {id(m): i for i, m in enumerate(sorted_models)}
    idx = [at.get(id(m), -1) for m in not_expanded]
    ctx.check(idx == sorted(idx) and -1 not in idx, 'the models not expanded are ordered as in the ranked list', order = idx)
    per, total = S.round_sets([len(g) for g in tested_models], expanded, beam, rounds)
    ctx.check(len(expanded) == total, 'each round expands its beam of models, or all there are', got = len(expanded), want = total)
    done = []
    for r, chosen in enumerate(per):
        avail = [m for g in tested_models[:r + 1] for m in g if not any(m is d for d in done)]
        ctx.check(all(any(m is a for a in avail) for m in chosen), 'a round expands models not expanded before', round = r + 1)
        for c in chosen:
            for o in avail:
                if not any(o is x for x in chosen): ctx.check(S.le(ctx, S.score(w, crit, c), S.score(w, crit, o)), 'the models expanded in a round are the best not expanded before', round = r + 1, expanded = str(c.kernel_expression), left = str(o.kernel_expression))
        c15.ranked(ctx, w, crit, chosen, 'the models expanded in a round are listed best first')
        done += chosen


def history(ctx, edges, done, left, rounds, beam, crit = 'BIC'):
    """A search continued from a history: models of done have been expanded, those of left have not."""
    w = S.World(ctx, edges)
    ids = done + left
    first = w.fitter(w.X, w.Y, [S.kex_of(i) for i in ids])
    for m in first: m.compute_utility(S.criterion(crit))
    by = lambda ms: sorted(ms, key = lambda m: m.cached_utility_function)
    ex, ne = first[:len(done)], by(first[len(done):])
    n = len(ex)
    res = S.carry_on(w, (by(first), [by(first)], [S.kex_of(i) for i in ids], list(ex), list(ne)), crit, rounds, beam)
    ctx.check(len(res[3]) >= n and all(a is b for a, b in zip(res[3], ex)), 'models expanded before stay listed first')
    sorted_models, tested_models, tested_k_exprs, expanded, not_expanded = res
    submitted = w.submitted()
    ctx.check(len(set(submitted)) == len(submitted), 'no expression equal to a tested one is submitted for fitting', submitted = submitted)
    ctx.check([S.kkey(k) for k in tested_k_exprs] == submitted, 'the tested expressions are those submitted, in order', submitted = submitted)
    ctx.check(S.same_set(expanded + not_expanded, w.fitted()), 'expanded and not expanded models are disjoint and together all fitted ones')
    c15.ranked(ctx, w, crit, not_expanded, 'the models not expanded are in ranking order')
    avail = list(ne)
    at = n
    for r, b in enumerate(S.beams(beam, rounds)):
        chosen = expanded[at:at + min(b, len(avail))]; at += len(chosen)
        rest = [m for m in avail if not any(m is c for c in chosen)]
        ctx.check(len(chosen) == min(b, len(avail)) and len(rest) == len(avail) - len(chosen), 'a round expands its beam of models not expanded before', round = r + 1)
        for c in chosen:
            for o in rest: ctx.check(S.le(ctx, S.score(w, crit, c), S.score(w, crit, o)), 'the models expanded in a round are the best not expanded before', round = r + 1)
        avail = rest + tested_models[r + 1]
    ctx.check(len(expanded) == at, 'only the models of the beams are expanded', got = len(expanded), want = at)


def jobs(tier):
    out = c15.jobs(tier, judge)
    bit = lambda *js: [(j, 'e') for j in js]
    for done, left, edges, rounds, beam in (([0, 1], [2, 3], {2: [0, 4], 3: [1, 4]}, 1, 1), ([0], [1, 2], {1: [3, 0], 2: [3, 4]}, 2, [1, 1]), ([0], [1, 2], {1: [3, 0], 2: [3, 4], 3: [4]}, 2, 1),
                                            ([], [0, 1, 2], {0: bit(3), 1: [3, 4], 2: [0, 4]}, 1, 2), ([0, 1, 2], [], {}, 2, 1)):
        out.append({'name': f'history {done} {left} rounds={rounds} beam={beam}', 'fn': history, 'params': dict(edges = edges, done = done, left = left, rounds = rounds, beam = beam), 'opts': {'validate': 20}, 'weight': 20})
    return out
