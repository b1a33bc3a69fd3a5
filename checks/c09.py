"""C09: the described change intervals are the exact intersection of the change windows."""
import itertools
from checks import texts, trees as T
from symx.engine import And, Or, Not, Iff, Implies

CONFIGS = ['', 'FIXSLOPE=0']
META = {
    'bounds': 'every multiset of 1..4 change factors of the four kinds (thorough: selected ones of 5), in every order of kinds; all real locations, positive widths and slopes; every real point other than the boundaries themselves',
    'outside': 'more than four change factors in one component; membership of the boundary points themselves',
    'assumptions': ['widths and slopes are positive (their constraints in the kernels)'],
    'stubs': 'numbers inside the text are read back exactly (before rounding to two decimals)',
}


def factors(ctx, kinds, fix):
    """kinds: sequence of kinds in the order their parameter lists appear -> (parameter dict, list of (kind, lo, hi, slope))"""
    ps, fs = {}, []
    for i, k in enumerate(kinds):
        p = {'location': ctx.real(f'loc{i}')}
        if not fix: p['slope'] = ctx.real(f'slope{i}', gt = 0)
        if k in ('SI', 'SIr'): p['width'] = ctx.real(f'width{i}', gt = 0)
        ps.setdefault(k, []).append(p)
        fs.append((k, p['location'], p['location'] + p['width'] if 'width' in p else None, p.get('slope')))
    return ps, fs


def holds(f, t):
    k, lo, hi, _ = f
    if k == 'S': return t > lo
    if k == 'Sr': return t < lo
    inside = And(t > lo, t < hi)
    return inside if k == 'SI' else Not(inside)


def check_region(ctx, text, fs, fix, tag = 't'):
    t = ctx.real(tag)
    ctx.assume(And([t != b for f in fs for b in f[1:3] if b is not None]))
    r = texts.region(ctx, text)
    ctx.check(r is not None and r != 'bad', 'the text states where the component applies', text = text)
    inside = Or([And([t > lo if lo is not None else True, t < hi if hi is not None else True]) for lo, _, hi, _ in r])
    ctx.check(Iff(inside, And([holds(f, t) for f in fs])), 'the described region is exactly the intersection of all change windows', text = text, factors = lambda: fs, region = lambda: r)
    for lo, _, hi, _ in r:
        if lo is not None and hi is not None: ctx.check(lo < hi, 'every stated interval starts before it ends', text = text, factors = lambda: fs)
    ends = [(b, f[3]) for f in fs for b in f[1:3] if b is not None]
    for lo, ls, hi, hs in r:
        for b, s in ((lo, ls), (hi, hs)):
            if b is None: continue
            if fix: ctx.check(s is None, 'no slope is stated when slopes are fixed', text = text)
            else:
                ctx.check(s is not None, 'the slope of every stated bound is stated', text = text)
                ctx.check(Or([And(b == x, s == y) for x, y in ends]), 'every stated bound carries the slope of the change it comes from', text = text, factors = lambda: fs)


def harness(ctx, kinds):
    from GPy_ABCD.KernelExpansion.kernelInterpretation import base_factors_interpretation
    fix = T.flags()['fix']
    v = ctx.real('variance', gt = 0)
    ps, fs = factors(ctx, kinds, fix)
    par = {'ProductKE': [{'variance': v}], 'PER': [{'period': ctx.real('period', gt = 0), 'lengthscale': ctx.real('lengthscale', gt = 0)}], **ps}
    keep = {k: [dict(p) for p in l] for k, l in par.items()}
    text = base_factors_interpretation(par)
    same = list(par) == list(keep) and all(len(par[k]) == len(keep[k]) and all(a.keys() == b.keys() and all(a[n] is b[n] for n in a) for a, b in zip(par[k], keep[k])) for k in keep)
    ctx.check(same, 'describing does not modify the parameters')
    check_region(ctx, text, fs, fix)


KINDS = ['S', 'Sr', 'SI', 'SIr']
def orders(size):
    out = []
    for ms in itertools.combinations_with_replacement(KINDS, size):
        for perm in itertools.permutations(sorted(set(ms))): out.append(tuple(k for p in perm for k in ms if k == p))
    return out


def jobs(tier):
    js = []
    for cfg in CONFIGS:
        for n in range(1, 5):
            for ks in orders(n):
                if tier == 'quick' and n == 4 and cfg and ks.count('SIr') + ks.count('SI') > 2: continue
                js.append({'name': f'region {"*".join(ks)}', 'fn': harness, 'params': {'kinds': list(ks)}, 'config': cfg, 'opts': {'exact_replay': 'token', 'validate': 20, 'logic': None},
                           'weight': 10 ** n * (1 + ks.count('SIr')) })
        if tier == 'thorough':
            for ks in [('S', 'Sr', 'SI', 'SIr', 'SIr'), ('SIr', 'SIr', 'SIr', 'S', 'Sr'), ('SI', 'SI', 'SIr', 'SIr', 'S')]:
                js.append({'name': f'region {"*".join(ks)}', 'fn': harness, 'params': {'kinds': list(ks)}, 'config': cfg, 'opts': {'exact_replay': 'token', 'validate': 20}, 'weight': 10 ** 6})
    return js
