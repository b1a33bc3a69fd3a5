"""C10: the interpretation text states exactly the facts of every component."""
import itertools, re
from checks import texts, trees as T, fitted, c09
from checks.texts import TOK
from symx.engine import And, Or, Not, Iff

CONFIGS = ['', 'FIXSLOPE=0', 'LINOFF=0', 'SE=1']
META = {
    'bounds': 'single components with 0..3 periodic and linear (up to 4 periodic and 5 linear factors in listed combinations; thorough 5 of each), 0..1 smooth, constant and noise factors and 0..2 change factors; whole models over the listed expression shapes with multiplicities 0..2; all positive parameter values and real locations and offsets',
    'outside': 'more factors of one kind; the choice of words beyond the stated facts',
    'assumptions': ['component parameters come in the canonical form of a sum of products (checked by C08)'],
    'stubs': 'the optimiser result is an arbitrary assignment of parameter values; numbers inside the text are read back exactly (before rounding to two decimals)',
}


def perm_eq(xs, ys):
    """xs is a permutation of ys (lists of tuples of numbers)"""
    if len(xs) != len(ys): return False
    return Or([And([And([a == b for a, b in zip(x, y)]) for x, y in zip(xs, p)]) for p in itertools.permutations(ys)])


def check_text(ctx, text, par, f, tag):
    """text: description of one component with parameters par (base kernel -> list of parameter dicts)."""
    fix, linoff = f['fix'], f['linoff']
    val = lambda k: ctx.tokens[int(k)][0]
    info = dict(text = text, par = lambda: {k: v for k, v in par.items()})
    n = {b: len(par.get(b, [])) for b in T.BASES}
    sig = [(k, p) for k in c09.KINDS for p in par.get(k, [])]
    used = []
    # overall variance
    v = re.findall(rf'overall variance {TOK}', text)
    ctx.check(len(v) == 1 and val(v[0]) == par['ProductKE'][0]['variance'], 'the overall variance is stated once', **info)
    used += v
    # kind
    lead = next(b for b in ('PER', 'SE', 'C', 'WN', 'LIN') if n[b])
    starts = {'PER': 'A periodic function', 'SE': 'A smooth function', 'C': 'A constant', 'WN': 'Uncorrelated noise', 'LIN': 'A polynomial function' if n['LIN'] > 1 else 'A linear function'}
    ctx.check(text.startswith(starts[lead]), 'the kind of component is stated first', lead = lead, **info)
    ctx.check((('noise' in text) == bool(n['WN'])) and (('constant' in text) == bool(n['C'])) and (('smooth' in text) == bool(n['SE'])) and (('periodic' in text) == bool(n['PER'])), 'exactly the kinds of factors present are mentioned', **info)
    # periodic factors
    per = re.findall(rf'period {TOK} and lengthscale {TOK}', text)
    pv = [(val(a), val(b)) for a, b in per]
    ctx.check(perm_eq(pv, [(p['period'], p['lengthscale']) for p in par.get('PER', [])]), 'every period is stated with its lengthscale', **info)
    ctx.check(And([pv[i][0] >= pv[i + 1][0] for i in range(len(pv) - 1)]), 'periods are listed in decreasing order', **info)
    if n['PER'] > 2: ctx.check(re.search(r'by (\d+) more periodic', text) is not None and re.search(r'by (\d+) more periodic', text)[1] == str(n['PER'] - 1), 'the number of further periodic factors is stated', **info)
    used += [k for p in per for k in p]
    # smooth factor
    ls = re.findall(rf'(?<!and )lengthscale {TOK}', text)
    ctx.check(perm_eq([(val(k),) for k in ls], [(p['lengthscale'],) for p in par.get('SE', [])]), 'the lengthscale of the smooth factor is stated', **info)
    used += ls
    # linear factors
    orders = re.findall(r'order (\d+)', text)
    ctx.check(orders == ([str(n['LIN'])] if n['LIN'] > 1 else []), 'the polynomial order is the number of linear factors', **info)
    ctx.check(('linear' in text) == (n['LIN'] == 1), 'a single linear factor is called linear', **info)
    ctx.check(('polynomial' in text) == (n['LIN'] > 1), 'several linear factors are called polynomial', **info)
    roots = re.search(rf'with roots ((?:{TOK}, )*and {TOK})', text)
    offs = re.findall(TOK, roots[1]) if roots else re.findall(rf'horizontal offset {TOK}', text)
    want = [(p['offset'],) for p in par.get('LIN', [])] if linoff else []
    ctx.check(perm_eq([(val(k),) for k in offs], want), 'exactly the roots (offsets) of the linear factors are stated', **info)
    used += offs
    # change factors
    r = texts.region(ctx, text)
    if sig:
        fs = [(k, p['location'], p['location'] + p['width'] if 'width' in p else None, p.get('slope')) for k, p in sig]
        c09.check_region(ctx, text, fs, fix, tag)
        used += re.findall(TOK, texts.APPLIES.search(text)[1])
    else: ctx.check(r is None and 'applies' not in text, 'no region is stated without change factors', **info)
    # nothing else
    alltok = re.findall(TOK, text)
    ctx.check(sorted(used) == sorted(alltok), 'no other number is stated', **info)
    rest = re.sub(TOK, '', text)
    ctx.check(re.findall(r'\d+', rest) == [str(n['PER'] - 1)] * (n['PER'] > 2) + [str(n['LIN'])] * (n['LIN'] > 1), 'no other digits appear', **info)
    ctx.check(all(ctx.tokens[int(k)][1] == '.2f' for k in alltok), 'numbers are printed with two decimals', **info)


def component(ctx, counts, sigs, unify = False):
    from GPy_ABCD.KernelExpansion.kernelInterpretation import base_factors_interpretation
    f = T.flags()
    par = {'ProductKE': [{'variance': ctx.real('variance', gt = 0)}]}
    for b, c in counts.items():
        l = []
        for i in range(c):
            if b == 'PER': l.append({'period': ctx.real(f'period{i}', gt = 0), 'lengthscale': ctx.real(f'plen{i}', gt = 0)})
            elif b == 'SE': l.append({'lengthscale': ctx.real('slen', gt = 0)})
            elif b == 'LIN': l.append({'offset': ctx.real(f'offset{i}')} if f['linoff'] else {})
            else: l.append({})
        if l: par[b] = l
    s, _ = c09.factors(ctx, sigs, f['fix'])
    par.update(s)
    ctx.unify_tokens = unify      # equal numbers print equally
    text = base_factors_interpretation(par)
    check_text(ctx, text, par, f, 't')


def model(ctx, sk, hi):
    f = T.flags()
    kex = T.raw(ctx, T.instantiate(ctx, sk, hi = hi))._initialise()
    m, vals = fitted.fit(ctx, kex)
    text = m.interpret()
    sops = m.sum_of_prods_kex
    lines = text.split('\n')
    cts = sops.composite_terms
    ctx.check(lines[0] == f'The fit kernel consists of {len(cts)} components:', 'the number of components is stated', line = lines[0])
    ctx.check(len(lines) == len(cts) + 1 and all(l.startswith('\t') for l in lines[1:]), 'one sentence per component', text = text)
    for i, (l, ct) in enumerate(zip(lines[1:], cts)): check_text(ctx, l[1:], ct.parameters, f, f't{i}')
    ctx.check(m.interpret() is not None, 'describing again works')


SHAPES = [('S', ['PER', 'C', 'WN', 'LIN'], []), ('P', ['PER', 'SE', 'C', 'WN', 'LIN'], []),
          ('P', ['LIN'], [('S', ['PER', 'C', 'WN', 'LIN'], [])]), ('S', ['C'], [('P', ['PER', 'LIN'], [])]),
          ('CP', ('?', T.BASES), ('?', T.BASES)), ('CW', ('?', T.BASES), ('?', T.BASES)),
          ('CP', ('S', ['PER', 'C'], []), ('P', ['SE', 'LIN'], [])), ('CW', ('P', ['PER', 'LIN'], []), ('S', ['WN', 'LIN'], [])),
          ('P', ['LIN'], [('CP', ('?', ['PER', 'C', 'WN']), ('?', ['LIN', 'SE']))]), ('S', ['WN'], [('CW', ('?', ['PER', 'C']), ('?', ['LIN', 'WN']))]),
          ('CP', ('CW', ('?', ['PER', 'C']), ('?', ['LIN'])), ('?', ['WN', 'SE'])), ('CW', ('?', ['C', 'PER']), ('CP', ('?', ['C']), ('?', ['C', 'WN']))),
          ('S', [], [('P', ['PER', 'LIN'], []), ('P', ['SE', 'LIN'], [])]), ('S', [], [('CP', ('?', ['LIN']), ('?', ['PER'])), ('P', ['SE', 'LIN'], [])]),
          ('P', [], [('CP', ('?', ['PER', 'C']), ('?', ['LIN'])), ('CW', ('?', ['SE', 'C']), ('?', ['WN']))])]


UNIFIED = [({'LIN': 2}, ()), ({'LIN': 3}, ()), ({'SE': 1, 'LIN': 2}, ()), ({'PER': 1, 'LIN': 2}, ()), ({'WN': 1, 'LIN': 3}, ()), ({'PER': 2}, ()), ({'PER': 3}, ()), ({'PER': 2, 'SE': 1}, ()),
           ({'C': 1}, ('SI',)), ({'C': 1}, ('SIr',)), ({'C': 1}, ('S', 'Sr')), ({'SE': 1, 'LIN': 1}, ('S',))]


def jobs(tier):
    q = tier == 'quick'
    js = []
    o = {'exact_replay': 'token', 'validate': 5}
    for cfg in CONFIGS:
        combos = [{'C': 1}] + [{'WN': 1, 'LIN': l} for l in range(4)] + [{'PER': p, 'SE': s, 'LIN': l} for p in range(4 if q else 6) for s in (0, 1) for l in range(4 if q else 6) if p + s + l]
        if q and cfg in ('', 'LINOFF=0'): combos += [{'PER': 4}, {'PER': 4, 'LIN': 1}, {'LIN': 4}, {'PER': 1, 'LIN': 4}, {'SE': 1, 'LIN': 4}, {'LIN': 5}]
        sigs = [()] + [(k,) for k in c09.KINDS] + ([('S', 'Sr'), ('SI', 'S'), ('SIr', 'Sr'), ('SIr', 'SIr'), ('SI', 'SIr')] if cfg in ('', 'FIXSLOPE=0') or not q else [])
        for c in combos:
            for s in sigs:
                if q and s and sum(c.values()) > 3: continue
                js.append({'name': f'text {c} {s}', 'fn': component, 'params': {'counts': c, 'sigs': s}, 'config': cfg, 'opts': o, 'weight': sum(c.values())})
        for c, s in UNIFIED:
            if q and cfg and c.get('PER', 0) > 2: continue
            js.append({'name': f'text {c} {s} with equal numbers', 'fn': component, 'params': {'counts': c, 'sigs': s, 'unify': True}, 'config': cfg, 'opts': o, 'weight': 50})
        for sk in SHAPES:
            js.append({'name': f'model {sk}', 'fn': model, 'params': {'sk': sk, 'hi': 1 if q and sk[0] not in 'S' else 2}, 'config': cfg, 'opts': o, 'weight': 100})
    return js
