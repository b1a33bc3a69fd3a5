"""C07: after a fit every node records exactly the parameter values of its own occurrence."""
from copy import deepcopy
from checks import cov, kerns, fitted, trees as T
from checks.shapes import SHAPES, GROUPS, many, grid
from checks.c06 import multi

CONFIGS = ['', 'FIXSLOPE=0', 'LINOFF=0']
META = {
    'bounds': 'the listed expression shapes (up to 3 levels, changes inside and outside sums and products, repeated kernels among siblings and on both sides of changes); base-kernel multiplicities 0..2 per node (quick: 0..1 in shapes with several nodes); 3 (thorough 4) copies of a kernel and 3 composite operands of one type in the listed shapes with many copies, and fixed expressions with 11 or 12 of them; every kind of operand (kernel, sum, product, nested sum/product, both changes) on every side of every operator, one fixed small operand per kind; all parameter values; pairs of equal and different points of one input set and of two input sets',
    'outside': 'larger expressions; more than two (listed shapes: four) copies of a kernel in one node; the independent-sides change window',
    'assumptions': ['the optimiser may return any parameter values', 'kernels of the same kind that are interchangeable factors or terms of one node may be listed in any order'],
    'stubs': 'K of the five base kernels and of the two gate kernels (uninterpreted values); numpy float storage holds symbolic values; the fitted model is a real GPRegression whose parameter values are symbolic',
}


def annotated(ke):
    """Annotated expression -> parametrised reading (see cov.read); AssertionError when its parameters do not have the documented layout."""
    n = type(ke).__name__
    ps = {k: v for k, v in ke.parameters.items() if v}
    if n == 'ChangeKE':
        d, = ps.pop(ke.CP_or_CW)
        sides = []
        for branch, s in (('left', ke.left), ('right', ke.right)):
            if isinstance(s, str):
                v, = ps.pop((branch, s))
                sides.append(('L', s, dict(v)))
            else: sides.append(annotated(s))
        assert not ps, ps
        return (ke.CP_or_CW, dict(d), sides[0], sides[1])
    kids = []
    if n == 'ProductKE' and sum(ke.base_terms.values()):
        v, = ps.pop('ProductKE')
        assert set(v) == {'variance'}, v
        kids.append(('V', v['variance']))
    for b, c in ke.base_terms.items():
        if not c: continue
        vs = ps.pop(b)
        assert len(vs) == c, (b, vs)
        kids += [('L', b, dict(v)) for v in vs]
        assert n == 'SumKE' or not any('variance' in v for v in vs), vs
        assert n == 'ProductKE' or all('variance' in v for v in vs), vs
    assert not ps, ps
    return ('S' if n == 'SumKE' else 'P', kids + [annotated(c) for c in ke.composite_terms])


def fitted_kernel(ctx, kex, vals):
    """The fitted covariance: a real kernel of the expression holding the fitted values."""
    ker = kex.to_kernel()
    names = [str(n) for n in ker.parameter_names_flat()]
    assert len(names) == len(vals)
    return kerns.set_params(ker, list(vals.values()))


def matched(ctx, sk, hi):
    from GPy_ABCD.KernelExpansion.kernelOperations import fit_ker_to_kex_with_params
    kex = T.raw(ctx, T.instantiate(ctx, sk, hi = hi))._initialise()
    before = T.snapshot(kex)
    m, vals = fitted.fit(ctx, kex)
    cov.generic(ctx, vals.values())
    info = dict(expression = str(kex), names = list(vals))
    own = deepcopy(kex)
    ann = fit_ker_to_kex_with_params(m.model.kern, own)
    ctx.check(ann == kex, 'the annotated expression is the same expression', annotated = str(ann), **info)
    try: r = annotated(ann)
    except (AssertionError, KeyError, ValueError) as e: ctx.check(False, 'every node records one set of values per base kernel and change operator', error = repr(e), **info)
    ctx.check(cov.same_multiset(ctx, cov.params_of(r), list(vals.values())), 'every free parameter is attributed exactly once', got = cov.params_of(r), **info)
    ker = fitted_kernel(ctx, kex, vals)
    pts = cov.Points(ctx)
    for entry, k in zip(pts.entries(), pts.of(ker)): ctx.same(k, cov.read(r, entry), 'the recorded values are those of the own occurrence', entry = entry[:3], reading = r, **info)
    ctx.check(T.unchanged(before, T.snapshot(kex)), 'the expression of the model is not annotated', **info)

def matched_grid(ctx, group): matched(ctx, dict(grid(group))[ctx.choice('shape', [n for n, _ in grid(group)])], 1)


def jobs(tier):
    q = tier == 'quick'
    js = [{'name': f'{sk}', 'fn': matched, 'params': {'sk': sk, 'hi': 2 if (not cfg and sk[0] in 'SP' and not sk[2]) or not q and multi(sk) < 3 else 1}, 'config': cfg, 'shims': cov.SHIMS,
             'opts': {'validate': 4 if q else 40}, 'weight': multi(sk)} for cfg in CONFIGS for sk in SHAPES]
    js += [{'name': f'many {sk}', 'fn': matched, 'params': {'sk': sk, 'hi': hi}, 'config': cfg, 'shims': cov.SHIMS, 'opts': {'validate': 4 if q else 40}, 'weight': 3} for cfg in ([''] if q else CONFIGS) for sk, hi in many(q)]
    js += [{'name': f'grid {g}', 'fn': matched_grid, 'params': {'group': g}, 'config': cfg, 'shims': cov.SHIMS, 'opts': {'validate': 4 if q else 40}, 'weight': 4} for cfg in (CONFIGS[:1] if q else CONFIGS) for g in range(GROUPS)]
    return js
