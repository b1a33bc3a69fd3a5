"""C08: the sum-of-products form is the fitted covariance."""
from checks import cov, kerns, fitted, trees as T
from checks.shapes import SHAPES, GROUPS, many, grid
from checks.c06 import multi
from checks.c07 import fitted_kernel

CONFIGS = ['', 'FIXSLOPE=0', 'LINOFF=0']
META = {
    'bounds': 'the listed expression shapes (up to 3 levels, changes inside and outside sums and products); base-kernel multiplicities 0..2 per node (quick: 0..1 in shapes with several nodes); 3 (thorough 4) copies of a kernel and 3 composite operands of one type in the listed shapes with many copies, and fixed expressions with 11 or 12 of them; every kind of operand (kernel, sum, product, nested sum/product, both changes) on every side of every operator, one fixed small operand per kind; all parameter values; pairs of equal and different points of one input set and of two input sets',
    'outside': 'larger expressions; more than two (listed shapes: four) copies of a kernel in one node; the independent-sides change window',
    'assumptions': ['the optimiser may return any parameter values'],
    'stubs': 'K of the five base kernels and of the two gate kernels (uninterpreted values with: 1 at equal points for periodic and smooth kernels, products of smooth kernels add their inverse squared lengthscales); numpy float storage holds symbolic values; the fitted model is a real GPRegression whose parameter values are symbolic',
}


def component(ct):
    """One component -> reading; AssertionError when it is not a pure product with one overall variance."""
    assert type(ct).__name__ == 'ProductKE' and not ct.composite_terms, str(ct)
    ps = {k: v for k, v in ct.parameters.items() if v}
    v, = ps.pop('ProductKE')
    assert set(v) == {'variance'}, v
    kids = [('V', v['variance'])]
    for b, c in ct.base_terms.items():
        if not c: continue
        vs = ps.pop(b)
        if b == 'WN' and not any(vs): vs = vs[:1]      # absorbed noise factors have no parameters of their own
        assert len(vs) == c, (b, c, vs)
        assert not any('variance' in d for d in vs), vs
        kids += [('L', b, gate(b, d) if b in ('S', 'Sr', 'SI', 'SIr') else dict(d)) for d in vs]
    assert not ps, ps
    return ('P', kids)
def gate(b, d):
    g = cov.gate_pars('CP' if b in ('S', 'Sr') else 'CW', d)
    return dict(zip(cov.PARS[b], g))


def sops(ctx, sk, hi):
    kex = T.raw(ctx, T.instantiate(ctx, sk, hi = hi))._initialise()
    m, vals = fitted.fit(ctx, kex)
    cov.generic(ctx, vals.values())
    info = dict(expression = str(kex), names = list(vals))
    pts = cov.Points(ctx)
    ker = fitted_kernel(ctx, kex, vals)
    ks = pts.of(ker)          # also introduces the lengthscales of the fitted smooth kernels
    form = m.sum_of_prods_kex
    ctx.check(type(form).__name__ == 'SumKE' and not sum(form.base_terms.values()), 'no base term is left outside a product', form = repr(form), **info)
    try: r = ('S', [component(ct) for ct in form.composite_terms])
    except (AssertionError, KeyError, ValueError) as e: ctx.check(False, 'every component is a pure product with one overall variance', error = repr(e), form = repr(form), **info)
    for entry, k in zip(pts.entries(), ks): ctx.same(k, cov.read(r, entry), 'the sum-of-products form is the fitted covariance', entry = entry[:3], form = repr(form), **info)

def sops_grid(ctx, group): sops(ctx, dict(grid(group))[ctx.choice('shape', [n for n, _ in grid(group)])], 1)


def jobs(tier):
    q = tier == 'quick'
    js = [{'name': f'{sk}', 'fn': sops, 'params': {'sk': sk, 'hi': 2 if (not cfg and sk[0] in 'SP' and not sk[2]) or not q and multi(sk) < 3 else 1}, 'config': cfg, 'shims': cov.SHIMS,
             'opts': {'validate': 4 if q else 40}, 'weight': multi(sk)} for cfg in CONFIGS for sk in SHAPES]
    js += [{'name': f'many {sk}', 'fn': sops, 'params': {'sk': sk, 'hi': hi}, 'config': cfg, 'shims': cov.SHIMS, 'opts': {'validate': 4 if q else 40}, 'weight': 3} for cfg in ([''] if q else CONFIGS) for sk, hi in many(q)]
    js += [{'name': f'grid {g}', 'fn': sops_grid, 'params': {'group': g}, 'config': cfg, 'shims': cov.SHIMS, 'opts': {'validate': 4 if q else 40}, 'weight': 4} for cfg in (CONFIGS[:1] if q else CONFIGS) for g in range(GROUPS)]
    return js
