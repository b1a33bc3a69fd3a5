"""C06: the covariance built from an expression is the composition the expression spells out."""
import itertools
from checks import cov, kerns, trees as T
from checks.shapes import SHAPES, MANY, GROUPS, many, grid
from symx.engine import And

CONFIGS = ['', 'FIXSLOPE=0', 'LINOFF=0', 'STDPER=1']
META = {
    'bounds': 'the listed expression shapes (up to 3 levels, changes inside and outside sums and products); base-kernel multiplicities 0..2 per node (quick: 0..1 in shapes with several nodes); 3 (thorough 4) copies of a kernel and 3 composite operands of one type in the listed shapes with many copies, and fixed expressions with 11 or 12 of them; every kind of operand (kernel, sum, product, nested sum/product, both changes) on every side of every operator, one fixed small operand per kind; all parameter values; pairs of equal and different points of one input set and of two input sets',
    'outside': 'larger expressions; more than two (listed shapes: four) copies of a kernel in one node; the independent-sides change window',
    'assumptions': ['the leaf kernels are covered by C11-C13; here they are arbitrary functions of their parameters and the two inputs'],
    'stubs': 'K of the five base kernels and of the two gate kernels (uninterpreted values); numpy float storage holds symbolic values; sums, products, change operators, parameter linking, caching and propagation are real',
}


def ktree(ker, leaves):
    """Structure of the real kernel object."""
    import GPy
    if type(ker) in leaves: return ('L', leaves[type(ker)], ker)
    if isinstance(ker, GPy.kern.Add): return flat('S', [ktree(p, leaves) for p in ker.parts])
    if isinstance(ker, GPy.kern.Prod): return flat('P', [ktree(p, leaves) for p in ker.parts])
    sides = [p for p in ker.parameters if isinstance(p, GPy.kern.Kern)]
    if hasattr(ker, 'location') and len(sides) == 2: return ('CW' if hasattr(ker, 'width') else 'CP', ker, ktree(sides[0], leaves), ktree(sides[1], leaves))
    return ('?', type(ker).__name__)
def flat(typ, kids):
    return (typ, [g for k in kids for g in (k[1] if k[0] == typ else [k])])


def shape(t):
    """Comparable shape of a kernel tree."""
    if t[0] == 'L': return t[1]
    if t[0] in ('S', 'P'): return (t[0], tuple(sorted((shape(k) for k in t[1]), key = repr)))
    if t[0] == '?': return t
    return (t[0], shape(t[2]), shape(t[3]))
def eshape(e):
    """... and of an expression."""
    if e[0] == 'L': return T.only(e)
    if T.is_change(e): return (e[0], eshape(e[1]), eshape(e[2]))
    kids = [b for b, c in e[1].items() for _ in range(c)] + [eshape(k) for k in e[2]]
    return kids[0] if len(kids) == 1 else (e[0], tuple(sorted(kids, key = repr)))


def reading(t):
    """Kernel tree -> parametrised reading, taking linked parameters only (an unlinked variance counts as one)."""
    if t[0] == 'L':
        ker = t[2]
        return ('L', t[1], {n: cov.sc(getattr(ker, n)) for n in ker.parameter_names()})
    if t[0] in ('S', 'P'): return (t[0], [reading(k) for k in t[1]])
    ker = t[1]
    d = {n: cov.sc(getattr(ker, n)) for n in ('location', 'slope', 'width') if n in [p.name for p in ker.parameters]}
    return (t[0], d, reading(t[2]), reading(t[3]))


def products(t):
    """(number of leaf factors, how many of them keep a variance) of every product; sum terms alike."""
    out = []
    if t[0] == 'P':
        l = [k for k in t[1] if k[0] == 'L']
        if l: out.append((len(l), sum('variance' in k[2] for k in l)))
    kids = t[1] if t[0] in 'SP' else [] if t[0] == 'L' else [t[2], t[3]]
    return out + [x for k in kids for x in products(k)]
def lone_leaves(t, top = True):
    """Leaves that are not factors of a product."""
    if t[0] == 'L': return [t]
    if t[0] == 'P': return [x for k in t[1] if k[0] != 'L' for x in lone_leaves(k)]
    return [x for k in (t[1] if t[0] == 'S' else [t[2], t[3]]) for x in lone_leaves(k)]
def leaves_of(t):
    if t[0] == 'L': return [t]
    return [x for k in (t[1] if t[0] in 'SP' else [t[2], t[3]]) for x in leaves_of(k)]


def built(ctx, sk, hi):
    kex = T.raw(ctx, T.instantiate(ctx, sk, hi = hi))._initialise()
    ker, names, vals = cov.symbolic_kernel(ctx, kex)
    kerns.set_params(ker, [vals[n] for n in names])
    pts = cov.Points(ctx)
    info = dict(expression = str(kex), names = names)
    t = ktree(ker, cov.leaf_types())
    e = T.of(kex)
    ctx.check(shape(t) == eshape(e), 'the kernel has each base kernel and operator of the expression with its multiplicity', kernel = shape(t), **info)
    r = reading(t)
    ctx.check(all(v == 1 for _, v in products(r)), 'exactly one base factor of every product keeps a free variance', **info)
    ctx.check(all('variance' in l[2] for l in lone_leaves(r)), 'every base kernel outside a product keeps its variance', **info)
    from GPy_ABCD.KernelExpansion.kernelOperations import base_str_to_ker
    ctx.check(all(set(l[2]) | {'variance'} == set(base_str_to_ker(l[1]).parameter_names()) for l in leaves_of(r)), 'no other parameter of an occurrence is lost', **info)
    ctx.check(cov.same_multiset(ctx, cov.params_of(r), [vals[n] for n in names]), 'every exposed parameter belongs to exactly one occurrence', **info)
    for entry, k in zip(pts.entries(), pts.of(ker)): ctx.same(k, cov.read(r, entry), 'the covariance is the composition of the expression', entry = entry[:3], **info)


def unrefined(ctx, sk, hi):
    """The kernel evaluated from the text of the expression: the same composition, with every variance kept."""
    kex = T.raw(ctx, T.instantiate(ctx, sk, hi = hi))._initialise()
    before = T.snapshot(kex)
    ker = kex.to_kernel_unrefined()
    names = [str(n) for n in ker.parameter_names_flat()]
    vals = cov.name_values(ctx, names)
    kerns.set_params(ker, [vals[n] for n in names])
    pts = cov.Points(ctx)
    info = dict(expression = str(kex), names = names)
    t = ktree(ker, cov.leaf_types())
    ctx.check(shape(t) == eshape(T.of(kex)), 'the unrefined kernel has each base kernel and operator of the expression with its multiplicity', kernel = shape(t), **info)
    r = reading(t)
    from GPy_ABCD.KernelExpansion.kernelOperations import base_str_to_ker
    ctx.check(all(set(l[2]) == set(base_str_to_ker(l[1]).parameter_names()) for l in leaves_of(r)), 'no parameter of an occurrence is lost in the unrefined kernel', **info)
    ctx.check(cov.same_multiset(ctx, cov.params_of(r), [vals[n] for n in names]), 'every parameter of the unrefined kernel belongs to exactly one occurrence', **info)
    for entry, k in zip(pts.entries(), pts.of(ker)): ctx.same(k, cov.read(r, entry), 'the unrefined covariance is the composition of the expression', entry = entry[:3], **info)
    ctx.check(T.unchanged(before, T.snapshot(kex)), 'the expression is unchanged', **info)

def built_grid(ctx, group): built(ctx, dict(grid(group))[ctx.choice('shape', [n for n, _ in grid(group)])], 1)
def unrefined_grid(ctx, group): unrefined(ctx, dict(grid(group))[ctx.choice('shape', [n for n, _ in grid(group)])], 1)


def jobs(tier):
    q = tier == 'quick'
    js = [{'name': f'{sk}', 'fn': built, 'params': {'sk': sk, 'hi': 2 if (not cfg and sk[0] in 'SP' and not sk[2]) or not q and multi(sk) < 3 else 1}, 'config': cfg, 'shims': cov.SHIMS,
             'opts': {'validate': 4 if q else 40}, 'weight': multi(sk)} for cfg in CONFIGS for sk in SHAPES if not (q and cfg == 'STDPER=1' and multi(sk) > 2)]
    js += [{'name': f'many {sk}', 'fn': built, 'params': {'sk': sk, 'hi': hi}, 'config': cfg, 'shims': cov.SHIMS, 'opts': {'validate': 4 if q else 40}, 'weight': 3} for cfg in ([''] if q else CONFIGS) for sk, hi in many(q)]
    js += [{'name': f'unrefined {sk}', 'fn': unrefined, 'params': {'sk': sk, 'hi': 1 if multi(sk) > 1 or q and cfg else 2}, 'config': cfg, 'shims': cov.SHIMS, 'opts': {'validate': 4 if q else 40}, 'weight': 2} for cfg in (('', 'FIXSLOPE=0') if q else CONFIGS) for sk in SHAPES + [m[0] for m in MANY[3:]] if not q or not cfg or multi(sk) < 2]
    js += [{'name': f'grid {g}', 'fn': built_grid, 'params': {'group': g}, 'config': cfg, 'shims': cov.SHIMS, 'opts': {'validate': 4 if q else 40}, 'weight': 4} for cfg in (CONFIGS[:1] if q else CONFIGS) for g in range(GROUPS)]
    js += [{'name': f'grid unrefined {g}', 'fn': unrefined_grid, 'params': {'group': g}, 'config': cfg, 'shims': cov.SHIMS, 'opts': {'validate': 4 if q else 40}, 'weight': 4} for cfg in (CONFIGS[:1] if q else CONFIGS) for g in range(GROUPS)]
    return js
def multi(sk): return 0 if isinstance(sk, str) or sk[0] == '?' else sum(map(multi, sk[1:])) if T.is_change(sk) else 1 + sum(map(multi, sk[2]))
