"""Independent model of kernel expressions, with (possibly symbolic) base-kernel multiplicities.

R-trees:  ('S', counts, children) sum | ('P', counts, children) product | ('CP'|'CW', left, right) change | ('L', counts) lone base kernel
counts: dict base -> int or SymInt (absent = 0).
"""
from itertools import permutations
from collections import Counter
from symx.engine import And, Or, Not, Ite, SymInt, is_sym

BASES = ['PER', 'SE', 'C', 'WN', 'LIN']
GATES = ['S', 'Sr', 'SI', 'SIr']          # the factors change operators turn into in a sum-of-products form


def flags():
    from GPy_ABCD import config
    return {'linoff': config.__dict__['__USE_LIN_KERNEL_HORIZONTAL_OFFSET'], 'se': config.__dict__['__INCLUDE_SE_KERNEL'],
            'fix': config.__dict__['__FIX_SIGMOIDAL_KERNELS_SLOPE'], 'stdper': config.__dict__['__USE_NON_PURELY_PERIODIC_PER_KERNEL']}


def tot(counts):
    s = 0
    for v in counts.values(): s = s + v
    return s
def plus(a, b):
    r = dict(a)
    for k, v in b.items(): r[k] = r.get(k, 0) + v
    return r
def lone(b): return ('L', {b: 1})


def is_change(t): return t[0] in ('CP', 'CW')


def nf(ctx, t, linoff):
    """The documented normal form."""
    if t[0] == 'L': return t
    if is_change(t): return (t[0], lone_of(ctx, nf(ctx, t[1], linoff)), lone_of(ctx, nf(ctx, t[2], linoff)))
    typ, counts, kids = t
    counts, comps = dict(counts), []
    for k in kids:
        k = collapse(ctx, nf(ctx, k, linoff))
        if k[0] == 'L': counts = plus(counts, k[1])
        elif k[0] == typ:
            counts = plus(counts, k[1]); comps += k[2]
        else: comps.append(k)
    g = lambda b: counts.get(b, 0)
    out = {b: c for b, c in counts.items()}
    has = lambda c: c > 0
    if typ == 'S':
        out['WN'] = Ite(has(g('WN')), 1, 0)
        out['C'] = Ite(And(has(g('C')), True if not linoff else Not(has(g('LIN')))), 1, 0)
    else:
        w = has(g('WN'))
        others = 0
        for b in counts:
            if b != 'C' and b not in GATES: others = others + counts[b]
        alone = And(others == 0, len(comps) == 0)
        for b in counts:
            if b == 'WN': out[b] = Ite(w, 1, 0)
            elif b == 'LIN' or b in GATES: pass
            elif b == 'C': out[b] = Ite(And(Not(w), has(g('C')), alone), 1, 0)
            elif b == 'SE': out[b] = Ite(And(Not(w), has(g('SE'))), 1, 0)
            else: out[b] = Ite(w, 0, counts[b])
    return (typ, out, comps)


def collapse(ctx, t):
    """One-term sums and products are their term."""
    if t[0] in ('S', 'P'):
        if not t[2]:
            if ctx.decide(tot(t[1]) == 1): return ('L', t[1])
        elif len(t[2]) == 1:
            if ctx.decide(tot(t[1]) == 0): return collapse(ctx, t[2][0])
    return t
def lone_of(ctx, t): return collapse(ctx, t)


def standard(ctx, t, linoff):
    """Root form: normal form; a lone base kernel is a one-term sum."""
    t = collapse(ctx, nf(ctx, t, linoff))
    return ('S', t[1], []) if t[0] == 'L' else t


def of(ke):
    """R-tree of a real expression (or base-kernel string)."""
    if isinstance(ke, str): return lone(ke)
    n = type(ke).__name__
    if n == 'ChangeKE': return (ke.CP_or_CW, of(ke.left), of(ke.right))
    return ('S' if n == 'SumKE' else 'P', dict(ke.base_terms), [of(c) for c in ke.composite_terms])


def eq(a, b):
    """Equality formula (order-insensitive)."""
    if a[0] != b[0]: return False
    if a[0] == 'L': return eqc(a[1], b[1])
    if is_change(a): return And(eq(a[1], b[1]), eq(a[2], b[2]))
    return And(eqc(a[1], b[1]), eqm(a[2], b[2]))
def eqc(a, b): return And([a.get(k, 0) == b.get(k, 0) for k in sorted(set(a) | set(b))])
def eqm(xs, ys):
    if len(xs) != len(ys): return False
    if not xs: return True
    m = [[eq(x, y) for y in ys] for x in xs]
    return Or([And([m[i][p] for i, p in enumerate(perm)]) for perm in permutations(range(len(ys)))])


def subset(xs, ys): return And([Or([eq(x, y) for y in ys]) for x in xs])


def nodes(t, path = ()):
    """All rewritable nodes with their positions (lone sides of changes included, as one-term sums)."""
    out = [(path, t)]
    if t[0] in ('S', 'P'):
        for i, k in enumerate(t[2]): out += nodes(k, path + (i,))
    elif is_change(t):
        for i in (1, 2):
            s = t[i]
            out += [(path + (i,), ('S', s[1], []))] if s[0] == 'L' else nodes(s, path + (i,))
    return out
def replace_at(t, path, new):
    if not path: return new
    i = path[0]
    if is_change(t):
        kids = [t[1], t[2]]
        kids[i - 1] = replace_at(kids[i - 1], path[1:], new)
        return (t[0], kids[0], kids[1])
    kids = list(t[2]); kids[i] = replace_at(kids[i], path[1:], new)
    return (t[0], t[1], kids)


def show(t):
    if t[0] == 'L': return '|'.join(k for k, v in t[1].items() if is_sym(v) or v)
    if is_change(t): return f'{t[0]}({show(t[1])}, {show(t[2])})'
    return f"{t[0]}({ {k: v for k, v in t[1].items() if is_sym(v) or v} }, [{', '.join(show(k) for k in t[2])}])"


# ---- skeletons -------------------------------------------------------------------------------------------------
# A skeleton is the tree shape; every S/P node gets symbolic multiplicities for the bases listed.
#   ('S', bases, [children]) / ('P', bases, [children]) (a dict of bases gives fixed multiplicities) / ('CP', l, r) with l, r a skeleton or '?bases' (a symbolic choice of lone kernel)

def instantiate(ctx, sk, name = 'n', hi = None, bases = None):
    """R-tree with fresh symbolic multiplicities; every sum/product has at least one term."""
    if isinstance(sk, str): return lone(sk)
    if sk[0] == '?': return lone(ctx.choice(name + '_leaf', sk[1]))
    if is_change(sk): return (sk[0], instantiate(ctx, sk[1], name + 'l', hi), instantiate(ctx, sk[2], name + 'r', hi))
    typ, bs, kids = sk
    counts = dict(bs) if isinstance(bs, dict) else {b: ctx.int(f'{name}_{b}', 0, hi) for b in bs}
    if not kids: ctx.assume(tot(counts) >= 1)
    return (typ, counts, [instantiate(ctx, k, f'{name}{i}', hi) for i, k in enumerate(kids)])


def raw(ctx, t):
    """The real expression for an R-tree, built bottom-up through the public constructors."""
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
    if t[0] == 'L': return only(t)
    if is_change(t): return ChangeKE(t[0], raw(ctx, t[1]), raw(ctx, t[2]))
    counts = Counter({b: c for b, c in t[1].items() if ctx.symbolic or c > 0})
    kids = [raw(ctx, k) for k in t[2]]
    return (SumKE if t[0] == 'S' else ProductKE)(counts, kids)
def assembled(ctx, t, name = 'l', top = None):
    """The same tree put together by assigning operands to nodes (as rewriting does), nothing simplified yet and with arbitrary stale links below the top."""
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
    if t[0] == 'L': return only(t)
    ke = ChangeKE(t[0], 'PER', 'PER') if is_change(t) else (SumKE if t[0] == 'S' else ProductKE)([])
    if top is not None:
        elsewhere = SumKE(['PER'], [ProductKE(['PER', 'LIN'])])
        ke.root = top if ctx.decide(ctx.bool(name + '_root')) else elsewhere
        ke.parent = elsewhere
    else: top = ke
    if is_change(t): ke.left, ke.right = assembled(ctx, t[1], name + 'l', top), assembled(ctx, t[2], name + 'r', top)
    else:
        ke.base_terms = Counter({b: c for b, c in t[1].items() if ctx.symbolic or c > 0})
        ke.composite_terms = [assembled(ctx, k, f'{name}{i}', top) for i, k in enumerate(t[2])]
    return ke
def only(t):
    (b, c), = [(b, c) for b, c in t[1].items()]
    return b


# ---- structural well-formedness of real expressions --------------------------------------------------------------
def canonical_violation(ctx, ke, top = True):
    """None or a description of why a simplified real expression is not canonical."""
    n = type(ke).__name__
    if isinstance(ke, str): return None
    if n == 'ChangeKE':
        for s in (ke.left, ke.right):
            if not isinstance(s, str):
                v = canonical_violation(ctx, s, False)
                if v: return v
        return None
    k = len(ke.composite_terms)
    if not top and k <= 1:
        s = tot(dict(ke.base_terms)) + k
        if ctx.decide(s <= 1): return f'{n} operand with at most one term'
    if top and k == 0 and ctx.decide(tot(dict(ke.base_terms)) == 0): return f'empty {n}'
    for c in ke.composite_terms:
        if isinstance(c, str): return 'raw string among composite terms'
        if type(c) is type(ke): return f'{n} directly inside {n}'
        v = canonical_violation(ctx, c, False)
        if v: return v
    return None


def link_violation(ke):
    """None or what is wrong with parent/root links of the whole tree below the root `ke`."""
    if ke.parent is not None: return 'root has a parent'
    if ke.root is not ke: return 'root does not know it is the root'
    def go(x):
        kids = [k for k in (x.left, x.right) if not isinstance(k, str)] if type(x).__name__ == 'ChangeKE' else x.composite_terms
        for k in kids:
            if k.parent is not x: return f'parent of {type(k).__name__} is wrong'
            if k.root is not ke: return f'root of {type(k).__name__} is wrong'
            v = go(k)
            if v: return v
        return None
    return go(ke)


def snapshot(ke):
    """Identity-and-content snapshot of a real expression for side-effect checks (counts stay symbolic)."""
    if isinstance(ke, str): return ('str', ke)
    if type(ke).__name__ == 'ChangeKE': return ('C', id(ke), ke.CP_or_CW, snapshot(ke.left), snapshot(ke.right), id(ke.parent), id(ke.root), dict(ke.parameters))
    return (type(ke).__name__, id(ke), dict(ke.base_terms), [snapshot(c) for c in ke.composite_terms], id(ke.parent), id(ke.root), dict(ke.parameters))
def unchanged(a, b):
    """Formula: two snapshots are the same."""
    if a[0] != b[0]: return False
    if a[0] == 'str': return a[1] == b[1]
    if a[0] == 'C': return And(a[1] == b[1], a[2] == b[2], unchanged(a[3], b[3]), unchanged(a[4], b[4]), a[5:] == b[5:])
    return And([a[1] == b[1], eqc(a[2], b[2]), len(a[3]) == len(b[3])] + [unchanged(x, y) for x, y in zip(a[3], b[3])] + [a[4:] == b[4:]])
