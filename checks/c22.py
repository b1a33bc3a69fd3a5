"""C22: the list utilities meet their contracts for every equality pattern of the elements."""
from itertools import permutations
from symx.engine import And, Or, Not, Iff, Implies, Ite

META = {
    'bounds': 'lists of up to 4 elements (5 in the thorough tier) with every pattern of equality between elements, every predicate and key pattern, true and false elements and values, chunk sizes 1..6, dependency graphs of up to 3 nodes with up to 2 dependencies each (4 nodes thorough), all real intervals',
    'outside': 'longer lists',
    'assumptions': ['element equality is an equivalence relation', 'interval ends are ordered'],
    'stubs': 'elements are tokens whose equality is decided by a symbolic integer',
}


class El:
    """Unhashable element; equality is equality of a (symbolic) identifier."""
    def __init__(self, i, tag): self.i, self.tag = i, tag
    def __eq__(self, o): return (self.i == o.i) if isinstance(o, El) else False
    def __ne__(self, o): return Not(self == o)
    __hash__ = None
    def __repr__(self): return f'El({self.tag})'
class HEl(El):
    def __hash__(self): return 0


class FEl(El):
    def __bool__(self): return False
    def __len__(self): return 0
class FHEl(HEl):
    def __bool__(self): return False


FALSE = {El: FEl, HEl: FHEl}
def els(ctx, n, name = 'e', cls = El, **kw):
    if getattr(ctx, 'falsy', False): cls = FALSE[cls]
    return [cls(ctx.int(f'{name}{k}', 0, 9), f'{name}{k}') for k in range(n)]
def predicate(ctx, p):
    """The predicate x -> p[x]; with falsy elements its results are true or false objects rather than booleans."""
    if not getattr(ctx, 'falsy', False): return lambda x: p[id(x)]
    return lambda x: ['yes'] if ctx.decide(p[id(x)]) else ''
def odd(fn):
    def f(ctx, **kw):
        ctx.falsy = True
        return fn(ctx, **kw)
    f.__name__ = fn.__name__ + '_falsy'
    return f
def count(e, xs):
    c = 0
    for x in xs: c = c + Ite(e == x, 1, 0)
    return c
def same_items(xs, ys): return len(xs) == len(ys) and all(a is b for a, b in zip(xs, ys))
def is_in(e, xs): return Or([e == x for x in xs])


def unique_(ctx, n, cls, fn):
    from GPy_ABCD.Util import genericUtil as U
    xs = els(ctx, n, cls = El if cls == 'El' else HEl)
    arg = list(xs)
    r = getattr(U, fn)(arg)
    ctx.check(same_items(arg, xs), f'{fn} does not modify its input')
    r = list(r)
    ctx.check(And([Not(a == b) for i, a in enumerate(r) for b in r[:i]]), f'{fn}: results are pairwise different', r = lambda: r)
    ctx.check(And([is_in(x, r) for x in xs]), f'{fn}: every element is represented', r = lambda: r)
    ctx.check(And([is_in(x, xs) for x in r]), f'{fn}: only given elements are returned', r = lambda: r)
    if fn == 'unique':
        ids = [id(x) for x in xs]
        ctx.check(all(any(a is x for x in xs) for a in r), 'unique: results are the given objects')
        pos = [ids.index(id(a)) for a in r]
        ctx.check(pos == sorted(pos), 'unique: order is kept')
        for k, p in enumerate(pos): ctx.check(And([Not(xs[p] == x) for x in xs[:p]]), 'unique: the first occurrence is the one kept')


def eqelems(ctx, n, m, fn):
    from GPy_ABCD.Util import genericUtil as U
    cls = HEl if fn.endswith('_h') else El
    xs, ys = els(ctx, n, 'x', cls), els(ctx, m, 'y', cls)
    ax, ay = list(xs), list(ys)
    r = getattr(U, fn)(ax, ay)
    ctx.check(same_items(ax, xs) and same_items(ay, ys), f'{fn} does not modify its inputs')
    if fn == 'eq_elems': want = And([n == m] + [count(x, xs) == count(x, ys) for x in xs + ys])
    else: want = And([is_in(x, ys) for x in xs] + [is_in(y, xs) for y in ys])
    ctx.check(Iff(r, want), f'{fn}: true exactly for equal multisets (sets)')


def diff_(ctx, n, m, fn):
    from GPy_ABCD.Util import genericUtil as U
    cls = HEl if fn.endswith('_h') else El
    xs, ys = els(ctx, n, 'x', cls), els(ctx, m, 'y', cls)
    ax, ay = list(xs), list(ys)
    r = list(getattr(U, fn)(ax, ay))
    ctx.check(same_items(ax, xs) and same_items(ay, ys), f'{fn} does not modify its inputs')
    if fn == 'diff':
        for x in xs: ctx.check(count(x, r) == Ite(count(x, xs) > count(x, ys), count(x, xs) - count(x, ys), 0), 'diff: multiset difference', r = lambda: r)
        ctx.check(And([is_in(x, xs) for x in r]), 'diff: only given elements')
        # a subsequence of xs (up to equality of elements)
        def sub(i, j):
            if i == len(r): return True
            if j == len(xs): return False
            return Or(And(r[i] == xs[j], sub(i + 1, j + 1)), sub(i, j + 1))
        ctx.check(sub(0, 0), 'diff: the remaining elements keep their order', r = lambda: r)
    else:
        for x in xs: ctx.check(Iff(is_in(x, r), Not(is_in(x, ys))), 'diff_h: set difference')
        ctx.check(And([is_in(x, xs) for x in r]), 'diff_h: only given elements')


def partition_(ctx, n):
    from GPy_ABCD.Util import genericUtil as U
    xs = els(ctx, n); p = {id(x): ctx.bool(f'p{k}') for k, x in enumerate(xs)}
    arg = list(xs)
    a, b = U.partition(predicate(ctx, p), arg)
    ctx.check(same_items(arg, xs), 'partition does not modify its input')
    yes = [x for x in xs if ctx.decide(p[id(x)])]; no = [x for x in xs if not ctx.decide(p[id(x)])]
    ctx.check(same_items(list(a), yes), 'partition: first the elements satisfying the predicate, in order')
    ctx.check(same_items(list(b), no), 'partition: then the others, in order')
    d = object()
    f = U.first(predicate(ctx, p), list(xs), d)
    ctx.check(f is (yes[0] if yes else d), 'first: the first element satisfying the predicate or the default')


def group(ctx, n):
    from GPy_ABCD.Util import genericUtil as U
    xs = els(ctx, n); keys = [HEl(ctx.int(f'k{k}', 0, 9), f'k{k}') for k in range(n)]
    kk = {id(x): k for x, k in zip(xs, keys)}
    arg = list(xs)
    r = U.group_by(lambda x: kk[id(x)], arg)
    ctx.check(same_items(arg, xs), 'group_by does not modify its input')
    items = list(r.items())
    ctx.check(And([Not(a == b) for i, (a, _) in enumerate(items) for b, _ in items[:i]]), 'group_by: keys are different')
    ctx.check(sum(len(v) for _, v in items) == n, 'group_by: every element in exactly one group')
    for key, g in items:
        want = [x for x, k in zip(xs, keys) if ctx.decide(k == key)]
        ctx.check(same_items(list(g), want), 'group_by: the group of a key has exactly the elements with that key, in order')


def chunks(ctx, n):
    from GPy_ABCD.Util import genericUtil as U
    xs = els(ctx, n); size = ctx.int('size', 1, 6)
    arg = list(xs)
    r = [list(c) for c in U.chunk(arg, size)]
    ctx.check(same_items(arg, xs), 'chunk does not modify its input')
    ctx.check(same_items([x for c in r for x in c], xs), 'chunk: the chunks concatenate to the list')
    for i, c in enumerate(r):
        ctx.check((len(c) == size) if i < len(r) - 1 else And(len(c) >= 1, len(c) <= size), 'chunk: every chunk has the size, the last at most that and at least one')
    lens = [ctx.choice(f'len{i}', [0, 1, 2]) for i in range(3)]
    lists = [els(ctx, l, f'l{i}_') for i, l in enumerate(lens)]
    args = [list(l) for l in lists]
    ctx.check(same_items(U.flatten(args), [x for l in lists for x in l]), 'flatten: concatenation in order')
    ctx.check(all(same_items(a, l) for a, l in zip(args, lists)), 'flatten does not modify its input')
    m = ctx.choice('m', [1, 2, 3])
    tuples = [tuple(els(ctx, 2, f't{i}_')) for i in range(m)]
    z = U.unzip(list(tuples))
    ctx.check(len(z) == 2 and all(same_items(z[k], [t[k] for t in tuples]) for k in (0, 1)), 'unzip: the lists of first and second components')
    z = list(U.unzip_lazy(list(tuples)))
    ctx.check(len(z) == 2 and all(same_items(z[k], [t[k] for t in tuples]) for k in (0, 1)), 'unzip_lazy: the lists of first and second components')
    t = tuples[0]
    ctx.check(U.fst(t) is t[0] and U.snd(t) is t[1], 'fst and snd')
    mark = []
    ctx.check(U.on(lambda *a: a, t, lambda x, k: (x, k), 3) == ((t[0], 3), (t[1], 3)), 'on: the function of the transformed arguments')
    ctx.check(U.on_a(lambda *a: a, t, 'tag') == (t[0].tag, t[1].tag), 'on_a: the function of the attributes')
    ctx.check(U.on_m(lambda *a: a, t, '__repr__') == (repr(t[0]), repr(t[1])), 'on_m: the function of the method results')


def topo(ctx, degs):
    from GPy_ABCD.Util import genericUtil as U
    n = len(degs)
    deps = [[ctx.int(f'd{i}_{k}', 0, n) for k in range(d)] for i, d in enumerate(degs)]      # n: a missing node
    arg = [(i, list(d)) for i, d in enumerate(deps)]
    def good(order):
        pos = {v: i for i, v in enumerate(order)}
        return And([Or([d == v for v in range(n) if pos[v] < pos[i]]) for i in range(n) for d in deps[i]])
    possible = Or([good(o) for o in permutations(range(n))]) if n else True
    try: r = U.topological_sort(arg)
    except ValueError:
        ctx.check(Not(possible), 'topological_sort fails only for cyclic or missing dependencies')
        return
    ctx.check([a for a, _ in arg] == list(range(n)) and all(same_items(a[1], d) or a[1] == d for a, d in zip(arg, deps)), 'topological_sort does not modify its input')
    ctx.check(sorted(r) == list(range(n)), 'topological_sort: every node once', r = r)
    ctx.check(good(list(r)), 'topological_sort: dependencies come first', r = r)


def fold(ctx, n):
    from GPy_ABCD.Util import genericUtil as U
    xs = els(ctx, n); p = {id(x): ctx.bool(f'p{k}') for k, x in enumerate(xs)}
    arg = list(xs)
    acc, rest = U.foldq(lambda a, x: a + [x], lambda a, x, ys: ys, predicate(ctx, p), arg, [])
    ctx.check(same_items(arg, xs), 'foldq does not modify its input')
    yes = [x for x in xs if ctx.decide(p[id(x)])]; no = [x for x in xs if not ctx.decide(p[id(x)])]
    ctx.check(same_items(list(acc), yes) and same_items(list(rest), no), 'foldq: consumes in order exactly the elements satisfying the condition')
    try:
        r = U.foldq_(lambda a, x: a + [x], lambda a, x, ys: ys, predicate(ctx, p), list(xs), [])
        ctx.check(not no and same_items(list(r), yes), 'foldq_: succeeds only without leftovers')
    except ValueError: ctx.check(bool(no), 'foldq_: fails only with leftovers')
    # updating the remaining elements: dropping those equal to the consumed one
    acc, rest = U.foldq(lambda a, x: a + [x], lambda a, x, ys: [y for y in ys if not (y == x)], lambda x: True, list(xs), [])
    want = []
    for x in xs:
        if not ctx.decide(is_in(x, want)): want.append(x)
    ctx.check(same_items(list(acc), want) and list(rest) == [], 'foldq: the update is applied to the remaining elements at every step')
    # the condition is re-evaluated on the updated elements; the first that satisfies it is next; accumulator and update see the right state
    log = []
    def g(a, x, ys):
        log.append((list(a), x, list(ys))); return ys
    U.foldq(lambda a, x: a + [x], g, predicate(ctx, p), list(xs), [])
    for k, (a, x, ys) in enumerate(log):
        ctx.check(x is yes[k] and same_items(a, yes[:k]) and same_items(ys, [y for y in xs if not any(y is z for z in yes[:k + 1])]), 'foldq: the update receives the accumulator, the element and what remains')


def dicts(ctx, n, m):
    from GPy_ABCD.Util import genericUtil as U
    k0, k1 = els(ctx, n, 'a', HEl), els(ctx, m, 'b', HEl)
    for ks in (k0, k1): ctx.assume(And([Not(x == y) for i, x in enumerate(ks) for y in ks[:i]]))
    val = (lambda t, i: (None, 0, '', [])[i]) if getattr(ctx, 'falsy', False) else (lambda t, i: (t, i))
    d0 = {k: val('v0', i) for i, k in enumerate(k0)}; d1 = {k: val('v1', i) for i, k in enumerate(k1)}
    c0, c1 = list(d0.items()), list(d1.items())
    # common keys
    z = list(U.zip_maps(d0, d1))
    want = [(a, b) for a in k0 for b in k1 if ctx.decide(a == b)]
    ctx.check(len(z) == len(want), 'zip_maps: exactly the common keys')
    for key, vals in z:
        ctx.check(Or([And(key == a, vals == (d0[a], d1[b])) for a, b in want]), 'zip_maps: the values of the common key in both maps')
    own = list(U.zip_maps(d0))
    ctx.check(len(own) == n and all(any(key is k and vals[0] is v and len(vals) == 1 for k, v in c0) for key, vals in own), 'zip_maps of one map: its own entries')
    # three maps: the third has some of the keys of the first
    third = [(k, val('v2', i)) for i, k in enumerate(k0) if bool(ctx.bool(f'in the third map {i}'))]
    got = list(U.zip_maps(d0, d1, dict(third)))
    common = [(a, d0[a], d1[b], v) for a, b in want for k, v in third if k is a]
    ctx.check(len(got) == len(common) and all(len(vals) == 3 for _, vals in got), 'zip_maps of three maps: exactly the keys common to all')
    for key, vals in got: ctx.check(Or([And(key == a, tuple(vals) == vs) for a, *vs in common for vs in [tuple(vs)]]), 'zip_maps of three maps: the value of each map in order')
    r = U.update_dict_with(d0, d1, lambda x, y: ('f', x, y))
    ctx.check(r is d0, 'update_dict_with returns the updated dictionary')
    ctx.check(list(d1.items()) == c1 and all(a is b for (a, _), (b, _) in zip(d1.items(), c1)), 'update_dict_with does not modify the second dictionary')
    pairs = list(r.items())
    ctx.check(len(pairs) == n + m - len(want), 'update_dict_with: the union of the keys')
    def at(k):
        return [v for kk, v in pairs if ctx.decide(kk == k)]
    for (a, v) in c0:
        hit = [b for x, b in want if x is a]
        ctx.check(at(a) == [('f', v, dict((id(k), w) for k, w in c1)[id(hit[0])]) if hit else v], 'update_dict_with: combined where present in both, unchanged otherwise')
    for (b, v) in c1:
        if not any(y is b for _, y in want): ctx.check(at(b) == [v], 'update_dict_with: new keys are added with their value')


def overlap(ctx):
    from GPy_ABCD.Util import genericUtil as U
    a0, a1, b0, b1, t = (ctx.real(k) for k in ('a0', 'a1', 'b0', 'b1', 't'))
    ctx.assume(And(a0 <= a1, b0 <= b1))
    r = U.interval_overlap((a0, a1), (b0, b1))
    lo, hi = Ite(a0 > b0, a0, b0), Ite(a1 < b1, a1, b1)
    ctx.same(r, Ite(hi > lo, hi - lo, 0), 'interval_overlap: the length of the intersection')
    ctx.same(r, U.interval_overlap((b0, b1), (a0, a1)), 'interval_overlap: symmetric')


def jobs(tier):
    N = 4 if tier == 'quick' else 5
    js = []
    def j(name, fn_, **p): js.append({'name': name, 'fn': fn_, 'params': p, 'opts': {'validate': 30}})
    for n in range(N + 1):
        j(f'unique {n}', unique_, n = n, cls = 'El', fn = 'unique')
        j(f'unique_h {n}', unique_, n = n, cls = 'HEl', fn = 'unique_h')
        j(f'partition {n}', partition_, n = n)
        j(f'group_by {n}', group, n = n)
        j(f'chunk {n}', chunks, n = n)
        j(f'fold {n}', fold, n = n)
        for m in range(N):
            if n + m > N + 2: continue
            for f in ('eq_elems', 'eq_elems_h'): j(f'{f} {n} {m}', eqelems, n = n, m = m, fn = f)
            for f in ('diff', 'diff_h'): j(f'{f} {n} {m}', diff_, n = n, m = m, fn = f)
            if n <= 3 and m <= 3: j(f'dicts {n} {m}', dicts, n = n, m = m)
    for n in range(1, 4):      # elements, values and predicate results that are false
        j(f'unique {n} falsy', odd(unique_), n = n, cls = 'El', fn = 'unique')
        j(f'partition {n} falsy', odd(partition_), n = n)
        j(f'group_by {n} falsy', odd(group), n = n)
        j(f'chunk {n} falsy', odd(chunks), n = n)
        j(f'fold {n} falsy', odd(fold), n = n)
        for m in range(1, 4):
            j(f'eq_elems {n} {m} falsy', odd(eqelems), n = n, m = m, fn = 'eq_elems')
            j(f'diff {n} {m} falsy', odd(diff_), n = n, m = m, fn = 'diff')
            j(f'dicts {n} {m} falsy', odd(dicts), n = n, m = m)
    j('eq_elems 4 4', eqelems, n = 4, m = 4, fn = 'eq_elems') if N == 5 else None
    import itertools
    D = (0, 1, 2)
    for n in range(0, 4):
        for degs in itertools.product(D, repeat = n): j(f'topological {degs}', topo, degs = list(degs))
    if tier == 'thorough':
        for degs in itertools.product((0, 1), repeat = 4): j(f'topological {degs}', topo, degs = list(degs))
    j('interval_overlap', overlap)
    return js
