"""Exact normal forms of rational functions over z3 real terms (used to close equalities before asking the solver)."""
from fractions import Fraction
from symx.engine import z3

LIMIT = 150000
class TooBig(Exception): pass


def padd(a, b, k = 1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for i, e in n: d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))
def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > 40 * LIMIT: raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + c * d
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIMIT: raise TooBig()
    return r
ONE = {(): Fraction(1)}


def normal(p):
    """p = c * primitive; -> (c, key)"""
    lead = max(p)
    c = p[lead]
    return c, tuple(sorted((m, v / c) for m, v in p.items()))


def rational(t, squares = (), memo = None):
    """-> (numerator polynomial, {factor key: (factor, power)}); squares: {id of a constant: term it stands for}"""
    squares = dict(squares)
    if memo is None: memo = {}
    def go(t):
        k = t.get_id()
        if k not in memo: memo[k] = (t, step(t))
        return memo[k][1]
    def up(n, facs):
        for f, p in facs:
            for _ in range(p): n = pmul(n, f)
        return n
    def add(x, y, k):
        (n, d), (m, e) = x, y
        if not n: return ({a: k * c for a, c in m.items()}, e)
        if not m: return x
        lcm = dict(d)
        for i, (f, p) in e.items():
            if i not in lcm or lcm[i][1] < p: lcm[i] = (f, p)
        a = up(n, [(f, p - (d[i][1] if i in d else 0)) for i, (f, p) in lcm.items()])
        b = up(m, [(f, p - (e[i][1] if i in e else 0)) for i, (f, p) in lcm.items()])
        return padd(a, b, k), lcm
    def mul(x, y):
        (n, d), (m, e) = x, y
        r = dict(d)
        for i, (f, p) in e.items(): r[i] = (f, p + (r[i][1] if i in r else 0))
        return pmul(n, m), r
    def step(t):
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return ({(): Fraction(f)} if f else {}), {}
        kind, ch = t.decl().kind(), t.children()
        if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            rs = [go(c) for c in ch]
            if kind == z3.Z3_OP_SUB: rs = [rs[0]] + [({m: -c for m, c in n.items()}, d) for n, d in rs[1:]]
            groups = {}                # equal denominators first: fewer multiplications
            for n, d in rs:
                k = frozenset((i, p) for i, (f, p) in d.items())
                groups[k] = (padd(groups[k][0], n), d) if k in groups else (n, d)
            r = ({}, {})
            for g in sorted(groups.values(), key = lambda g: sum(p for _, p in g[1].values())): r = add(r, g, 1)
            return r
        if kind == z3.Z3_OP_UMINUS:
            n, d = go(ch[0]); return {m: -c for m, c in n.items()}, d
        if kind == z3.Z3_OP_MUL:
            r = go(ch[0])
            for c in ch[1:]: r = mul(r, go(c))
            return r
        if kind == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 and 0 < ch[1].as_fraction() <= 40:
            r = b = go(ch[0])
            for _ in range(int(ch[1].as_fraction()) - 1): r = mul(r, b)
            return r
        if kind == z3.Z3_OP_DIV:
            (n, d), (m, e) = go(ch[0]), go(ch[1])
            if not m: raise TooBig()
            c, key = normal(m)
            r = (n, dict(d))
            for i, (f, p) in e.items():       # 1 / (m / Π f^p) = Π f^p / m
                have = r[1].get(i, (f, 0))[1]
                cancel = min(have, p)
                if cancel: 
                    if have == cancel: r[1].pop(i)
                    else: r[1][i] = (f, have - cancel)
                r = (up(r[0], [(f, p - cancel)]), r[1])
            n2 = {a: v / c for a, v in r[0].items()}
            if key != (((), Fraction(1)),): r[1][key] = (dict(key), 1 + (r[1][key][1] if key in r[1] else 0))
            return n2, r[1]
        if t.get_id() in squares and kind == z3.Z3_OP_UNINTERPRETED: return go(squares[t.get_id()])
        return {((t.get_id(), 1),): Fraction(1)}, {}
    return go(t)


def reduce(p, roots):
    """roots: {id of s: polynomial of s * s}"""
    while roots and any(e > 1 and i in roots for m in p for i, e in m):
        r = {}
        for m, c in p.items():
            t = {(): c}
            for i, e in m:
                if e > 1 and i in roots:
                    for _ in range(e // 2): t = pmul(t, roots[i])
                    e %= 2
                if e: t = pmul(t, {((i, e),): Fraction(1)})
            r = padd(r, t)
        p = r
    return p


def _memo(memos, squares): return {} if memos is None else memos.setdefault(('poly', tuple(sorted(squares))), {})
def _roots(roots, squares, memo):
    out = {}
    for i, t in dict(roots).items():
        n, d = rational(t, squares, memo)
        if not d: out[i] = n
    return out


def is_zero(t, squares = (), memos = None, roots = ()):
    """memos: a dictionary that lives as long as the terms (results are shared between calls); roots: {id of s: term equal to s * s}"""
    squares = dict(squares)
    memo = _memo(memos, squares)
    try: return not reduce(rational(t, squares, memo)[0], _roots(roots, squares, memo))
    except TooBig: return False


def canonical(t, memos, roots = ()):
    """(hashable normal form of a term whose denominators are non-zero, its value if it is constant) or None."""
    memo = _memo(memos, ())
    try:
        n, d = rational(t, (), memo)
        n = reduce(n, _roots(roots, (), memo))
    except TooBig: return None
    const = n.get((), Fraction(0)) if not d and all(m == () for m in n) or not n else None
    return (tuple(sorted(n.items())), tuple(sorted((i, p) for i, (f, p) in d.items())) if n else ()), const


def sign_form(t, positive, memos):
    """t = ± (positive factor) * u for a polynomial u in a normal form -> (key of u, is the sign negative?, u as a term) or None."""
    memo = _memo(memos, ())
    try: n, d = rational(t, (), memo)
    except TooBig: return None
    if not n or all(m == () for m in n): return None
    for i, (f, p) in d.items():
        if p % 2 and not (len(f) == 1 and all(a in positive for m in f for a, _ in m) and min(f.values()) > 0): return None
    common = None
    for m in n:
        e = {a: k for a, k in m if a in positive}
        common = e if common is None else {a: min(k, e.get(a, 0)) for a, k in common.items()}
    num = {tuple((a, k - common.get(a, 0)) for a, k in m if k > common.get(a, 0)): c for m, c in n.items()}
    lead = num[max(num)]
    num = {m: c / abs(lead) for m, c in num.items()}
    flip = lead < 0
    if flip: num = {m: -c for m, c in num.items()}
    atoms = {a: memo[a][0] for m in num for a, _ in m}
    return tuple(sorted(num.items())), flip, to_z3(num, atoms)


def to_z3(p, atoms):
    """Polynomial -> z3 term; atoms: {id: z3 constant}."""
    out = []
    for m, c in p.items():
        t = z3.Q(c.numerator, c.denominator)
        for i, e in m:
            for _ in range(e): t = t * atoms[i]
        out.append(t)
    return z3.Sum(out) if out else z3.RealVal(0)
