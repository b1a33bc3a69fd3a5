"""Reference rewrites on R-trees (checks/trees.py), written from the documentation of the operators and production rules."""
from checks import trees as T
from symx.engine import And

LIN2, LIN3 = ('P', {'LIN': 2}, []), ('P', {'LIN': 3}, [])

def sum_(*ts): return ('S', {}, list(ts))
def prod_(*ts): return ('P', {}, list(ts))
def as_node(t): return ('S', t[1], []) if t[0] == 'L' else t
def present(ctx, counts):
    """Base kernels with positive multiplicity (forks when symbolic)."""
    return [b for b, c in counts.items() if ctx.decide(c > 0)]
def dec(counts, b, k = 1):
    r = dict(counts); r[b] = r.get(b, 0) - k
    return r
def base_of(ctx, t):
    """The name of a lone kernel (possibly several guarded names in one R-leaf)."""
    return present(ctx, t[1])[0]


def add(ctx, x, y):
    out = [sum_(x, y)]
    for a, b in ((x, y), (y, x)):
        if a[0] == 'L' and b[0] == 'P':
            out += [('P', dec(b[1], bt), b[2] + [sum_(a, T.lone(bt))]) for bt in present(ctx, b[1])]
    return out


def multiply(ctx, x, y):
    out = [prod_(x, y)]
    for a, b in ((x, y), (y, x)):
        if a[0] == 'L' and b[0] == 'S':
            out += [('S', dec(b[1], bt), b[2] + [prod_(a, T.lone(bt))]) for bt in present(ctx, b[1])]
    return out


def swap_base(ctx, s, b):
    if s[0] in 'SP' and s[0] != 'L':
        return [(s[0], T.plus(dec(s[1], bt), {b: 1}), s[2]) for bt in present(ctx, s[1]) if bt != b]
    if T.is_change(s):
        return ([(s[0], T.lone(b), s[2])] if s[1][0] == 'L' and base_of(ctx, s[1]) != b else []) + \
               ([(s[0], s[1], T.lone(b))] if s[2][0] == 'L' and base_of(ctx, s[2]) != b else [])
    return [T.lone(b)]


def one_change(ctx, s, kind, s2 = None):
    return [(kind, s, s)] if s2 is None else [(kind, s, s2), (kind, s2, s)]
def both_changes(ctx, s, s2 = None): return one_change(ctx, s, 'CP', s2) + one_change(ctx, s, 'CW', s2)
def replace_node(ctx, s, s2): return [as_node(s2)]


def remove_a_term(ctx, s):
    if T.is_change(s): return [as_node(s[1]), as_node(s[2])]
    if not ctx.decide(T.tot(s[1]) + len(s[2]) > 1): return []
    return [(s[0], dec(s[1], b), s[2]) for b in present(ctx, s[1])] + [(s[0], s[1], s[2][:i] + s[2][i + 1:]) for i in range(len(s[2]))]


def higher_curves(ctx, s):
    if T.is_change(s):
        return ([(s[0], h, s[2]) for h in (LIN2, LIN3)] if s[1][0] == 'L' else []) + ([(s[0], s[1], h) for h in (LIN2, LIN3)] if s[2][0] == 'L' else [])
    counts = {b: c for b, c in s[1].items() if b != 'SE'}
    if s[0] == 'S': return [('S', counts, s[2] + [h]) for h in (LIN2, LIN3)]
    per = 1 if ctx.decide(counts.get('PER', 0) > 0) else 2
    return [('P', T.plus(counts, {'LIN': 2}), s[2]), ('P', T.plus(counts, {'LIN': 3}), s[2]), ('P', T.plus(counts, {'PER': per}), s[2])]
