"""Expression shapes shared by the checks over built and fitted covariances."""
from checks import trees as T
B = T.BASES
SHAPES = [('S', B, []), ('P', B, []),
          ('P', ['LIN', 'SE'], [('S', B, [])]), ('S', ['C', 'LIN'], [('P', B, [])]),
          ('CP', ('?', B), ('?', B)), ('CW', ('?', B), ('?', B)),
          ('CP', ('S', B, []), ('P', ['SE', 'LIN', 'PER'], [])), ('CW', ('P', ['PER', 'LIN', 'WN'], []), ('S', ['WN', 'LIN', 'PER'], [])),
          ('CW', ('S', ['PER', 'WN'], []), ('S', ['PER', 'LIN'], [])), ('CP', ('P', ['PER', 'LIN'], []), ('P', ['LIN', 'SE'], [])),
          ('P', ['LIN', 'PER'], [('CP', ('?', B), ('?', B))]), ('S', ['WN', 'LIN'], [('CW', ('?', B), ('?', B))]),
          ('CP', ('CW', ('?', ['PER', 'C']), ('?', ['LIN', 'SE'])), ('?', ['WN', 'SE', 'LIN'])), ('CW', ('?', ['C', 'PER', 'LIN']), ('CP', ('?', ['C', 'LIN']), ('?', ['C', 'WN']))),
          ('CP', ('CP', ('?', ['PER', 'LIN']), ('?', ['LIN'])), ('CP', ('?', ['LIN', 'PER']), ('?', ['WN', 'LIN']))), ('CW', ('CW', ('?', ['C', 'LIN']), ('?', ['LIN'])), ('CP', ('?', ['LIN']), ('?', ['PER']))),
          ('S', [], [('P', ['PER', 'LIN', 'SE'], []), ('P', ['SE', 'LIN'], [])]), ('S', ['PER'], [('CP', ('?', ['LIN', 'PER']), ('?', ['PER'])), ('P', ['SE', 'LIN'], [])]),
          ('S', ['LIN'], [('CP', ('?', ['LIN', 'PER']), ('?', ['PER'])), ('CP', ('?', ['LIN', 'WN']), ('?', ['PER']))]),
          ('P', [], [('CP', ('?', ['PER', 'C']), ('?', ['LIN', 'SE'])), ('CW', ('?', ['SE', 'C']), ('?', ['WN', 'LIN']))]),
          ('P', ['SE', 'LIN'], [('S', ['SE', 'C', 'WN'], []), ('S', ['SE', 'PER'], [])]), ('P', ['LIN'], [('S', ['SE', 'PER'], [('P', ['SE', 'LIN'], [])])]),
          ('S', ['PER'], [('P', ['LIN'], [('S', ['LIN', 'WN', 'PER'], [])])]), ('P', ['WN'], [('CW', ('S', ['LIN', 'C', 'PER'], []), ('?', ['PER', 'LIN']))]),
          ('CP', ('P', ['LIN'], [('S', ['PER', 'C'], [])]), ('S', ['SE', 'LIN'], []))]
# many copies: three or four equal base kernels, three or four composite operands of one type
PL, WP, CPW = ('P', ['PER', 'LIN'], []), ('S', ['WN', 'PER'], []), ('CP', 'LIN', ('?', ['PER', 'WN']))
MANY = [(('S', ['PER', 'LIN'], []), 4), (('P', ['PER', 'LIN'], []), 4), (('P', ['LIN', 'WN'], []), 4),
        (('S', [], [PL, PL, PL]), 1), (('P', [], [WP, WP, WP]), 1), (('S', [], [CPW, CPW, CPW]), 1), (('P', ['LIN'], [CPW, CPW, ('CW', 'LIN', 'PER')]), 1),
        (('CW', ('S', ['PER'], []), ('S', ['PER'], [])), 4), (('CP', ('P', ['LIN'], [WP, WP]), ('P', [], [WP, WP])), 1),
        (('P', {'LIN': 2, 'PER': 2}, [('S', ['PER', 'LIN'], [])]), 2), (('P', {'LIN': 2}, [('S', {'PER': 1}, [('P', {'LIN': 2}, [])]), ('S', {'WN': 1, 'LIN': 1}, [])]), 1),
        (('CP', ('P', {'PER': 2}, [('S', {'LIN': 2, 'PER': 2}, [])]), 'LIN'), 1), (('P', {'PER': 2}, [('CW', ('P', {'LIN': 2}, []), ('S', {'PER': 2, 'LIN': 1}, []))]), 1),
        (('S', [], [PL, ('CP', 'PER', 'LIN'), PL, ('CP', 'LIN', 'PER'), PL]), 1),
        # two-digit numbers of copies
        (('S', {'PER': 12, 'LIN': 1}, []), 1), (('P', {'LIN': 1, 'PER': 12}, []), 1), (('S', {'LIN': 1}, [('P', {'PER': 1, 'LIN': 1}, [])] * 12), 1),
        (('CP', ('S', {'PER': 11}, []), ('S', {'PER': 11}, [('P', {'PER': 11, 'LIN': 1}, [])])), 1), (('S', {}, [('CP', 'PER', 'LIN')] * 11), 1),
        # several copies within a sum within a product within a sum
        (('S', {'WN': 1}, [('P', {'PER': 1}, [('S', {'LIN': 4}, [])])]), 1), (('P', {}, [('S', {'WN': 1}, [('P', {'PER': 1}, [('S', {'LIN': 3, 'PER': 3}, [('P', {'LIN': 2}, [])])])])]), 1),
        (('CW', ('S', {'LIN': 1}, [('P', {'PER': 1}, [('S', {'LIN': 3}, [])])]), ('P', {'PER': 1}, [('S', {'LIN': 3}, [])])), 1)]
def many(q): return [(sk, min(hi, 3) if q else hi) for sk, hi in MANY]


# grid: every kind of operand on every side of every operator (fixed small operands)
def operands(a, b, c):
    s, p = ('S', {a: 1, b: 1}, []), ('P', {b: 1, c: 1}, [])
    return {'leaf': a, 'S': s, 'P': p, 'SP': ('S', {a: 1}, [p]), 'PS': ('P', {b: 1}, [s]), 'CP': ('CP', a, b), 'CW': ('CW', b, c), 'S0': ('S', {}, [p, ('CP', a, b)]), 'P0': ('P', {}, [s, ('CW', b, c)])}
L, R = operands('PER', 'LIN', 'SE'), operands('LIN', 'PER', 'WN')
GRID = [(f'{op}({l}, {r})', (op, L[l], R[r])) for op in ('CP', 'CW') for l in L for r in R]
GRID += [(f'{op}({n or ""} {l}, {r})', (op, own, [L[l], R[r]])) for op, kinds in (('S', ('P', 'PS', 'CP', 'CW', 'P0')), ('P', ('S', 'SP', 'CP', 'CW', 'S0'))) for l in kinds for r in kinds for n, own in ((0, {}), (2, {'LIN': 1, 'PER': 1}))]
GRID += [(f'{op}({o2}({k}))', (op, {'LIN': 1}, [(o2, {'PER': 1}, [L[k]])])) for op, o2, kinds in (('S', 'P', ('CP', 'CW', 'SP', 'S0')), ('P', 'S', ('CP', 'CW', 'PS', 'P0'))) for k in kinds]
DEEP = [(f'{op}({o2}({l}, {r}))', (op, *((x, y) if i else (y, x)))) for op in ('CP', 'CW') for o2 in ('S', 'P') for i in (0, 1) for l, r in (('CP', 'CW'), ('CW', 'CP')) for y in (R['P' if o2 == 'S' else 'S'],) for x in ((o2, {'LIN': 1}, [L[l], R[r]]),)]
GROUPS = 12
def grid(i, q = True): return (GRID + DEEP)[i::GROUPS]
