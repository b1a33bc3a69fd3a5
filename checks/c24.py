"""C24: a model always describes its latest fit and never alters its kernel expression."""
import re
from copy import deepcopy
import numpy as np
from checks import fits as F, trees as T
from checks.texts import TOK
from symx.engine import And

CONFIGS = ['']
META = {
    'bounds': 'every sequence of 3 to 5 operations (fit with restarts, fit without, form, description, scoring) on 12 expression shapes, every outcome of each fit (symbolic parameter values), and asking before any fit',
    'outside': 'longer sequences, larger expressions, fits that raise (C17)',
    'assumptions': ['the optimiser may return any parameter values'],
    'stubs': 'GPRegression: holds the real kernel, whose parameter values become symbolic ones when it is optimised; records restarts',
}
SHAPES = [('S', {'LIN': 1, 'PER': 1}, []), ('P', {'LIN': 1, 'PER': 1}, []), ('P', {'LIN': 2}, []), ('S', {'WN': 1}, []), ('CP', ('L', {'LIN': 1}), ('L', {'PER': 1})), ('CW', ('L', {'C': 1}), ('L', {'PER': 1})),
          ('P', {'PER': 1}, [('S', {'LIN': 1, 'WN': 1}, [])]), ('S', {'PER': 1}, [('CP', ('L', {'LIN': 1}), ('L', {'C': 1}))]), ('P', {'LIN': 1}, [('CP', ('L', {'WN': 1}), ('L', {'PER': 1}))]),
          ('CP', ('CW', ('L', {'LIN': 1}), ('L', {'PER': 1})), ('L', {'WN': 1})), ('P', {'PER': 2}, []), ('S', {'PER': 2}, [])]


def build(ctx, i): return T.raw(ctx, SHAPES[i])._initialise()


class Values:
    """Parameter values of each fit: fresh symbolic ones, or those of an earlier fit."""
    def __init__(self, ctx): self.ctx, self.n, self.last, self.reuse = ctx, 0, None, False
    def __call__(self, kern, opt):
        names = kern.parameter_names_flat()
        if opt is None: return [float(v) for v in np.asarray(kern.param_array)]
        if not self.reuse:
            self.n += 1
            self.last = [self.ctx.real(f'fit{self.n} {n}', **({} if n.split('.')[-1] in ('location', 'offset') else dict(gt = 0))) for n in names]
        return list(self.last)


def nodes(ke):
    yield ke
    for a in ('composite_terms',): 
        for c in getattr(ke, a, []): yield from nodes(c)
    for a in ('left', 'right'):
        c = getattr(ke, a, None)
        if c is not None and not isinstance(c, str): yield from nodes(c)
def facts(ke):
    """Structure and parameters of an expression."""
    return [(type(n).__name__, sorted((b, c) for b, c in getattr(n, 'base_terms', {}).items() if c), [x if isinstance(x, str) else None for x in (getattr(n, 'left', None), getattr(n, 'right', None))],
             [(k, [dict(d) if isinstance(d, dict) else d for d in v]) for k, v in sorted(getattr(n, 'parameters', {}).items())]) for n in nodes(ke)]
def alike(ctx, a, b, label, **info):
    """Equal nested facts; numbers over the reals."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        ctx.check(len(a) == len(b), label, got = lambda: str(a), want = lambda: str(b), **info)
        for x, y in zip(a, b): alike(ctx, x, y, label, **info)
    elif isinstance(a, dict) and isinstance(b, dict):
        ctx.check(sorted(a) == sorted(b), label, got = lambda: str(a), want = lambda: str(b), **info)
        for k in a: alike(ctx, a[k], b[k], label, **info)
    elif isinstance(a, (str, type(None), bool)) or isinstance(b, (str, type(None), bool)): ctx.check(a == b, label, got = lambda: str(a), want = lambda: str(b), **info)
    else: ctx.same(a, b, label, **info)
def alike_text(ctx, a, b, label):
    ctx.check(re.sub(TOK, '#', a) == re.sub(TOK, '#', b), label, got = a, want = b)
    for x, y in zip(re.findall(TOK, a), re.findall(TOK, b)): ctx.same(ctx.tokens[int(x)][0], ctx.tokens[int(y)][0], label, got = a, want = b)


OPS = ['fit', 'refit', 'form', 'text', 'score']
def sequence(ctx, shape, length, ops):
    from GPy_ABCD.Models.model import GPModel
    from GPy_ABCD import BIC
    kex = build(ctx, shape)
    before = facts(kex)
    vals = Values(ctx)
    lab = F.Lab(ctx, values = vals)
    X, Y = F.data()
    m = GPModel(X, Y, kex)
    restarts, fitted, n = None, False, 0
    reference = None
    with F.installed(lab):
        for t in range(length):
            op = ctx.choice(f'operation {t}', ops if t else ops[:4])
            if op in ('fit', 'refit'):
                r = ctx.int(f'restarts {t}', 0, 9) if op == 'fit' else None
                try: got = m.fit(r) if op == 'fit' else m.fit()
                except Exception as e:
                    ctx.check(op == 'refit' and restarts is None, 'fitting works given a number of restarts now or before', error = repr(e))
                    ctx.check(not lab.attempts, 'nothing is fitted without a number of restarts')
                    continue
                if op == 'fit': restarts = r
                ctx.check(restarts is not None, 'fitting without any number of restarts is an error')
                ctx.check(got is m, 'fitting returns the model')
                n += 1
                ctx.check(len(lab.attempts) == n and lab.attempts[-1]['done'], 'each fit fits once', got = len(lab.attempts), want = n)
                ctx.check(lab.attempts[-1]['restarts'] == restarts, 'fitting without a number of restarts reuses the previous one', got = lab.attempts[-1]['restarts'], want = restarts)
                ctx.check(F.same_data(lab.attempts[-1]), 'every fit is to the data of the model')
                ctx.check(lab.attempts[-1]['kernel'] == F.shape_of(build(ctx, shape).to_kernel()), 'every fit is of the kernel expression of the model')
                fitted, reference = True, None
            elif op in ('form', 'text'):
                try: got = m.sum_of_prods_kex if op == 'form' else m.interpret()
                except Exception as e:
                    if fitted: raise
                    ctx.check(True, 'asking before any fit is an error')
                    continue
                ctx.check(fitted, 'asking before any fit is an error')
                if reference is None: reference = fresh(ctx, shape, vals, lab)
                if op == 'form': alike(ctx, facts(got), reference[0], 'the form is that of the latest fit')
                else: alike_text(ctx, got, reference[1], 'the description is that of the latest fit')
            elif op == 'score' and fitted:
                m.model.log_likelihood, m.model._size_transformed = (lambda: 1.), (lambda: 2)
                m.compute_utility(BIC)
        ctx.check(m.kernel_expression is kex, 'the kernel expression is kept')
        alike(ctx, facts(kex), before, 'the kernel expression is not modified')
        ctx.check(T.link_violation(kex) is None, 'the links inside the kernel expression are not modified', what = T.link_violation(kex))
        ctx.check(m.X is X and m.Y is Y and F.same_data(dict(X = X, Y = Y)), 'the data are not modified')


def fresh(ctx, shape, vals, lab):
    """Form and description of a new model with the parameter values of the latest fit."""
    from GPy_ABCD.Models.model import GPModel
    n = len(lab.attempts)
    vals.reuse = True
    o = GPModel(*F.data(), build(ctx, shape)).fit(1)
    vals.reuse = False
    del lab.attempts[n:]
    return facts(o.sum_of_prods_kex), o.interpret()


def jobs(tier):
    out = []
    def add(wt, **p): out.append({'name': 'sequence ' + ' '.join(f'{k}={v}' for k, v in p.items()), 'fn': sequence, 'params': p, 'opts': {'validate': 10}, 'weight': wt})
    for i in range(len(SHAPES)):
        add(20 + 20 * (i == 9), shape = i, length = 3 if i == 9 else 4, ops = OPS[:4])
    add(20, shape = 0, length = 4, ops = OPS)
    add(20, shape = 2, length = 5, ops = ['fit', 'form', 'refit'])
    add(20, shape = 3, length = 5, ops = OPS[:4])
    for i in (10, 11): add(20, shape = i, length = 4, ops = ['fit', 'form', 'text'])
    if tier != 'quick':
        for i in range(len(SHAPES)): add(200, shape = i, length = 5, ops = OPS)
        add(300, shape = 0, length = 6, ops = OPS)
    return out
