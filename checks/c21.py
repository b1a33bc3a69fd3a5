"""C21: list fitters fit every expression once, in order, with the given settings."""
import warnings
from checks import fits as F

CONFIGS = ['']
META = {
    'bounds': '0 to 9 expressions (repeated ones included) and 1 to 10 processors, every arrival order of results (of more than four outstanding, the first or the last submitted arrives next), every pattern of failing first attempts, restarts 1..20, eight optimisers, retry limits 0..2, two forms of data',
    'outside': 'longer lists, more processors, processes that die',
    'assumptions': [],
    'stubs': 'GPRegression: records its data, kernel and settings and fails where a symbolic fault bit says so; multiprocessing / concurrent.futures pools and processor counts: in-process, on copies, with arbitrary arrival order',
}
OPT = ['lbfgsb', 'org-bfgs', 'fmin_tnc', 'scg', 'simplex', 'adadelta', 'rprop', 'adam']


def fit_list(ctx, fitter, specs, cpus, faults, limits = (0, 2), given = 'all', tup = False):
    import GPy_ABCD
    cpus = cpus if isinstance(cpus, int) else int(ctx.int('cpus', *cpus))
    kexs = F.kexes([F.SPECS[i] for i in specs])
    names = {F.shape_of(k.to_kernel()): i for i, k in enumerate(kexs)}
    lab = F.Lab(ctx, faults, who = lambda gp: names.get(F.shape_of(gp._kernel)))
    restarts, optimiser, limit = ctx.int('restarts', 1, 20), ctx.choice('optimiser', OPT if len(specs) <= 1 else OPT[3:5]), ctx.int('max_retries', *limits)
    before = [str(k) for k in kexs]
    arg = list(kexs)
    log = []
    with F.installed(lab, F.pools(ctx, cpus, log)):
        X, Y = F.data()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f = getattr(GPy_ABCD, fitter)
            try:
                if given == 'all': r = f(X, Y, arg, restarts, optimiser, limit)
                elif given == 'named': r = f(X = X, Y = Y, k_exprs = arg, max_retries = limit, restarts = restarts, optimiser = optimiser)
                else: r = f(X, Y, arg, restarts)
            except Exception as e:
                if any(e is x for x in lab.raised):
                    fails = [sum(not a['done'] for a in lab.attempts if a['who'] == t) for t in names.values()]
                    return ctx.check(any(n > limit for n in fails), 'a failing fit is retried up to the given limit', failures = fails)
                raise
    if given == 'some': optimiser = None
    ctx.check(isinstance(r, list) and len(r) == len(kexs), 'one model per expression', got = len(r) if hasattr(r, '__len__') else r, want = len(kexs))
    ctx.check(len(arg) == len(kexs) and all(a is b for a, b in zip(arg, kexs)) and [str(k) for k in kexs] == before, 'the given list is not modified')
    ctx.check(F.np.array_equal(X, F.data()[0]) and F.np.array_equal(Y, F.data()[1]), 'the data are not modified')
    for i, (m, k) in enumerate(zip(r, kexs)):
        ctx.check(type(m).__name__ == 'GPModel', 'every entry is a model', position = i, got = repr(m))
        ctx.check(m.kernel_expression == k and str(m.kernel_expression) == before[i], 'models are in the order of the expressions', position = i, got = str(m.kernel_expression), want = before[i])
        ctx.check(isinstance(m.model, F.FakeGP) and len(m.model.optimised) == 1, 'every model is fitted, once', position = i)
        ctx.check(F.shape_of(m.model._kernel) == F.shape_of(k.to_kernel()), "every model is fitted with its expression's kernel", position = i)
        a = m.model.attempt
        ctx.check(F.same_data(a) and F.same_data(dict(X = m.X, Y = m.Y)), 'every model is fitted to the given data', position = i)
        ctx.check(a['restarts'] == restarts, 'every model is fitted with the given restarts', position = i, got = a['restarts'])
        ctx.check(optimiser is None or a['optimizer'] == optimiser, 'every model is fitted with the given optimiser', position = i, got = a['optimizer'])
    ctx.check(len({id(m) for m in r}) == len(r), 'the models are different objects')
    ctx.check(sum(a['done'] for a in lab.attempts) == len(kexs), 'every expression is fitted once', got = sum(a['done'] for a in lab.attempts), want = len(kexs))
    for t in names.values():
        mine = [a for a in lab.attempts if a['who'] == t]
        if faults and specs.count(specs[t]) == 1: ctx.check(len(mine) <= limit + 1, 'every fit has the given retry limit', attempts = len(mine))


def jobs(tier):
    out = []
    def add(wt, **p): out.append({'name': 'fit_list ' + ' '.join(f'{k}={v}' for k, v in p.items()), 'fn': fit_list, 'params': p, 'opts': {'validate': 15}, 'weight': wt})
    ser, par = 'fit_mods_not_parallel', 'fit_mods_parallel_processes'
    lists = [[], [0], [0, 1], [1, 0, 2], [0, 0, 1], [3, 1, 0, 2], [2, 1, 0, 1, 3], [0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0, 5], [0, 1, 2, 3, 4, 5, 0, 1, 2]]
    for l in lists:
        add(10, fitter = par, specs = l, cpus = (1, 10), faults = None, limits = (0, 0))
        add(3, fitter = ser, specs = l, cpus = 1, faults = None, limits = (0, 0))
    for fitter in (ser, par):
        for given in ('named', 'some'): add(5, fitter = fitter, specs = [1, 0, 2], cpus = 2, faults = None, given = given, limits = (1, 1))
        add(20, fitter = fitter, specs = [1, 0, 2], cpus = 2, faults = 2, limits = (0, 2))
        add(20, fitter = fitter, specs = [0], cpus = (1, 2), faults = 3, limits = (0, 2))
    if tier != 'quick':
        for l in ([0, 1, 2, 3, 4, 5] * 2, [5, 0, 3, 2, 2, 1, 4] * 3): add(100, fitter = par, specs = l, cpus = (1, 16), faults = None, limits = (0, 0))
        add(300, fitter = par, specs = [0, 1, 2, 3], cpus = (1, 4), faults = 2, limits = (0, 2))
        add(300, fitter = ser, specs = [0, 1, 2, 3], cpus = 1, faults = 3, limits = (0, 3))
    return out
