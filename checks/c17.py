"""C17: fit failures are retried up to the limit and then surface."""
import warnings
from checks import fits as F

CONFIGS = ['']
META = {
    'bounds': 'retry limits 0..4 (and the default), every pattern of failing attempts, failures while building the model or optimising, five kinds of error; restarts and optimiser arbitrary; one to three expressions in the serial fitter and in the parallel one',
    'outside': 'errors that are not Exceptions (interrupts); more retries',
    'assumptions': [],
    'stubs': 'GPRegression: records its data, kernel and settings, raises where a symbolic fault bit says so; process pools: in-process, on copies',
}


def judge(ctx, lab, kexs, limit, restarts, optimiser, run):
    """run() -> models, or raises; the attempts are in lab."""
    with warnings.catch_warnings(record = True) as ws:
        warnings.simplefilter('always')
        try: models, err = run(), None
        except Exception as e: models, err = None, e
    if err is not None and not any(err is r for r in lab.raised): raise err       # not one of the injected errors
    want = [F.shape_of(k.to_kernel()) for k in kexs]
    by = []
    at = 0
    ats = lab.attempts
    retries = 0
    for i, k in enumerate(kexs):
        mine = [a for a in ats if a['kernel'] == want[i]]
        fails = [not a['done'] for a in mine]
        label = str(k)
        if not mine:
            ctx.check(err is not None, 'every expression is fitted unless an earlier one fails for good', expression = label)
            continue
        retries += len(mine) - 1
        ctx.check(all(fails[:-1]), 'the first success is returned at once', expression = label, failed = fails)
        ctx.check(len(mine) <= limit + 1, 'no attempt beyond one plus the number of retries', attempts = len(mine), limit = limit)
        if fails[-1]: ctx.check(len(mine) == limit + 1, 'a failing fit is attempted again up to the number of retries', attempts = len(mine), limit = limit)
        for a in mine:
            ctx.check(F.same_data(a), 'every attempt is on the same data')
            if a['restarts'] is not None or a['optimizer'] is not None:
                ctx.check(a['restarts'] == restarts and a['optimizer'] == optimiser, 'every attempt has the given restarts and optimiser', got = (a['restarts'], a['optimizer']), want = (restarts, optimiser))
        for a in mine[1:]: ctx.check(a['other'] == mine[0]['other'] or a['other'] is None or mine[0]['other'] is None, 'every attempt has the same settings')
    ctx.check(all(a['kernel'] in want for a in ats), 'attempts are for the given expressions')
    last = [bool(m) and not m[-1]['done'] for m in ([a for a in ats if a['kernel'] == w] for w in want)]
    if err is not None:
        ctx.check(any(last), 'an error surfaces only when all attempts failed')
        ends = [lab.raised[j] for j in range(len(lab.raised))]
        finals, n = [], 0
        for a in ats:
            if not a['done']:
                same = [b for b in ats if b['kernel'] == a['kernel']]
                if same[-1] is a: finals.append(lab.raised[n])
                n += 1
        ctx.check(any(err is e for e in finals), 'the error that surfaces is the last one', got = repr(err), want = [repr(e) for e in finals])
    else:
        ctx.check(not any(last), 'if all attempts fail the error is raised')
        ctx.check(len(models) == len(kexs), 'a model per expression', got = len(models))
        for m, k in zip(models, kexs):
            ctx.check(str(m.kernel_expression) == str(k) and getattr(m.model, 'attempt', {}).get('done') is True, 'the model returned is the one whose fit succeeded', expression = str(k))
    ws = [w for w in ws if not issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning, FutureWarning))]     # GPy's own
    ctx.check(len(ws) == retries, 'each retry warns', warnings = len(ws), retries = retries)


def setup(ctx, n, phases, errors, faults):
    kexs = F.kexes(F.SPECS[:n])
    names = {F.shape_of(k.to_kernel()): i for i, k in enumerate(kexs)}
    return kexs, F.Lab(ctx, faults, phases, errors, who = lambda gp: names.get(F.shape_of(gp._kernel)))


def retry(ctx, n, hi, phases, errors, fitter, default = False, cpus = 2):
    import GPy_ABCD
    limit = 1 if default else ctx.int('max_retries', 0, hi)
    kexs, lab = setup(ctx, n, phases, errors, (1 if default else hi) + 2)
    restarts = ctx.int('restarts', 1, 20)
    optimiser = 'scg'
    more = F.pools(ctx, cpus, [])
    with F.installed(lab, more):
        X, Y = F.data()
        kw = {} if default else {'max_retries': limit}
        judge(ctx, lab, kexs, limit, restarts, optimiser, lambda: getattr(GPy_ABCD, fitter)(X, Y, list(kexs), restarts, optimiser, **kw))


def jobs(tier):
    out = []
    def add(wt, **p): out.append({'name': 'retry ' + ' '.join(f'{k}={v}' for k, v in p.items()), 'fn': retry, 'params': p, 'opts': {'validate': 15}, 'weight': wt})
    ser, par = 'fit_mods_not_parallel', 'fit_mods_parallel_processes'
    both = ('optimise', 'construct')
    for fitter in (ser, par):
        add(20, n = 1, hi = 4, phases = both, errors = (0,), fitter = fitter)
        add(5, n = 1, hi = 2, phases = both, errors = (0, 1, 2, 3, 4), fitter = fitter)
        add(5, n = 2, hi = 1, phases = both, errors = (0, 2), fitter = fitter, default = True)
        add(20, n = 2, hi = 2, phases = ('optimise',), errors = (0,), fitter = fitter)
        add(20, n = 3, hi = 1, phases = ('optimise',), errors = (0,), fitter = fitter)
    if tier != 'quick':
        for fitter in (ser, par):
            add(200, n = 1, hi = 9, phases = ('optimise',), errors = (0,), fitter = fitter)
            add(200, n = 3, hi = 3, phases = ('optimise',), errors = (0,), fitter = fitter)
            add(200, n = 4, hi = 1, phases = both, errors = (0, 1), fitter = fitter)
    return out
