"""The real fitting code (GPModel.fit, the list fitters, retries) over a stand-in for GPRegression which records every attempt,
fails where symbolic fault bits say so, and reports symbolic parameter values; and stand-ins for process pools."""
import contextlib, sys, warnings
from copy import deepcopy
import numpy as np
from checks import fitted
from symx.engine import And


class Fault(Exception):
    """An error raised while fitting."""
ERRORS = [lambda m: Fault(m), lambda m: np.linalg.LinAlgError(m), lambda m: ValueError(m), lambda m: ZeroDivisionError(m), lambda m: AssertionError(m)]


class Lab:
    """Records attempts; decides faults and parameter values."""
    def __init__(self, ctx, faults = None, phases = ('optimise',), errors = (0,), values = None, who = None):
        self.ctx, self.attempts, self.faults, self.phases, self.errors, self.values, self.raised = ctx, [], faults, phases, errors, values, []
        self.who = who or (lambda gp: None)
    def fails(self, gp):
        """None or (phase, error) for the next attempt of this kernel."""
        if self.faults is None: return None
        tag = self.who(gp)
        n = sum(1 for a in self.attempts if a['who'] == tag) - 1
        if n >= self.faults or not bool(self.ctx.bool(f'fault {tag} {n}')): return None
        return (self.ctx.choice(f'phase {tag} {n}', self.phases), ERRORS[self.ctx.choice(f'error {tag} {n}', self.errors)](f'attempt {n}'))
    def blow(self, err):
        self.raised.append(err)
        raise err


LAB = REAL = None
def shape_of(kern): return (kern.name, tuple(kern.parameter_names_flat()) if hasattr(kern, 'parameter_names_flat') else None)


class FakeGP:
    def __init__(self, X, Y, kernel = None, *a, **k):
        lab = LAB
        self.X, self.Y, self.num_data, self._kernel, self.extra = X, Y, len(X), kernel, (a, k)
        self.optimised = []
        self.attempt = dict(X = np.array(X, copy = True), Y = np.array(Y, copy = True), kernel = shape_of(kernel), id = id(kernel), who = None, restarts = None, optimizer = None, other = None, done = False)
        lab.attempts.append(self.attempt)
        self.attempt['who'] = lab.who(self)
        self.fault = lab.fails(self)
        self.kern = kernel
        if lab.values is not None:        # the real kernel, named as inside a GPRegression, whose parameters have symbolic values
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                from GPy.core.parameterization import Parameterized
                self._gp = Parameterized('GP_regression')
                self._gp.link_parameter(kernel)
            self.kern = fitted.KernView(kernel, lab.values(kernel, None))
        if self.fault and self.fault[0] == 'construct': lab.blow(self.fault[1])
    def optimize_restarts(self, num_restarts = 10, robust = False, verbose = True, parallel = False, num_processes = None, **kw):
        lab = LAB
        self.attempt.update(restarts = num_restarts, optimizer = kw.get('optimizer'), other = dict(robust = robust, parallel = parallel, **{k: v for k, v in kw.items() if k != 'optimizer'}))
        if self.fault: lab.blow(self.fault[1])
        if lab.values is not None: self.kern.__dict__['_v'] = lab.values(self._kernel, len(self.optimised))
        self.optimised.append((num_restarts, kw.get('optimizer')))
        self.attempt['done'] = True
        return self
    def __deepcopy__(self, memo):
        g = object.__new__(type(self)); memo[id(self)] = g
        g.__dict__.update({k: (v if k in ('attempt', '_kernel', 'kern', 'fault') else deepcopy(v, memo)) for k, v in self.__dict__.items()})
        return g


def everywhere(name, old, new):
    """(module, attribute) pairs of the package (and of the given name's home) holding the object."""
    return [(m, a, new) for n, m in list(sys.modules.items()) if m is not None and (n == 'GPy_ABCD' or n.startswith('GPy_ABCD.')) for a, v in list(vars(m).items()) if v is old]


@contextlib.contextmanager
def installed(lab, more = ()):
    global LAB, REAL
    import GPy, GPy.models, GPy_ABCD
    from GPy.models import gp_regression
    real = GPy.models.GPRegression if not isinstance(GPy.models.GPRegression, type(FakeGP)) or GPy.models.GPRegression is not FakeGP else gp_regression.GPRegression
    REAL = real
    puts = [(GPy.models, 'GPRegression', FakeGP), (gp_regression, 'GPRegression', FakeGP)] + everywhere('GPRegression', real, FakeGP) + list(more)
    saved = [(o, n, getattr(o, n)) for o, n, v in puts]
    before = LAB
    LAB = lab
    for o, n, v in puts: setattr(o, n, v)
    try: yield lab
    finally:
        LAB = before
        for o, n, v in reversed(saved): setattr(o, n, v)


# ------------------------------------------------------------------ process pools
def pools(ctx, cpus, log):
    """Stand-ins for multiprocessing's Pool and cpu_count, os.cpu_count and concurrent.futures' executors: tasks run in this process
    on copies of their arguments, unordered results come in any order (decided symbolically)."""
    import multiprocessing, multiprocessing.pool, os, concurrent.futures as cf
    counter = [0]
    def arrival(left):
        """The next to arrive: any of up to four outstanding; of more, always the first or always the last."""
        if len(left) == 1: return left.pop()
        if len(left) > 4: return left.pop(ctx.choice('arrival of many', [0, -1]))
        counter[0] += 1
        return left.pop(ctx.choice(f'arrival {counter[0]}', list(range(len(left)))))
    def land(pending, want = None):
        """Results arrive until the wanted one has (or all have); their order matters only where one of them calls back."""
        while pending and not (want is not None and want.arrived):
            if any(r.observed() for r in pending): arrival(pending).arrive()
            elif want is None: pending.pop(0).arrive()
            else:
                pending.remove(want)
                want.arrive()
    def order(n):
        left = list(range(n))
        return [arrival(left) for _ in range(n)]

    class Result:
        def __init__(self, pool, vals, err, callback = None, error_callback = None):
            self.pool, self.vals, self.err, self.arrived, self.call, self.err_call = pool, vals, err, False, callback, error_callback
            pool.pending.append(self)
        def observed(self): return self.call is not None or self.err_call is not None
        def arrive(self):
            self.arrived = True
            f, v = (self.call, self.vals) if self.err is None else (self.err_call, self.err)
            if f: f(v)
        def wait(self, timeout = None):
            while not self.arrived:
                if self.pool.dead: raise RuntimeError('the results of a terminated pool never arrive')
                land(self.pool.pending, self)
        def get(self, timeout = None):
            self.wait()
            if self.err is not None: raise self.err
            return self.vals
        def ready(self):
            if not self.arrived and not self.pool.dead: arrival(self.pool.pending).arrive()
            return self.arrived
        def successful(self):
            if not self.arrived: raise ValueError('not ready')
            return self.err is None

    class FakePool:
        def __init__(self, processes = None, *a, **k):
            if processes is not None and int(processes) < 1: raise ValueError('Number of processes must be at least 1')
            self.dead, self.closed, self.pending = False, False, []
            log.append('pool')
        def __enter__(self): return self
        def __exit__(self, *e): self.terminate()
        def terminate(self):
            self.dead = self.closed = True
        def close(self): self.closed = True
        def join(self):
            if not self.closed: raise ValueError('Pool is still running')
            if not self.dead: land(self.pending)
        def _open(self):
            if self.closed: raise ValueError('Pool not running')
        def _run(self, f, args, star, size):
            """Results in task order (or None for tasks that are never given out), first error."""
            self._open()
            args = list(args)
            if not args: return [], None
            if size is None: size = max(1, -(-len(args) // (4 * cpus)))
            size = int(size)
            if size < 1: return [None] * len(args), None
            out, err = [None] * len(args), None
            chunks = [range(i, min(i + size, len(args))) for i in range(0, len(args), size)]
            for c in chunks:
                sent = deepcopy([args[i] for i in c])
                try:
                    for i, x in zip(c, sent): out[i] = deepcopy(f(*x) if star else f(x))
                except Exception as e: err = err or e
            return out, err
        def _sync(self, *a):
            out, err = self._run(*a)
            if err is not None: raise err
            return out
        def _async(self, *a, **k): return Result(self, *self._run(*a), **k)
        def map(self, f, it, chunksize = None): return self._sync(f, it, False, chunksize)
        def starmap(self, f, it, chunksize = None): return self._sync(f, it, True, chunksize)
        def map_async(self, f, it, chunksize = None, callback = None, error_callback = None): return self._async(f, it, False, chunksize, callback = callback, error_callback = error_callback)
        def starmap_async(self, f, it, chunksize = None, callback = None, error_callback = None): return self._async(f, it, True, chunksize, callback = callback, error_callback = error_callback)
        def apply(self, f, args = (), kwds = {}):
            self._open(); a, k = deepcopy((args, kwds))
            return deepcopy(f(*a, **k))
        def apply_async(self, f, args = (), kwds = {}, callback = None, error_callback = None):
            try: v, e = self.apply(f, args, kwds), None
            except Exception as ex: v, e = None, ex
            return Result(self, v, e, callback, error_callback)
        def imap(self, f, it, chunksize = 1):
            if chunksize < 1: raise ValueError('Chunksize must be 1+')
            return iter(self._sync(f, it, False, chunksize))
        def imap_unordered(self, f, it, chunksize = 1):
            if chunksize < 1: raise ValueError('Chunksize must be 1+')
            out = self._sync(f, it, False, chunksize)
            return iter([out[i] for i in order(len(out))])

    class Future(Result):
        def __init__(self, *a):
            super().__init__(*a)
            self.calls = []
        def observed(self): return bool(self.calls)
        def arrive(self):
            self.arrived = True
            for f in self.calls: f(self)
        def add_done_callback(self, f): f(self) if self.arrived else self.calls.append(f)
        def result(self, timeout = None): return self.get()
        def exception(self, timeout = None):
            self.wait()
            return self.err
        def done(self): return self.ready()
        def running(self): return False
        def cancelled(self): return False
        def cancel(self): return False

    class FakeExecutor:
        def __init__(self, max_workers = None, *a, **k): self.pool = FakePool(max_workers)
        def __enter__(self): return self
        def __exit__(self, *e): self.shutdown()
        def shutdown(self, *a, **k):
            land(self.pool.pending)
        def submit(self, f, *a, **k):
            try: v, e = self.pool.apply(f, a, k), None
            except Exception as ex: v, e = None, ex
            return Future(self.pool, v, e)
        def map(self, f, *its, timeout = None, chunksize = 1): return iter(self.pool._sync(f, list(zip(*its)), True, chunksize))
    def as_completed(fs, timeout = None):
        left = list(fs)
        while left:
            f = next((f for f in left if f.arrived), None)
            if f is None:
                if not left[0].pool.pending: raise RuntimeError('the results of a terminated pool never arrive')
                arrival(left[0].pool.pending).arrive()
            else:
                left.remove(f)
                yield f
    def wait_all(fs, timeout = None, return_when = cf.ALL_COMPLETED):
        fs = list(fs)
        for f in fs if return_when == cf.ALL_COMPLETED else fs[:1]: f.wait()
        return cf._base.DoneAndNotDoneFutures({f for f in fs if f.arrived}, {f for f in fs if not f.arrived})

    count = lambda: cpus
    puts = []
    for mod, name, new in ((multiprocessing, 'Pool', FakePool), (multiprocessing, 'cpu_count', count), (multiprocessing.pool, 'Pool', FakePool), (multiprocessing.pool, 'ThreadPool', FakePool), (os, 'cpu_count', count),
                           (cf, 'ProcessPoolExecutor', FakeExecutor), (cf, 'ThreadPoolExecutor', FakeExecutor), (cf, 'as_completed', as_completed), (cf, 'wait', wait_all)):
        old = getattr(mod, name)
        puts.append((mod, name, new))
        puts += [(m, a, new) for n, m in list(sys.modules.items()) if m is not None and (n == 'GPy_ABCD' or n.startswith('GPy_ABCD.')) for a, v in list(vars(m).items()) if v is old or (callable(v) and getattr(v, '__func__', 0) is not 0 and v == old)]
    puts.append((os, 'sched_getaffinity', lambda pid: set(range(cpus))))
    return puts


def kexes(specs):
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE
    return [(SumKE if c == 'S' else ProductKE)(list(bs))._initialise() for c, bs in specs]
SPECS = [('S', ['LIN']), ('S', ['PER', 'C']), ('P', ['LIN', 'PER']), ('S', ['WN']), ('P', ['LIN', 'LIN']), ('S', ['PER'])]
DATA = ([0., 1., 2.5, 4.], [1., 2., 0., 3.])
def data(): return np.array(DATA[0])[:, None], np.array(DATA[1])[:, None]
def same_data(a): return np.array_equal(np.asarray(a['X']), data()[0]) and np.array_equal(np.asarray(a['Y']), data()[1])
