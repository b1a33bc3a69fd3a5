"""Runner: python -m symx.run C01 [--tier quick|thorough]   (executed from /verif with the repository's interpreter)

Spawns one worker process per repository configuration the property needs, each of which forks a pool over the jobs.
"""
import os, sys, json, time, argparse, subprocess, tempfile, hashlib, importlib, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
QUICK_BUDGET = 600          # wall seconds after which unexplored work makes the run inconclusive (exit 2)
THOROUGH_BUDGET = 7200


def setup_env():
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    if REPO not in sys.path: sys.path.insert(0, REPO)
    if VERIF not in sys.path: sys.path.insert(0, VERIF)


FLAGS = {'SE': '__INCLUDE_SE_KERNEL', 'LINOFF': '__USE_LIN_KERNEL_HORIZONTAL_OFFSET', 'STDPER': '__USE_NON_PURELY_PERIODIC_PER_KERNEL',
         'FIXSLOPE': '__FIX_SIGMOIDAL_KERNELS_SLOPE', 'INDCW': '__USE_INDEPENDENT_SIDES_CHANGEWINDOW_KERNEL'}

def apply_config(cfg):
    """cfg: '' (as shipped) or e.g. 'SE=1,LINOFF=0': override the repository's configuration flags before the package is imported."""
    if not cfg: return
    import importlib.util
    spec = importlib.util.spec_from_file_location('GPy_ABCD.config', os.path.join(REPO, 'GPy_ABCD', 'config.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for kv in cfg.split(','):
        k, v = kv.split('=')
        assert FLAGS[k] in m.__dict__, f'configuration flag {FLAGS[k]} is gone'
        m.__dict__[FLAGS[k]] = bool(int(v))
    sys.modules['GPy_ABCD.config'] = m


_covered = {}
def start_coverage():
    mon = sys.monitoring
    try: mon.use_tool_id(4, 'symx')
    except ValueError: return
    pref = os.path.join(REPO, 'GPy_ABCD') + os.sep
    def cb(code, off):
        if code.co_filename.startswith(pref): _covered[code.co_filename[len(REPO) + 1:] + ':' + code.co_qualname] = 1
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, cb)
    mon.set_events(4, mon.events.PY_START)


def load(prop):
    return importlib.import_module(f'checks.{prop.lower()}')


_JOBS = []
_DEADLINE = 0
def _run_job(i):
    from symx import engine, shims
    job = _JOBS[i]
    t0 = time.time()
    try:
        with shims.installed(job.get('shims', ())):
            start_coverage()
            st = engine.explore(job['fn'], job.get('params', {}), min(_DEADLINE, t0 + job.get('budget', 1e9)), **job.get('opts', {}))
    except KeyboardInterrupt: raise
    except BaseException as e:
        st = engine.Stats()
        st.inconclusive.append('engine error: ' + traceback.format_exc()[-3000:])
    d = dict(st.__dict__)
    d['job'] = job['name']; d['wall'] = time.time() - t0; d['covered'] = list(_covered)
    return d


def die_with_parent():
    """Ask the kernel to end this process when its parent ends."""
    import ctypes, signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)


def run_jobs(order, nproc, prop, cfg, hard_deadline):
    """Every job in a forked process of its own; ends early (15 s later) once a violation is known."""
    import signal
    res, running, todo, stop_at = [], {}, list(order), None
    def unfinished(i, why): return dict(engine_stats(), job = _JOBS[i]['name'], wall = 0, covered = [], inconclusive = [why])
    def engine_stats():
        from symx import engine
        return dict(engine.Stats().__dict__)
    with tempfile.TemporaryDirectory(prefix = 'symx_') as td:
        while todo or running:
            while todo and len(running) < nproc:
                i = todo.pop(0)
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if not pid:
                    try:
                        os.setpgid(0, 0); die_with_parent()
                        d = _run_job(i)
                        with open(os.path.join(td, f'{i}.tmp'), 'w') as f: json.dump(d, f)
                        os.rename(os.path.join(td, f'{i}.tmp'), os.path.join(td, f'{i}.json'))
                    except BaseException: traceback.print_exc()
                    finally: os._exit(0)
                running[pid] = i
            try: pid, _ = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError: pid = 0
            if pid in running:
                i = running.pop(pid)
                try:
                    with open(os.path.join(td, f'{i}.json')) as f: d = json.load(f)
                except (OSError, ValueError): d = unfinished(i, 'the process of this job ended without a result')
                res.append(d)
                if stop_at is None and any(not is_known(prop, d, v) for v in d['violations']): stop_at = time.time() + 15
                if os.environ.get('SYMX_PROGRESS'):
                    with open(os.environ['SYMX_PROGRESS'], 'a') as f: print(f"{d['wall']:.1f}s {cfg} {d['job']} {d['inconclusive'][:1]}", file = f)
                continue
            if time.time() > min(hard_deadline, stop_at or hard_deadline):      # a violation is known (the rest is not needed), or time is up
                for p in running:
                    try: os.killpg(p, signal.SIGKILL)
                    except OSError: os.kill(p, signal.SIGKILL)
                for p in running: os.waitpid(p, 0)
                if stop_at is None: res += [unfinished(i, 'not finished in time') for i in [*running.values(), *todo]]
                break
            time.sleep(.01)
    return res


def worker(prop, tier, cfg, deadline, out, only = None):
    global _JOBS, _DEADLINE
    setup_env(); apply_config(cfg)
    if os.environ.get('NUMBA_DISABLE_JIT') == '1':
        from symx import jit
        jit.install()
    mod = load(prop)
    from symx import engine, shims
    _JOBS = [j for j in mod.jobs(tier) if j.get('config', '') == cfg and (only is None or only in j['name'])]
    _DEADLINE = deadline
    names = [j['name'] for j in _JOBS]
    assert len(set(names)) == len(names), f'duplicate job names: {[n for n in names if names.count(n) > 1][:3]}'
    for m in ('GPy_ABCD.Models.modelSearch', 'GPy_ABCD.KernelExpansion.grammar', 'GPy_ABCD.Util.modelUtil', 'GPy_ABCD.Util.genericUtil', 'GPy_ABCD.Util.dataAndPlottingUtil'):
        try: importlib.import_module(m)      # once, not in every job
        except Exception: pass               # reported by the jobs that need it
    order = sorted(range(len(_JOBS)), key = lambda i: -_JOBS[i].get('weight', 1))
    res = run_jobs(order, int(os.environ.get('SYMX_PROCS', '8')), prop, cfg, deadline + 60)
    with open(out, 'w') as f: json.dump(res, f)


def find_job(mod, tier, name, cfg):
    for t in (tier, 'quick', 'thorough'):
        for j in mod.jobs(t):
            if j['name'] == name and j.get('config', '') == cfg: return j
    raise KeyError(name)


def replay(path, quiet = False):
    """Re-run one counterexample on the real, unproxied code (numba JIT as shipped unless disabled by the environment)."""
    rec = json.load(open(path))
    setup_env(); apply_config(rec['config'])
    mod = load(rec['property'])
    from symx import engine, shims
    job = find_job(mod, rec['tier'], rec['job'], rec['config'])
    with shims.installed(job.get('shims', ())):
        kind, det = engine.run_concrete(job['fn'], job.get('params', {}), rec['values'], job.get('opts', {}).get('exact_replay', False))
    if not quiet:
        print('property', rec['property'], '| job', rec['job'], '| inputs', rec['values'])
        print('outcome:', kind, json.dumps(det, indent = 1, default = str))
    return 1 if kind in ('fail', 'exception') else 0


def known_findings(prop):
    out = []
    try: lines = open(os.path.join(VERIF, 'known_findings.txt')).read().splitlines()
    except OSError: return out
    for l in lines:
        if l.startswith('finding: '):
            rec = json.loads(l[len('finding: '):])
            if rec['property'] == prop: out.append(rec)
    return out


def is_known(prop, r, v): return next((k for k in known_findings(prop) if k['job'] == r['job'] and k['match'] in v['replay']['label']), None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default = None)
    ap.add_argument('--worker', default = None); ap.add_argument('--cfg', default = ''); ap.add_argument('--deadline', type = float, default = 0)
    ap.add_argument('--only', default = None); ap.add_argument('-v', action = 'store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if a.prop == 'replay': sys.exit(replay(a.worker or a.only))
    if a.worker:
        worker(a.prop, tier, a.cfg, a.deadline, a.worker, a.only); return 0
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = QUICK_BUDGET if tier == 'quick' else THOROUGH_BUDGET
    setup_env()
    env = dict(os.environ, NUMBA_DISABLE_JIT = '1', PYTHONHASHSEED = '0', PYTHONDONTWRITEBYTECODE = '1', MPLBACKEND = 'Agg',
               OMP_NUM_THREADS = '1', OPENBLAS_NUM_THREADS = '1', MKL_NUM_THREADS = '1', PYTHONWARNINGS = 'ignore')
    # which configurations this property needs is declared statically by the check module
    cfgs = _configs(a.prop, tier)
    results, errors = [], []
    with tempfile.TemporaryDirectory(prefix = 'symx_') as td:
        procs = []
        for i, cfg in enumerate(cfgs):
            out = os.path.join(td, f'o{i}.json')
            deadline = time.time() + max(0, t0 + budget - time.time()) / (len(cfgs) - i)     # the time left is shared by the configurations left
            cmd = [sys.executable, '-m', 'symx.run', a.prop, '--tier', tier, '--worker', out, '--cfg', cfg, '--deadline', str(deadline)] + (['--only', a.only] if a.only else [])
            p = subprocess.run(cmd, cwd = VERIF, env = env, capture_output = True, text = True, preexec_fn = die_with_parent)
            if p.returncode != 0 or not os.path.exists(out): errors.append(f'worker for configuration "{cfg}" failed: {p.stdout[-500:]} {p.stderr[-3000:]}')
            else:
                rs = json.load(open(out))
                for r in rs: r['config'] = cfg
                results += rs
                if any(not is_known(a.prop, r, v) for r in rs for v in r['violations']): break
            if a.v: print(p.stderr[-3000:])
    tot = lambda k: sum(r[k] for r in results)
    inconc = [f"{r['job']}: {m}" for r in results for m in r['inconclusive']]
    reduced = sorted({f"{r['job']}: {m}" for r in results for m in r['reduced']})
    viols, known = [], []
    rdir = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(rdir, exist_ok = True)
    for r in results:
        for v in r['violations']:
            hit = is_known(a.prop, r, v)
            if hit: known.append(hit); continue
            viols.append((r, v))
    covered = sorted({c for r in results for c in r['covered']})
    meta = _meta(a.prop)
    ev = {'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': 0,
          'coverage': {
              'states': tot('paths'), 'transitions': tot('decisions'), 'traces_validated_against_impl': tot('validated'),
              'samples': [dict(s, job = r['job']) for r in results for s in r['samples'][:1]][:4],
              'rule': 'states = feasible symbolic paths of the real code executed to completion; transitions = solver-decided branch or concretisation decisions; '
                      'traces_validated = path models re-executed on the unproxied code with every check evaluated',
              'jobs': len(results), 'configurations': [c or 'as shipped' for c in cfgs],
              'infeasible_paths': tot('infeasible'), 'property_checks': tot('checks'), 'checks_closed_by_rewriting': tot('trivial_checks'),
              'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'solver_s': round(tot('solver_s'), 2),
              'functions_encoded': covered, 'bounds': meta.get('bounds', ''), 'outside_bounds': meta.get('outside', ''),
              'stubs': meta.get('stubs', ''), 'inconclusive': inconc[:10], 'incomplete': reduced[:20], 'exhaustive': not inconc and not errors and not reduced},
          'assumptions': meta.get('assumptions', []), 'violations': len(viols)}
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok = True)
    with open(os.path.join(VERIF, 'evidence', f'{a.prop}.json'), 'w') as f: json.dump(ev, f, indent = 1, default = str)
    for k in {json.dumps(k, sort_keys = True) for k in known}:
        k = json.loads(k); print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    print(f"{a.prop} [{tier}] jobs={len(results)} paths={tot('paths')} decisions={tot('decisions')} checks={tot('checks')} queries={tot('queries')} "
          f"solver={tot('solver_s'):.1f}s validated={tot('validated')} wall={ev['wall_s']}s")
    if a.v:
        for r in sorted(results, key = lambda r: -r['wall'])[:8]: print(f"   {r['wall']:.1f}s {r['job']} paths={r['paths']} q={r['queries']}")
    if viols:
        done = set()
        confirmed = 0
        for r, v in viols:
            key = (v['replay']['label'][:60])
            if key in done and confirmed: continue
            done.add(key)
            h = hashlib.sha1(json.dumps([r['job'], v['values'], r['config']], sort_keys = True).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f'{a.prop}-{h}.json')
            with open(path, 'w') as f: json.dump({'property': a.prop, 'tier': tier, 'config': r['config'], 'job': r['job'], 'values': v['values'], 'label': v['label'],
                                                   'info': v['info'], 'replayed': v['replay'],
                                                   'rerun': f'cd /verif && ./check.sh replay {path}'}, f, indent = 1, default = str)
            if len(done) <= 4:    # once more in a fresh process, with the JIT as shipped
                env2 = {k: w for k, w in env.items() if k != 'NUMBA_DISABLE_JIT'}
                p = subprocess.run([sys.executable, '-m', 'symx.run', 'replay', '--only', path], cwd = VERIF, env = env2, capture_output = True, text = True)
                if p.returncode != 1:
                    inconc.append(f'counterexample {path} did not reproduce in a fresh process: {p.stdout[-400:]} {p.stderr[-800:]}')
                    continue
            confirmed += 1
            print(f'VIOLATION property={a.prop} replay={path}')
            print(f"  job {r['job']} [{r['config'] or 'as shipped'}]: {v['replay']['label']}"[:600])
            print(f"  inputs {v['values']}"[:600])
            print(f"  {v['replay']['info']}"[:1500])
        if confirmed: sys.exit(1)
    for m in reduced[:3]: print('NOTE incomplete exploration:', m[:300])
    if errors or inconc or not results or not tot('paths'):
        for e in errors[:3]: print('ERROR', e)
        for m in inconc[:5]: print('INCONCLUSIVE', m[:1500])
        sys.exit(2)
    sys.exit(0)


def _configs(prop, tier):
    import ast
    src = open(os.path.join(VERIF, 'checks', prop.lower() + '.py')).read()
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and node.targets[0].id == 'CONFIGS':
            c = ast.literal_eval(node.value)
            return c if isinstance(c, list) else c[tier]
    return ['']


def _meta(prop):
    import ast
    src = open(os.path.join(VERIF, 'checks', prop.lower() + '.py')).read()
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and node.targets[0].id == 'META': return ast.literal_eval(node.value)
    return {}


if __name__ == '__main__': sys.exit(main())
