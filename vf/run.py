"""Check driver:  python -m vf.run C01 [--tier quick|thorough]"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import time
import traceback
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def setup_paths():
    for p in (REPO, ROOT):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import warnings
    warnings.filterwarnings('ignore')


def load_prop(prop):
    importlib.import_module(f'props.{prop}')
    from vf.harness import REGISTRY
    return [h for (p, n), h in REGISTRY.items() if p == prop]


def build_c(workdir, opt='-O2'):
    """compile the C extension from the current tree into workdir"""
    import sysconfig
    import numpy as np
    out = os.path.join(workdir, '_euphonic_scratch.so')
    src = [os.path.join(REPO, 'c', f) for f in
           ('_euphonic.c', 'dyn_mat.c', 'util.c', 'py_util.c', 'load_libs.c')]
    src = [s for s in src if os.path.exists(s)]
    extra = [os.path.join(REPO, 'c', f) for f in os.listdir(
        os.path.join(REPO, 'c')) if f.endswith('.c')]
    src = sorted(set(src) | set(extra))
    cmd = ['gcc', opt, '-shared', '-fPIC', '-fopenmp', '-w',
           '-I' + sysconfig.get_paths()['include'], '-I' + np.get_include(),
           '-I' + os.path.join(REPO, 'c')] + src + ['-o', out, '-lm']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('C build failed: ' + r.stderr[-2000:])
    return out


def inject_c(so=None):
    so = so or os.environ.get('VF_CEXT')
    if not so:
        return
    import importlib.util
    spec = importlib.util.spec_from_file_location('euphonic._euphonic', so)
    # PyInit name must match: _euphonic
    loader = importlib.machinery.ExtensionFileLoader('euphonic._euphonic', so)
    spec = importlib.util.spec_from_loader('euphonic._euphonic', loader,
                                           origin=so)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules['euphonic._euphonic'] = mod
    import euphonic
    euphonic._euphonic = mod


# ------------------------------------------------------------- concrete side
def concrete_main(path):
    """run jobs from a JSON file on the unpatched code; results to path.out"""
    setup_paths()
    import numpy as np
    np.seterr(all='ignore')
    jobs = json.load(open(path))
    res = []
    load_prop(jobs['prop'])
    inject_c()
    from vf.harness import REGISTRY, ConcreteCtx, Infeasible
    h = REGISTRY[(jobs['prop'], jobs['harness'])]
    for n, job in enumerate(jobs['jobs']):
        C = ConcreteCtx(job.get('assignment'), seed=job.get('seed', n))
        r = {'infeasible': False, 'exception': None}
        try:
            h.fn(C, **jobs['case'])
        except Infeasible:
            r['infeasible'] = True
        except Exception as e:
            r['exception'] = f'{type(e).__name__}: {e} | ' + \
                traceback.format_exc()[-1200:]
        r['failures'] = C.failures
        r['records'] = [(l, g) for l, g in C.records]
        r['checked'] = C.checked
        r['assignment'] = {'inputs': C.used, 'choices': C.choices}
        res.append(r)
        json.dump(res, open(path + '.out.tmp', 'w'))
        os.replace(path + '.out.tmp', path + '.out')
    return res


class Server:
    """A process forked before anything is patched, with the imports done; it
    forks a child for each batch of concrete runs."""
    def __init__(self):
        import signal
        self.sock, other = socket.socketpair()
        self.pid = os.fork()
        if self.pid:
            other.close()
            return
        try:
            self.sock.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            f = other.makefile('rw')
            for line in f:
                path, timeout = json.loads(line)
                f.write(json.dumps(self.job(path, timeout)) + '\n')
                f.flush()
        finally:
            os._exit(0)

    def job(self, path, timeout):
        log = path + '.log'
        pid = os.fork()
        if not pid:
            rc = 1
            try:
                fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                concrete_main(path)
                rc = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(rc)
        t0 = time.time()
        d = .002
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                rc = os.waitstatus_to_exitcode(st)
                break
            if time.time() - t0 > timeout:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                return None, 'timeout'
            time.sleep(d)
            d = min(d * 1.5, .1)
        with open(log, errors='replace') as f:
            return rc, f.read()[-1500:]

    def run(self, path, timeout):
        if not hasattr(self, 'f'):
            self.f = self.sock.makefile('rw')
        self.f.write(json.dumps([path, timeout]) + '\n')
        self.f.flush()
        r = self.f.readline()
        return tuple(json.loads(r)) if r else (None, 'replay process ended')

    def close(self):
        if hasattr(self, 'f'):
            self.f.close()
        self.sock.close()
        os.waitpid(self.pid, 0)


_SERVER = None


def preload(prop):
    """imports shared by all forked tasks; a tree that cannot be imported is
    reported by the tasks themselves"""
    setup_paths()
    try:
        load_prop(prop)
        import euphonic  # noqa
        import euphonic.brille  # noqa
    except Exception:
        pass
    for m in ('scipy.linalg', 'scipy.ndimage', 'scipy.optimize', 'z3',
              'euphonic.spectra', 'euphonic.powder', 'euphonic.sampling',
              'vf.engine', 'vf.npshim'):
        try:
            importlib.import_module(m)
        except Exception:
            pass


def run_concrete(h, case, jobs, workdir, timeout=300):
    if not jobs:
        return []
    fd, path = tempfile.mkstemp(suffix='.json', dir=workdir)
    os.close(fd)
    json.dump({'prop': h.prop, 'harness': h.name, 'case': case, 'jobs': jobs},
              open(path, 'w'))
    if _SERVER is not None:
        rc, err = _SERVER.run(path, timeout)
        crashed = rc is not None and rc < 0
    else:
        env = dict(os.environ, MALLOC_PERTURB_='128', PYTHONHASHSEED='0')
        env.pop('VF_SYMBOLIC', None)
        try:
            p = subprocess.run([PY, '-m', 'vf.run', '--concrete', path],
                               cwd=ROOT, env=env, capture_output=True,
                               text=True, timeout=timeout)
            err = p.stderr[-1500:]
            crashed = p.returncode < 0
            rc = p.returncode
        except subprocess.TimeoutExpired:
            err, crashed, rc = 'timeout', False, None
    out = []
    if os.path.exists(path + '.out'):
        out = json.load(open(path + '.out'))
    while len(out) < len(jobs):
        out.append({'infeasible': False, 'failures': [], 'records': [],
                    'checked': 0, 'assignment': jobs[len(out)].get('assignment'),
                    'exception': f'process died rc={rc}: {err}',
                    'died': True, 'crash': crashed and len(out) == len(out)})
        crashed = False
    return out


# ------------------------------------------------------------- symbolic side
def run_task(args):
    prop, hname, case, tier, seed, workdir = args
    t0 = time.time()
    setup_paths()
    os.environ['VF_SYMBOLIC'] = '1'
    import numpy as np
    np.seterr(all='ignore')
    load_prop(prop)
    from vf import engine, npshim
    from vf.harness import REGISTRY, install
    install(engine.Context)
    h = REGISTRY[(prop, hname)]
    opts = dict(h.opts)
    opts.setdefault('max_traces', h.traces)
    opts['tier'] = tier
    if tier == 'thorough':
        opts['time'] = opts.get('thorough_time', opts.get('time', 200) * 3)
    import euphonic  # noqa
    out = {'harness': hname, 'case': case, 'violations': [], 'unreproduced': [],
           'inconclusive': [], 'traces_ok': 0, 'trace_mismatch': [],
           'notes': []}
    import random
    random.seed(seed)
    with npshim.installed():
        r = engine.explore(lambda C: h.fn(C, **case), opts, seed)
    st = r.stats
    out['stats'] = st.d()
    out['reached'] = r.reached
    out['truncated'] = r.truncated
    out['notes'] = sorted(set(r.notes))[:20]
    if r.truncated:
        out['inconclusive'].append('path exploration truncated by its budget')
    out['inconclusive'] += r.inconclusive
    # candidate violations -> replay on the unpatched code
    cands = [(v.label, v.assignment, v.detail, v.confirmed_by)
             for v in r.violations]
    for et, msg, samples in r.exceptions:
        for s in samples[:2]:
            cands.append((f'exception:{et}', s, msg, 'path condition model'))
        if not samples:
            out['inconclusive'].append(f'{et}: {msg[-300:]}')
    jobs = [{'assignment': c[1]} for c in cands]
    res = run_concrete(h, case, jobs, workdir) if jobs else []
    labels_repro = set()
    for c, rr in zip(cands, res):
        fail = None
        if rr['failures']:
            fail = rr['failures'][0]
        elif rr['exception'] and not rr['infeasible']:
            fail = ('exception', rr['exception'])
        if fail:
            out['violations'].append({'label': fail[0], 'detail': str(fail[1]),
                                      'symbolic': c[0] + ': ' + c[2],
                                      'by': c[3], 'assignment': c[1]})
            labels_repro.add(c[0])
    for c, rr in zip(cands, res):
        if c[0] in labels_repro:
            continue
        if c[0].startswith('exception:'):
            out['inconclusive'].append(f'{c[0]} only in the encoding: '
                                       + c[2][-700:])
        else:
            out['unreproduced'].append({'label': c[0], 'detail': c[2],
                                        'assignment': c[1]})
    # traces: the encoding agrees with the implementation
    tj = [{'assignment': a} for a, _ in r.traces]
    tr = run_concrete(h, case, tj, workdir) if tj else []
    for (asg, vals), rr in zip(r.traces, tr):
        if rr['failures'] or (rr['exception'] and not rr['infeasible']):
            fail = rr['failures'][0] if rr['failures'] else (
                'exception', rr['exception'])
            out['violations'].append({'label': fail[0], 'detail': str(fail[1]),
                                      'symbolic': 'witness of an explored path',
                                      'by': 'trace', 'assignment': asg})
            continue
        got = {}
        for l, g in rr['records']:
            got.setdefault(l, []).append(g)
        mm = None
        for l, lst in vals.items():
            for n, g in enumerate(lst):
                try:
                    c = got[l][n]
                except (KeyError, IndexError):
                    mm = f'{l}: not reached concretely'
                    break
                a = np.array([complex(*x) for x in g])
                b = np.array([complex(*x) for x in c])
                if a.shape != b.shape:
                    mm = f'{l}: shape'
                    break
                if a.size:
                    fin = np.isfinite(a.real) & np.isfinite(b.real)
                    s = max(abs(b[fin]).max(), abs(a[fin]).max()) \
                        if fin.any() else 0
                    if fin.any() and abs(a[fin] - b[fin]).max() > 1e-6 * s:
                        i = int(np.argmax(abs(np.where(fin, a - b, 0))))
                        mm = f'{l}[{i}]: encoding {a[i]} code {b[i]}'
        if mm:
            out['trace_mismatch'].append({'what': mm, 'assignment': asg})
        else:
            out['traces_ok'] += 1
    # what the solver did not decide falls back to concrete runs (reported as
    # undecided, never as decided)
    if out['inconclusive'] or r.exceptions or r.unsupported or \
            out['unreproduced'] or out['trace_mismatch']:
        jb = [{'seed': seed * 1000 + i} for i in range(30)]
        for rr in run_concrete(h, case, jb, workdir):
            if rr['failures'] or (rr['exception'] and not rr['infeasible']):
                fail = rr['failures'][0] if rr['failures'] else (
                    'exception', rr['exception'])
                out['violations'].append(
                    {'label': fail[0], 'detail': str(fail[1]),
                     'symbolic': 'fallback run', 'by': 'fallback',
                     'assignment': rr['assignment']})
                break
    out['sample_path'] = r.traces[0][0] if r.traces else None
    out['wall'] = time.time() - t0
    return out


def _task_wrapper(args):
    try:
        return run_task(args)
    except BaseException as e:
        return {'harness': args[1], 'case': args[2], 'violations': [],
                'unreproduced': [], 'traces_ok': 0, 'trace_mismatch': [],
                'inconclusive': ['engine error: ' + traceback.format_exc()[-1500:]],
                'stats': None, 'reached': {}, 'notes': [], 'wall': 0,
                'engine_error': True, 'truncated': False}


def _child(task, path):
    global _SERVER
    import pickle
    import resource
    _SERVER = Server()
    try:
        # a formula which grows without limit ends this task only
        resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 9 << 29))
    except (ValueError, OSError):
        pass
    r = _task_wrapper(task)
    _SERVER.close()
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(r, f)
    os.replace(path + '.tmp', path)


def _failed(t, why):
    return {'harness': t[1], 'case': t[2], 'violations': [],
            'unreproduced': [], 'traces_ok': 0, 'trace_mismatch': [],
            'inconclusive': [why], 'stats': None, 'reached': {}, 'notes': [],
            'wall': 0, 'truncated': True}


def run_all(tasks, nproc, limit, t0, workdir):
    """one forked process per task, nproc at a time"""
    import pickle
    mctx = mp.get_context('fork')
    pending = list(enumerate(tasks))
    running = {}
    res = [None] * len(tasks)
    known = load_known()
    while pending or running:
        while pending and len(running) < nproc:
            n, t = pending.pop(0)
            path = os.path.join(workdir, f'task{n}.pkl')
            pr = mctx.Process(target=_child, args=(t, path))
            pr.start()
            running[n] = (pr, path, t)
        time.sleep(0.02)
        over = time.time() - t0 > limit
        for n, (pr, path, t) in list(running.items()):
            if not pr.is_alive():
                pr.join()
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        res[n] = pickle.load(f)
                else:
                    res[n] = _failed(t, f'engine process ended with '
                                        f'{pr.exitcode}')
                del running[n]
                if any(not is_known(t[0], t[1], v, known)
                       for v in res[n]['violations']):
                    # decided: the others get a short grace period
                    limit = min(limit, time.time() - t0 + 40)
            elif over:
                pr.kill()
                pr.join()
                res[n] = _failed(t, 'time limit of the check')
                del running[n]
        if over:
            for n, t in pending:
                res[n] = _failed(t, 'time limit of the check')
            pending = []
    return res


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p)).get('findings', [])
    return []


def is_known(prop, hname, v, known):
    for k in known:
        if k.get('status') != 'known' or k['property'] != prop:
            continue
        if k.get('harness') and k['harness'] != hname:
            continue
        if k.get('label') and k['label'] != v['label']:
            continue
        if k.get('contains') and k['contains'] not in v['detail']:
            continue
        return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--concrete')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    if a.concrete:
        concrete_main(a.concrete)
        return 0
    if not a.replay and os.environ.get('MALLOC_PERTURB_') != '128':
        # has to be set before the process starts: uninitialised memory is
        # then never zero by accident
        env = dict(os.environ, MALLOC_PERTURB_='128', PYTHONHASHSEED='0')
        env.setdefault('OPENBLAS_NUM_THREADS', '1')
        os.execve(PY, [PY, '-m', 'vf.run'] + sys.argv[1:], env)
    setup_paths()
    workdir = tempfile.mkdtemp(prefix='vfrun_')
    try:
        if a.replay:
            return do_replay(a.replay, workdir)
        return do_check(a, workdir)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def do_replay(path, workdir):
    d = json.load(open(path))
    hs = {h.name: h for h in load_prop(d['property'])}
    h = hs[d['harness']]
    if h.needs_c:
        os.environ['VF_CEXT'] = build_c(workdir)
    r = run_concrete(h, d['case'], [{'assignment': d['assignment']}], workdir)[0]
    print(json.dumps({'failures': r['failures'], 'exception': r['exception']},
                     indent=1))
    if r['failures'] or (r['exception'] and not r['infeasible']):
        print('REPRODUCED')
        return 1
    print('not reproduced')
    return 0


def do_check(a, workdir):
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    hs = load_prop(prop)
    tasks = []
    needs_c = False
    for h in hs:
        if a.only and a.only not in h.name:
            continue
        if h.thorough_only and tier != 'thorough':
            continue
        cases = list(h.cases)
        if tier == 'thorough':
            cases += list(h.thorough_cases)
        for c in cases:
            tasks.append((prop, h.name, c, tier, seed, workdir))
        needs_c |= h.needs_c
    mod = sys.modules[f'props.{prop}']
    if needs_c:
        try:
            os.environ['VF_CEXT'] = build_c(workdir)
        except RuntimeError as e:
            print(e)
            return 2
    if hasattr(mod, 'prepare'):
        mod.prepare(workdir)
    preload(prop)
    results = run_all(tasks, a.j, 540 if tier == 'quick' else 6 * 3600, t0,
                      workdir)
    return report(a, prop, tier, seed, hs, results, time.time() - t0)


def report(a, prop, tier, seed, hs, results, wall):
    known = load_known()
    agg = {}
    for r in results:
        if r['stats']:
            for k, v in r['stats'].items():
                agg[k] = agg.get(k, 0) + v
    hmap = {h.name: h for h in hs}
    lines, exitcode = [], 0
    nviol = 0
    known_seen = {}
    rdir = os.path.join(ROOT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    viol_out = []
    for r in results:
        new = []
        for v in r['violations']:
            k = is_known(prop, r['harness'], v, known)
            if k:
                known_seen[k['text']] = k
            else:
                new.append(v)
        if new:
            v = new[0]
            hsh = hashlib.sha1(json.dumps(
                [r['harness'], r['case'], v['label']], default=str).encode()
            ).hexdigest()[:8]
            path = os.path.join(rdir, f'{prop}-{r["harness"]}-{hsh}.json')
            json.dump({'property': prop, 'harness': r['harness'],
                       'case': r['case'], 'assignment': v['assignment'],
                       'label': v['label'], 'detail': v['detail'],
                       'symbolic': v['symbolic'], 'confirmed_by': v['by'],
                       'how': f'cd {ROOT} && {PY} -m vf.run --replay {path}'},
                      open(path, 'w'), indent=1)
            lines.append(f'VIOLATION property={prop} replay={path}')
            print(f'  [{r["harness"]} {r["case"]}] {v["label"]}: '
                  f'{v["detail"][:600]}\n     via {v["by"]}: '
                  f'{v["symbolic"][:300]}')
            viol_out.append({'harness': r['harness'], 'label': v['label'],
                             'detail': v['detail'][:500], 'replay': path})
            nviol += 1
            exitcode = 1
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop and \
                (k['text'] in known_seen or k.get('always')):
            print(f'KNOWN-FINDING: property={prop} {k["text"]}')
    inconc = [(r['harness'], r['case'], x) for r in results
              for x in r['inconclusive']]
    unrep = [(r['harness'], r['case'], x) for r in results
             for x in r['unreproduced']]
    for h, c, x in inconc:
        print(f'INCONCLUSIVE [{h} {c}] {x[:900]}')
    for h, c, x in unrep:
        print(f'UNREPRODUCED [{h} {c}] {x["label"]}: {x["detail"][:500]}')
        if a.v:
            print(json.dumps(x['assignment'])[:1500])
    for r in results:
        for m in r['trace_mismatch']:
            print(f'TRACE-MISMATCH [{r["harness"]} {r["case"]}] {m["what"][:400]}')
    dead = []
    for r in results:
        if r['stats'] and not r['stats']['obligations'] and not r['violations']:
            dead.append(r['harness'])
            print(f'VACUOUS [{r["harness"]} {r["case"]}] reached no obligation')
    if a.v:
        for r in results:
            s = r['stats'] or {}
            print(f'  {r["harness"]} {r["case"]}: paths={s.get("paths")} '
                  f'forks={s.get("forks")} obl={s.get("obligations")} '
                  f'entries={s.get("entries")} q={s.get("queries")} '
                  f'unk={s.get("unknown")} solver={s.get("solver_s", 0):.2f}s '
                  f'traces={r["traces_ok"]} wall={r["wall"]:.1f}s '
                  f'nz={s.get("assumed_nonzero")}')
    # a candidate that the real code does not reproduce is not a violation: it
    # is listed as undecided.  Nothing explored at all, for no stated reason, is
    # an error of the check.
    if exitcode == 0 and dead and not inconc:
        exitcode = 2
    level = 'model_checking'
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'states': int(agg.get('paths', 0)),
            'transitions': int(agg.get('forks', 0) + agg.get('obligations', 0)),
            'traces_validated_against_impl': int(sum(r['traces_ok']
                                                     for r in results)),
            'samples': [{'harness': r['harness'], 'case': r['case'],
                         'path_witness': _short(r.get('sample_path'))}
                        for r in results if r.get('sample_path')][:5],
            'explanation': 'states = feasible paths of the real functions '
                           'executed symbolically; transitions = solver-decided '
                           'forks plus obligations; each obligation is a z3 '
                           'query over all values inside the bounds',
            'harnesses': [{'name': h.name, 'functions': h.functions,
                           'bounds': h.bounds} for h in hs],
            'per_harness': [{'name': r['harness'], 'case': r['case'],
                             'stats': r['stats'], 'reached': r['reached'],
                             'wall_s': round(r['wall'], 2),
                             'traces_ok': r['traces_ok'],
                             'trace_mismatch': len(r['trace_mismatch'])}
                            for r in results],
            'queries': int(agg.get('queries', 0)),
            'queries_unsat': int(agg.get('unsat', 0)),
            'queries_sat': int(agg.get('sat', 0)),
            'queries_unknown': int(agg.get('unknown', 0)),
            'solver_time_s': round(agg.get('solver_s', 0.0), 3),
            'obligations': int(agg.get('obligations', 0)),
            'obligation_entries': int(agg.get('entries', 0)),
            'terms_emitted': int(agg.get('terms', 0)),
            'denominators_assumed_nonzero': int(agg.get('assumed_nonzero', 0)),
            'inconclusive': [f'{h} {c}: {x[:300]}' for h, c, x in inconc],
            'unreproduced': [f'{h} {c}: {x["label"]}' for h, c, x in unrep],
        },
        'assumptions': [
            'exact real arithmetic: IEEE rounding is outside the claim; '
            'coefficients agree to 1e-9 relative',
            'inputs within the boxes and sizes given per harness',
        ] + sorted({n for r in results for n in r['notes']}),
        'wall_s': round(wall, 2),
        'violations': nviol,
        'violation_list': viol_out,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w'),
              indent=1, default=str)
    for ln in lines:
        print(ln)
    print(f'{prop} {tier}: paths={agg.get("paths")} '
          f'obligations={agg.get("obligations")} queries={agg.get("queries")} '
          f'solver={agg.get("solver_s", 0):.1f}s wall={wall:.1f}s '
          f'undecided={len(inconc) + len(unrep)} exit={exitcode}')
    return exitcode


def _short(x):
    if not x:
        return x
    return {'choices': x['choices'],
            'inputs': dict(list(x['inputs'].items())[:12])}


if __name__ == '__main__':
    sys.exit(main())
