'''
Runtime-monitoring harness: runs cases of a workload against the real code in /repo, with monitors
(oracles) that watch what the code does, and turns what they saw into a verdict and evidence.

Three-valued verdicts: exit 0 (held on everything explored), exit 1 (violated, VIOLATION line),
exit 3 (inconclusive: a monitor was never reached, watchdog fired, machine trouble).
'''
import errno
import fcntl
import hashlib
import importlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

MAX_FAILURES_PER_WORKER = 3
CASE_TIMEOUT_S = 240


class Violation(Exception):
    def __init__(self, mechanism, message, witness=None):
        super().__init__(message)
        self.mechanism = mechanism
        self.message = str(message)
        self.witness = witness or {}


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    pass


def jsonable(o, depth=0):
    import numpy as np
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:50]}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(o)[:60]]
    if isinstance(o, np.ndarray):
        if o.size <= 200:
            return jsonable(o.tolist(), depth + 1)
        return 'array shape={} dtype={} sha1={}'.format(
            o.shape, o.dtype, hashlib.sha1(np.ascontiguousarray(o).tobytes()).hexdigest()[:12])
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:300]


class Ctx(object):
    '''What a case sees: its scratch directory, its random generators and its monitor counters.'''

    def __init__(self, pid, seed, workload, index, tier, events, scratch):
        self.pid, self.seed, self.workload, self.index, self.tier = pid, seed, workload, index, tier
        self.events = events
        self.scratch = scratch
        self.dir = None
        self.key = None          # what the case was, for counting distinct cases
        self.trivial = False
        self.sample = None
        self.observations = 0    # oracle comparisons made in this case
        self.states = set()      # distinct observed states / interleavings in this case

    def rng(self):
        import numpy as np
        h = hashlib.sha256('{}|{}|{}|{}'.format(self.seed, self.pid, self.workload, self.index)
                           .encode()).digest()
        self.pyrandom = random.Random(int.from_bytes(h[8:16], 'big'))
        return np.random.default_rng(int.from_bytes(h[:8], 'big'))

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def describe(self, **kw):
        '''Records what this case is: used for counting distinct cases and for samples.'''
        self.sample = kw
        self.key = hashlib.sha1(repr(sorted(kw.items(), key=lambda t: t[0])).encode()).hexdigest()

    def state(self, s):
        self.states.add(s if isinstance(s, str) else repr(s))

    def ok(self, cond, mechanism, message='', **witness):
        '''A monitor's judgement.'''
        self.observations += 1
        self.event('oracle:' + mechanism)
        if not cond:
            raise Violation(mechanism, str(message) or mechanism, witness)

    def eq(self, actual, expected, mechanism, **witness):
        self.ok(actual == expected, mechanism, 'got {!r}, expected {!r}'.format(actual, expected),
                actual=actual, expected=expected, **witness)

    def close(self, actual, expected, mechanism, rtol=1e-9, atol=1e-9, **witness):
        import numpy as np
        a, e = np.asarray(actual, dtype=float), np.asarray(expected, dtype=float)
        same = a.shape == e.shape and np.allclose(a, e, rtol=rtol, atol=atol, equal_nan=True)
        self.ok(same, mechanism, 'arrays differ: got {}, expected {}'.format(
            jsonable(a), jsonable(e))[:600], actual=a, expected=e, **witness)

    def same(self, actual, expected, mechanism, **witness):
        '''Exact equality of arrays, NaN equal to NaN.'''
        import numpy as np
        a, e = np.asarray(actual), np.asarray(expected)
        try:
            same = a.shape == e.shape and np.array_equal(a, e, equal_nan=True)
        except TypeError:
            same = a.shape == e.shape and bool(np.all(a == e))
        self.ok(same, mechanism, 'arrays differ: got {}, expected {}'.format(
            jsonable(a), jsonable(e))[:600], actual=a, expected=e, **witness)

    def raises(self, exc_type, func, mechanism, **witness):
        try:
            res = func()
        except exc_type:
            self.ok(True, mechanism)
            return
        except Exception as e:
            self.ok(False, mechanism, 'expected {}, raised {!r}'.format(exc_type, e), **witness)
            return
        self.ok(False, mechanism, 'expected {}, returned {!r}'.format(exc_type, res), **witness)


# ---------------------------------------------------------------------------------------------
# which functions of the repository ran while the monitors watched (evidence only, no verdict)

class Exercised(object):
    def __init__(self):
        self.seen = set()

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        prefix = REPO.rstrip('/') + '/'
        tool = mon.PROFILER_ID
        try:
            mon.use_tool_id(tool, 'verif')
        except ValueError:
            return
        seen = self.seen

        def on_start(code, offset):
            if code.co_filename.startswith(prefix):
                seen.add(code.co_filename[len(prefix):] + ':' + code.co_qualname)
            return mon.DISABLE

        mon.register_callback(tool, mon.events.PY_START, on_start)
        mon.set_events(tool, mon.events.PY_START)


# ---------------------------------------------------------------------------------------------

def classify_exception(exc):
    if isinstance(exc, MemoryError):
        return 'inconclusive'
    if isinstance(exc, OSError) and exc.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE,
                                                  errno.EAGAIN):
        return 'inconclusive'
    if isinstance(exc, Inconclusive):
        return 'inconclusive'
    return 'violation'


def repo_frame(tb):
    frame = None
    for fs in traceback.extract_tb(tb):
        if fs.filename.startswith(REPO.rstrip('/') + '/'):
            frame = '{}:{}'.format(os.path.relpath(fs.filename, REPO), fs.name)
    return frame


def run_case(module, pid, seed, tier, wname, func, index, events, scratch):
    '''Runs one case in a fresh working directory; returns a result dict.'''
    import numpy as np
    ctx = Ctx(pid, seed, wname, index, tier, events, scratch)
    case_dir = tempfile.mkdtemp(prefix='case-', dir=scratch)
    ctx.dir = case_dir
    os.chdir(case_dir)
    rng = ctx.rng()
    res = {'workload': wname, 'index': index, 'status': 'held'}
    # the code under test uses the global generators; give every case the same start
    np.random.seed(ctx.pyrandom.randrange(2 ** 31))
    random.seed(ctx.pyrandom.randrange(2 ** 31))

    def on_alarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_TIMEOUT_S)
    t0 = time.monotonic()
    try:
        func(ctx, rng)
    except Violation as v:
        res.update(status='violation', mechanism=v.mechanism, message=v.message[:2000],
                   witness=jsonable(v.witness))
    except CaseTimeout:
        res.update(status='inconclusive', message='case timed out after {} s'.format(CASE_TIMEOUT_S))
    except Exception as e:
        status = classify_exception(e)
        where = repo_frame(e.__traceback__)
        res.update(status=status, mechanism='unexpected-exception:{}:{}'.format(
            type(e).__name__, where or 'harness'),
            message='{}: {}'.format(type(e).__name__, e)[:1500],
            witness={'traceback': traceback.format_exc()[-3000:]})
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(scratch)
        if 'matplotlib.pyplot' in sys.modules:
            sys.modules['matplotlib.pyplot'].close('all')
        shutil.rmtree(case_dir, ignore_errors=True)
    res.update(key=ctx.key, trivial=ctx.trivial, sample=jsonable(ctx.sample),
               observations=ctx.observations, states=sorted(ctx.states), wall=time.monotonic() - t0)
    return res


def turns(scratch, n):
    '''For checks of few, long cases: the next case goes to the worker that is free.'''
    with open(os.path.join(scratch, 'turns'), 'a+b', buffering=0) as f:
        while True:
            fcntl.flock(f, fcntl.LOCK_EX)
            turn = os.fstat(f.fileno()).st_size
            f.write(b'.')
            fcntl.flock(f, fcntl.LOCK_UN)
            if turn >= n:
                return
            yield turn


def worker_main(module, pid, seed, tier, jobs, wid, nworkers, scratch, out_path, deadline):
    warnings.simplefilter('ignore')
    wdir = tempfile.mkdtemp(prefix='w{}-'.format(wid), dir=scratch)
    events = {}
    exercised = Exercised()
    exercised.start()
    results, failures, truncated = [], 0, 0
    dynamic = getattr(module, 'DYNAMIC', False)
    for n in turns(scratch, len(jobs)) if dynamic else range(wid, len(jobs), nworkers):
        wname, func, index = jobs[n]
        if time.monotonic() > deadline:
            truncated += 1
            continue
        res = run_case(module, pid, seed, tier, wname, func, index, events, wdir)
        results.append(res)
        if res['status'] == 'violation':
            failures += 1
            if failures >= MAX_FAILURES_PER_WORKER:
                break
    with open(out_path + '.tmp', 'wb') as f:
        pickle.dump({'results': results, 'events': events, 'seen': exercised.seen,
                     'truncated': truncated}, f)
    os.rename(out_path + '.tmp', out_path)


def load_known(pid):
    '''Mechanisms of recorded, unrepaired genuine defects: they are reported but do not alarm.'''
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                parts = line[len('known:'):].split(None, 2)
                fields = dict(p.split('=', 1) for p in parts[:2])
                if fields.get('property') == pid:
                    known[fields['mechanism']] = parts[2] if len(parts) > 2 else ''
    return known


def build_jobs(module, tier):
    jobs = []
    for (wname, func, quick_n, thorough_n) in module.WORKLOADS:
        n = quick_n if tier == 'quick' else thorough_n
        for i in range(n):
            jobs.append((wname, func, i))
    if getattr(module, 'DYNAMIC', False):
        return jobs
    # interleave workloads so that every worker gets a mixture, in a fixed order
    jobs.sort(key=lambda j: hashlib.sha1('{}|{}'.format(j[0], j[2]).encode()).hexdigest())
    return jobs


def main(pid, argv):
    t_start = time.monotonic()
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    replay = None
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--seed' in argv:
        seed = int(argv[argv.index('--seed') + 1])
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            replay = json.load(f)
        seed, tier = replay['seed'], replay['tier']
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    nworkers = int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 1)

    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    scratch = tempfile.mkdtemp(prefix='verif-{}-'.format(pid))
    os.chdir(scratch)
    code = 3
    try:
        module = importlib.import_module('checks.{}'.format(pid.lower()))
        if hasattr(module, 'setup'):
            module.setup()
        if replay is not None:
            code = run_replay(module, pid, seed, tier, replay, scratch)
        else:
            code = run_all(module, pid, seed, tier, nworkers, scratch, t_start)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def run_replay(module, pid, seed, tier, replay, scratch):
    func = {w[0]: w[1] for w in module.WORKLOADS}[replay['workload']]
    res = run_case(module, pid, seed, tier, replay['workload'], func, replay['index'], {}, scratch)
    print(json.dumps(res, indent=1, default=repr))
    if res['status'] == 'violation':
        print('VIOLATION property={} replay={}'.format(pid, sys.argv[sys.argv.index('--replay') + 1]))
        return 1
    return 0 if res['status'] == 'held' else 3


def run_all(module, pid, seed, tier, nworkers, scratch, t_start):
    jobs = build_jobs(module, tier)
    budget = 700 if tier == 'quick' else float(os.environ.get('VERIF_BUDGET_S', '800'))
    deadline = t_start + budget
    nworkers = max(1, min(nworkers, len(jobs)))

    pids, outs = {}, []
    sys.stdout.flush()
    sys.stderr.flush()
    for wid in range(nworkers):
        out = os.path.join(scratch, 'out-{}.pkl'.format(wid))
        outs.append(out)
        child = os.fork()
        if child == 0:
            rc = 70
            try:
                # own process group: everything a worker leaves behind can be ended
                os.setpgid(0, 0)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                worker_main(module, pid, seed, tier, jobs, wid, nworkers, scratch, out, deadline)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(rc)
        pids[child] = wid

    hard_deadline = deadline + CASE_TIMEOUT_S * 0.3
    bad_workers = []
    while pids:
        p, status = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            if time.monotonic() > hard_deadline:
                for c in list(pids):
                    try:
                        os.killpg(c, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(c, 0)
                    bad_workers.append('worker {} stopped by watchdog'.format(pids.pop(c)))
                break
            time.sleep(0.02)
            continue
        if p in pids:
            wid = pids.pop(p)
            try:
                os.killpg(p, signal.SIGKILL)   # leftover pool processes of that worker
            except OSError:
                pass
            if status != 0:
                bad_workers.append('worker {} ended with status {}'.format(wid, status))

    events, seen, results, truncated = {}, set(), [], 0
    for out in outs:
        if not os.path.exists(out):
            continue
        with open(out, 'rb') as f:
            data = pickle.load(f)
        results.extend(data['results'])
        seen |= data['seen']
        truncated += data['truncated']
        for k, v in data['events'].items():
            events[k] = events.get(k, 0) + v

    known = load_known(pid)
    violations, knowns, inconclusive = {}, {}, []
    results.sort(key=lambda r: (r['workload'], r['index']))
    for r in results:
        if r['status'] == 'violation':
            mech = r['mechanism']
            (knowns if mech in known else violations).setdefault(mech, []).append(r)
        elif r['status'] == 'inconclusive':
            inconclusive.append('{}[{}]: {}'.format(r['workload'], r['index'], r['message']))

    for mech in sorted(knowns):
        print('KNOWN-FINDING: property={} {} {}'.format(pid, mech, known[mech]))

    # distinct, non-trivial cases as counted on this run
    keys = set(r['key'] for r in results if r['key'] and not r['trivial'])
    states = set()
    for r in results:
        states.update(r['states'])
    by_workload = {}
    for r in results:
        by_workload[r['workload']] = by_workload.get(r['workload'], 0) + 1
    samples, sampled = [], set()
    for r in results:
        if r['sample'] and not r['trivial'] and r['workload'] not in sampled:
            sampled.add(r['workload'])
            samples.append({'workload': r['workload'], 'index': r['index'], 'case': r['sample'],
                            'observations': r['observations']})
    required = list(getattr(module, 'REQUIRED_EVENTS', []))
    missing = [e for e in required if not events.get(e)]

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(keys),
            'rule': module.RULE,
            'samples': samples or [{'note': 'no case completed'}],
            'cases_by_workload': by_workload,
            'oracle_judgements': sum(r['observations'] for r in results),
            'events_observed': {k: v for k, v in sorted(events.items())},
            'distinct_observed_states': len(states),
            'repo_functions_exercised': len(seen),
            'repo_functions': sorted(seen)[:400],
            'cases_not_run_for_time': truncated,
            'inconclusive_cases': inconclusive[:20],
            'known_findings_seen': sorted(knowns),
        },
        'violations': sum(len(v) for v in violations.values()),
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])) + [
            'Held on the executions listed here; nothing is claimed for executions not produced.'],
        'wall_s': round(time.monotonic() - t_start, 2),
    }
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, '.{}.json.{}'.format(pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write('\n')
    os.rename(tmp, os.path.join(edir, '{}.json'.format(pid)))

    if violations:
        rdir = os.path.join(edir, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for mech in sorted(violations):
            r = violations[mech][0]
            name = '{}-{}.json'.format(pid, hashlib.sha1(mech.encode()).hexdigest()[:8])
            path = os.path.join(rdir, name)
            with open(path, 'w') as f:
                json.dump({'property': pid, 'seed': seed, 'tier': tier, 'workload': r['workload'],
                           'index': r['index'], 'mechanism': mech, 'message': r['message'],
                           'witness': r.get('witness'), 'case': r['sample'],
                           'times_seen': len(violations[mech])}, f, indent=1, default=repr)
            print('  {} in {}[{}]: {}'.format(mech, r['workload'], r['index'], r['message'][:300]))
            print('VIOLATION property={} replay={}'.format(pid, path))
        return 1

    print('{} {} seed={}: {} cases ({} distinct non-trivial), {} judgements, {} repo functions, '
          '{:.1f} s'.format(pid, tier, seed, len(results), len(keys),
                            evidence['coverage']['oracle_judgements'], len(seen),
                            evidence['wall_s']))
    problems = bad_workers + inconclusive[:5]
    if missing:
        problems.append('monitors never reached: {}'.format(missing))
    if not results:
        problems.append('no case completed')
    if problems:
        print('INCONCLUSIVE: ' + '; '.join(problems))
        return 3
    return 0
