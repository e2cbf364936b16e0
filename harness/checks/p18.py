'''P18: solvers saved and loaded in histories, by other processes, and around crashes while saving.'''
import glob
import os
import pickle
import resource
import signal
import subprocess
import sys

import numpy as np

import lib
import solverlib

RULE = ('A history trains several solvers in one directory that differ from each other in one setting '
        '(region, scaling, clustering type, k, seed, mode, measure, model, test length or error), saves '
        'them in random order, deletes partitions, kills processes while saving, and loads solvers by '
        'newly built metadata in this process, in forked processes and in new interpreters. Answers of '
        'loaded solvers are compared bit for bit with those of the saved solver and with an independent '
        'model. Non-trivial: at least 2 solvers.')
ASSUMPTIONS = ['A process killed while saving may leave a solver that cannot be loaded, never one that '
               'answers differently; the same for one that lost a file.',
               'Crashes are process deaths; loss of written pages in a power cut is not modelled.']
REQUIRED_EVENTS = ['saved', 'loaded', 'never-saved', 'differ-in-one-setting', 'killed-while-saving',
                   'partition-deleted', 'loaded-in-fork', 'loaded-in-new-process', 'saved-again', 'auto',
                   'file-lost', 'measure-used-again']


def setup():
    import spta.solver.train, spta.solver.model, spta.solver.metadata  # noqa
    import spta.arima.train, spta.model.knn, spta.model.mean, spta.distance.rmse  # noqa
    import spta.clustering.factory, spta.region.metadata, spta.dataset.temp_brazil  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def load(s):
    from spta.solver.model import SolverPickler
    return SolverPickler(s.metadata()).load_solver()


def answers(solver, queries):
    from spta.region import Region
    out = []
    for rect, n in queries:
        r = solver.predict(Region(*rect), n, output_home='outs', plot=False)
        for p in [q for q in r]:
            row = [(int(p.x), int(p.y)), np.array(r.prediction_forecast_at(p), dtype=float).tolist(),
                   float(r.prediction_error_at(p)),
                   int(r.cluster_index_of(r.to_domain_coordinates(p)))]
            if n == 0:
                row.append(np.array(solverlib.in_sample(r).prediction_test_at(p), dtype=float).tolist())
            out.append(row)
    return out


def variant(rng, s, worlds):
    '''A setting that differs from s in one thing.'''
    import copy
    v = solverlib.Setting(s.md, s.raw, s.clustering, s.measure, s.model, s.test_len, s.error_type)
    what = str(rng.choice(['region', 'scaled', 'k', 'seed', 'mode', 'type', 'measure', 'model',
                           'test_len', 'error', 'model-params', 'measure-weight']))
    name, k, kw = copy.deepcopy(s.clustering)
    if what in ('region', 'scaled'):
        opts = [w for w in worlds if w[0] is not s.md and (what == 'region' or
                                                           w[0].name == s.md.name)]
        opts = opts or [w for w in worlds if w[0] is not s.md]
        md, raw = opts[int(rng.integers(len(opts)))]
        v = solverlib.Setting(md, raw, s.clustering, s.measure, s.model, s.test_len, s.error_type)
    elif what == 'k' and name == 'kmedoids':
        v.clustering = (name, k + 1 if k < 4 else 2, kw)
    elif what == 'seed' and name == 'kmedoids':
        v.clustering = (name, k, dict(kw, random_seed=int(rng.choice([1, 2, 10, 12, 21, 111]))))
    elif what == 'mode' and name == 'kmedoids':
        v.clustering = (name, k, dict(kw, mode='robust' if kw['mode'] == 'lite' else 'lite'))
    elif what == 'type':
        v.clustering = ('regular', 2, {}) if name == 'kmedoids' else \
            ('kmedoids', 2, dict(random_seed=1, mode='lite'))
    elif what in ('measure', 'measure-weight'):
        v.measure = 3.0 if s.measure is None else (None if what == 'measure' else s.measure + 30)
    elif what == 'model':
        v.model = ('mean', 2) if s.model[0] == 'knn' else ('knn', 2, 'dtw')
    elif what == 'model-params':
        if s.model[0] == 'mean':
            v.model = ('mean', s.model[1] % 4 + 1)
        elif s.model[0] == 'knn':
            v.model = ('knn', s.model[1], 'rmse' if s.model[2] == 'dtw' else 'dtw')
        elif s.model[0] == 'auto':
            p = s.model[1]
            v.model = ('auto', p[:4] + (1 if p[4] != 1 else 0,) + p[5:])
        else:
            v.model = ('arima', (0, 1, 1) if s.model[1] == (1, 1, 0) else (1, 1, 0))
    elif what == 'test_len':
        v.test_len = s.test_len % 3 + 1
    else:
        v.error_type = {'MSE': 'MASE', 'MASE': 'sMAPE', 'sMAPE': 'MSE'}[s.error_type]
    return v, what


def killed_save(solver, nbytes):
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            os.close(2)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (nbytes, nbytes))
            solver.save()
            rc = 0
        except BaseException:
            rc = 3
        finally:
            os._exit(rc)
    _, status = os.waitpid(pid, 0)
    return 'killed' if os.WIFSIGNALED(status) else 'saved' if status == 0 else 'failed'


def in_fork(s, queries):
    path = 'fork-{}.pkl'.format(os.getpid())
    pid = os.fork()
    if pid == 0:
        try:
            res = answers(load(s), queries)
            with open(path, 'wb') as f:
                pickle.dump(res, f)
            os._exit(0)
        except BaseException:
            os._exit(3)
    _, status = os.waitpid(pid, 0)
    if status != 0:
        return None
    with open(path, 'rb') as f:
        out = pickle.load(f)
    os.unlink(path)
    return out


CODE = '''
import pickle, sys, logging, warnings
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
sys.path.insert(0, {harness!r})
import solverlib
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from checks import p18
d = pickle.load(open('job.pkl', 'rb'))
md = SpatioTemporalRegionMetadata(d['name'], Region(*d['rect']), 2015, 2015, 1, scaled=d['scaled'])
s = solverlib.Setting(md, d['raw'], d['clustering'], d['measure'], d['model'], d['test_len'],
                      d['error_type'])
pickle.dump(p18.answers(p18.load(s), d['queries']), open('job.out', 'wb'))
'''


def in_new_process(ctx, s, queries):
    r = s.md.region
    with open('job.pkl', 'wb') as f:
        pickle.dump(dict(name=s.md.name, rect=(r.x1, r.x2, r.y1, r.y2), scaled=s.md.scaled, raw=s.raw,
                         clustering=s.clustering, measure=s.measure, model=s.model,
                         test_len=s.test_len, error_type=s.error_type, queries=queries), f)
    harness = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONHASHSEED=str(ctx.pyrandom.randrange(1, 1000)))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CODE.format(harness=harness)], env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    ctx.ok(p.returncode == 0, 'loads-in-new-process', p.stderr.decode()[-1500:], setting=repr(s))
    with open('job.out', 'rb') as f:
        return pickle.load(f)


def same_answers(ctx, got, want, mech, **w):
    ctx.ok(len(got) == len(want), mech, 'number of answers {} {}'.format(len(got), len(want)), **w)
    for g, h in zip(got, want):
        ctx.eq((g[0], g[3]), (h[0], h[3]), mech, **w)
        for a, b in zip([g[1], [g[2]]] + g[4:], [h[1], [h[2]]] + h[4:]):
            ctx.close(a, b, mech, rtol=1e-12, atol=1e-12, **w)


def run(ctx, rng, slow, new_process):
    t = int(rng.integers(15, 19)) if slow else int(rng.integers(9, 13))
    x, y = lib.shape2(rng, 4, 9 if slow else 14, min_points=6)
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata as MD
    data = lib.series_field(rng, t, x + 5, y + 5, kind='groups') + 30
    lib.install_dataset(data, 2015, 2015, 1)
    worlds = []
    for name, (ox, oy), scaled in (('one', (1, 2), False), ('two', (3, 0), False), ('one', (1, 2), True),
                                   ('one_x', (2, 2), True)):
        md = MD(name, Region(ox, ox + x, oy, oy + y), 2015, 2015, 1, scaled=scaled)
        raw = data[:, ox:ox + x, oy:oy + y].copy()
        lib.save_distances(md, lib.scale(raw)[0] if scaled else raw)
        worlds.append((md, raw))
    md, raw = worlds[int(rng.integers(3))]
    base = solverlib.pick_setting(ctx, rng, md, raw, slow=slow)
    if base.clustering[0] == 'regular':
        base.clustering = ('kmedoids', 2, dict(random_seed=1, mode='lite'))
    settings, whats = [base], []
    for _ in range(3):
        v, what = variant(rng, settings[int(rng.integers(len(settings)))], worlds)
        if repr(v) not in [repr(o) for o in settings]:
            ctx.event('differ-in-one-setting')
            settings.append(v)
            whats.append(what)
    if any(s.model[0] == 'auto' for s in settings):
        ctx.event('auto')
    ctx.describe(settings=[repr(s) for s in settings], data=lib.gen_tag(data))
    ctx.trivial = len(settings) < 2

    queries = [((0, x, 0, y), 0), ((0, x, 0, y), 2)]
    for _ in range(2):
        region, n = solverlib.pick_query(rng, base)
        n = min([n] + [v.max_forecast() for v in settings])
        queries.append(((region.x1, region.x2, region.y1, region.y2), n))
    from spta.solver.model import SolverPickler
    solvers = {}
    truth = {}
    saved = set()
    measures = {}
    one_measure = bool(rng.random() < 0.3)       # solvers are trained with the same measure object
    if one_measure:
        ctx.event('measure-used-again')
    doubtful = set()     # a kill may have left files of these settings that cannot be read

    def trained(i):
        if i not in solvers:
            if one_measure:
                st = settings[i].solver_trainer()
                st.distance_measure = measures.setdefault(settings[i].measure, st.distance_measure)
                solvers[i] = st.train('outs')
            else:
                solvers[i] = settings[i].train('outs')
            truth[i] = answers(solvers[i], queries)
            for (rect, n) in queries[:2]:
                solverlib.judge_answer(ctx, settings[i], Region(*rect), n,
                                       solvers[i].predict(Region(*rect), n, plot=False), 'trained-')
        return solvers[i]

    def shared(i):
        '''Settings that differ only in the error share the model files.'''
        s = settings[i]
        return [j for j, o in enumerate(settings) if repr(o)[:repr(o).rindex(',')] ==
                repr(s)[:repr(s).rindex(',')]]

    # a solver that was never saved cannot be loaded, even when others are saved
    for step in range(9):
        i = int(rng.integers(len(settings)))
        act = str(rng.choice(['save', 'save', 'load', 'load', 'fork', 'kill', 'delete-partition', 'lose-file']))
        if act == 'save':
            ctx.event('saved-again' if i in saved else 'saved')
            trained(i).save()
            saved.add(i)
            doubtful.discard(i)
            # what is shared with others is complete again, errors of the others are not touched
        elif act == 'kill':
            # truth is needed to judge whatever can be loaded later
            outcome = killed_save(trained(i), int(rng.integers(0, 2500)))
            if outcome == 'saved':
                saved.add(i)
                doubtful.discard(i)
            else:
                ctx.event('killed-while-saving')
                doubtful.update(shared(i))
        elif act == 'lose-file':
            # a file of a saved solver is gone: it fails to load, or answers the same
            if i not in saved:
                continue
            pk = SolverPickler(settings[i].metadata())
            path = [pk.model_training_pickle_path, pk.model_whole_pickle_path,
                    pk.generalization_errors_pickle_path][int(rng.integers(3))]()
            if os.path.exists(path):
                ctx.event('file-lost')
                os.unlink(path)
            doubtful.update(shared(i))
            try:
                sol = load(settings[i])
            except Exception:
                continue
            same_answers(ctx, answers(sol, queries), truth[i], 'lost-file-never-other-answers',
                         setting=repr(settings[i]), lost=path)
        elif act == 'delete-partition':
            files = glob.glob(os.path.join('pickle', '**', 'partition_*.pkl'), recursive=True)
            for f in files:
                if rng.random() < 0.6:
                    ctx.event('partition-deleted')
                    os.unlink(f)
        else:
            s = settings[i]
            if i in saved and i not in doubtful:
                if act == 'fork':
                    ctx.event('loaded-in-fork')
                    got = in_fork(s, queries)
                    ctx.ok(got is not None, 'saved-solver-loads', 'loading failed in a new process')
                else:
                    ctx.event('loaded')
                    got = answers(load(s), queries)
                same_answers(ctx, got, truth[i], 'loaded-answers-like-saved', setting=repr(s),
                             all_settings=[repr(o) for o in settings])
            else:
                ctx.event('never-saved')
                try:
                    sol = load(s)
                except Exception:
                    ctx.ok(True, 'never-saved-fails')
                    continue
                if i in doubtful:
                    # possibly complete: then it answers like the solver
                    trained(i)
                    same_answers(ctx, answers(sol, queries), truth[i], 'killed-save-never-other-answers',
                                 setting=repr(s))
                else:
                    ctx.ok(False, 'never-saved-fails', 'loaded a solver that was never saved: {} '
                           'saved are {}'.format(s, [repr(settings[j]) for j in saved]))
    # in the end everything is saved, everything answers as before
    for i in [int(v) for v in rng.permutation(len(settings))]:
        trained(i).save()
    for i in [int(v) for v in rng.permutation(len(settings))]:
        ctx.event('loaded')
        sol = load(settings[i])
        same_answers(ctx, answers(sol, queries), truth[i], 'loaded-answers-like-saved',
                     setting=repr(settings[i]), all_settings=[repr(o) for o in settings])
        # loading and saving again keeps everything
        if rng.random() < 0.3:
            ctx.event('saved-again')
            sol.save()
            same_answers(ctx, answers(load(settings[i]), queries), truth[i], 'loaded-answers-like-saved')
    if new_process:
        i = int(rng.integers(len(settings)))
        ctx.event('loaded-in-new-process')
        same_answers(ctx, in_new_process(ctx, settings[i], queries), truth[i],
                     'new-process-answers-like-saved', setting=repr(settings[i]))


def history(ctx, rng):
    run(ctx, rng, False, False)


def history_arima(ctx, rng):
    run(ctx, rng, True, False)


def new_process(ctx, rng):
    run(ctx, rng, bool(rng.random() < 0.5), True)


WORKLOADS = [('history', history, 40, 1600), ('history_arima', history_arima, 14, 300),
             ('new_process', new_process, 6, 60)]
