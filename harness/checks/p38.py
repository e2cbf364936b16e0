'''P38: the programs as their scripts start them, with the named experiments of the real catalogues.'''
import os
import re
import shutil
import subprocess
import sys

import numpy as np

import lib
import reports
import solverlib
from checks import p31, p32, p33
from checks.p19 import read_csv, tree
from checks.p34 import stamps, touched

RULE = ('A scripts case copies the programs into a scratch directory, makes short synthetic datasets for the years of '
        'the catalogue and starts a history of the shell scripts, in processes of their own, with named regions, '
        'suites and settings: distances, centroid, partition analysis, elbows, training of solvers and queries. '
        'What they write and print is compared with models computed from the named region and arguments alone. '
        'The other cases load named regions and walk through named suites, repeatedly and in random order. '
        'Non-trivial: several named experiments.')
ASSUMPTIONS = ['The rectangle of a region name is the one its first catalogue entry gives.',
               'A region name is <region>_<first year>_<last year>_<samples per day>spd, with _scaled if scaled.']
REQUIRED_EVENTS = ['region-loaded', 'scaled', 'several-years', 'same-region-other-years', 'suite', 'suite-again',
                   'suites-interleaved', 'arima-suite', 'experiment', 'script-distances', 'script-parallel',
                   'script-centroid', 'script-partition', 'script-elbows', 'script-auto-train', 'script-auto-predict',
                   'script-knn', 'script-mean', 'script-each', 'script-refused', 'script-from-elsewhere',
                   'script-medoid-distances', 'script-distance-errors',
                   'script-error-between-medoids', 'script-arima-errors', 'whole-chain']

DYNAMIC = True      # the cases with scripts take long

NAME = re.compile(r'^(\w+?)_(\d{4})_(\d{4})_(\d+)spd(_scaled)?$')


def setup():
    import matplotlib
    matplotlib.use('Agg')
    import experiments.metadata.arima, experiments.metadata.clustering, experiments.metadata.region  # noqa
    import experiments.metadata.arima_clustering, experiments.metadata.silhouette  # noqa
    import spta.solver.metadata, spta.clustering.factory, spta.dataset.temp_brazil  # noqa
    import spta.arima.train, spta.model.knn, spta.model.mean  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def parsed(name):
    m = NAME.match(name)
    return m and (m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), bool(m.group(5)))


def rectangles():
    from experiments.metadata.region import predefined_regions
    out = {}
    for name, md in predefined_regions().items():
        out.setdefault(parsed(name)[0] if parsed(name) else name, tuple(md.region))
    return out


def datasets(rng, t):
    '''A different short dataset for every interval of years in the catalogue.'''
    from experiments.metadata.region import predefined_regions
    X = max(r[1] for r in rectangles().values()) + 1
    Y = max(r[3] for r in rectangles().values()) + 1
    out = {}
    for name in predefined_regions():
        if not parsed(name):
            continue
        _, y1, y2, spd, _ = parsed(name)
        if (y1, y2, spd) not in out:
            base = rng.integers(0, 1000, size=(t, 1, 1)) / 10.0
            out[y1, y2, spd] = (base * (0.5 + rng.random((1, X, Y))) + rng.integers(0, 400, size=(t, X, Y)) / 8.0 + 250)
            lib.install_dataset(out[y1, y2, spd], y1, y2, spd)
    return out


def crop(data, name):
    region, y1, y2, spd, _ = parsed(name)
    x1, x2, c1, c2 = rectangles()[region]
    return data[y1, y2, spd][:, x1:x2, c1:c2]


def regions(ctx, rng):
    '''Named regions are what their names say.'''
    from experiments.metadata.region import predefined_regions
    data = datasets(rng, int(rng.integers(3, 6)))
    names = list(predefined_regions())
    ctx.ok(len(set(repr(m) for m in predefined_regions().values())) == len(names), 'named-regions-are-different',
           repr(sorted(names)))
    seen = []
    for i in rng.permutation(len(names))[:7]:
        name = names[int(i)]
        p = parsed(name)
        ctx.ok(p is not None, 'region-name-form', name)
        md = predefined_regions()[name]
        ctx.eq((md.name, md.year_start, md.year_end, md.spd, bool(md.scaled)), p, 'region-is-as-named', region=name)
        ctx.eq(repr(md), name, 'region-files-have-its-name', region=name)
        spt = md.create_instance()
        want = crop(data, name)
        ctx.event('region-loaded')
        if p[2] > p[1]:
            ctx.event('several-years')
        if any(s[0] == p[0] and s[1:] != p[1:] for s in seen):
            ctx.event('same-region-other-years')
        seen.append(p)
        ctx.eq(tuple(spt.shape), want.shape, 'named-region-shape', region=name)
        if p[4]:
            ctx.event('scaled')
            ctx.close(np.asarray(spt.as_numpy), lib.scale(want)[0], 'named-region-data', rtol=1e-9, atol=1e-9,
                      region=name)
        else:
            ctx.close(np.asarray(spt.as_numpy), want, 'named-region-data', rtol=1e-12, region=name)
        i = int(rng.integers(want[0].size))
        q = md.index_to_absolute_point(i)
        r = rectangles()[p[0]]
        ctx.eq((int(q.x), int(q.y)), (r[0] + i // (r[3] - r[2]), r[2] + i % (r[3] - r[2])), 'named-region-coordinates',
               region=name)
    ctx.describe(names=[str(s) for s in seen], tag=lib.gen_tag(rng.random(4)))
    ctx.state(tuple(seen))


def suites(ctx, rng):
    '''Named suites give every clustering once, each time, however their walks are interleaved.'''
    from experiments.metadata import clustering as c
    from spta.clustering.factory import ClusteringMetadataFactory
    ids = [('kmedoids', i) for i in c.kmedoids_suites()] + [('regular', i) for i in c.regular_suites()]
    ctx.eq(set(c.suite_options()), set(i for _, i in ids), 'suite-options')
    walks = {}
    for j in rng.permutation(len(ids))[:4]:
        kind, i = ids[int(j)]
        walks[kind, i] = []
    active = []
    for key in list(walks) * 2:
        s = c.get_suite(*key)
        active.append((key, iter(s), [], s))
    while active:
        j = int(rng.integers(len(active)))
        key, it, got, s = active[j]
        done = False
        for _ in range(int(rng.integers(1, 200))):
            try:
                got.append(next(it))
            except StopIteration:
                done = True
                break
        if done:
            active.pop(j)
            reprs = [repr(m) for m in got]
            ctx.event('suite')
            ctx.ok(len(got) > 0, 'suite-not-empty', str(key))
            ctx.eq(len(set(reprs)), len(reprs), 'suite-clusterings-are-different', suite=str(key))
            ctx.ok(all(m.name == key[0] for m in got), 'suite-has-its-algorithm', str(key))
            ks = sorted(set(m.k for m in got))
            seeds = sorted(set(getattr(m, 'random_seed', None) for m in got), key=str)
            ctx.eq(len(got), len(ks) * len(seeds), 'suite-has-every-combination', suite=str(key), ks=ks, seeds=seeds)
            again = [repr(m) for m in c.get_suite(*key)]
            ctx.event('suite-again')
            ctx.eq(again, reprs, 'suite-walked-again', suite=str(key))
            m = got[int(rng.integers(len(got)))]
            back = ClusteringMetadataFactory().from_repr(repr(m))
            ctx.eq((repr(back), back.k), (repr(m), m.k), 'suite-clustering-by-its-text')
            walks[key].append(reprs)
    ctx.event('suites-interleaved')
    for key, w in walks.items():
        ctx.eq(w[0], w[1], 'suite-walks-agree', suite=str(key))
    # two kinds never share a result file
    from experiments.metadata.region import predefined_regions
    md = list(predefined_regions().values())[int(rng.integers(len(predefined_regions())))]
    from spta.distance.dtw import DistanceByDTW
    paths = {}
    for kind, i in ids:
        suite = c.get_suite(kind, i)
        suite.identifier = i
        p = suite.analysis_csv_filepath('outputs', md, DistanceByDTW())
        ctx.ok(p not in paths, 'suites-write-different-files', '{} {} {}'.format(p, paths.get(p), (kind, i)))
        paths[p] = (kind, i)

    # ARIMA suites
    from experiments.metadata import arima as a
    names = list(a.predefined_arima_suites())
    for j in rng.permutation(len(names))[:4]:
        name = names[int(j)]
        ctx.event('arima-suite')
        p, d, q = [list(v) for v in a.predefined_arima_suites()[name]]
        suite = a.arima_suite_by_name(name)
        got = [(m.p, m.d, m.q) for m in suite.arima_params_gen()]
        ctx.eq(got, [(x, y, z) for x in p for y in d for z in q], 'arima-suite-orders', suite=name)
        ctx.eq([(m.p, m.d, m.q) for m in suite.arima_params_gen()], got, 'arima-suite-again', suite=name)
        m = re.match(r'^arima_(\d)_(\d)_(\d)$', name)
        if m:
            ctx.eq(got, [tuple(int(v) for v in m.groups())], 'arima-suite-is-as-named', suite=name)
    ctx.describe(walks=[str(k) for k in walks], tag=lib.gen_tag(rng.random(4)))


def experiments(ctx, rng):
    '''Named experiments refer to suites and settings that exist.'''
    from experiments.metadata import arima as a, arima_clustering as ac
    missing = []
    for group, models in ((ac.auto_arima_clustering_experiments(), a.predefined_auto_arima()),
                          (ac.experiments_for_arima_with_clusters(), a.predefined_arima_suites())):
        for name, e in group.items():
            ctx.event('experiment')
            ctx.ok(e[0] in models, 'experiment-has-its-model', name)
            if not resolves(e):
                missing.append(name)
    ctx.describe(tag=lib.gen_tag(rng.random(4)))
    for j in rng.permutation(len(missing)):
        ctx.ok(False, 'experiment-has-its-suite:' + missing[int(j)], 'no suite for ' + missing[int(j)])


def resolves(e):
    from experiments.metadata.clustering import get_suite
    try:
        return get_suite(e.clustering_type, e.clustering_suite_id) is not None
    except Exception:
        return False


# ---- scripts

class Shell(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        repo = os.environ.get('VERIF_REPO', '/repo')
        for d in ('spta', 'experiments', 'scripts'):
            shutil.copytree(os.path.join(repo, d), d, ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
        os.makedirs('elsewhere')
        self.env = dict(os.environ, PATH=os.path.dirname(sys.executable) + ':' + os.environ['PATH'],
                        PYTHONWARNINGS='ignore', PYTHONHASHSEED='random')   # as in a user's shell

    def __call__(self, script, *argv, fails=False):
        '''Output and log of the script.'''
        at = '.'
        if self.rng.random() < 0.5:
            at = 'elsewhere'
            self.ctx.event('script-from-elsewhere')
        path = os.path.join(self.ctx.dir, 'scripts', script)
        cmd = ['bash', path if at == 'elsewhere' else os.path.join('scripts', script)] + [str(a) for a in argv]
        # compiling the DTW kernel takes 6 s; only these compute enough distances to gain from it
        compiled = script in ('cluster-partition-analysis.sh', 'arima-training-error-analysis.sh')
        r = subprocess.run(cmd, cwd=at, env=dict(self.env, NUMBA_DISABLE_JIT=str(int(not compiled))),
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           universal_newlines=True)
        if not fails:
            self.ctx.ok(r.returncode == 0, 'script-succeeds', '{} {}: exit {}\n{}'.format(
                script, argv, r.returncode, r.stderr[-1500:]))
        self.ctx.eq(os.listdir('elsewhere'), [], 'script-writes-in-its-own-tree')
        return r.returncode, r.stdout, r.stderr


def scripts(ctx, rng):
    from experiments.metadata.arima import predefined_auto_arima
    from experiments.metadata.clustering import get_suite
    from experiments.metadata.region import predefined_regions
    from spta.clustering.factory import ClusteringFactory
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata as MD
    small = [n for n in predefined_regions() if parsed(n) and
             np.prod([b - a for a, b in (rectangles()[parsed(n)[0]][:2], rectangles()[parsed(n)[0]][2:])]) <= 120]
    ctx.ok(len(small) > 0, 'harness-small-region', repr(list(predefined_regions())))
    data = datasets(rng, int(rng.integers(26, 34)))
    sh = Shell(ctx, rng)
    name = small[int(rng.integers(len(small)))]
    region, y1, y2, spd, scaled = parsed(name)
    md = MD(region, Region(*rectangles()[region]), y1, y2, spd, scaled=scaled)
    raw = crop(data, name)
    t, x, y = raw.shape
    seen = lib.scale(raw)[0] if scaled else raw
    log = []

    # nothing can be done before the distances are computed
    if rng.random() < 0.5:
        ctx.event('script-refused')
        code, out, err = sh('cluster-partition-analysis.sh', name, 'kmedoids', 'quick', fails=True)
        ctx.ok(code != 0, 'script-without-distances-fails', out[-500:] + err[-500:])
    argv = [name, 'dtw']
    if rng.random() < 0.5:
        argv += ['--parallel=2']
        ctx.event('script-parallel')
    sh('distances.sh', *argv)
    ctx.event('script-distances')
    files = [f for f in os.listdir('raw') if f.startswith('distances')]
    ctx.eq(files, ['distances_{}.npy'.format(name)], 'script-distances-file')
    dm = np.load('raw/' + files[0])
    want = lib.dtw_matrix(lib.series_list(seen))
    ctx.close(dm, want, 'script-distances', rtol=1e-9, atol=1e-9, region=name)

    def truth(cmd):
        p = ClusteringFactory(DistanceByDTW()).instance(cmd).partition(md.create_instance())
        return np.array(p.as_numpy).astype(int), [(int(q.x), int(q.y)) for q in p.medoids]

    def centroid():
        ctx.event('script-centroid')
        _, out, err = sh('centroid.sh', name)
        found = re.findall(r'[Cc]entroid\D*Point\(x=(\d+), y=(\d+)\)', out + err)
        ctx.ok(len(found) >= 1, 'script-centroid-reported', (out + err)[-800:])
        px, py = int(found[-1][0]), int(found[-1][1])
        sums = want.sum(axis=1)
        ctx.ok(px < x and py < y and sums[px * y + py] <= sums.min() * (1 + 1e-9), 'script-centroid',
               '({}, {})'.format(px, py), region=name)

    def partition():
        kind = str(rng.choice(['kmedoids', 'regular']))
        log.append(kind)
        before = set(tree('outputs')) if os.path.isdir('outputs') else set()
        extra = ['--variance'] if rng.random() < 0.3 else []
        sh('cluster-partition-analysis.sh', name, kind, 'quick', *extra)
        ctx.event('script-partition')
        suite = get_suite(kind, 'quick')
        suite.identifier = 'quick'
        path = suite.analysis_csv_filepath('outputs', md, DistanceByDTW())
        ctx.ok(os.path.exists(path), 'script-partition-file', repr(sorted(set(tree('outputs')) - before)))
        lines = [r for r in open(path, newline='').read().splitlines() if r]
        cmds = list(get_suite(kind, 'quick'))
        ctx.eq([r.split(' ')[0] for r in lines[1:]], [repr(c) for c in cmds], 'script-partition-rows')
        for line, cmd in zip(lines[1:], cmds):
            _, cost, rest = line.split(' ', 2)
            lab, med = truth(cmd)
            total = sum(want[med[lab[p]][0] * y + med[lab[p]][1], i] for i, p in enumerate(lib.points(x, y)))
            ctx.close(float(cost), total, 'script-partition-cost', rtol=1e-6, atol=0.0011, clustering=repr(cmd))
            meds = [tuple(int(v) for v in part.strip('()').split(',')) for part in rest.strip('|').split(' ') if part]
            ctx.eq(meds, [(a + md.region.x1, b + md.region.y1) for a, b in med], 'script-partition-medoids',
                   clustering=repr(cmd))

    def elbows():
        ctx.event('script-elbows')
        _, out, err = sh('cluster-find-elbows.sh', name, 'large')
        cmds = list(get_suite('kmedoids', 'large'))
        got = re.findall(r'Seed (\d+)\D[^[]*\[([^]]*)\]\s*Elbow found\D*?k=[^0-9]*k?(\d+)', out)
        ctx.eq(sorted(int(g[0]) for g in got), sorted(set(c.random_seed for c in cmds)), 'script-elbow-per-seed',
               text=out[-800:])
        for seed, values, k in got:
            ks = sorted(c.k for c in cmds if c.random_seed == int(seed))
            ctx.eq([int(v) for v in values.split(',')], ks, 'script-elbow-values-of-k', text=out[-800:])
            ctx.ok(int(k) in ks[1:-1], 'script-elbow-inside', k)

    def medoid_distances():
        kind = str(rng.choice(['kmedoids', 'regular']))
        log.append('medoid-distances ' + kind)
        ctx.event('script-medoid-distances')
        before = stamps()
        sh('cluster-medoid-distances.sh', name, kind, 'quick')
        files = [p for p in touched(before) if p.endswith('.csv')]
        for c in get_suite(kind, 'quick'):
            mine = [p for p in files if repr(c) in p.split(os.sep)]
            ctx.eq(len(mine), 1, 'script-medoid-distances-file', clustering=repr(c), files=files)
            rows, header = read_csv(mine[0])
            _, med = truth(c)
            idx = [p[0] * y + p[1] for p in med]
            got = [[float(row[str(j)]) for j in range(len(med))] for row in rows]
            ctx.close(got, want[np.ix_(idx, idx)], 'script-medoid-distances', rtol=1e-6, atol=6e-4, clustering=repr(c))

    owner = {}
    settings = {}

    def solver():
        kind = str(rng.choice(['auto', 'knn', 'mean']))
        seed = int(rng.integers(0, 3))
        k = int(rng.integers(2, 5))
        clustering = ('kmedoids', k, dict(random_seed=seed, mode='lite')) if rng.random() < 0.7 else ('regular', k, {})
        test_len = int(rng.integers(3, 9))
        etype = str(rng.choice(['MSE', 'sMAPE', 'MASE']))
        if kind == 'auto':
            ident = list(predefined_auto_arima())[0]
            model = ('auto', tuple(predefined_auto_arima()[ident]))
            script, head, tp = 'auto-arima-solver.sh', [name, ident, clustering[0], '-k', k], '--tp'
        elif kind == 'knn':
            n = int(rng.integers(1, 4))
            model = ('knn', n, 'dtw')
            script, head, tp = 'knn-solver.sh', [name, clustering[0], '-k', k, n], '--test'
        else:
            n = int(rng.integers(1, 5))
            model = ('mean', n)
            script, head, tp = 'mean-solver.sh', [name, clustering[0], '-k', k], '--test'
        ctx.event({'auto': 'script-auto-train', 'knn': 'script-knn', 'mean': 'script-mean'}[kind])
        s = solverlib.Setting(md, raw, clustering, None, model, test_len, etype)
        opts = ['--error', etype, tp, test_len]
        if clustering[0] == 'kmedoids':
            opts += ['--seed', seed]
        if kind == 'mean':
            opts += ['--past', model[1]]
        log.append((kind, clustering, model, test_len, etype))
        key = repr(log[-1])
        settings.setdefault(key, s)
        s = settings[key]
        if rng.random() < 0.25:
            ctx.event('script-refused')
            code, out, err = sh(script, 'predict', *(head + opts + [0, 1, 0, 1]), fails=True)
            ctx.ok(code != 0, 'script-without-training-fails', out[-500:] + err[-500:])
        sh(script, 'train', *(head + opts))
        for _ in range(2 if rng.random() < 0.5 else 1):
            if kind == 'auto':
                ctx.event('script-auto-predict')
            rect, n = solverlib.pick_query(rng, s)
            rect = (rect.x1, min(rect.x2, rect.x1 + 4), rect.y1, min(rect.y2, rect.y1 + 4))
            before = tree('outputs') if os.path.isdir('outputs') else {}
            _, out, err = sh(script, 'predict', *(head + opts + list(rect) + ['--tf', n]))
            p31.judge(ctx, s, rect, n, out, before, tree('outputs'), owner, (repr(key), rect, n))
        ctx.event('whole-chain')

    def each():
        ctx.event('script-each')
        kind = str(rng.choice(['auto', 'knn']))
        if kind == 'auto':
            ident = list(predefined_auto_arima())[0]
            model, head = ('auto', tuple(predefined_auto_arima()[ident])), [name, ident]
        else:
            n = int(rng.integers(1, 4))
            model, head = ('knn', n, 'dtw'), [name, n]
        test_len, etype = int(rng.integers(3, 9)), str(rng.choice(['MSE', 'sMAPE', 'MASE']))
        s = p31.Each(md, raw, ('regular', 1, {}), None, model, test_len, etype)
        px, py = int(rng.integers(0, x)), int(rng.integers(0, y))
        rect = (px, min(px + 2, x), py, min(py + 1, y))
        before = tree('outputs') if os.path.isdir('outputs') else {}
        script = 'auto-arima-solver-each.sh' if kind == 'auto' else 'knn-solver-each.sh'
        _, out, err = sh(script, *(head + list(rect) + ['--error', etype, '--tf', test_len]))
        who = ((name, 'each', '', '', model, test_len, etype), rect, 0)
        p31.judge(ctx, s, rect, 0, out, before, tree('outputs'), owner, who, clusters=False)

    def errors():
        from experiments.metadata.arima_clustering import auto_arima_clustering_experiments
        program = ('distance-errors', 'error-between-medoids')[int(rng.integers(2))]
        ctx.event('script-' + program)
        exps = [e for e in auto_arima_clustering_experiments() if e.endswith('_quick')]
        exp = exps[int(rng.integers(len(exps)))]
        e = auto_arima_clustering_experiments()[exp]
        etype, n = str(rng.choice(['sMAPE', 'MSE', 'MASE'])), int(rng.choice([8, 5, 3]))
        rep = reports.Reports(md, raw)
        model = ('auto', tuple(predefined_auto_arima()[e.auto_arima_id]))
        cmds = list(get_suite(e.clustering_type, e.clustering_suite_id))
        log.append((program, exp, etype, n))
        before = p33.stamps()
        sh('auto-arima-{}.sh'.format(program), name, exp, '--error', etype, '--flen', n)
        after = p33.stamps()
        new = [f for f in after if after[f] != before.get(f)]
        if program == 'distance-errors':
            p33.distances(ctx, rep, cmds, model, etype, n, new, None)
        else:
            p33.between(ctx, rep, cmds, model, etype, n, new)

    def arima():
        ctx.event('script-arima-errors')
        from experiments.metadata.arima import predefined_arima_suites
        from experiments.metadata.arima_clustering import experiments_for_arima_with_clusters
        exp = 'arima_simple_quick'
        e = experiments_for_arima_with_clusters()[exp]
        orders = reports.suite_orders(*predefined_arima_suites()[e.arima_suite_id])
        etype = str(rng.choice(['sMAPE', 'MSE', 'MASE']))
        rep = reports.Reports(md, raw)
        log.append((exp, etype))
        before = tree('outputs') if os.path.isdir('outputs') else {}
        sh('arima-training-error-analysis.sh', name, exp, '--error', etype, '--parallel', 2)
        p32.judge(ctx, rep, list(get_suite(e.clustering_type, e.clustering_suite_id)), [('arima', o) for o in orders],
                  etype, before, tree('outputs'), False)

    steps = [solver, solver, partition, centroid, elbows, medoid_distances, each, errors, errors]
    if ctx.index % 8 == 0:
        arima()
    for j in rng.permutation(len(steps))[:4]:
        steps[int(j)]()
    ctx.describe(region=name, log=[str(v) for v in log], data=lib.gen_tag(raw))
    ctx.state((name,) + tuple(str(v) for v in log))


WORKLOADS = [('scripts', scripts, 16, 240), ('regions', regions, 16, 200), ('suites', suites, 16, 200), ('experiments', experiments, 4, 20)]
