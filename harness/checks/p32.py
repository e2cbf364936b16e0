'''P32: the forecast-error reports of clusters and regions, by their programs, against an independent analysis.'''
import os

import numpy as np

import lib
import programs
import reports
from checks.p19 import numbers, read_csv, tree

RULE = ('A case runs the ARIMA and auto-ARIMA cluster error analyses (several clusterings, several orders, '
        'plain/parallel, with/without plots, with model fits that fail at chosen points, repeated over saved '
        'partitions) and the error report of a whole region on random offset regions, and parses every row '
        'they write or print. Every number is recomputed from the data, the labels and statsmodels. '
        'Non-trivial: at least 2 clusters were reported.')
ASSUMPTIONS = ['The analyses use 8 test samples, the default of the analysis.',
               'Partitions are judged by P04, P06, P10 and recomputed without saved files here.',
               'Every cluster keeps at least one model.']
REQUIRED_EVENTS = ['auto', 'arima', 'whole-region', 'kmedoids', 'regular', 'scaled', 'missing', 'missing-medoid',
                   'row', 'rerun', 'parallel', 'plots', 'several-orders', 'several-clusterings', 'calculated-centroid',
                   'other-error', 'many-clusters']
N = 8


def setup():
    programs.install('auto_arima.training_error_analysis', 'arima.training_error_analysis', 'arima.forecast')
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def near(ctx, got, want, mech, decimals=3, **w):
    ctx.close(float(got), float(want), mech, rtol=2e-4, atol=2.1 * 10.0 ** -decimals, **w)


def judge_errors(ctx, got, want, **w):
    '''got: five texts.'''
    for name, text in got.items():
        v = numbers(text)
        ctx.eq(len(v), 1, 'number-written', column=name, text=text)
        if name == 'min_local':
            ctx.ok(any(abs(v[0] - o) <= 0.0021 + 2e-4 * abs(o) for o in want[name]), 'error-min_local',
                   'got {}, expected {}'.format(v[0], want[name]), **w)
        else:
            near(ctx, v[0], want[name], 'error-' + name, **w)


ORDERS = [((0,), (1,), (0, 1)), ((1,), (0,), (0,)), ((0, 1), (0,), (0,)), ((1,), (1,), (0,)), ((0,), (0, 1), (0,))]
AUTOS = [(0, 0, 1, 0, 0, True), (1, 1, 1, 1, 1, True), (0, 0, 1, 1, None, True), (0, 2, 0, 2, 0, True), (2, 0, 2, 1, 0, True)]


def fail_some(ctx, rng, rep, cmds):
    '''Points without a model, at least one with a model in every cluster.'''
    rep.failing = set()
    if rng.random() < 0.5:
        return
    pts = lib.points(rep.x, rep.y)
    wish = [pts[int(i)] for i in rng.permutation(len(pts))[:int(rng.integers(1, 4))]]
    if rng.random() < 0.5:
        _, med = rep.partition(cmds[0])
        wish = [med[int(rng.integers(len(med)))]] + wish
    for p in wish:
        keys = {rep.key(q) for q in rep.failing} | {rep.key(p)}
        bad = {q for q in pts if rep.key(q) in keys}
        if all(set(rep.members(c, i)) - bad for c in cmds for i in range(len(rep.partition(c)[1]))):
            rep.failing = bad
    if rep.failing:
        ctx.event('missing')
        if any(m in rep.failing for c in cmds for m in rep.partition(c)[1]):
            ctx.event('missing-medoid')


class Dots(object):
    '''What is plotted.'''

    def __enter__(self):
        import matplotlib.axes
        import matplotlib.pyplot as plt
        self.plt, self.cls, self.seen = plt, matplotlib.axes.Axes, []
        self.old = self.cls.plot

        def plot(ax, *args, **kw):
            if len(args) >= 2 and not isinstance(args[1], str):
                self.seen.append(sorted((round(float(a), 6), float(b)) for a, b in zip(args[0], args[1])))
            return self.old(ax, *args, **kw)
        self.cls.plot = plot
        return self

    def __exit__(self, *a):
        self.cls.plot = self.old
        self.plt.close('all')


def clusters(ctx, rng):
    from spta.arima import AutoArimaParams
    from experiments.metadata.arima_clustering import ArimaWithClusters, AutoArimaCluster
    auto = bool(rng.random() < 0.5)
    many = reports.many_clusters(ctx, 15)
    if many:
        auto = ctx.index // 15 % 2 == 0
    ctx.event('auto' if auto else 'arima')
    rep = reports.world(ctx, rng, int(rng.integers(20, 30)), max_points=7 if auto else 9, many=many)
    kind, make, cmds = reports.pick_suite(rng, rep.x, rep.y, many=many)
    ctx.event(kind)
    if len(cmds) > 1:
        ctx.event('several-clusterings')
    name = 'reg-' + str(rng.integers(10))
    programs.CATALOG['regions'] = {name: rep.md, 'other': None}
    for k in ('kmedoids', 'regular'):
        programs.CATALOG[k] = {'s': make(), 'quick': []} if k == kind else {'s': []}
    if auto:
        params = AUTOS[int(rng.integers(len(AUTOS)))]
        models = [('auto', params)]
        programs.CATALOG['auto_arima'] = {'a': AutoArimaParams(*params), 'simple': AutoArimaParams(9, 9, 9, 9, 9, True)}
        programs.CATALOG['auto_clusters'] = {'e': AutoArimaCluster('a', kind, 's', 'dtw')}
        program = 'auto_arima.training_error_analysis'
    else:
        grid = ORDERS[int(rng.integers(len(ORDERS)))]
        models = [('arima', o) for o in reports.suite_orders(*grid)]
        programs.CATALOG['arima'] = {'a': [grid[0], grid[1], grid[2]], 'b': [(9,), (9,), (9,)]}
        programs.CATALOG['arima_clusters'] = {'e': ArimaWithClusters('a', kind, 's', 'dtw')}
        program = 'arima.training_error_analysis'
    if len(models) > 1:
        ctx.event('several-orders')
    log = []
    for run in range(2):
        fail_some(ctx, rng, rep, cmds)
        etype = str(rng.choice(['sMAPE', 'MSE', 'MASE']))
        argv = [name, 'e']
        if etype != 'sMAPE' or rng.random() < 0.5:
            argv += ['--error', etype]
            ctx.event('other-error')
        if rng.random() < 0.15:
            argv += ['--parallel', int(rng.integers(1, 4))]
            ctx.event('parallel')
        medoids_ok = not any(m in rep.failing for c in cmds for m in rep.partition(c)[1])
        plots = bool(rng.random() < 0.15) and medoids_ok
        if plots:
            argv.append('--plots')
            ctx.event('plots')
        if run:
            ctx.event('rerun')
        log.append((argv, sorted(rep.failing)))
        before = tree('outputs') if os.path.isdir('outputs') else {}
        with rep.faults(), Dots() as dots:
            programs.run(program, *argv)
        after = tree('outputs')
        judge(ctx, rep, cmds, models, etype, before, after, auto)
        if plots:
            want = []
            for c in cmds:
                for i, m in enumerate(rep.partition(c)[1]):
                    for mod in models:
                        fit = rep.model(m, N, mod)
                        want.append(sorted((round(rep.distance(p, m), 6), rep.error(etype, fit, p, N))
                                           for p in rep.members(c, i)))
            ctx.eq(len(dots.seen), len(want), 'one-plot-per-cluster-and-model')
            for got, w in zip(dots.seen, want):
                ctx.eq(len(got), len(w), 'plotted-points')
                ctx.close([v[0] for v in got], [v[0] for v in w], 'plotted-distances', rtol=1e-5, atol=1e-5)
                ctx.close(sorted(v[1] for v in got), sorted(v[1] for v in w), 'plotted-errors', rtol=1e-3, atol=2e-3)
            pdfs = [f for f in after if f.endswith('.pdf') and after[f] != before.get(f)]
            ctx.ok(len(pdfs) >= len(set((repr(c), i) for c in cmds for i in range(len(rep.partition(c)[1])))),
                   'plot-files', repr(pdfs))
        if rng.random() < 0.4:
            break
    ctx.describe(program=program, log=[str(v) for v in log], clusterings=[repr(c) for c in cmds],
                 models=[str(m) for m in models], scaled=rep.md.scaled, shape=list(rep.raw.shape),
                 offset=[rep.md.region.x1, rep.md.region.y1], data=lib.gen_tag(rep.raw))
    ctx.trivial = sum(len(rep.partition(c)[1]) for c in cmds) < 2


def judge(ctx, rep, cmds, models, etype, before, after, auto):
    files = [f for f in after if os.path.basename(f).startswith('error-analysis') and f.endswith('.csv')]
    for c in cmds:
        mine = [f for f in files if '__{!r}__'.format(c) in os.path.basename(f) and f.endswith('__{}.csv'.format(etype))]
        ctx.eq(len(mine), 1, 'one-report-per-clustering-and-error', clustering=repr(c), files=files)
        rows, header = read_csv(mine[0])
        lab, med = rep.partition(c)
        want = [(i, m) for i in range(len(med)) for m in models]
        ctx.eq(len(rows), len(want), 'one-row-per-cluster-and-model', rows=repr(rows)[:600])
        for row, (i, mod) in zip(rows, want):
            ctx.event('row')
            ctx.ok(row is not None, 'row-matches-header', repr(header))
            members = rep.members(c, i)
            ctx.eq(int(row['cluster']), i, 'row-cluster')
            ctx.eq(int(row['size']), len(members), 'row-size', cluster=i)
            if auto:
                fit = rep.model(med[i], N, mod)
                order = fit[0] if fit else (-1, -1, -1)
                ctx.eq(tuple(int(row[k]) for k in ('p_medoid', 'd_medoid', 'q_medoid')), order, 'row-order-of-medoid',
                       cluster=i, medoid=med[i])
                near(ctx, row['aic_medoid'], fit[1] if fit else float('nan'), 'row-aic-of-medoid', cluster=i)
            else:
                ctx.eq(tuple(int(row[k]) for k in 'pdq'), mod[1], 'row-order', cluster=i)
            ctx.eq(int(row['failed']), sum(p in rep.failing for p in members), 'row-failed', cluster=i)
            for k in ('t_forecast', 't_elapsed'):
                ctx.ok(float(row[k]) >= 0, 'row-time', row[k])
            judge_errors(ctx, dict(each=row['error_each'], minimum=row['error_min'], min_local=row['error_min_local'],
                                   centroid=row['error_medoid'], maximum=row['error_max']),
                         rep.cluster_errors(etype, members, med[i], N, mod), cluster=i, model=str(mod), etype=etype,
                         failing=sorted(rep.failing), medoid=med[i])


def region(ctx, rng):
    '''The report of a region as a whole.'''
    ctx.event('whole-region')
    rep = reports.world(ctx, rng, int(rng.integers(20, 30)), max_points=8)
    name = 'reg-' + str(rng.integers(10))
    programs.CATALOG['regions'] = {name: rep.md}
    grid = ORDERS[int(rng.integers(len(ORDERS)))]
    models = [('arima', o) for o in reports.suite_orders(*grid)]
    programs.CATALOG['arima'] = {'a': [grid[0], grid[1], grid[2]], 'b': [(9,), (9,), (9,)]}
    pts = lib.points(rep.x, rep.y)
    if rng.random() < 0.4:
        rep.failing = {pts[int(rng.integers(len(pts)))]}
        keys = {rep.key(p) for p in rep.failing}
        rep.failing = {p for p in pts if rep.key(p) in keys}
        ctx.event('missing')
        if len(rep.failing) == len(pts):
            rep.failing = set()
    sums = [(float(rep.dm[i].sum()), i) for i in range(len(pts))]
    best = min(sums)[0]
    candidates = [pts[i] for s, i in sums if s <= best * (1 + 1e-9) + 1e-12]
    if rng.random() < 0.3:
        # no saved distances: the centroid needs them
        pass
    ctx.event('calculated-centroid')
    with rep.faults():
        text = programs.run('arima.forecast', name, 'a')
    lines = [l for l in text.splitlines() if 'errors' in l]
    ctx.eq(len(lines), len(models), 'one-line-per-model', text=text)
    for line, mod in zip(lines, models):
        head, tail = line.split('errors')
        ctx.eq(tuple(int(v) for v in numbers(head)), mod[1], 'line-order', line=line)
        each, local, centroid = numbers(tail)
        options = [rep.cluster_errors('MASE', pts, p, N, mod) for p in candidates]
        near(ctx, each, options[0]['each'], 'region-each', decimals=2, line=line)
        ctx.ok(any(abs(local - o) < 0.021 + 2e-4 * abs(o) for o in options[0]['min_local']), 'region-min-local',
               '{} {}'.format(line, options[0]['min_local']))
        ctx.ok(any(np.isnan(o['centroid']) and np.isnan(centroid) or
                   abs(centroid - o['centroid']) < 0.021 + 2e-4 * abs(o['centroid']) for o in options),
               'region-centroid', '{} {}'.format(line, [o['centroid'] for o in options]))
    ctx.describe(models=[str(m) for m in models], failing=sorted(rep.failing), scaled=rep.md.scaled,
                 shape=list(rep.raw.shape), data=lib.gen_tag(rep.raw))


WORKLOADS = [('clusters', clusters, 90, 1800), ('region', region, 32, 600)]
