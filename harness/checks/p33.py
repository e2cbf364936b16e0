'''P33: distance/error reports of clusters and errors between medoids, by their programs, against an independent model.'''
import os
import re

import numpy as np

import lib
import programs
import reports
from checks.p19 import numbers, read_csv, tree
from checks.p32 import AUTOS, Dots, near

RULE = ('A case runs the two programs that judge the auto-ARIMA models of the medoids (distance against error for '
        'each cluster, errors between medoids) over several clusterings of random offset regions, with several test '
        'lengths and errors in a row over the same files, with/without plots, and with medoids whose model '
        'fails; every row is compared with the absolute position, the distance to the medoid and the error of '
        "the medoid's model at that point. Non-trivial: at least 2 clusters.")
ASSUMPTIONS = ['Partitions are judged by P04, P06, P10 and recomputed without saved files here.']
REQUIRED_EVENTS = ['distance-errors', 'between-medoids', 'kmedoids', 'regular', 'scaled', 'missing-medoid', 'row',
                   'plots', 'rerun', 'default-length', 'several-clusterings', 'single-member', 'many-clusters']


def setup():
    programs.install('auto_arima.distance_errors', 'auto_arima.error_between_medoids')
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def stamps():
    out = {}
    for d, _, files in os.walk('outputs'):
        for f in files:
            p = os.path.join(d, f)
            out[p] = (os.stat(p).st_mtime_ns, os.stat(p).st_ino)
    return out


def run(ctx, rng):
    from spta.arima import AutoArimaParams
    from experiments.metadata.arima_clustering import AutoArimaCluster
    many = reports.many_clusters(ctx, 14)
    rep = reports.world(ctx, rng, int(rng.integers(22, 32)), max_points=12, many=many)
    kind, make, cmds = reports.pick_suite(rng, rep.x, rep.y, most=4, many=many)
    ctx.event(kind)
    if len(cmds) > 1:
        ctx.event('several-clusterings')
    name = 'reg-' + str(rng.integers(10))
    programs.CATALOG['regions'] = {name: rep.md}
    for k in ('kmedoids', 'regular'):
        programs.CATALOG[k] = {'s': make(), 'quick': []} if k == kind else {'s': []}
    params = AUTOS[int(rng.integers(len(AUTOS)))]
    programs.CATALOG['auto_arima'] = {'a': AutoArimaParams(*params), 'simple': AutoArimaParams(9, 9, 9, 9, 9, True)}
    programs.CATALOG['auto_clusters'] = {'e': AutoArimaCluster('a', kind, 's', 'dtw')}
    model = ('auto', params)
    log = []
    for step in range(int(rng.integers(1, 4))):
        if step:
            ctx.event('rerun')
        program = ('distance_errors', 'error_between_medoids')[int(rng.integers(2))]
        etype = str(rng.choice(['sMAPE', 'MSE', 'MASE']))
        n = int(rng.choice([8, 8, 2, 5, 10]))
        argv = [name, 'e']
        if etype != 'sMAPE' or rng.random() < 0.5:
            argv += ['--error', etype]
        if n != 8 or rng.random() < 0.4:
            argv += ['--flen', n]
        else:
            ctx.event('default-length')
        rep.failing = set()
        plots = program == 'distance_errors' and bool(rng.random() < 0.15)
        if plots:
            argv += ['--plots']
            ctx.event('plots')
        elif rng.random() < 0.3:
            meds = [m for c in cmds for m in rep.partition(c)[1]]
            key = rep.key(meds[int(rng.integers(len(meds)))])
            rep.failing = {p for p in lib.points(rep.x, rep.y) if rep.key(p) == key}
            ctx.event('missing-medoid')
        log.append((program, argv, sorted(rep.failing)))
        before = stamps()
        with rep.faults(), Dots() as dots:
            programs.run('auto_arima.' + program, *argv)
        after = stamps()
        touched = [f for f in after if after[f] != before.get(f)]
        ctx.eq([f for f in before if f not in after], [], 'nothing-is-removed')
        if program == 'distance_errors':
            ctx.event('distance-errors')
            distances(ctx, rep, cmds, model, etype, n, touched, dots.seen if plots else None)
        else:
            ctx.event('between-medoids')
            between(ctx, rep, cmds, model, etype, n, touched)
    ctx.describe(log=[str(v) for v in log], clusterings=[repr(c) for c in cmds], params=str(params),
                 scaled=rep.md.scaled, shape=list(rep.raw.shape), offset=[rep.md.region.x1, rep.md.region.y1],
                 data=lib.gen_tag(rep.raw))
    ctx.trivial = all(len(rep.partition(c)[1]) < 2 for c in cmds)


def distances(ctx, rep, cmds, model, etype, n, touched, seen):
    off = (rep.md.region.x1, rep.md.region.y1)
    csvs = [f for f in touched if os.path.basename(f).startswith('dist-error') and f.endswith('.csv')]
    plotted = []
    total = 0
    for c in cmds:
        mine = [f for f in csvs if '__{!r}__{}__'.format(c, etype) in os.path.basename(f)]
        lab, med = rep.partition(c)
        total += len(med)
        ctx.eq(len(mine), len(med), 'one-report-per-cluster', clustering=repr(c), files=csvs)
        for i, m in enumerate(med):
            files = [f for f in mine if re.search(r'__cluster\D*0*{}(?!\d)'.format(i), os.path.basename(f))]
            ctx.eq(len(files), 1, 'one-report-per-cluster', clustering=repr(c), files=mine, cluster=i)
            fit = rep.model(m, n, model)
            order = fit[0] if fit else (-1, -1, -1)
            ctx.ok('p{}-d{}-q{}.'.format(*order) in os.path.basename(files[0]), 'order-of-medoid',
                   '{} {}'.format(files[0], order))
            rows, header = read_csv(files[0])
            members = rep.members(c, i)
            if len(members) == 1:
                ctx.event('single-member')
            ctx.eq(len(header), 3, 'columns', header=header)
            ctx.ok(all(r is not None for r in rows), 'row-matches-header', repr(rows)[:300])
            where = [tuple(int(v) for v in numbers(r['position'])) for r in rows]
            ctx.eq(sorted(where), sorted((p[0] + off[0], p[1] + off[1]) for p in members), 'absolute-positions',
                   cluster=i, medoid=m, file=files[0])
            pairs = []
            for w, row in zip(where, rows):
                ctx.event('row')
                p = (w[0] - off[0], w[1] - off[1])
                d = row[header[1]]
                near(ctx, d, rep.distance(p, m), 'distance-to-medoid', point=p, medoid=m)
                e = rep.error(etype, fit, p, n)
                near(ctx, row['forecast_error'], e, 'error-of-medoid-model', point=p, medoid=m, etype=etype, n=n)
                pairs.append((rep.distance(p, m), e))
            plotted.append(sorted(pairs))
    ctx.eq(len(csvs), total, 'no-other-report', files=csvs)
    if seen is not None:
        ctx.eq(len(seen), len(plotted), 'one-plot-per-cluster')
        for got, want in zip(seen, plotted):
            ctx.eq(len(got), len(want), 'plotted-points')
            ctx.close([v[0] for v in got], [v[0] for v in want], 'plotted-distances', rtol=1e-5, atol=1e-5)
            ctx.close(sorted(v[1] for v in got), sorted(v[1] for v in want), 'plotted-errors', rtol=1e-3, atol=2e-3)
        pdfs = [f for f in touched if f.endswith('.pdf') and 'dist-error' in f]
        ctx.eq(len(pdfs), total, 'one-plot-file-per-cluster', files=pdfs)


def between(ctx, rep, cmds, model, etype, n, touched):
    csvs = [f for f in touched if os.path.basename(f).startswith('error-between-medoids')]
    ctx.eq(len(csvs), len(cmds), 'one-report-per-clustering', files=csvs)
    for c in cmds:
        mine = [f for f in csvs if '__{!r}__{}.csv'.format(c, etype) in os.path.basename(f)]
        ctx.eq(len(mine), 1, 'one-report-per-clustering', clustering=repr(c), files=csvs)
        rows, header = read_csv(mine[0])
        _, med = rep.partition(c)
        ctx.eq(header, ['cluster'] + [str(i) for i in range(len(med))], 'header')
        ctx.eq([r and r['cluster'] for r in rows], [str(i) for i in range(len(med))], 'one-row-per-medoid')
        for i, m in enumerate(med):
            fit = rep.model(m, n, model)
            for j, q in enumerate(med):
                ctx.event('row')
                near(ctx, rows[i][str(j)], rep.error(etype, fit, q, n), 'error-at-other-medoid', model_of=m, at=q,
                     etype=etype, n=n, clustering=repr(c))


WORKLOADS = [('run', run, 70, 1800)]
