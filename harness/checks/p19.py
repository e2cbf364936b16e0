'''P19: results of queries, their text and their files, against physical points of an offset region.'''
import argparse
import contextlib
import csv
import io
import os
import re

import numpy as np

import lib
import solverlib

RULE = ('Results are made by trained solvers and by the result builder from fields with a known value at '
        'every physical point (offset regions, partial rectangles, missing errors, 1-based and non-square '
        'shapes); accessors, text lines and the CSV files are parsed and compared with the field at the '
        'physical point, and a history of queries checks that every query has files of its own. Non-trivial: '
        'the region has an offset or the rectangle does not start at 0, 0.')
ASSUMPTIONS = ['Numbers in files are rounded to 3 decimals (2 for dtw_r_m).',
               'Column names of the CSV files are part of the behaviour, the order of columns is not.']
REQUIRED_EVENTS = ['large', 'long', 'in-sample', 'out-of-sample', 'partition', 'labels', 'plain', 'csv-row', 'text',
                   'summary', 'missing-error', 'zero-error', 'several-queries', 'driver', 'scaled']


def setup():
    import spta.solver.train, spta.solver.model, spta.solver.metadata, spta.solver.result  # noqa
    import spta.arima.train, spta.model.knn, spta.model.mean, spta.distance.rmse  # noqa
    import spta.clustering.factory, spta.region.metadata, spta.dataset.temp_brazil  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


NUM = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)'


def numbers(text):
    return [float(v) for v in re.findall(NUM, text)]


def near(ctx, got, want, mech, decimals=3, **w):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    ctx.close(got, want, mech, rtol=1e-6, atol=0.51 * 10.0 ** -decimals, **w)


def read_csv(path):
    with open(path, newline='') as f:
        rows = list(csv.reader(f, delimiter=' ', quotechar='|'))
    return [dict(zip(rows[0], r)) if len(r) == len(rows[0]) else None for r in rows[1:]], rows[0]


def tree(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[p] = fh.read()
    return out


class World(object):
    '''What is true at every domain point.'''

    def __init__(self, off, forecast, test, error, labels=None, medoids=None, class_labels=None):
        self.off, self.forecast, self.test, self.error = off, forecast, test, error
        self.labels, self.medoids, self.class_labels = labels, medoids, class_labels


def judge_result(ctx, w, rect, n, result, tol=None):
    '''Accessors and text of a result against the world.'''
    from spta.region import Point
    x1, x2, y1, y2 = rect
    rel = [(int(p.x), int(p.y)) for p in result]
    ctx.eq(rel, lib.points(x2 - x1, y2 - y1), 'points-once-in-row-major-order')
    tol = tol or dict(rtol=1e-9, atol=1e-9)
    for i, j in rel:
        p = (x1 + i, y1 + j)
        rp, dp = Point(i, j), Point(*p)
        absolute = (p[0] + w.off[0], p[1] + w.off[1])
        d = result.to_domain_coordinates(rp)
        ctx.eq((int(d.x), int(d.y)), p, 'domain-coordinates')
        r = result.to_relative_coordinates(dp)
        ctx.eq((int(r.x), int(r.y)), (i, j), 'relative-coordinates')
        a = result.absolute_coordinates_of(dp)
        ctx.eq((int(a.x), int(a.y)), absolute, 'absolute-coordinates', point=p)
        ctx.close(result.prediction_forecast_at(rp), w.forecast(p), 'forecast-of-the-point', point=p, **tol)
        ctx.close(result.prediction_error_at(rp), w.error(p), 'error-of-the-point', point=p,
                  rtol=max(1e-6, tol['rtol']), atol=max(1e-7, tol['atol']))
        if n == 0:
            ctx.close(solverlib.in_sample(result).prediction_test_at(rp), w.test(p),
                      'test-series-of-the-point', point=p, **tol)
        if w.labels is not None:
            ctx.eq(int(result.cluster_index_of(dp)), int(w.labels[p]), 'cluster-of-the-point', point=p)
        # text
        ctx.event('text')
        lines = result.lines_for_point(rp)
        ctx.eq(len(lines), 4 if n == 0 else 3, 'text-lines', lines=lines)
        intro = numbers(lines[0])
        ctx.eq(tuple(intro[:2]), tuple(float(v) for v in absolute), 'text-absolute-coordinates',
               lines=lines, point=p)
        if w.labels is not None:
            ctx.eq(intro[2:], [float(w.labels[p])], 'text-cluster', lines=lines, point=p)
        if w.class_labels is not None:
            ctx.ok(w.class_labels[p] in lines[0], 'text-label', lines[0], expected=w.class_labels[p])
        texts = {}
        for line in lines[1:]:
            k, v = line.split(':', 1)
            texts[k.strip().split()[0]] = numbers(v)
        if n <= 1000:         # the text shows longer series abbreviated
            near(ctx, texts['Forecast'], w.forecast(p), 'text-forecast', lines=lines, point=p)
        near(ctx, texts['Error'], [w.error(p)], 'text-error', lines=lines, point=p)
        if n == 0:
            near(ctx, texts['Test'], w.test(p), 'text-test', lines=lines, point=p)


def judge_files(ctx, w, rect, n, result, output_home, summary_extra=None):
    '''Saving writes two files, whose rows are the points.'''
    before = tree(output_home)
    result.save_as_csv()
    after = tree(output_home)
    x1, x2, y1, y2 = rect
    files = [f for f in after if after[f] != before.get(f)]
    same = [f for f in before if f not in after]
    ctx.eq(same, [], 'nothing-is-removed')
    d = result.metadata.csv_dir(output_home, result.prediction_region)
    name = result.metadata.csv_filename(result.result_prefix(), result.prediction_region,
                                        result.forecast_len)
    main = os.path.join(d, name)
    summ = os.path.join(d, result.metadata.csv_filename('query-summary', result.prediction_region,
                                                        result.forecast_len))
    ctx.ok(main in after and summ in after, 'files-written', repr([main, summ, list(after)]))
    ctx.ok(set(files) <= {main, summ}, 'writes-only-its-own-files', repr(files))
    rows, header = read_csv(main)
    pts = [(x1 + i, y1 + j) for i, j in lib.points(x2 - x1, y2 - y1)]
    ctx.eq(len(rows), len(pts), 'one-row-per-point', file=main)
    for row, p in zip(rows, pts):
        ctx.event('csv-row')
        ctx.ok(row is not None, 'row-matches-header', 'a row of {} does not match {}'.format(main, header))
        ctx.eq(tuple(numbers(row['Point'])), (float(p[0] + w.off[0]), float(p[1] + w.off[1])),
               'csv-absolute-coordinates', point=p)
        near(ctx, numbers(row['forecast_series']), w.forecast(p), 'csv-forecast', point=p)
        near(ctx, numbers(row['error']), [w.error(p)], 'csv-error', point=p)
        ctx.eq('test_series' in row, n == 0, 'csv-test-series-only-in-sample')
        if n == 0:
            near(ctx, numbers(row['test_series']), w.test(p), 'csv-test', point=p)
        if w.labels is not None:
            ctx.eq(int(row['cluster_index']), int(w.labels[p]), 'csv-cluster', point=p)
        if w.class_labels is not None:
            ctx.eq(row['label'], w.class_labels[p], 'csv-label', point=p)
    ctx.event('summary')
    srows, sheader = read_csv(summ)
    ctx.eq(len(srows), 1, 'one-summary-row')
    ctx.ok(srows[0] is not None, 'summary-matches-header', repr(sheader))
    errors = np.array([w.error(p) for p in pts], dtype=float)
    if not np.isnan(errors).all():
        want = float(np.nanmean(errors ** 2))
        near(ctx, numbers(srows[0]['mse']), [want], 'summary-mse', errors=errors)
    for k, v in (summary_extra or {}).items():
        if isinstance(v, float):
            near(ctx, numbers(srows[0][k]), [v], 'summary-' + k, decimals=2)
        else:
            ctx.eq(srows[0][k], str(v), 'summary-' + k)
    return {main: after[main], summ: after[summ]}


def dtw_r_m(labels, medoids, have_test, rect):
    x1, x2, y1, y2 = rect
    inside = sorted(set(int(v) for v in labels[x1:x2, y1:y2].ravel()))
    combined = []
    for c in inside:
        m = medoids[c]
        combined.append(sum(lib.dtw(have_test[:, m[0], m[1]], have_test[:, i, j])
                            for i in range(x1, x2) for j in range(y1, y2)))
    return float(np.sqrt(np.mean(np.array(combined) ** 2))), len(inside)


def trained(ctx, rng):
    '''Queries to trained solvers.'''
    md, crop = solverlib.world(ctx, rng, max_points=16)
    s = solverlib.pick_setting(ctx, rng, md, crop)
    ctx.event('partition')
    if md.scaled:
        ctx.event('scaled')
    solver = s.train()
    lab, med = s.partition()
    off = (md.region.x1, md.region.y1)
    mag = max(1.0, float(np.abs(crop).max()))
    owner, log = {}, []
    for _ in range(4):
        region, n = solverlib.pick_query(rng, s)
        rect = (region.x1, region.x2, region.y1, region.y2)
        log.append((rect, n))
        ctx.event('in-sample' if n == 0 else 'out-of-sample')
        w = World(off, lambda p: s.forecast(p, n > 0, n or s.test_len), s.test, s.error, lab, med)
        result = solver.predict(region, n, output_home='outs', plot=False)
        judge_result(ctx, w, rect, n, result, dict(rtol=s.rtol(), atol=s.rtol() * mag * mag))
        value, clusters = dtw_r_m(lab, med, s.have[s.t - s.test_len:], rect)
        extra = dict(tp=s.test_len, clusters=clusters, dtw_r_m=value, k=s.clustering[1])
        if s.clustering[0] == 'kmedoids':
            extra.update(random_seed=s.clustering[2]['random_seed'])
        files = judge_files(ctx, w, rect, n, result, 'outs',
                            {k: v for k, v in extra.items() if k in result.summary_header()})
        for need in ('tp', 'clusters', 'dtw_r_m', 'mse', 'k'):
            ctx.ok(need in result.summary_header(), 'summary-columns', repr(result.summary_header()))
        # the summary header and the rows of results belong to one query each
        for f in files:
            if f in owner:
                ctx.eq(owner[f], (rect, n), 'every-query-has-its-own-files', file=f)
            owner[f] = (rect, n)
        if len(set(log)) > 1:
            ctx.event('several-queries')
    ctx.describe(setting=repr(s), log=log, data=lib.gen_tag(crop))
    ctx.trivial = off == (0, 0) and all(r[0] == 0 and r[2] == 0 for r, _ in log)


def same_digits(x, y):
    '''Groups of rectangles of a region whose corners have the same digits.'''
    groups = {}
    for x1 in range(x):
        for x2 in range(x1 + 1, x + 1):
            for y1 in range(y):
                for y2 in range(y1 + 1, y + 1):
                    groups.setdefault('{}{}{}{}'.format(x1, x2, y1, y2), []).append((x1, x2, y1, y2))
    return [g for _, g in sorted(groups.items()) if len(g) > 1]


def built(ctx, rng):
    '''Results made by the builder from fields where every physical point has its own values.'''
    from spta.arima import ArimaPDQ
    from spta.clustering.factory import ClusteringMetadataFactory
    from spta.clustering.suite import ClusteringSuite
    from spta.distance.dtw import DistanceByDTW
    from spta.model.knn import KNNParams
    from spta.model.mean import MeanOfPastParams
    from spta.region import Point, Region
    from spta.region.partition import PartitionRegionCrisp
    from spta.region.spatial import SpatialRegion
    from spta.region.temporal import SpatioTemporalRegion
    from spta.solver.metadata import SolverMetadataBuilder
    from spta.solver.result import PredictionQueryResultBuilder
    x, y = lib.shape2(rng, 6, 30, min_points=2)
    twins = None
    if rng.random() < 0.12:
        # a region with coordinates of two digits, and rectangles written with the same digits
        ctx.event('large')
        x, y = (12, 13) if rng.random() < 0.5 else (13, 11)
        twins = same_digits(x, y)
        twins = twins[int(rng.integers(len(twins)))]
    from spta.region.metadata import SpatioTemporalRegionMetadata
    off = (int(rng.integers(0, 60)), int(rng.integers(0, 60)))
    scaled = bool(rng.random() < 0.3)
    md = SpatioTemporalRegionMetadata('w', Region(off[0], off[0] + x, off[1], off[1] + y), 2015, 2015, 1,
                                      scaled=scaled)
    t = int(rng.integers(5, 9))
    test_len = int(rng.integers(1, 4))
    spt_np = lib.series_field(rng, t, x, y, kind='random')
    spt = SpatioTemporalRegion(lib.layout(rng, spt_np))
    kind = str(rng.choice(['partition', 'labels', 'plain']))
    ctx.event(kind)
    k = lib.clusters(rng, x * y, 5)
    labels = lib.labels(rng, x, y, k)
    medoids = []
    for c in range(k):
        own = [p for p in lib.points(x, y) if labels[p] == c]
        medoids.append(own[int(rng.integers(len(own)))] if own else None)
    params = [MeanOfPastParams(3), KNNParams(2, DistanceByDTW()), ArimaPDQ(1, 0, 1)][
        int(rng.integers(3))]
    error_type = str(rng.choice(['MSE', 'MASE', 'sMAPE']))
    magnitude = 10.0 ** int(rng.integers(-1, 4))
    queries, owner = [], {}
    label_field = np.empty((x, y), dtype=object)
    for p in lib.points(x, y):
        label_field[p] = '{}-{}-{}'.format(int(rng.integers(2, 99)), int(rng.integers(0, 30)),
                                           int(rng.integers(0, 99)))
    dm = DistanceByDTW()
    suite = ClusteringSuite('su', 'kmedoids', k=[2, 3], random_seed=[0, 1])
    cmd = ClusteringMetadataFactory().instance('kmedoids', k, random_seed=3) if rng.random() < 0.6 else \
        ClusteringMetadataFactory().instance('regular', k)
    for _ in range(5):
        x1, x2, y1, y2 = rect = tuple(int(v) for v in lib.subrect(rng, x, y))
        n = 0 if kind == 'labels' or rng.random() < 0.5 else int(rng.integers(1, 7))
        if twins:
            x1, x2, y1, y2 = rect = twins[len(queries) % len(twins)]
            if len(queries) % len(twins):
                n = queries[-1][1]
        elif x * y < 7 and kind != 'labels' and rng.random() < 0.15:
            ctx.event('long')
            n = int(rng.integers(990, 1500))
        elif queries and rng.random() < 0.3:
            rect, n = queries[int(rng.integers(len(queries)))]
            x1, x2, y1, y2 = rect
        queries.append((rect, n))
        ctx.event('in-sample' if n == 0 else 'out-of-sample')
        length = n or test_len
        f = rng.normal(size=(length, x, y)) * magnitude
        e = np.abs(rng.normal(size=(x, y))) * magnitude
        if rng.random() < 0.3:
            ctx.event('zero-error')
            e[rng.random((x, y)) < 0.4] = 0.0
        if rng.random() < 0.3:
            ctx.event('missing-error')
            e[rng.random((x, y)) < 0.4] = np.nan
        te = rng.normal(size=(test_len, x, y)) * magnitude
        b = SolverMetadataBuilder(md, params, test_len, error_type)
        if kind == 'partition':
            b.with_clustering(cmd, dm)
        elif kind == 'labels':
            b.for_suite(suite, dm)
        r = Region(x1, x2, y1, y2)
        cut = (slice(None), slice(x1, x2), slice(y1, y2))
        err_region = SpatialRegion(lib.layout(rng, e[x1:x2, y1:y2]))
        builder = PredictionQueryResultBuilder(
            solver_metadata=b.build(), forecast_len=n or test_len,
            forecast_subregion=SpatioTemporalRegion(lib.layout(rng, f[cut])),
            test_subregion=SpatioTemporalRegion(lib.layout(rng, te[cut])) if n == 0 else None,
            error_subregion=err_region, prediction_region=r, spt_region=spt, output_home='outs',
            is_out_of_sample=n > 0)
        w = World(off, lambda p: f[:, p[0], p[1]], lambda p: te[:, p[0], p[1]], lambda p: e[p])
        extra = dict(tp=test_len)
        if kind == 'partition':
            part = PartitionRegionCrisp(labels.copy(), k)
            part.medoids = [None if m is None else Point(*m) for m in medoids]
            builder.with_partition(part)
            w.labels = labels
            extra['dtw_r_m'], extra['clusters'] = dtw_r_m(labels, medoids, spt_np[t - test_len:], rect)
            extra['k'] = k
        elif kind == 'labels':
            builder.from_classifier(suite, {Point(i, j): label_field[x1 + i, y1 + j]
                                            for i, j in lib.points(x2 - x1, y2 - y1)})
            w.class_labels = label_field
            extra['suite'] = repr(suite)
        result = builder.build()
        judge_result(ctx, w, rect, n, result)
        files = judge_files(ctx, w, rect, n, result, 'outs', extra)
        judge_result(ctx, w, rect, n, result)
        for name in files:
            if name in owner:
                ctx.eq(owner[name], (rect, n), 'every-query-has-its-own-files', file=name)
            owner[name] = (rect, n)
        if len(set(queries)) > 1:
            ctx.event('several-queries')
    ctx.describe(off=off, kind=kind, shape=(x, y), queries=queries, tag=lib.gen_tag(spt_np))
    ctx.trivial = off == (0, 0) and all(q[0][0] == 0 and q[0][2] == 0 for q in queries)


def parse_blocks(out):
    '''The texts of the points in what a driver printed.'''
    blocks, now = [], None
    joined = []
    for line in out.splitlines():
        if line.startswith('Point:'):
            now = []
            blocks.append(now)
        if now is not None:
            if line.startswith('***'):
                now = None
            else:
                now.append(line)
    for b in blocks:
        # series may be wrapped
        lines = []
        for line in b:
            if re.match(r'(Point|Forecast|Test|Error)', line):
                lines.append(line)
            else:
                lines[-1] += ' ' + line
        joined.append(lines)
    return joined


def driver(ctx, rng):
    '''The programs that train, predict and print.'''
    import logging
    from spta.region import Point  # noqa
    md, crop = solverlib.world(ctx, rng, max_points=12, t=int(rng.integers(10, 14)))
    ctx.event('driver')
    if md.scaled:
        ctx.event('scaled')
    which = ['knn_each', 'knn', 'mean'][ctx.index % 3]
    ctx.event('driver-' + which)
    test_len = int(rng.integers(1, 4))
    et = str(rng.choice(['MSE', 'sMAPE', 'MASE']))
    t, x, y = crop.shape
    clustering = solverlib.pick_clustering(rng, x, y)
    if clustering[0] == 'kmedoids':
        clustering[2]['mode'] = 'lite'
    if which == 'mean':
        model = ('mean', int(rng.integers(1, 4)))
    else:
        model = ('knn', int(rng.integers(1, 3)), 'dtw')
    s = solverlib.Setting(md, crop, clustering, None, model, test_len, et)
    if which == 'knn_each':
        from experiments.baseline import solver_knn_each as mod
    elif which == 'knn':
        from experiments.baseline import solver_knn_medoids as mod
    else:
        from experiments.baseline import solver_mean_past as mod
    regions = lambda: {'other': None, repr(md): s.region_metadata()}  # noqa
    mod.predefined_regions = regions
    off = (md.region.x1, md.region.y1)
    log = []
    common = dict(region=repr(md), clustering=clustering[0], k=clustering[1],
                  seed=clustering[2].get('random_seed', 1), error=et, log='WARN', test=test_len)
    if which == 'mean':
        common['past'] = model[1]
    else:
        common['knn'] = model[1]
    lab, med = s.partition()
    logging.disable(logging.CRITICAL)
    if which != 'knn_each':
        with contextlib.redirect_stdout(io.StringIO()):
            mod.train_request(argparse.Namespace(**common))
    mag = max(1.0, float(np.abs(crop).max()))
    for _ in range(2):
        region, n = solverlib.pick_query(rng, s)
        if which == 'knn_each':
            n = 0
        rect = (region.x1, region.x2, region.y1, region.y2)
        log.append((rect, n))
        ctx.event('in-sample' if n == 0 else 'out-of-sample')
        args = dict(common, lat1=str(rect[0]), lat2=str(rect[1]), long1=str(rect[2]), long2=str(rect[3]),
                    tf=n if which != 'knn_each' else test_len)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            (mod.process_request if which == 'knn_each' else mod.predict_request)(
                argparse.Namespace(**args))
        blocks = parse_blocks(out.getvalue())
        pts = [(rect[0] + i, rect[2] + j) for i, j in lib.points(rect[1] - rect[0], rect[3] - rect[2])]
        ctx.eq(len(blocks), len(pts), 'driver-one-text-per-point', out=out.getvalue()[-800:])
        for b, p in zip(blocks, pts):
            if which == 'knn_each':
                fore = own_forecast(s, p)
                if md.scaled:
                    fore = fore * (s.hi[p] - s.lo[p]) + s.lo[p]
                err = None
            else:
                fore = s.forecast(p, n > 0, n or test_len)
                err = s.error(p)
            vals = {line.split()[0].split(':')[0]: numbers(line.split(':', 1)[1].replace('(future):', ''))
                    for line in b[1:]}
            intro = numbers(b[0])
            ctx.eq(tuple(intro[:2]), (float(p[0] + off[0]), float(p[1] + off[1])),
                   'driver-absolute-coordinates', text=b)
            near(ctx, vals['Forecast'], fore, 'driver-forecast', text=b, point=p)
            if n == 0:
                near(ctx, vals['Test'], s.test(p), 'driver-test', text=b, point=p)
            if err is not None:
                near(ctx, vals['Error'], [err], 'driver-error', text=b, point=p)
                ctx.eq(intro[2:], [float(lab[p])], 'driver-cluster', text=b)
            ctx.event('text')
    ctx.describe(setting=repr(s), which=which, log=log, data=lib.gen_tag(crop), mag=mag)
    ctx.trivial = off == (0, 0) and all(r[0] == 0 and r[2] == 0 for r, _ in log)


def own_forecast(s, p):
    '''k-NN forecast by the model of the point itself.'''
    train = s.have[:s.t - s.test_len, p[0], p[1]]
    n = s.test_len
    w = [train[i:i + n] for i in range(len(train) - n + 1)]
    last, past = w[-1], w[:-1]
    order = sorted(range(len(past)), key=lambda i: lib.dtw(last, past[i]))
    return np.mean([past[i] for i in order[:s.model[1]]], axis=0)


WORKLOADS = [('built', built, 360, 9000), ('trained', trained, 105, 2000), ('driver', driver, 54, 900)]
