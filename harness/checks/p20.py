'''P20: choices of medoids and generated training files against brute force over all clusterings.'''
import csv
import logging
import os
from types import SimpleNamespace

import numpy as np

import lib
import solverlib
from checks import p30

RULE = ('Choices are requested for many points and suites (medoids shared by clusterings, equal series, '
        'quotas, counts from before) and compared with brute force over all clusterings; the training data '
        'programs run for real on suites with saved results and solvers, and every row of their files is '
        'traced back to its point and replayed. Non-trivial: at least 2 clusterings.')
ASSUMPTIONS = ['The distances of the region are saved, as the programs require.',
               'Series of different points differ in the first 3 decimals, so that rows identify points.',
               'A quota is never already exceeded by the counts given.']
REQUIRED_EVENTS = ['choice', 'tie', 'quota', 'quota-excludes', 'quota-changes', 'exhausted', 'min-error', 'random-points',
                   'too-many-points', 'file-row', 'medoid-row', 'histogram-row', 'spatial-dtw', 'large-values', 'many-clusters']


def setup():
    p30.setup()
    import spta.classifier.train_input, experiments.clustering.extraction_lstm  # noqa
    import spta.solver.train, spta.solver.model, spta.model.knn, spta.model.mean, spta.distance.rmse  # noqa
    import spta.arima.train  # noqa


def brute(candidates, threshold, histogram):
    '''First candidate (repr, index, score) with the minimal score among those whose quota is left.'''
    best = None
    for rep, idx, score in candidates:
        if threshold and histogram.get((rep, idx), 0) >= threshold:
            continue
        if np.isinf(score):
            continue
        if best is None or score < best[2]:
            best = (rep, idx, score)
    return best


def choose(ctx, rng):
    '''Direct choices over arbitrary suites.'''
    from spta.classifier.train_input import MedoidsChoiceMinDistance
    from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
    from spta.region import Point
    x, y = lib.shape2(rng, 6, 24, min_points=4)
    t = int(rng.integers(3, 6))
    md, data, crop = lib.world(rng, t, x, y, scaled=bool(rng.random() < 0.4),
                               kind=str(rng.choice(['ties', 'ties', 'random'])))
    have = lib.scale(crop)[0] if md.scaled else crop
    m = lib.save_distances(md, have)
    weight = 0.0
    dm = DistanceByDTW()
    if rng.random() < 0.3:
        ctx.event('spatial-dtw')
        weight = float(rng.choice([0.5, 2.0]))
        dm = DistanceBySpatialDTW(weight)
    pts = lib.points(x, y)
    ox, oy = md.region.x1, md.region.y1
    suite = {}
    for _ in range(int(rng.integers(1, 6))):
        k = max(2, lib.clusters(rng, len(pts), 5))
        suite['kmedoids_k{}_seed{}_lite'.format(k, int(rng.integers(0, 20)))] = \
            [Point(pts[int(i)][0] + ox, pts[int(i)][1] + oy)
             for i in rng.choice(len(pts), size=k, replace=False)]
    threshold = int(rng.choice([0, 1, 2, 3]))
    if threshold:
        ctx.event('quota')
    hist = {}
    if rng.random() < 0.4:
        for rep, meds in suite.items():
            for i in range(len(meds)):
                if rng.random() < 0.4:
                    hist[(rep, i)] = int(rng.integers(0, (threshold or 3) + 1))
    mine = dict(hist)
    ctx.describe(shape=[t, x, y], suite={r: [tuple(p) for p in v] for r, v in suite.items()},
                 threshold=threshold, hist=sorted((str(k), v) for k, v in hist.items()),
                 data=lib.gen_tag(crop), weight=weight)
    ctx.trivial = len(suite) < 2
    strategy = MedoidsChoiceMinDistance(md, dm)
    frozen = {r: list(v) for r, v in suite.items()}
    few = [pts[int(i)] for i in rng.integers(len(pts), size=2)]
    for _ in range(int(rng.integers(6, 20))):
        p = pts[int(rng.integers(len(pts)))] if rng.random() < 0.5 else few[int(rng.integers(2))]
        if rng.random() < 0.2:
            # the same strategy serves another program: other quota, maybe other counts
            ctx.event('quota-changes')
            if rng.random() < 0.5:
                hist, mine = {}, {}
            high = max(list(mine.values()) + [1])
            threshold = int(rng.choice([0, high, high + 1]))
        cand = []
        for rep, meds in suite.items():
            for i, q in enumerate(meds):
                d = m[p[0] * y + p[1], (q.x - ox) * y + q.y - oy]
                if weight:
                    d = d + weight * float(np.hypot(q.x - ox - p[0], q.y - oy - p[1]))
                cand.append((rep, i, d))
        want = brute(cand, threshold, mine)
        free = brute(cand, 0, {})
        if want is None:
            ctx.event('exhausted')
            ctx.raises(ValueError, lambda: strategy.choose_medoid(suite, Point(*p), threshold, hist),
                       'nothing-left-fails')
            continue
        if sum(1 for c in cand if c[2] == want[2]) > 1:
            ctx.event('tie')
        if want != free:
            ctx.event('quota-excludes')
        ctx.event('choice')
        rep, idx, med = strategy.choose_medoid(suite, Point(*p), threshold, hist)
        score = {(c[0], c[1]): c[2] for c in cand}
        if (rep, int(idx)) != want[:2] and weight:
            # rounding of the weighted sum may separate ties
            ctx.close(score[(rep, int(idx))], want[2], 'minimal-choice', rtol=1e-12, atol=1e-12)
            ctx.ok(score[(rep, int(idx))] != want[2], 'first-minimal-choice', repr((rep, idx, want)))
        else:
            ctx.eq((rep, int(idx)), want[:2], 'first-minimal-choice', point=p, candidates=cand,
                   threshold=threshold, histogram=sorted((str(k), v) for k, v in mine.items()))
        ctx.eq((int(med.x), int(med.y)), tuple(frozen[rep][int(idx)]), 'medoid-of-the-label')
        mine[(rep, int(idx))] = mine.get((rep, int(idx)), 0) + 1
        ctx.eq({k: int(v) for k, v in hist.items() if v}, {k: v for k, v in mine.items() if v},
               'histogram-counts-choices')
        if threshold:
            ctx.ok(max(mine.values()) <= threshold, 'quota-respected')
    ctx.eq({r: list(v) for r, v in suite.items()}, frozen, 'suite-result-unchanged')


def random_points(ctx, rng):
    from spta.classifier.train_input import TrainDataWithRandomPoints, \
        extract_all_medoid_indices_from_suite_result
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Point
    x, y = lib.shape2(rng, 9, 60, min_points=4, grow=0.03)
    md, data, crop = lib.world(rng, 3, x, y, scaled=bool(rng.random() < 0.3))
    gen = TrainDataWithRandomPoints(md, DistanceByDTW())
    pts = lib.points(x, y)
    ox, oy = md.region.x1, md.region.y1
    for _ in range(6):
        suite, meds = {}, set()
        for c in range(int(rng.integers(1, 4))):
            k = lib.clusters(rng, len(pts), 6)
            own = [pts[int(i)] for i in rng.choice(len(pts), size=k, replace=False)]
            meds.update(own)
            suite['kmedoids_k{}_seed{}_lite'.format(k, c)] = [Point(p[0] + ox, p[1] + oy) for p in own]
        idx = extract_all_medoid_indices_from_suite_result(suite, md.create_instance())
        ctx.eq(sorted(int(i) for i in idx), sorted(p[0] * y + p[1] for p in meds), 'medoid-indices',
               suite={r: [tuple(p) for p in v] for r, v in suite.items()})
        free = len(pts) - len(meds)
        seed = int(rng.integers(0, 50))
        ctx.event('random-points')
        count = free if rng.random() < 0.3 else int(rng.integers(0, free + 1)) if free else 0
        if free == 0:
            continue
        got = [(int(p.x), int(p.y)) for p in
               gen.get_random_points_different_to_medoids(count, seed, idx, x, y)]
        ctx.eq(len(got), count, 'as-many-random-points-as-requested')
        ctx.eq(len(set(got)), count, 'random-points-distinct', points=got)
        ctx.ok(set(got) <= set(pts), 'random-points-inside', repr(got))
        ctx.ok(not set(got) & meds, 'random-points-are-not-medoids', repr(sorted(set(got) & meds)))
        np.random.random(int(rng.integers(0, 9)))
        again = [(int(p.x), int(p.y)) for p in
                 gen.get_random_points_different_to_medoids(count, seed, idx, x, y)]
        ctx.eq(again, got, 'random-points-reproducible')
        ctx.event('too-many-points')
        ctx.raises(ValueError, lambda: gen.get_random_points_different_to_medoids(
            free + int(rng.integers(1, 4)), seed, idx, x, y), 'too-many-random-points')
    ctx.describe(shape=[x, y], offset=[ox, oy], tag=lib.gen_tag(crop))


def rows_of(path):
    with open(path, newline='') as f:
        rows = list(csv.reader(f, delimiter=' ', quotechar='|'))
    return rows[0], [dict(zip(rows[0], r)) for r in rows[1:] if r], [len(r) for r in rows[1:] if r]


def files(ctx, rng):
    '''The programs, by smallest distance or by smallest forecast error.'''
    import experiments.clustering.extraction_lstm as ex
    from spta.clustering.suite import ClusteringSuite
    from spta.distance.dtw import DistanceByDTW
    min_error = ctx.index % 2 == 1
    many = ctx.index % 18 in (16, 17)
    md, crop = solverlib.world(ctx, rng, max_points=20, min_points=15 if many else 9, t=int(rng.integers(9, 13)),
                               level=1.0 if rng.random() < 0.75 else float(rng.choice([1500.0, 70000.0])))
    if crop.min() > 1000:
        ctx.event('large-values')
    t, x, y = crop.shape
    pts = lib.points(x, y)
    have = lib.scale(crop)[0] if md.scaled else crop
    ks = [int(k) for k in rng.permutation([2, 3, 4])[:int(rng.integers(1, 3))]]
    if many:
        ks = [11]
        ctx.event('many-clusters')
    seeds = [int(s) for s in rng.permutation(13)[:1 if many else int(rng.integers(1, 4))]]
    suite = ClusteringSuite('abc', 'kmedoids', k=ks, random_seed=seeds, mode='lite')
    model = ('mean', int(rng.integers(1, 4))) if rng.random() < 0.6 else ('knn', 1, 'dtw')
    test_len, et = int(rng.integers(1, 3)), str(rng.choice(['MSE', 'sMAPE', 'MASE']))
    settings = {}
    p30.run_analysis(md, suite)
    m = np.load(md.distances_filename)
    for cmd in suite:
        settings[repr(cmd)] = solverlib.Setting(
            md, crop, ('kmedoids', cmd.k, dict(random_seed=cmd.random_seed, mode='lite')), None, model,
            test_len, et)
        if min_error:
            settings[repr(cmd)].train('outputs').save()
    parts = {r: s.partition() for r, s in settings.items()}
    meds = set(p for _, med in parts.values() for p in med)
    free = len(pts) - len(meds)
    count = int(rng.integers(1, free + 1))
    seed = int(rng.integers(0, 30))
    slots = sum(len(med) for _, med in parts.values())
    threshold = 0
    if not min_error and rng.random() < 0.5:
        threshold = -(-count // slots) + int(rng.integers(0, 2))
    if threshold:
        ctx.event('quota')
    ctx.describe(setting=[repr(s) for s in settings.values()], count=count, seed=seed,
                 threshold=threshold, min_error=min_error, data=lib.gen_tag(crop))
    ctx.trivial = len(settings) < 2
    any_setting = list(settings.values())[0]
    ex.predefined_regions = lambda: {'r': md}
    ex.get_suite = lambda *a, **k: suite
    ex.predefined_auto_arima = lambda: {'simple': any_setting.params()}
    args = SimpleNamespace(region='r', clustering_type='kmedoids', clustering_suite='abc',
                           criterion='min_error' if min_error else 'min_distance', random=count,
                           random_seed=seed, threshold=threshold, log='INFO', auto_arima='simple',
                           tp=test_len, error=et)

    def candidates(p):
        cand = []
        for r, (lab, med) in parts.items():
            for i, q in enumerate(med):
                if not min_error:
                    cand.append((r, i, m[p[0] * y + p[1], q[0] * y + q[1]]))
                else:
                    cand.append((r, i, settings[r].error(p) if lab[p] == i else float('inf')))
        return cand

    def judge():
        dm = DistanceByDTW()
        d = suite.csv_dir('outputs', md, dm)
        names = sorted(os.listdir(d))
        mark = '_medoid_min_pred_error_' if min_error else '_dist_medoid_'
        choice = [n for n in names if n.startswith('random_point') and mark in n and
                  'count{}_seed{}'.format(count, seed) in n]
        hist = [n for n in names if n.startswith('hist') and mark in n and
                'count{}_seed{}'.format(count, seed) in n]
        ctx.eq((len(choice), len(hist)), (1, 1), 'one-file-of-choices-and-histogram', names=names)
        header, rows, lens = rows_of(os.path.join(d, choice[0]))
        ctx.ok(all(n == len(header) for n in lens), 'row-matches-header', repr((header, lens)))
        ctx.eq(len(rows), count, 'as-many-rows-as-requested')
        by_series = {}
        for p in pts:
            key = tuple('{:.3f}'.format(v) for v in have[:, p[0], p[1]])
            by_series.setdefault(key, []).append(p)
        seen, counts = [], {}
        order = list(parts)
        for row in rows:
            ctx.event('file-row')
            ctx.eq(row['region_id'], repr(md), 'row-region')
            key = tuple('{:.3f}'.format(float(row['s{}'.format(i)])) for i in range(t))
            ctx.ok('s{}'.format(t) not in row, 'whole-series-of-the-point', repr(header))
            who = by_series.get(key)
            ctx.ok(who is not None, 'series-of-a-point-of-the-region', repr(row))
            if len(who) > 1:
                return
            p = who[0]
            ctx.ok(p not in meds, 'random-point-is-not-a-medoid', repr(p))
            ctx.ok(p not in seen, 'random-points-distinct', repr(p))
            seen.append(p)
            cand = candidates(p)
            want = brute(cand, threshold, counts)
            rep = 'kmedoids_k{}_seed{}_{}'.format(row['k'], row['seed'], row['mode'])
            got = (rep, int(row['cluster_index']))
            ctx.ok(rep in parts, 'label-of-the-suite', rep)
            if min_error and got != want[:2]:
                score = {(c[0], c[1]): c[2] for c in cand}
                ctx.close(score[got], want[2], 'row-first-minimal-choice', rtol=1e-9, atol=1e-9)
                ctx.ok(parts[got[0]][1][got[1]] != parts[want[0]][1][want[1]] and
                       score[got] != want[2], 'row-first-minimal-choice', repr((got, want, order)))
            else:
                ctx.eq(got, want[:2], 'row-first-minimal-choice', point=p, candidates=cand,
                       threshold=threshold)
            q = parts[got[0]][1][got[1]]
            ctx.eq((int(row['medoid_x']), int(row['medoid_y'])),
                   (q[0] + md.region.x1, q[1] + md.region.y1), 'row-medoid', point=p)
            counts[got] = counts.get(got, 0) + 1
        _, hrows, _ = rows_of(os.path.join(d, hist[0]))
        ctx.event('histogram-row', len(hrows))
        ctx.eq({(r['clustering_repr'], int(r['cluster_index'])): int(r['count']) for r in hrows},
               counts, 'histogram-file-counts-rows')
        # the medoids
        path = suite.medoid_series_csv_filepath('outputs', md, dm)
        header, rows, lens = rows_of(path)
        ctx.ok(all(n == len(header) for n in lens), 'row-matches-header', repr((header, lens)))
        want = [(r, i, q) for r, (_, med) in parts.items() for i, q in enumerate(med)]
        ctx.eq(len(rows), len(want), 'one-row-per-medoid')
        for row, (r, i, q) in zip(rows, want):
            ctx.event('medoid-row')
            ctx.eq(('kmedoids_k{}_seed{}_{}'.format(row['k'], row['seed'], row['mode']),
                    int(row['cluster_index']), int(row['medoid_x']), int(row['medoid_y']),
                    row['region_id']),
                   (r, i, q[0] + md.region.x1, q[1] + md.region.y1, repr(md)), 'medoid-row-label')
            ctx.close([float(row['s{}'.format(j)]) for j in range(t)], have[:, q[0], q[1]],
                      'medoid-row-series', rtol=0, atol=0.00051, medoid=q)
        return seen

    logger = logging.getLogger('verif')
    ex.analyze_suite(args, logger)
    if min_error:
        ctx.event('min-error')
    first = judge()
    if rng.random() < 0.4:
        other = SimpleNamespace(**dict(vars(args), random=max(1, count - 1), random_seed=seed + 1))
        ex.analyze_suite(other, logger)
    ex.analyze_suite(args, logger)
    ctx.eq(judge(), first, 'reproducible-by-seed')


WORKLOADS = [('choose', choose, 360, 8000), ('random_points', random_points, 90, 2000),
             ('files', files, 90, 1500)]
