'''P01: monitors full traversals and slices of regions against a plain numpy model.'''
from itertools import islice

import numpy as np

import lib

RULE = ('A case builds one region (plain spatial, spatio-temporal, scaled, or a cluster of them) with '
        'random shape (1xn, nx1 and non-square biased), values with ties/NaN/offsets, and drives a '
        'random history of full iterations, slices, point reads, repetitions and conversions; every '
        'operation is compared with a numpy model and the source is compared before/after. '
        'Non-trivial: the region has more than one point; distinct by (kind, data, operations).')
ASSUMPTIONS = ['A traversal is run to exhaustion; an abandoned traversal and nested traversals of one '
               'object are outside the property.',
               'Sources are not mutated by the caller while slices of them are alive.']
REQUIRED_EVENTS = ['traversal:spatial', 'traversal:spt', 'traversal:scaled', 'traversal:cluster',
                   'op:region_subset', 'op:interval_subset', 'op:subset', 'op:repeat',
                   'op:none_point', 'op:create_from_1d']


def setup():
    import spta.region.temporal, spta.region.scaling, spta.region.partition  # noqa
    import spta.region.metadata  # noqa


def bounded(it, n):
    '''Iterate at most n + 3 items: an endless traversal is a violation, not a hang.'''
    return list(islice(iter(it), n + 3))


def traverse_spatial(ctx, region, model, members=None, tag='spatial'):
    x, y = model.shape
    pts = members if members is not None else lib.points(x, y)
    got = bounded(region, len(pts))
    ctx.event('traversal:' + tag)
    ctx.eq([(p.x, p.y) for p, _ in got], pts, 'iteration-order')
    ctx.same([v for _, v in got], [model[p] for p in pts], 'iteration-values')


def traverse_spt(ctx, region, model, members=None, tag='spt'):
    t, x, y = model.shape
    pts = members if members is not None else lib.points(x, y)
    got = bounded(region, len(pts))
    ctx.event('traversal:' + tag)
    ctx.eq([(p.x, p.y) for p, _ in got], pts, 'iteration-order')
    for (p, s), q in zip(got, pts):
        ctx.same(s, model[:, q[0], q[1]], 'iteration-values', point=q)


def spatial_history(ctx, rng):
    from spta.region import Region, Point
    from spta.region.spatial import SpatialRegion
    x, y = lib.shape2(rng, 7, 42, grow=0.01)
    kind = str(rng.choice(lib.VALUE_KINDS))
    model = lib.values(rng, (x, y), kind, nan=float(rng.choice([0, 0, 0.2])))
    region = SpatialRegion(lib.layout(rng, model))
    ops = [int(o) for o in rng.integers(0, 9, size=10)]
    ctx.describe(kind=kind, shape=[x, y], ops=ops, data=lib.gen_tag(model))
    ctx.trivial = x * y < 2
    traverse_spatial(ctx, region, model)
    for op in ops:
        if op in (0, 1):
            traverse_spatial(ctx, region, model)
        elif op == 2:
            x1, x2, y1, y2 = lib.subrect(rng, x, y)
            sub = region.region_subset(Region(x1, x2, y1, y2))
            ctx.event('op:region_subset')
            ctx.same(sub.as_numpy, model[x1:x2, y1:y2], 'region-subset-values')
            ctx.eq((sub.x_len, sub.y_len), (x2 - x1, y2 - y1), 'region-subset-shape')
            traverse_spatial(ctx, sub, model[x1:x2, y1:y2])
            traverse_spatial(ctx, region, model)
            # a slice of the slice
            u1, u2, v1, v2 = lib.subrect(rng, x2 - x1, y2 - y1)
            ctx.same(sub.region_subset(Region(u1, u2, v1, v2)).as_numpy,
                     model[x1:x2, y1:y2][u1:u2, v1:v2], 'region-subset-nested')
        elif op == 3:
            for (i, j) in lib.points(x, y):
                ctx.same(region.value_at(Point(i, j)), model[i, j], 'value-at')
        elif op == 4:
            ctx.same(region.as_array, [model[p] for p in lib.points(x, y)], 'as-array-order')
        elif op == 5:
            v = float(rng.normal())
            rep = region.repeat_value(v)
            ctx.event('op:repeat')
            ctx.same(rep.as_numpy, np.full((x, y), v), 'repeat-value')
            i, j = int(rng.integers(x)), int(rng.integers(y))
            rep = region.repeat_point(Point(i, j))
            ctx.same(rep.as_numpy, np.full((x, y), model[i, j]), 'repeat-point')
            traverse_spatial(ctx, rep, np.full((x, y), model[i, j]))
        elif op == 6:
            flat = [model[p] for p in lib.points(x, y)]
            made = SpatialRegion.create_from_1d(flat, x, y)
            ctx.event('op:create_from_1d')
            ctx.same(made.as_numpy, model, 'create-from-1d')
            traverse_spatial(ctx, made, model)
        elif op == 7:
            ctx.event('op:none_point')
            ctx.ok(bool(np.isnan(region.value_at(None))), 'none-point-missing')
        else:
            e = region.empty_region_2d()
            ctx.eq((e.x_len, e.y_len, tuple(e.shape)), (x, y, (x, y)), 'empty-region-shape')
            ox, oy = int(rng.integers(0, 50)), int(rng.integers(0, 50))
            z = SpatialRegion.region_with_zeroes(Region(ox, ox + x, oy, oy + y))
            ctx.same(z.as_numpy, np.zeros((x, y)), 'region-with-zeroes')
        ctx.same(region.as_numpy, model, 'source-unchanged', op=op)
        ctx.eq(tuple(region.shape), (x, y), 'source-unchanged')


def spt_history(ctx, rng, scaled=False):
    from spta.region import Region, Point, TimeInterval
    from spta.region.temporal import SpatioTemporalRegion
    from spta.region.scaling import ScaleFunction
    x, y = lib.shape2(rng, 5, 20, grow=0.02)
    t = int(rng.integers(1, 9))
    if x * y > 1 and rng.random() < 0.3:
        t = int(rng.choice([x, y]))         # confusable dimensions
    kind = str(rng.choice(lib.VALUE_KINDS))
    model = lib.values(rng, (t, x, y), kind, nan=0.0 if scaled else float(rng.choice([0, 0, .2])))
    region = SpatioTemporalRegion(lib.layout(rng, model))
    tag = 'spt'
    if scaled:
        tag = 'scaled'
        region = ScaleFunction(x, y).apply_to(region, t)
        model, _, _ = lib.scale(model)
        got = np.array(region.as_numpy)
        ctx.close(got, model, 'scaled-values', rtol=1e-9, atol=1e-9)
        model = got.copy()
    ops = [int(o) for o in rng.integers(0, 8, size=8)]
    ctx.describe(kind=kind, shape=[t, x, y], ops=ops, scaled=scaled, data=lib.gen_tag(model))
    ctx.trivial = x * y < 2
    traverse_spt(ctx, region, model, tag=tag)
    flat = np.array([model[:, i, j] for i, j in lib.points(x, y)])
    for op in ops:
        if op == 0:
            traverse_spt(ctx, region, model, tag=tag)
            traverse_spt(ctx, region, model, tag=tag)
        elif op == 1:
            x1, x2, y1, y2 = lib.subrect(rng, x, y)
            sub = region.region_subset(Region(x1, x2, y1, y2))
            ctx.event('op:region_subset')
            ctx.same(sub.as_numpy, model[:, x1:x2, y1:y2], 'region-subset-values')
            ctx.eq((sub.x_len, sub.y_len), (x2 - x1, y2 - y1), 'region-subset-shape')
            traverse_spt(ctx, sub, model[:, x1:x2, y1:y2], tag=tag)
        elif op == 2:
            t1, t2 = lib.interval(rng, t)
            sub = region.interval_subset(TimeInterval(t1, t2))
            ctx.event('op:interval_subset')
            ctx.same(sub.as_numpy, model[t1:t2], 'interval-subset-values')
            ctx.eq(sub.series_len, t2 - t1, 'interval-subset-len')
            traverse_spt(ctx, sub, model[t1:t2], tag=tag)
        elif op == 3:
            x1, x2, y1, y2 = lib.subrect(rng, x, y)
            t1, t2 = lib.interval(rng, t)
            ctx.event('op:subset')
            sub = region.subset(Region(x1, x2, y1, y2), TimeInterval(t1, t2))
            ctx.same(np.array(sub.as_numpy), model[t1:t2, x1:x2, y1:y2], 'subset-values')
            if not scaled:
                traverse_spt(ctx, sub, model[t1:t2, x1:x2, y1:y2], tag=tag)
        elif op == 4:
            for k, (i, j) in enumerate(lib.points(x, y)):
                ctx.same(region.series_at(Point(i, j)), model[:, i, j], 'series-at')
            lst = region.as_list
            ctx.eq(len(lst), x * y, 'as-list-len')
            ctx.same(np.array(lst), flat, 'as-list-order')
            ctx.same(region.as_2d, flat, 'as-2d-order')
            ctx.same(region.all_point_indices, np.arange(x * y), 'point-indices')
            ctx.eq(tuple(region.shape_2d), (x, y), 'shape-2d')
        elif op == 5 and not scaled:
            ctx.event('op:repeat')
            n = int(rng.integers(1, 6))
            s = rng.normal(size=n)
            rep = region.repeat_series(s)
            want = np.repeat(s, x * y).reshape(n, x, y)
            ctx.same(rep.as_numpy, want, 'repeat-series')
            traverse_spt(ctx, rep, want, tag=tag)
            i, j = int(rng.integers(x)), int(rng.integers(y))
            rep = region.repeat_point(Point(i, j))
            want = np.broadcast_to(model[:, i, j][:, None, None], (t, x, y))
            ctx.same(rep.as_numpy, want, 'repeat-point')
            rep = SpatioTemporalRegion.repeat_series_over_region(s, (x, y))
            ctx.same(rep.as_numpy, np.repeat(s, x * y).reshape(n, x, y), 'repeat-series-region')
        elif op == 6:
            ctx.event('op:none_point')
            s = region.series_at(None)
            ctx.eq(len(s), t, 'none-point-len')
            ctx.ok(bool(np.all(np.isnan(s))), 'none-point-missing')
        elif op == 7:
            # slice of a slice, then the source again
            x1, x2, y1, y2 = lib.subrect(rng, x, y)
            t1, t2 = lib.interval(rng, t)
            sub = region.interval_subset(TimeInterval(t1, t2)).region_subset(Region(x1, x2, y1, y2))
            ctx.same(sub.as_numpy, model[t1:t2, x1:x2, y1:y2], 'nested-slices')
            sub = region.region_subset(Region(x1, x2, y1, y2)).interval_subset(TimeInterval(t1, t2))
            ctx.same(sub.as_numpy, model[t1:t2, x1:x2, y1:y2], 'nested-slices')
        ctx.same(region.as_numpy, model, 'source-unchanged', op=op)


def scaled_history(ctx, rng):
    spt_history(ctx, rng, scaled=True)


def cluster_history(ctx, rng):
    from spta.region import Point, TimeInterval
    from spta.region.spatial import SpatialRegion
    from spta.region.temporal import SpatioTemporalRegion
    from spta.region.partition import PartitionRegionCrisp
    x, y = lib.shape2(rng, 5, 20, min_points=2)
    k = lib.clusters(rng, x * y, 5)
    lab = lib.labels(rng, x, y, k)
    t = int(rng.integers(1, 6))
    model3 = lib.values(rng, (t, x, y))
    model2 = lib.values(rng, (x, y), nan=float(rng.choice([0, 0.3])))
    ctx.describe(shape=[t, x, y], k=k, labels=lab.tolist(), data=lib.gen_tag(model3))
    part = PartitionRegionCrisp(lab.copy(), k)
    s_src, t_src = SpatialRegion(lib.layout(rng, model2)), SpatioTemporalRegion(lib.layout(rng, model3))
    sps = part.create_all_spatial_clusters(s_src)
    spts = part.create_all_spt_clusters(t_src)
    ctx.eq((len(sps), len(spts)), (k, k), 'cluster-count')
    members = {c: [p for p in lib.points(x, y) if lab[p] == c] for c in range(k)}
    # passes over different clusters of the same source, interleaved
    order = [int(c) for c in rng.integers(0, k, size=6)] + list(range(k))
    for c in order:
        traverse_spatial(ctx, sps[c], model2, members[c], tag='cluster')
        traverse_spt(ctx, spts[c], model3, members[c], tag='cluster')
        ctx.same(spts[c].all_point_indices, [i * y + j for i, j in members[c]], 'cluster-indices')
        ctx.same(np.array(spts[c].as_list), np.array([model3[:, i, j] for i, j in members[c]]),
                 'cluster-as-list')
        t1, t2 = lib.interval(rng, t)
        sub = spts[c].interval_subset(TimeInterval(t1, t2))
        traverse_spt(ctx, sub, model3[t1:t2], members[c], tag='cluster')
        ctx.same(spts[c].series_at(None), np.repeat(np.nan, t), 'none-point-missing')
        ctx.ok(bool(np.isnan(sps[c].value_at(None))), 'none-point-missing')
    # two different clusters and the source walked in lockstep
    if k >= 2:
        a, b = spts[0], spts[1]
        got_a, got_b, got_s = [], [], []
        for _ in range(x * y + 1):
            for it, got in ((a, got_a), (b, got_b), (t_src, got_s)):
                if got and got[-1] is None:
                    continue
                try:
                    got.append(tuple(next(it)[0]))
                except StopIteration:
                    got.append(None)
        ctx.eq([g for g in got_a if g], members[0], 'lockstep-clusters')
        ctx.eq([g for g in got_b if g], members[1], 'lockstep-clusters')
        ctx.eq([g for g in got_s if g], lib.points(x, y), 'lockstep-clusters')
    ctx.same(s_src.as_numpy, model2, 'source-unchanged')
    ctx.same(t_src.as_numpy, model3, 'source-unchanged')


WORKLOADS = [
    ('spatial_history', spatial_history, 3200, 12000),
    ('spt_history', spt_history, 4000, 15000),
    ('scaled_history', scaled_history, 2000, 8000),
    ('cluster_history', cluster_history, 2400, 9000),
]
