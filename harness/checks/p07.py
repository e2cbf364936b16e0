'''P07: distance matrices from serial, parallel and saved sources against a textbook DTW.'''
import os
import time

import numpy as np

import lib

RULE = ('A case computes, saves, loads (also wrong shapes, missing and overwritten files, repeatedly and '
        'for several regions) or queries distance matrices of a random non-square region; parallel cases '
        'vary worker count and chunk size, with random delays injected into the workers, and record the '
        'completion order. The oracle is a textbook DTW. Non-trivial: more than one point.')
ASSUMPTIONS = ['No missing values.', 'A measure object is used for one region (its stored matrix).']
REQUIRED_EVENTS = ['serial', 'parallel', 'delayed-measure', 'loaded', 'bad-shape', 'missing-file',
                   'spatial-weight', 'to-point', 'generic-op', 'generic-large',
                   'weights-large', 'rmse']


def setup():
    import spta.distance.dtw_parallel, spta.distance.rmse, spta.region.scaling  # noqa
    import spta.region.metadata, spta.region.partition, spta.dataset.temp_brazil  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def make_region(rng, t, x, y):
    from spta.region.temporal import SpatioTemporalRegion
    from spta.region.scaling import ScaleFunction
    a = lib.series_field(rng, t, x, y)
    r = SpatioTemporalRegion(lib.layout(rng, a))
    if rng.random() < 0.3:
        r = ScaleFunction(x, y).apply_to(r, t)
        a = np.array(r.as_numpy)
    return r, a


def judge(ctx, m, want, mech='pairwise'):
    m = np.asarray(m)
    n = len(want)
    ctx.eq(m.shape, (n, n), 'matrix-shape')
    ctx.close(np.diag(m), np.zeros(n), 'zero-diagonal', atol=1e-12)
    ctx.close(m, m.T, 'symmetric', rtol=1e-12, atol=1e-12)
    ctx.close(m, want, mech, rtol=1e-7, atol=1e-7)


def serial(ctx, rng):
    from spta.distance.dtw import DistanceByDTW
    from spta.distance.rmse import DistanceByRMSE
    x, y = lib.shape2(rng, 5, 16)
    t = int(rng.integers(1, 8))
    r, a = make_region(rng, t, x, y)
    ctx.describe(shape=[t, x, y], data=lib.gen_tag(a))
    ctx.trivial = x * y < 2
    want = lib.dtw_matrix(lib.series_list(a))
    d = DistanceByDTW()
    got = d.compute_distance_matrix(r)
    ctx.event('serial')
    judge(ctx, got, want)
    ctx.same(d.distance_matrix, got, 'stored-matrix')
    X = np.array(lib.series_list(a))
    judge(ctx, DistanceByDTW().compute_distance_matrix(X), want)
    ctx.same(r.as_numpy, a, 'region-unchanged')
    i = int(rng.integers(x * y))
    ctx.close(d.compute_distances_to_a_series(X[i], X), want[i], 'to-a-series', atol=1e-7)
    v = want[i]
    ctx.close(d.combine(v), v.sum(), 'dtw-combine')
    # series of other lengths and values that are missing
    b = rng.normal(size=int(rng.integers(1, 7)))
    ctx.close(d.measure(X[i], b), lib.dtw(X[i], b), 'dtw-measure', atol=1e-7)
    ctx.close(d.measure(b, X[i]), lib.dtw(X[i], b), 'dtw-measure', atol=1e-7)
    b2 = b.copy()
    b2[int(rng.integers(len(b2)))] = np.nan
    ctx.ok(bool(np.isnan(d.measure(X[i], b2)) and np.isnan(d.measure(b2, X[i]))), 'missing-distance')
    rm = DistanceByRMSE()
    ctx.event('rmse')
    j = int(rng.integers(x * y))
    ctx.close(rm.measure(X[i], X[j]), np.sqrt(np.mean((X[i] - X[j]) ** 2)), 'rmse-measure')
    ctx.close(rm.combine(v), np.sqrt(np.mean(v ** 2)), 'rmse-combine')


def parallel(ctx, rng):
    from spta.distance.dtw import DistanceByDTW
    from spta.distance.dtw_parallel import DistanceByDTWParallel
    x, y = lib.shape2(rng, 4, 9)
    t = int(rng.integers(1, 6))
    r, a = make_region(rng, t, x, y)
    workers = int(rng.integers(1, 7))
    ctx.describe(shape=[t, x, y], workers=workers, data=lib.gen_tag(a))
    ctx.trivial = x * y < 2
    want = lib.dtw_matrix(lib.series_list(a))
    log = os.path.join(ctx.dir, 'order.log')
    orig = DistanceByDTW.measure
    delay_seed = int(rng.integers(2 ** 31))

    def delayed(self, s1, s2):
        # runs in the workers: a delay that depends on the data, before and after measuring
        h = (hash((float(s1[0]), float(s2[-1]))) ^ delay_seed) % 7
        time.sleep(h * 0.0004)
        res = orig(self, s1, s2)
        time.sleep((h * 3 % 5) * 0.0004)
        with open(log, 'a') as f:
            f.write('{}\n'.format(os.getpid()))
        return res
    DistanceByDTW.measure = delayed
    try:
        d = DistanceByDTWParallel(workers)
        got = np.array(d.compute_distance_matrix(r))
        ctx.same(d.distance_matrix, got, 'stored-matrix')
    finally:
        DistanceByDTW.measure = orig
    ctx.event('parallel')
    if os.path.exists(log):
        order = open(log).read().split()
        ctx.event('delayed-measure', len(order))
        names = {}
        ctx.state(' '.join(str(names.setdefault(p, len(names))) for p in order))
    judge(ctx, got, want, 'parallel-same-as-serial')
    ctx.same(r.as_numpy, a, 'region-unchanged')


def task(spt, i, j):
    time.sleep(((i * 7 + j * 3) % 4) * 0.0003)
    s = spt.as_2d
    return float(s[i][0] * 1000 + s[j][-1] + (i - 2 * j) * 0.5)


def generic(ctx, rng):
    '''The shared-memory operation itself, with a task that is not symmetric.'''
    from spta.region.temporal import SpatioTemporalRegion
    from spta.util.parallel import InterPointsOperation
    x, y = lib.shape2(rng, 4, 9)
    t = int(rng.integers(1, 5))
    a = rng.integers(0, 50, size=(t, x, y)).astype(float)
    workers, chunk = int(rng.integers(1, 7)), int(rng.choice([1, 2, 3, 7, 50, 100]))
    ctx.describe(shape=[t, x, y], workers=workers, chunksize=chunk, data=lib.gen_tag(a))
    ctx.event('generic-op')
    got = np.array(InterPointsOperation(workers, SpatioTemporalRegion(lib.layout(rng, a)), chunksize=chunk)
                   .operate(task))
    s = lib.series_list(a)
    want = [[s[i][0] * 1000 + s[j][-1] + (i - 2 * j) * 0.5 for j in range(x * y)]
            for i in range(x * y)]
    ctx.close(got, want, 'parallel-operation')


def quick_task(spt, i, j):
    s = spt.as_2d
    return float(s[i][0] * 1000 + s[j][-1] + (i - 2 * j) * 0.5)


def generic_large(ctx, rng):
    '''Many operations.'''
    from spta.region.temporal import SpatioTemporalRegion
    from spta.util.parallel import InterPointsOperation
    n = int(rng.choice([97, 143, 151, 169]))
    x, y = (13, n // 13) if n % 13 == 0 else (1, n) if rng.random() < 0.5 else (n, 1)
    a = rng.integers(0, 50, size=(1, x, y)).astype(float)
    workers, chunk = int(rng.integers(2, 9)), int(rng.choice([7, 20, 50, 50, 100]))
    ctx.describe(shape=[1, x, y], workers=workers, chunksize=chunk)
    ctx.event('generic-large')
    got = np.array(InterPointsOperation(workers, SpatioTemporalRegion(a), chunksize=chunk)
                   .operate(quick_task))
    i = np.arange(n)
    s = np.array([v[0] for v in lib.series_list(a)])
    want = s[:, None] * 1000 + s[None, :] + (i[:, None] - 2 * i[None, :]) * 0.5
    ctx.close(got, want, 'parallel-operation')


def weights_large(ctx, rng):
    '''Spatial weights of long regions.'''
    from spta.distance.dtw import DistanceBySpatialDTW
    from spta.region import Region
    from spta.util import arrays
    side = int(rng.integers(257, 420))
    x, y = (1, side) if rng.random() < 0.5 else (side, 1)
    ox, oy = int(rng.integers(0, 5)), int(rng.integers(0, 5))
    w = float(rng.choice([0.5, 2, 10]))
    ctx.describe(shape=[x, y], weight=w)
    ctx.event('weights-large')
    m = np.abs(np.subtract.outer(np.arange(side), np.arange(side))) * 0.25
    d = DistanceBySpatialDTW(w)
    np.save('m.npy', m)
    got = d.load_distance_matrix_2d('m.npy', Region(ox, ox + x, oy, oy + y))
    ctx.close(got, weight_of(m, x, y, w), 'spatial-weighted')
    ctx.eq([tuple(int(v) for v in p) for p in arrays.list_of_2d_points(x, y)], lib.points(x, y),
           'points-once-in-row-major-order')


def weight_of(m, x, y, w):
    pts = np.array(lib.points(x, y), dtype=float)
    return m + w * np.sqrt(((pts[:, None, :] - pts[None, :, :]) ** 2).sum(axis=2))


def loading(ctx, rng):
    from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
    from spta.region import Point
    from spta.region.partition import PartitionRegionCrisp
    x, y = lib.shape2(rng, 5, 15)
    t = int(rng.integers(2, 6))
    md, _, crop = lib.world(rng, t, x, y, scaled=bool(rng.random() < 0.5))
    spt = md.create_instance()
    a = np.array(spt.as_numpy)
    n = x * y
    want = lib.dtw_matrix(lib.series_list(a))
    w = float(rng.choice([0, 0.5, 2, 10]))
    ops = [int(o) for o in rng.integers(0, 7, size=10)]
    ctx.describe(shape=[t, x, y], weight=w, ops=ops, data=lib.gen_tag(crop))
    ctx.trivial = n < 2
    plain, spatial = DistanceByDTW(), DistanceBySpatialDTW(w)
    saved = False
    for op in ops:
        if op == 0:
            np.save(md.distances_filename, want)
            saved = True
        elif op == 1 and saved:
            how = int(rng.integers(3))
            got = [lambda: plain.load_distance_matrix_2d(md.distances_filename, md.region),
                   lambda: plain.load_distance_matrix_md(md),
                   lambda: plain.try_load_distance_matrix(spt)][how]()
            ctx.event('loaded')
            ctx.same(got, want, 'loaded-matrix')
            ctx.same(plain.distance_matrix, want, 'loaded-matrix')
        elif op == 2 and saved:
            # the weight is added once to every matrix that is loaded
            ctx.event('spatial-weight')
            for _ in range(int(rng.integers(1, 4))):
                got = spatial.load_distance_matrix_2d(md.distances_filename, md.region) \
                    if rng.random() < 0.5 else spatial.try_load_distance_matrix(spt)
                ctx.close(got, weight_of(want, x, y, w), 'spatial-weighted')
                ctx.close(spatial.distance_matrix, weight_of(want, x, y, w), 'spatial-weighted')
                ctx.same(np.load(md.distances_filename), want, 'saved-matrix-unchanged')
                if rng.random() < 0.4:                   # asked again: it has its weights
                    got = spatial.weight_distance_matrix(md.region)
                    ctx.close(got, weight_of(want, x, y, w), 'spatial-weighted')
        elif op == 3:
            ctx.event('bad-shape')
            side = int(rng.choice([s for s in (n - 1, n + 1, x, y, 2 * n) if s != n and s > 0] or [n + 1]))
            shapes = [s for s in ((2 * n, n // 2), (n // 2, 2 * n), (n * n, 1), (1, n * n))
                      if s[0] * s[1] == n * n and s != (n, n)]
            shape = shapes[int(rng.integers(len(shapes)))] if shapes and rng.random() < 0.3 else \
                (side, n) if rng.random() < 0.4 else (n, side) if rng.random() < 0.5 else (side, side)
            np.save('bad.npy', np.zeros(shape))
            d = DistanceByDTW()
            ctx.raises(ValueError, lambda: d.load_distance_matrix_2d('bad.npy', md.region),
                       'wrong-shape-rejected', shape=shape)
            ctx.ok(d.distance_matrix is None, 'rejected-matrix-not-stored')
            d = DistanceBySpatialDTW(w)
            ctx.raises(ValueError, lambda: d.load_distance_matrix_2d('bad.npy', md.region),
                       'wrong-shape-rejected', shape=shape)
        elif op == 4:
            ctx.event('missing-file')
            for d in (DistanceByDTW(), DistanceBySpatialDTW(w)):
                ctx.ok(d.load_distance_matrix_2d('nothing-here.npy', md.region) is None,
                       'missing-file-none')
                ctx.ok(d.distance_matrix is None, 'missing-file-none')
        elif op == 5:
            # distances to a point, with a matrix that is stored, saved or computed on demand
            ctx.event('to-point')
            p = (int(rng.integers(x)), int(rng.integers(y)))
            idx = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
            domain = spt
            if rng.random() < 0.3:
                k = int(rng.integers(1, min(n, 3) + 1))
                lab = lib.labels(rng, x, y, k)
                domain = PartitionRegionCrisp(lab, k).create_spt_cluster(spt, int(lab[p]))
            d = DistanceByDTW()
            ref = want[p[0] * y + p[1]][idx]
            if rng.random() < 0.5:
                d.distance_matrix = want.copy()
                got = d.distances_to_point(domain, Point(*p), idx)
            elif saved:
                got = d.distances_to_point(domain, Point(*p), idx)
            elif domain is spt:
                ctx.raises(ValueError, lambda: d.distances_to_point(spt, Point(*p), idx),
                           'precalculated-required')
                got = d.distances_to_point(spt, Point(*p), idx, only_if_precalculated=False)
            else:
                continue
            ctx.close(got, ref, 'distances-to-point', rtol=1e-7, atol=1e-7, point=p, indices=idx)
            ctx.same(np.asarray(idx), np.array(idx), 'indices-unchanged')
        elif op == 6:
            # another region of the same world, another measure object
            md2, _, crop2 = lib.world(rng, t, int(rng.integers(1, 4)), int(rng.integers(1, 4)),
                                      scaled=md.scaled, name='other')
            m2 = rng.random((crop2[0].size, crop2[0].size))
            np.save(md2.distances_filename, m2)
            ctx.same(DistanceByDTW().load_distance_matrix_md(md2), m2, 'loaded-matrix')
            if saved:
                ctx.same(DistanceByDTW().load_distance_matrix_md(md), want, 'loaded-matrix')


WORKLOADS = [('serial', serial, 180, 3500), ('parallel', parallel, 54, 700),
             ('generic', generic, 48, 600),
             ('generic_large', generic_large, 8, 60), ('weights_large', weights_large, 6, 60), ('loading', loading, 390, 7000)]
