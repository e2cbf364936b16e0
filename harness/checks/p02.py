'''P02: recording functions watch what a function region calls, on which data, and where results go.'''
import numpy as np

import lib

RULE = ('A case applies 1-4 function regions (scalar/series, own function per point or one shared '
        'function, also fed with the result of the previous one) to one domain (spatial, '
        'spatio-temporal, scaled, a cluster of them, or a slice; at times with missing samples or a point '
        'without any). Every function records the data it is '
        'given; call log and result are compared with a numpy model. Non-trivial: more than one point.')
ASSUMPTIONS = ['Functions are deterministic in their input.',
               'Non-member cells of a result over a cluster are required to hold 0 or a missing value.']
REQUIRED_EVENTS = ['call', 'domain:spatial', 'domain:spt', 'domain:scaled', 'domain:cluster',
                   'func:scalar', 'func:series', 'func:same', 'chained', 'refusal', 'missing']


def setup():
    import spta.region.function, spta.region.scaling, spta.region.partition  # noqa
    import spta.arima.train, spta.model.base  # noqa


class Recorder(object):
    def __init__(self, ctx, log, tag, f):
        self.ctx, self.log, self.tag, self.f = ctx, log, tag, f

    def __call__(self, data):
        self.ctx.event('call')
        self.log.append((self.tag, np.array(data, dtype=float, copy=True) + 0.0))
        return self.f(data)


def object_array(items, x, y):
    a = np.empty((x, y), dtype=object)
    for n, (i, j) in enumerate(lib.points(x, y)):
        a[i, j] = items[n]
    return a


def missing(ctx, rng, model, which):
    '''In a quarter of the cases: some samples are missing, and at times everything at a point.'''
    if 'scaled' in which or rng.random() < 0.75:
        return model
    model = np.array(model)
    if rng.random() < 0.5:
        model[rng.random(model.shape) < 0.3] = np.nan
    where = rng.random(model.shape[-2:]) < 0.3
    model[..., where] = np.nan
    ctx.event('missing')
    return model


def build_domain(ctx, rng, x, y, t):
    '''-> (domain, model (2d or 3d), member points, is_cluster)'''
    from spta.region import Region, TimeInterval
    from spta.region.spatial import SpatialRegion
    from spta.region.temporal import SpatioTemporalRegion
    from spta.region.scaling import ScaleFunction
    from spta.region.partition import PartitionRegionCrisp
    which = str(rng.choice(['spatial', 'spt', 'scaled', 'cluster_sp', 'cluster_spt', 'slice',
                            'cluster_scaled', 'cluster_interval']))
    pts = lib.points(x, y)
    if which in ('spatial', 'cluster_sp'):
        model = missing(ctx, rng, lib.values(rng, (x, y)), which)
        region = SpatialRegion(lib.layout(rng, model))
    else:
        model = missing(ctx, rng, lib.values(rng, (t, x, y)), which)
        region = SpatioTemporalRegion(lib.layout(rng, model))
    if which in ('scaled', 'cluster_scaled'):
        region = ScaleFunction(x, y).apply_to(region, t)
        model = np.array(region.as_numpy)
        ctx.event('domain:scaled')
    if which == 'slice':
        big = np.zeros((t + 2, x + 3, y + 2))
        big[1:t + 1, 2:x + 2, 1:y + 1] = model
        region = SpatioTemporalRegion(lib.layout(rng, big)).subset(Region(2, x + 2, 1, y + 1), TimeInterval(1, t + 1))
    if which.startswith('cluster'):
        k = lib.clusters(rng, x * y, 4)
        lab = lib.labels(rng, x, y, k)
        c = int(rng.integers(k))
        part = PartitionRegionCrisp(lab, k)
        if which == 'cluster_sp':
            region = part.create_spatial_cluster(region, c)
        else:
            region = part.create_spt_cluster(region, c)
        if which == 'cluster_interval':
            t1, t2 = lib.interval(rng, t)
            region = region.interval_subset(TimeInterval(t1, t2))
            model = model[t1:t2]
        pts = [p for p in pts if lab[p] == c]
        ctx.event('domain:cluster')
        return which, region, model, pts, True
    ctx.event('domain:spatial' if which == 'spatial' else 'domain:spt')
    return which, region, model, pts, False


def data_at(model, p):
    return model[p] if model.ndim == 2 else model[:, p[0], p[1]]


def check_log(ctx, log, expected, mechanism):
    '''expected: list of (tag, data). Exactly once each; order over points is not demanded.'''
    got = sorted(((t, d.tobytes(), d.shape) for t, d in log))
    want = sorted(((t, (np.array(d, float) + 0.0).tobytes(), np.array(d).shape) for t, d in expected))
    ctx.eq(len(got), len(want), mechanism + '-count')
    ctx.ok(got == want, mechanism, 'functions were given other data than their own point',
           calls=[(t, d) for t, d in log][:10])


def refusals(ctx, rng, region, x, y):
    '''Results that do not fit are refused, and so is a function region of another shape.'''
    from spta.region.function import FunctionRegionScalarSame, FunctionRegionSeriesSame
    ctx.event('refusal')
    before = np.array(region.as_numpy, copy=True)
    out_len = int(rng.integers(3, 7))
    wrong = int(rng.choice([n for n in range(2, 9) if n != out_len]))
    fr = FunctionRegionSeriesSame(lambda s: np.arange(wrong) + 1.0, x, y)
    ctx.raises(ValueError, lambda: fr.apply_to(region, out_len), 'result-of-wrong-length-refused')
    dx, dy = [(1, 0), (0, 1), (1, -1), (-1, 1), (-1, 0)][int(rng.integers(5))]
    ox, oy = (x + dx, y + dy) if x + dx > 0 and y + dy > 0 else (x + 1, y + 1)
    if rng.random() < 0.3 and x != y:
        ox, oy = y, x
    ctx.raises((AssertionError, ValueError, IndexError),
               lambda: FunctionRegionScalarSame(lambda v: 1.0, ox, oy).apply_to(region),
               'other-shape-refused', shape=[ox, oy])
    ctx.raises((AssertionError, ValueError, IndexError),
               lambda: FunctionRegionSeriesSame(lambda v: np.ones(2), ox, oy).apply_to(region, 2),
               'other-shape-refused', shape=[ox, oy])
    ctx.same(region.as_numpy, before, 'input-unchanged')


def apply_case(ctx, rng):
    from spta.region.function import (FunctionRegionScalar, FunctionRegionScalarSame,
                                      FunctionRegionSeries, FunctionRegionSeriesSame)
    from spta.region.spatial import SpatialRegion, SpatialCluster
    from spta.region.temporal import SpatioTemporalRegion, SpatioTemporalCluster
    x, y = lib.shape2(rng, 5, 20, grow=0.01)
    t = int(rng.integers(1, 7))
    kind, region, model, members, cluster = build_domain(ctx, rng, x, y, t)
    steps = int(rng.integers(1, 4))
    fkinds = [str(rng.choice(['scalar', 'series', 'scalar_same', 'series_same'])) for _ in range(steps)]
    ctx.describe(domain=kind, shape=[t, x, y], functions=fkinds, data=lib.gen_tag(model),
                 members=members)
    ctx.trivial = x * y < 2
    for step, fk in enumerate(fkinds):
        before = np.array(region.as_numpy, copy=True)
        log, same = [], fk.endswith('same')
        mult = rng.permutation(x * y) + 1.0      # a different function per point
        if same:
            mult = np.full(x * y, 3.0)
        out_len = int(rng.integers(1, 7))
        dtype = np.float64 if rng.random() < 0.8 else np.int64

        def scalar(m):
            return lambda data: float(round(float(np.nansum(data)), 0) * 2 + m)

        def series(m, n):
            return lambda data: np.round(float(np.nansum(data)) + m * np.arange(n), 0)

        if fk.startswith('scalar'):
            fs = [Recorder(ctx, log, 0 if same else n, scalar(mult[n])) for n in range(x * y)]
            fr = FunctionRegionScalarSame(fs[0], x, y, dtype) if same else \
                FunctionRegionScalar(object_array(fs, x, y), dtype)
            got = fr.apply_to(region)
            ctx.event('func:scalar')
            want = np.zeros((x, y))
            for p in members:
                want[p] = scalar(mult[p[0] * y + p[1]])(data_at(model, p))
            ctx.ok(isinstance(got, SpatialRegion) and not isinstance(got, SpatioTemporalRegion),
                   'result-kind')
            ctx.eq(isinstance(got, SpatialCluster), cluster, 'result-is-cluster')
            ctx.eq(tuple(got.as_numpy.shape), (x, y), 'result-shape')
        else:
            fs = [Recorder(ctx, log, 0 if same else n, series(mult[n], out_len))
                  for n in range(x * y)]
            fr = FunctionRegionSeriesSame(fs[0], x, y, dtype) if same else \
                FunctionRegionSeries(object_array(fs, x, y), dtype)
            got = fr.apply_to(region, out_len)
            ctx.event('func:series')
            want = np.zeros((out_len, x, y))
            for p in members:
                want[:, p[0], p[1]] = series(mult[p[0] * y + p[1]], out_len)(data_at(model, p))
            ctx.ok(isinstance(got, SpatioTemporalRegion), 'result-kind')
            ctx.eq(isinstance(got, SpatioTemporalCluster), cluster, 'result-is-cluster')
            ctx.eq(tuple(got.as_numpy.shape), (out_len, x, y), 'result-shape')
        if same:
            ctx.event('func:same')
        check_log(ctx, log, [(0 if same else p[0] * y + p[1], data_at(model, p)) for p in members],
                  'called-once-on-own-data')
        gnp = np.array(got.as_numpy)
        ctx.eq(gnp.dtype, np.dtype(dtype), 'result-dtype')
        for p in lib.points(x, y):
            if p in members:
                ctx.same(data_at(gnp, p).astype(float), data_at(want, p), 'result-at-own-point',
                         point=p)
            else:
                v = np.asarray(data_at(gnp, p), dtype=float)
                ctx.ok(bool(np.all(np.isnan(v) | (v == 0))), 'non-member-has-data', point=p, value=v)
        ctx.eq([(q.x, q.y) for q, _ in got], members, 'result-members')
        for q, v in got:
            ctx.same(np.asarray(v, dtype=float), data_at(want, (q.x, q.y)), 'result-iteration')
        ctx.same(region.as_numpy, before, 'input-unchanged')
        ctx.eq([(q.x, q.y) for q, _ in region], members, 'input-members-unchanged')
        for p in lib.points(x, y):
            from spta.region import Point
            ctx.ok(fr.function_at(Point(*p)) is fs[0 if same else p[0] * y + p[1]],
                   'function-at-own-point')
        if rng.random() < 0.25 and members:
            refusals(ctx, rng, region, x, y)
        # next step works on the result of this one
        if step + 1 < steps:
            ctx.event('chained')
            region, model = got, want


WORKLOADS = [('apply', apply_case, 3600, 25000)]
