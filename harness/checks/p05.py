'''P05: scaled regions are compared with per-point affine scaling computed from the source.'''
import numpy as np

import lib

RULE = ('A case scales a random spatio-temporal region (constant series, ties, large offsets, long and '
        'single-sample series, in memory, from a dataset through metadata with an offset, or read back '
        'from disk) and drives slices, intervals, clusters and descaling in random order and nesting '
        'against a per-point numpy model; missing samples (NaN) are scaled and descaled too, '
        'and so are forecasts outside [0, 1] and data of very small or large magnitude. '
        'Non-trivial: more than one point and sample.')
ASSUMPTIONS = ['No infinite inputs; series with missing samples are not constant. Rounding tolerance is 1e-9 relative to the magnitude of the series.']
REQUIRED_EVENTS = ['op:descale', 'op:region', 'op:interval', 'op:subset', 'op:cluster', 'origin:metadata',
                   'origin:memory', 'op:iterate', 'constant-series',
                   'missing-samples', 'function-used-again', 'forecast-outside-range']


def setup():
    import spta.region.scaling, spta.region.partition, spta.region.metadata  # noqa
    import spta.dataset.temp_brazil  # noqa


def near(ctx, got, want, mech, mag, **w):
    ctx.close(got, want, mech, rtol=1e-9, atol=1e-9 * max(1.0, mag), **w)


def other_region(rng, function, x, y):
    '''The same function object scales another region of that shape.'''
    from spta.region.temporal import SpatioTemporalRegion
    t = int(rng.integers(1, 8))
    return function.apply_to(SpatioTemporalRegion(lib.values(rng, (t, x, y))), t)


def missing_case(ctx, rng):
    '''Missing samples stay missing; the others are scaled by their own minimum and maximum.'''
    from spta.region import Point, Region, TimeInterval
    from spta.region.temporal import SpatioTemporalRegion
    from spta.region.scaling import ScaleFunction
    x, y = lib.shape2(rng, 4, 12)
    t = int(rng.integers(3, 10))
    src = rng.normal(size=(t, x, y)) * float(rng.choice([1.0, 40.0])) + float(rng.choice([0.0, 300.0]))
    frac = float(rng.choice([0.1, 0.4]))
    src[rng.random(src.shape) < frac] = np.nan
    pts = [p for p in lib.points(x, y) if np.isfinite(src[:, p[0], p[1]]).sum() >= 2]
    for p in lib.points(x, y):
        if p not in pts:
            if rng.random() < 0.5:
                src[:, p[0], p[1]] = np.nan        # nothing was measured at this point
                pts.append(p)
            else:
                src[:2, p[0], p[1]] = (1.0, 2.0)
                pts.append(p)
    ctx.describe(shape=[t, x, y], missing=int(np.isnan(src).sum()))
    ctx.trivial = not np.isnan(src).any()
    if np.isnan(src).any():
        ctx.event('missing-samples')
    holder = SpatioTemporalRegion(src.copy())
    region = ScaleFunction(x, y).apply_to(holder, t)
    ctx.same(np.array(holder.as_numpy), src, 'source-untouched')
    mag = float(np.nanmax(np.abs(src))) if np.isfinite(src).any() else 1.0
    for i, j in lib.points(x, y):
        s = src[:, i, j]
        got = np.array(region.series_at(Point(i, j)))
        ctx.eq(np.isnan(got).tolist(), np.isnan(s).tolist(), 'missing-stays-missing', point=(i, j))
        if np.isfinite(s).any():
            lo, hi = np.nanmin(s), np.nanmax(s)
            ctx.close(got, (s - lo) / (hi - lo), 'scaled-values', rtol=1e-6, atol=1e-9, point=(i, j))
    a1, a2, b1, b2 = lib.subrect(rng, x, y)
    c1, c2 = lib.interval(rng, t)
    for r, want in ((region, src), (region.region_subset(Region(a1, a2, b1, b2)), src[:, a1:a2, b1:b2]),
                    (region.interval_subset(TimeInterval(c1, c2)), src[c1:c2])):
        near(ctx, r.descale().as_numpy, want, 'descaled-values', mag)


def scaling_case(ctx, rng):
    from spta.region import Point, Region, TimeInterval
    from spta.region.temporal import SpatioTemporalRegion
    from spta.region.scaling import ScaleFunction
    from spta.region.partition import PartitionRegionCrisp
    x, y = lib.shape2(rng, 5, 20, grow=0.01)
    t = int(rng.integers(1, 12))
    origin = str(rng.choice(['memory', 'memory', 'metadata', 'descaled_again']))
    ctx.event('origin:' + origin)
    if origin == 'metadata':
        md, _, src = lib.world(rng, t, x, y, scaled=True, positive=False)
        region = md.create_instance()
    else:
        src = lib.values(rng, (t, x, y))
        if rng.random() < 0.5:          # some constant series
            mask = rng.random((x, y)) < 0.4
            src[:, mask] = src[0, mask]
        holder = SpatioTemporalRegion(lib.layout(rng, src))
        function = ScaleFunction(x, y)
        before, after = rng.random() < 0.2, rng.random() < 0.2
        if before:
            other_region(rng, function, x, y)
        region = function.apply_to(holder, t)
        if after:
            other_region(rng, function, x, y)
        if before or after:
            ctx.event('function-used-again')
        ctx.same(holder.as_numpy, src, 'source-untouched')
        if origin == 'descaled_again':
            d = region.descale()
            region = ScaleFunction(x, y).apply_to(SpatioTemporalRegion(lib.layout(rng, d.as_numpy)), t)
    mag = float(np.abs(src).max())
    want, lo, hi = lib.scale(src)
    spread = hi - lo
    if np.any(spread == 0):
        ctx.event('constant-series')
    ctx.describe(origin=origin, shape=[t, x, y], data=lib.gen_tag(src))
    ctx.trivial = x * y < 2 or t < 2

    def scaled_at(got, i, j, mech):
        tol = 1e-9 + 1e-12 * max(1.0, mag) / max(spread[i, j], 1e-300) if spread[i, j] > 0 else 1e-9
        if origin == 'descaled_again':
            tol *= 100
            if spread[i, j] < 1e-9 * max(1.0, mag):
                return
        ctx.close(got, want[:, i, j], mech, rtol=0, atol=tol, point=(i, j))

    got = np.array(region.as_numpy)
    ctx.ok(bool(np.all(np.isfinite(got))), 'scaled-finite')
    for i, j in lib.points(x, y):
        if spread[i, j] > 0 and origin != 'descaled_again':
            ctx.close(got[:, i, j].min(), 0.0, 'scaled-min', atol=1e-12)
            ctx.close(got[:, i, j].max(), 1.0, 'scaled-max', atol=1e-9)
        scaled_at(got[:, i, j], i, j, 'scaled-values')
    near(ctx, region.scale_min.as_numpy, lo, 'recorded-minimum', mag)
    near(ctx, region.scale_max.as_numpy, hi, 'recorded-maximum', mag)
    ctx.ok(bool(region.has_scaling()), 'has-scaling')

    def view(r, t1, t2, x1, x2, y1, y2, members=None):
        '''r shows the scaled data of that window'''
        pts = members if members is not None else lib.points(x2 - x1, y2 - y1)
        for (i, j) in pts:
            s = r.series_at(Point(i, j))
            full = np.zeros(t)
            full[:] = want[:, x1 + i, y1 + j]
            full[t1:t2] = s
            scaled_at(full, x1 + i, y1 + j, 'reads-scaled')
            ctx.eq(len(s), t2 - t1, 'reads-length')
        if members is None:
            d = np.array(r.as_numpy)
            ctx.eq(d.shape, (t2 - t1, x2 - x1, y2 - y1), 'view-shape')
        ctx.event('op:iterate')
        seq = []
        for p, s in r:
            seq.append((p.x, p.y))
            full = want[:, x1 + p.x, y1 + p.y].copy()
            full[t1:t2] = s
            scaled_at(full, x1 + p.x, y1 + p.y, 'iterates-scaled')
        ctx.eq(seq, list(pts), 'iterates-points')

    def descale(r, t1, t2, x1, x2, y1, y2, members=None):
        ctx.event('op:descale')
        d = r.descale()
        ctx.eq(bool(d.has_scaling()), False, 'descaled-has-no-scaling')
        pts = members if members is not None else lib.points(x2 - x1, y2 - y1)
        for (i, j) in pts:
            near(ctx, d.series_at(Point(i, j)), src[t1:t2, x1 + i, y1 + j], 'descaled-values', mag,
                 point=(i, j), window=(t1, t2, x1, x2, y1, y2))
        if members is None:
            near(ctx, d.as_numpy, src[t1:t2, x1:x2, y1:y2], 'descaled-values', mag)
        ctx.eq([(p.x, p.y) for p, _ in d], list(pts), 'descaled-points')

    windows = [(region, 0, t, 0, x, 0, y)]
    for op in [int(o) for o in rng.integers(0, 7, size=10)]:
        r, t1, t2, x1, x2, y1, y2 = windows[int(rng.integers(len(windows)))]
        if op == 0:
            descale(r, t1, t2, x1, x2, y1, y2)
        elif op == 1:
            a1, a2, b1, b2 = lib.subrect(rng, x2 - x1, y2 - y1)
            ctx.event('op:region')
            w = (r.region_subset(Region(a1, a2, b1, b2)), t1, t2, x1 + a1, x1 + a2, y1 + b1, y1 + b2)
            windows.append(w)
            view(*w)
            descale(*w)
        elif op == 2:
            c1, c2 = lib.interval(rng, t2 - t1)
            ctx.event('op:interval')
            w = (r.interval_subset(TimeInterval(c1, c2)), t1 + c1, t1 + c2, x1, x2, y1, y2)
            windows.append(w)
            view(*w)
            descale(*w)
        elif op == 6:
            # rectangle and interval in a single request
            a1, a2, b1, b2 = lib.subrect(rng, x2 - x1, y2 - y1)
            c1, c2 = lib.interval(rng, t2 - t1)
            ctx.event('op:subset')
            w = (r.subset(Region(a1, a2, b1, b2), TimeInterval(c1, c2)), t1 + c1, t1 + c2,
                 x1 + a1, x1 + a2, y1 + b1, y1 + b2)
            windows.append(w)
            view(*w)
            descale(*w)
        elif op == 3:
            n = (x2 - x1) * (y2 - y1)
            k = lib.clusters(rng, n, 4)
            lab = lib.labels(rng, x2 - x1, y2 - y1, k)
            part = PartitionRegionCrisp(lab, k)
            c = int(rng.integers(k))
            mem = [p for p in lib.points(x2 - x1, y2 - y1) if lab[p] == c]
            cl = part.create_spt_cluster(r, c)
            ctx.event('op:cluster')
            view(cl, t1, t2, x1, x2, y1, y2, mem)
            descale(cl, t1, t2, x1, x2, y1, y2, mem)
            c1, c2 = lib.interval(rng, t2 - t1)
            sub = cl.interval_subset(TimeInterval(c1, c2))
            view(sub, t1 + c1, t1 + c2, x1, x2, y1, y2, mem)
            descale(sub, t1 + c1, t1 + c2, x1, x2, y1, y2, mem)
        elif op == 4:
            view(r, t1, t2, x1, x2, y1, y2)
        else:
            i, j = int(rng.integers(x2 - x1)), int(rng.integers(y2 - y1))
            view(r, t1, t2, x1, x2, y1, y2)
            near(ctx, r.descale().series_at(Point(i, j)), src[t1:t2, x1 + i, y1 + j],
                 'descaled-values', mag)
        # the first region still shows its scaled values
        ctx.same(np.array(region.as_numpy), got, 'scaled-unchanged', op=op)


def outside_case(ctx, rng):
    '''
    What a function makes of scaled data (a forecast) is in scaled units, may leave [0, 1], and is
    brought back with the minimum and maximum of its own point. Also with very small units.
    '''
    from spta.region import Point, Region
    from spta.region.function import FunctionRegionSeries
    from spta.region.temporal import SpatioTemporalRegion
    from spta.region.scaling import ScaleFunction
    x, y = lib.shape2(rng, 5, 20)
    t, n = int(rng.integers(2, 9)), int(rng.integers(1, 9))
    unit = float(rng.choice([1e-11, 1e-6, 1.0, 1e5]))
    src = rng.normal(size=(t, x, y)) * unit
    flat = rng.random((x, y)) < 0.1
    src[:, flat] = src[0, flat]
    lo, hi = src.min(axis=0), src.max(axis=0)
    spread = np.where(hi > lo, hi - lo, 1.0)
    made = rng.normal(size=(n, x, y)) * 3
    ctx.describe(shape=[t, x, y], forecast_len=n, unit=unit)
    ctx.trivial = x * y < 2
    region = ScaleFunction(x, y).apply_to(SpatioTemporalRegion(lib.layout(rng, src)), t)
    ctx.close(np.array(region.as_numpy), np.where(hi > lo, (src - lo) / spread, 0.0), 'scaled-values',
              rtol=0, atol=1e-7)
    ctx.close(np.array(region.descale().as_numpy), src, 'descaled-values', rtol=1e-7, atol=1e-9 * unit)
    fs = np.empty((x, y), dtype=object)
    for i, j in lib.points(x, y):
        fs[i, j] = (lambda out: lambda series: out)(made[:, i, j])
    got = FunctionRegionSeries(fs).apply_to(region, n)
    ctx.event('forecast-outside-range')
    ctx.ok(bool(got.has_scaling()), 'forecast-has-scaling')
    ctx.same(np.array(got.as_numpy), made, 'forecast-stays-scaled')
    want = made * (hi - lo) + lo
    ctx.close(np.array(got.descale().as_numpy), want, 'forecast-descaled', rtol=1e-7, atol=1e-9 * unit)
    a1, a2, b1, b2 = lib.subrect(rng, x, y)
    part = got.region_subset(Region(a1, a2, b1, b2)).descale()
    ctx.close(np.array(part.as_numpy), want[:, a1:a2, b1:b2], 'forecast-descaled', rtol=1e-7,
              atol=1e-9 * unit)
    i, j = int(rng.integers(x)), int(rng.integers(y))
    ctx.close(got.descale().series_at(Point(i, j)), want[:, i, j], 'forecast-descaled', rtol=1e-7,
              atol=1e-9 * unit)


WORKLOADS = [('outside', outside_case, 800, 4000), ('scaling', scaling_case, 4200, 9000), ('missing', missing_case, 1200, 3000)]
