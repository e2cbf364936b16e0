'''P13: every forecast is compared with the definition of its model on the point's own series.'''
import itertools

import numpy as np

import lib

RULE = ('A case trains one kind of model (mean of past, k-NN with DTW or RMSE, ARIMA, auto ARIMA with '
        'refit) on a random region or cluster and compares every forecast with an independent computation '
        'on that point\'s series: a mean, a search over all past windows, closed forms of ARIMA(0,d,0) '
        'and a separate fit of the same order. Ties among neighbours accept every choice the definition '
        'allows. Non-trivial: at least 2 points.')
ASSUMPTIONS = ['ARIMA: an independent statsmodels fit of the same order is the reference for orders '
               'without closed form.',
               'mean of past: the requested number of samples is positive.']
REQUIRED_EVENTS = ['mean', 'mean-of-all', 'long-series', 'knn', 'knn-exact', 'knn-many-neighbours', 'knn-too-few', 'knn-ties', 'arima', 'arima-closed-form',
                   'missing-model', 'auto-arima', 'refit', 'single-model', 'cluster', 'subset-apply']


def setup():
    import spta.model.train, spta.model.knn, spta.model.mean, spta.model.forecast  # noqa
    import spta.arima.train, spta.region.partition, spta.region.scaling  # noqa
    import spta.distance.rmse  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def rmse(a, b):
    return float(np.sqrt(np.mean((np.asarray(a) - np.asarray(b)) ** 2)))


def judge_region(ctx, out, members, length, expected, mech, **w):
    '''expected: dict point -> predicate or array'''
    ctx.eq(tuple(np.array(out.as_numpy).shape)[0], length, 'forecast-length')
    from spta.region import Point
    pts = [(p.x, p.y) for p, _ in out]
    ctx.eq(pts, members, 'forecast-points')
    for p in members:
        s = np.array(out.series_at(Point(*p)), dtype=float)
        ctx.eq(len(s), length, 'forecast-length')
        want = expected[p]
        if callable(want):
            want(s, p)
        elif want is None:
            ctx.event('missing-model')
            ctx.ok(bool(np.isnan(s).all()), 'no-model-is-nan', 'got {}'.format(s), point=p, **w)
        else:
            ctx.close(s, want, mech, rtol=1e-9, atol=1e-9, point=p, **w)


def regions(ctx, rng, a):
    kind = str(rng.choice(['plain', 'plain', 'cluster']))
    if kind == 'cluster':
        ctx.event('cluster')
    region, members, have, _, _ = lib.wrap(rng, a, kind)
    return kind, region, members


def drop_some(ctx, rng, models, members, x, y):
    '''A model region where some members have no model, through instance().'''
    arr = np.array(models.as_numpy, dtype=object).copy()
    n = int(rng.choice([0, 0, 1, max(0, len(members) // 2), len(members)]))
    gone = [members[int(i)] for i in rng.permutation(len(members))[:n]]
    for p in gone:
        arr[p] = None
    if not n:
        return models, gone
    return models.instance(arr), gone


def mean(ctx, rng):
    from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
    x, y = lib.shape2(rng, 5, 20)
    t = int(rng.integers(1, 12))
    if rng.random() < 0.03:
        ctx.event('long-series')
        t = int(rng.integers(366, 900))
    a = lib.values(rng, (t, x, y))
    kind, region, members = regions(ctx, rng, a)
    past = int(rng.choice([1, t, int(rng.integers(1, t + 1)), t + int(rng.integers(1, 5))]))
    if past > t:
        ctx.event('mean-of-all')
    ctx.describe(kind=kind, shape=[t, x, y], past=past, data=lib.gen_tag(a))
    ctx.trivial = x * y < 2
    ctx.event('mean')
    models = TrainerMeanOfPast(MeanOfPastParams(past), x, y).apply_to(region)
    models, gone = drop_some(ctx, rng, models, members, x, y)
    for length in [int(rng.integers(1, 7)) for _ in range(2)]:
        out = models.apply_to(region if rng.random() < 0.5 else region.empty_region_2d(), length)
        mag = max(1.0, float(np.abs(a).max()))
        want = {p: None if p in gone else
                np.full(length, sum(float(v) for v in a[max(0, t - past):, p[0], p[1]]) / min(t, past))
                for p in members}
        def tol(w):
            return lambda s, p: ctx.close(s, w, 'mean-of-past', rtol=1e-9, atol=1e-11 * mag, point=p,
                                          past=past)
        judge_region(ctx, out, members, length,
                     {p: (tol(w) if w is not None else None) for p, w in want.items()}, 'mean-of-past')


def knn_options(dist, windows, k):
    '''All forecasts that average k nearest windows, up to ties.'''
    order = sorted(range(len(dist)), key=lambda i: dist[i])
    kth = dist[order[k - 1]]
    eps = 1e-9 * max(1.0, abs(kth))
    sure = [i for i in order if dist[i] < kth - eps]
    tied = [i for i in order if abs(dist[i] - kth) <= eps]
    need = k - len(sure)
    out = []
    for combo in itertools.islice(itertools.combinations(tied, need), 4000):
        out.append(np.mean([windows[i] for i in sure + list(combo)], axis=0))
    return out, len(tied) > need


def judge_knn(ctx, got, series, k, length, dist_func, **w):
    windows = [series[i:i + length] for i in range(len(series) - length + 1)]
    last, past = windows[-1], windows[:-1]
    if len(past) == k:
        ctx.event('knn-exact')
        options = [np.mean(past, axis=0)]
    else:
        dist = [dist_func(last, p) for p in past]
        options, ties = knn_options(dist, past, k)
        if ties:
            ctx.event('knn-ties')
    got = np.asarray(got, dtype=float)
    mag = max(1.0, float(np.abs(series).max()))
    good = got.shape == (length,) and any(
        np.allclose(got, o, rtol=1e-9, atol=1e-10 * mag) for o in options)
    ctx.ok(good, 'knn-mean-of-nearest-windows', 'got {}, expected one of {}'.format(
        got.tolist(), [o.tolist() for o in options[:3]]), k=k, length=length, series=series, **w)


def knn(ctx, rng):
    from spta.distance.dtw import DistanceByDTW
    from spta.distance.rmse import DistanceByRMSE
    from spta.model.knn import (KNNParams, TrainerKNN, find_k_nearest_neighbors,
                                predict_future_values_with_knn)
    x, y = lib.shape2(rng, 3, 6)
    length = int(rng.integers(1, 5))
    t = length + int(rng.integers(1, 14))
    far = rng.random() < 0.2
    if far:
        x, y = min(x, 2), min(y, 2)
        length = int(rng.integers(1, 16))
        t = length + int(rng.integers(14, 90))
        ctx.event('knn-many-neighbours')
    # every choice among ties is tried, so no ties among many
    a = rng.normal(size=(t, x, y)) * 10 ** rng.uniform(-2, 3) if far else lib.values(rng, (t, x, y))
    kind, region, members = regions(ctx, rng, a)
    n_past = t - length
    k = int(rng.choice([1, n_past, int(rng.integers(1, n_past + 1)), int(rng.integers(1, n_past + 1))]))
    dm, ref = ((DistanceByDTW(), lib.dtw), (DistanceByRMSE(), rmse))[int(rng.integers(2))]
    ctx.describe(kind=kind, shape=[t, x, y], k=k, length=length, measure=repr(dm), data=lib.gen_tag(a))
    ctx.trivial = x * y < 2
    ctx.event('knn')
    models = TrainerKNN(KNNParams(k, dm), x, y).apply_to(region)
    models, gone = drop_some(ctx, rng, models, members, x, y)

    def judge(p, series):
        return lambda s, q: judge_knn(ctx, s, series, k, length, ref, point=q, measure=repr(dm))

    for _ in range(2):
        out = models.apply_to(region.empty_region_2d(), length)
        judge_region(ctx, out, members, length,
                     {p: None if p in gone else judge(p, a[:, p[0], p[1]]) for p in members}, 'knn')
    # other lengths from the same models
    length2 = int(rng.integers(1, min(5, t) + 1))
    if t - length2 >= k:
        out = models.apply_to(region.empty_region_2d(), length2)
        for p in members:
            if p not in gone:
                from spta.region import Point
                judge_knn(ctx, out.series_at(Point(*p)), a[:, p[0], p[1]], k, length2, ref, point=p,
                          measure=repr(dm))
    # the functions directly
    s = a[:, 0, 0].copy()
    keep = s.copy()
    judge_knn(ctx, predict_future_values_with_knn(s, k, length, dm), keep, k, length, ref)
    ctx.same(s, keep, 'series-unchanged')
    ctx.event('knn-too-few')
    for k2 in (n_past + 1, n_past + int(rng.integers(1, 5))):
        ctx.raises(ValueError, lambda: predict_future_values_with_knn(s, k2, length, dm),
                   'knn-too-few-windows-rejected', k=k2, n_past=n_past)
    # neighbours by themselves
    w = np.array([keep[i:i + length] for i in range(n_past)])
    idx = [int(i) for i in find_k_nearest_neighbors(keep[n_past:], k, w, dm)]
    ctx.eq(len(set(idx)), k, 'knn-distinct-neighbours')
    ctx.ok(all(0 <= i < n_past for i in idx), 'knn-neighbours-in-range')
    d = [ref(keep[n_past:], v) for v in w]
    if k < n_past:
        ctx.close(sorted(d[i] for i in idx), sorted(d)[:k], 'knn-neighbours-nearest', rtol=1e-7,
                  atol=1e-7)
    if length > 1:
        ctx.raises(ValueError, lambda: find_k_nearest_neighbors(keep[n_past:][:-1], k, w, dm),
                   'knn-neighbour-length-rejected')


def ar_series(rng, t, x, y):
    out = np.empty((t, x, y))
    for p in lib.points(x, y):
        phi = rng.uniform(-0.7, 0.8)
        e = rng.normal(size=t + 20)
        s = np.zeros(t + 20)
        for i in range(1, t + 20):
            s[i] = phi * s[i - 1] + e[i]
        out[:, p[0], p[1]] = s[20:] + rng.uniform(0, 30)
    if rng.random() < 0.3:
        out = out.cumsum(axis=0)
    return out


def arima(ctx, rng):
    from statsmodels.tsa.arima.model import ARIMA
    from spta.arima import ArimaPDQ
    from spta.arima.train import TrainerArimaPDQ
    from spta.region import Point
    x, y = lib.shape2(rng, 3, 6)
    t = int(rng.integers(16, 30))
    a = ar_series(rng, t, x, y)
    kind, region, members = regions(ctx, rng, a)
    order = [(0, 0, 0), (0, 1, 0), (0, 2, 0), (1, 0, 0), (1, 1, 0), (2, 0, 0), (0, 0, 1), (0, 1, 1),
             (1, 0, 1), (1, 1, 1), (2, 1, 0), (1, 0, 0), (1, 2, 0)][int(rng.integers(13))]
    length = int(rng.integers(1, 6))
    ctx.describe(kind=kind, shape=[t, x, y], order=order, length=length, data=lib.gen_tag(a))
    ctx.trivial = x * y < 2
    ctx.event('arima')
    models = TrainerArimaPDQ(ArimaPDQ(*order), x, y).apply_to(region)
    aic = models.aic_region
    models2, gone = drop_some(ctx, rng, models, members, x, y)
    want = {}
    for p in members:
        s = a[:, p[0], p[1]]
        if p in gone:
            want[p] = None
            continue
        ref = ARIMA(s, order=order, seasonal_order=(0, 0, 0, 0)).fit()
        f = np.array(ref.forecast(length), dtype=float)
        ctx.close(aic.value_at(Point(*p)), ref.aic, 'aic-of-own-model', rtol=1e-6, atol=1e-6)
        scale = max(1.0, float(np.abs(s).max()))
        if order in ((0, 1, 0), (0, 2, 0)):
            ctx.event('arima-closed-form')
            slope = 0.0 if order == (0, 1, 0) else s[-1] - s[-2]
            closed = s[-1] + slope * np.arange(1, length + 1)
            want[p] = (lambda w, sc: lambda g, q: ctx.close(g, w, 'arima-closed-form', rtol=1e-4,
                                                            atol=1e-4 * sc, point=q))(closed, scale)
        elif order == (0, 0, 0):
            ctx.event('arima-closed-form')
            want[p] = (lambda w, sc: lambda g, q: ctx.close(g, w, 'arima-closed-form', rtol=1e-3,
                                                            atol=1e-3 * sc, point=q))(
                np.full(length, s.mean()), float(np.abs(s - s.mean()).max()) + 1e-6)
        else:
            want[p] = (lambda w, sc: lambda g, q: ctx.close(g, w, 'arima-forecast-of-order', rtol=1e-6,
                                                            atol=1e-6 * sc, point=q))(f, scale)
    out = models2.apply_to(region.empty_region_2d(), length)
    judge_region(ctx, out, members, length, want, 'arima')
    # another length first, then this one again
    models2.apply_to(region.empty_region_2d(), length + 2)
    out = models2.apply_to(region.empty_region_2d(), length)
    judge_region(ctx, out, members, length, want, 'arima')


def auto_arima(ctx, rng):
    from pmdarima.arima import auto_arima as reference
    from statsmodels.tsa.arima.model import ARIMA
    from spta.arima import AutoArimaParams
    from spta.arima import train as at
    from spta.region import Point
    from spta.region.temporal import SpatioTemporalRegion
    x, y = lib.shape2(rng, 2, 4)
    t = int(rng.integers(18, 26))
    a = ar_series(rng, t, x, y)
    kind, region, members = regions(ctx, rng, a)
    params = AutoArimaParams(1, 1, int(rng.integers(1, 3)), 1, [None, 0, 1][int(rng.integers(3))], True)
    length = int(rng.integers(1, 5))
    cut = t - int(rng.integers(2, 5))
    ctx.describe(kind=kind, shape=[t, x, y], params=list(params), length=length, data=lib.gen_tag(a))
    ctx.trivial = x * y < 2
    ctx.event('auto-arima')
    n_fail = int(rng.choice([0, 1, 1]))
    fail = [members[int(i)] for i in rng.permutation(len(members))[:n_fail]]
    keys = set(float(a[0, p[0], p[1]]) for p in fail)
    from statsmodels.tsa.arima.model import ARIMA as A
    orig = A.fit

    def fit(self, *args, **kw):
        if active and float(np.asarray(self.endog).ravel()[0]) in keys:
            raise ValueError('injected')
        return orig(self, *args, **kw)

    active = [1]
    A.fit = fit
    try:
        from spta.region import TimeInterval
        train = region.interval_subset(TimeInterval(0, cut))
        trainer = at.TrainerAutoArima(params, x, y)
        models = trainer.apply_to(train)
    finally:
        A.fit = orig
    del active[:]
    ctx.eq(models.missing_count, len(fail), 'missing-count')
    orders = {}
    want = {}
    for p in members:
        if p in fail:
            ctx.ok(models.value_at(Point(*p)) is None, 'failing-point-without-model', point=p)
            ctx.eq([int(v) for v in models.pdq_region.series_at(Point(*p))], [-1, -1, -1],
                   'no-order-without-model')
            ctx.ok(bool(np.isnan(models.aic_region.value_at(Point(*p)))), 'no-aic-without-model')
            want[p] = None
            continue
        s = a[:cut, p[0], p[1]]
        ref = reference(s, start_p=params.start_p, start_q=params.start_q, max_p=params.max_p,
                        max_q=params.max_q, d=params.d, stepwise=params.stepwise, seasonal=False,
                        suppress_warnings=True)
        orders[p] = tuple(int(v) for v in ref.order)
        ctx.eq(tuple(int(v) for v in models.pdq_region.series_at(Point(*p))), orders[p],
               'order-found-at-point', point=p)
        f = ARIMA(s, order=orders[p]).fit().forecast(length)
        sc = max(1.0, float(np.abs(s).max()))
        want[p] = (lambda w, sc: lambda g, q: ctx.close(g, w, 'auto-arima-forecast', rtol=1e-6,
                                                        atol=1e-6 * sc, point=q))(np.array(f), sc)
    judge_region(ctx, models.apply_to(train.empty_region_2d(), length), members, length, want, 'auto')
    # refit with the whole series: same order at each point, no model where there was none
    ctx.event('refit')
    whole = trainer.create_refitter(models).apply_to(region)
    want = {}
    for p in members:
        m = whole.value_at(Point(*p))
        if p in fail:
            ctx.ok(m is None, 'refit-leaves-point-without-model', point=p)
            want[p] = None
            continue
        ctx.eq(tuple(int(v) for v in m.model.order), orders[p], 'refit-keeps-order', point=p)
        s = a[:, p[0], p[1]]
        f = ARIMA(s, order=orders[p]).fit().forecast(length)
        sc = max(1.0, float(np.abs(s).max()))
        want[p] = (lambda w, sc: lambda g, q: ctx.close(g, w, 'refit-forecast', rtol=1e-6,
                                                        atol=1e-6 * sc, point=q))(np.array(f), sc)
    ctx.eq(whole.missing_count, len(fail), 'missing-count')
    judge_region(ctx, whole.apply_to(region.empty_region_2d(), length), members, length, want, 'refit')


def single_model(ctx, rng):
    '''One point's model for the whole region, a sub-rectangle of models, and subsets.'''
    from spta.model.forecast import ForecastAnalysis
    from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
    from spta.region import Point, Region
    x, y = lib.shape2(rng, 5, 20)
    test_len = int(rng.integers(1, 4))
    t = test_len + int(rng.integers(2, 9))
    a = lib.values(rng, (t, x, y), kind=str(rng.choice(['positive', 'unique', 'normal'])))
    kind, region, members = regions(ctx, rng, a)
    past = int(rng.integers(1, t - test_len + 1))
    ctx.describe(kind=kind, shape=[t, x, y], past=past, test_len=test_len, data=lib.gen_tag(a))
    ctx.trivial = x * y < 2
    ctx.event('single-model')
    fa = ForecastAnalysis(TrainerMeanOfPast(MeanOfPastParams(past), x, y))
    models = fa.train_models(region, test_len)
    mean_of = {p: float(np.mean(a[:t - test_len, p[0], p[1]][-past:])) for p in members}
    mag = max(1.0, float(np.abs(a).max()))
    for _ in range(3):
        p = members[int(rng.integers(len(members)))]
        err = fa.forecast_whole_region_with_single_model(Point(*p), test_len, 'MSE')
        for q in members:
            want = lib.mse([mean_of[p]] * test_len, a[t - test_len:, q[0], q[1]])
            ctx.close(err.value_at(Point(*q)), want, 'one-model-repeated-everywhere', rtol=1e-7,
                      atol=1e-9 * mag * mag, model_at=p, at=q)
    # a rectangle of the models forecasts its own points
    x1, x2, y1, y2 = lib.subrect(rng, x, y)
    arr = np.array(models.as_numpy)[x1:x2, y1:y2]
    sub = models.instance(arr)
    from spta.region.spatial import SpatialRegion
    ctx.event('subset-apply')
    out = np.array(sub.apply_to(SpatialRegion(np.zeros((x2 - x1, y2 - y1))), 3).as_numpy)
    for i, j in lib.points(x2 - x1, y2 - y1):
        q = (i + x1, j + y1)
        if q in mean_of:
            ctx.close(out[:, i, j], np.full(3, mean_of[q]), 'subset-keeps-own-models', rtol=1e-9,
                      atol=1e-11 * mag, point=q)


WORKLOADS = [('mean', mean, 150, 3000), ('knn', knn, 180, 4000), ('arima', arima, 60, 900),
             ('auto_arima', auto_arima, 21, 220), ('single_model', single_model, 120, 2500)]
