'''P14: every reported error is compared with the textbook formula on that point's own data.'''
import numpy as np

import lib

RULE = ('A case evaluates forecasts over a random region (plain, cluster, scaled, scaled cluster; with and '
        'without training data, points without forecast, perfect points, ties) with random error types in '
        'random order on one analysis object; every point error and overall error is recomputed from the '
        'formulas. Non-trivial: at least 2 points.')
ASSUMPTIONS = ['sMAPE is judged on positive data; MASE on non-constant training series.']
REQUIRED_EVENTS = ['MSE', 'sMAPE', 'MASE', 'long-series', 'missing-forecast', 'all-missing', 'perfect', 'repeated',
                   'unknown', 'no-training', 'scaled', 'cluster', 'direct']

BAD = ['mse', 'rmse', 'MAPE', 'smape', '', None, 'MASE ', 'SMAPE']


def setup():
    import spta.model.error, spta.region.partition, spta.region.scaling  # noqa
    import spta.region.temporal, spta.util.error  # noqa


def data(rng, t, x, y):
    a = lib.values(rng, (t, x, y), kind=str(rng.choice(['positive', 'positive', 'offset', 'ties'])))
    a = a - min(0.0, float(a.min())) + float(rng.choice([0.5, 3.0, 250.0]))
    # no constant training series
    a[0] += 0.25
    a[1] -= 0.25 * float(rng.random())
    if rng.random() < 0.25:
        # integral data, which may be stored as integers
        a = np.round(a) + 1.0
        a[1] = a[0] + 1.0 + (a[1] > a[0])
    return a


def tol(want, mag):
    return 1e-9 * max(1.0, mag)


def case(ctx, rng):
    from spta.model.error import ErrorAnalysis
    from spta.model.train import SplitTrainingAndTestLast
    from spta.region import Point
    x, y = lib.shape2(rng, 5, 16, grow=0.01)
    test_len = int(rng.integers(1, 6))
    t = test_len + int(rng.integers(3, 9))
    if rng.random() < 0.02:
        ctx.event('long-series')
        t = test_len + int(rng.integers(366, 900))
    kind = str(rng.choice(lib.REGION_KINDS))
    a = data(rng, t, x, y)
    region, members, have, lo, hi = lib.wrap(rng, a, kind)
    scaled = kind.startswith('scaled')
    if scaled:
        ctx.event('scaled')
    if kind.endswith('cluster'):
        ctx.event('cluster')
    train, test = SplitTrainingAndTestLast(test_len).split(region)
    no_train = rng.random() < 0.25
    if no_train:
        ctx.event('no-training')
    ea = ErrorAnalysis(test, None if no_train else train)
    tr, ob = a[:t - test_len], a[t - test_len:]
    steps = [int(s) for s in rng.integers(0, 4, size=7)]
    ctx.describe(kind=kind, shape=[t, x, y], test_len=test_len, steps=steps, no_train=bool(no_train),
                 data=lib.gen_tag(a))
    ctx.trivial = x * y < 2
    mag = float(np.abs(a).max())

    def forecast():
        '''In original units; and as the region has it.'''
        f = lib.values(rng, (test_len, x, y), kind='positive')
        if rng.random() < 0.4:
            f = np.abs(ob + rng.normal(size=ob.shape)) + 0.1
        perfect = []
        if rng.random() < 0.4:
            ctx.event('perfect')
            perfect = [p for p in members if rng.random() < 0.4]
            for p in perfect:
                f[:, p[0], p[1]] = ob[:, p[0], p[1]]
        frac = float(rng.choice([0, 0, 0.3, 0.7, 1.0]))
        missing = [p for p in members if rng.random() < frac]
        for p in missing:
            f[:, p[0], p[1]] = np.nan
        if missing:
            ctx.event('missing-forecast')
        if len(missing) == len(members):
            ctx.event('all-missing')
        g = f
        if scaled:
            d = np.where(hi == lo, 1.0, hi - lo)
            g = (f - lo) / d
        return f, g, perfect, missing

    def judge(error_region, f, etype, mech, perfect=()):
        ctx.event(etype)
        got = [((p.x, p.y), float(v)) for p, v in error_region]
        ctx.eq([g[0] for g in got], members, 'error-points', etype=etype)
        errs = []
        for p, v in got:
            fs = f[:, p[0], p[1]]
            if np.isnan(fs).any():
                ctx.ok(np.isnan(v), 'no-forecast-is-missing', 'error {}'.format(v), point=p)
                continue
            want = lib.ERRORS[etype](fs, ob[:, p[0], p[1]], tr[:, p[0], p[1]])
            atol = 1e-9 if not scaled else 1e-7 * max(1.0, mag)
            ctx.close(v, want, mech + '-' + etype, rtol=1e-7 if not scaled else 1e-6, atol=atol,
                      point=p, kind=kind)
            ctx.close(error_region.value_at(Point(*p)), v, 'error-value-at', point=p)
            if p in perfect:
                ctx.close(v, 0.0, 'perfect-forecast-zero', atol=atol, point=p)
            errs.append(v)
        overall = float(error_region.overall_error)
        want = lib.rms(errs)
        ctx.close(overall, want, 'overall-error', rtol=1e-9, atol=1e-12, etype=etype, errors=errs)
        return overall

    for s in steps:
        etype = str(rng.choice(['MSE', 'sMAPE'] if no_train else ['MSE', 'sMAPE', 'MASE']))
        if s in (0, 1):
            f, g, perfect, missing = forecast()
            freg = region.new_spatio_temporal_region(g.copy())
            er = ea.with_forecast_region(freg, etype)
            judge(er, f, etype, 'error', perfect)
            judge(er, f, etype, 'error', perfect)
            now = np.array(freg.as_numpy)
            for p in members:
                ctx.same(now[:, p[0], p[1]], g[:, p[0], p[1]], 'forecast-unchanged')
        elif s == 2:
            # one forecast repeated over the region; with scaling, in each point's own range
            ctx.event('repeated')
            series = rng.random(test_len) * (1.0 if scaled else 20.0) + 0.05
            if rng.random() < 0.15:
                series[:] = np.nan
            elif rng.random() < 0.3 and not scaled:
                p = members[int(rng.integers(len(members)))]
                series = ob[:, p[0], p[1]].copy()
            keep = series.copy()
            f = np.repeat(series[:, None], x * y, axis=1).reshape(test_len, x, y)
            if scaled:
                f = f * np.where(hi == lo, 0.0, hi - lo) + lo
            er = ea.with_repeated_forecast(series, etype)
            judge(er, f, etype, 'repeated')
            ctx.same(series, keep, 'forecast-unchanged')
        else:
            ctx.event('unknown')
            bad = BAD[int(rng.integers(len(BAD)))]
            _, g, _, _ = forecast()
            freg = region.new_spatio_temporal_region(g)
            ctx.raises(ValueError, lambda: ea.with_forecast_region(freg, bad), 'unknown-error-rejected',
                       name=bad)
            ctx.raises(ValueError, lambda: ea.with_repeated_forecast(g[:, 0, 0], bad),
                       'unknown-error-rejected', name=bad)
            ctx.raises(ValueError, lambda: ea.overall_with_each_forecast(freg, bad),
                       'unknown-error-rejected', name=bad)
    for part, ref in ((test, have[t - test_len:]), (train, have[:t - test_len])):
        ctx.same(np.array(part.as_numpy), ref, 'data-unchanged')


def direct(ctx, rng):
    from spta.model.error import get_error_func, get_overall_error_func
    n, m = int(rng.integers(1, 9)), int(rng.integers(2, 9))
    o = lib.values(rng, n, kind='positive')
    f = lib.values(rng, n, kind='positive')
    if rng.random() < 0.3:
        f[int(rng.integers(n))] = o[int(rng.integers(n))]
    tr = lib.values(rng, m)
    tr[0] += 1.0 if abs(tr[0] - tr[1]) < 1e-9 else 0.0
    ctx.describe(n=n, m=m, data=lib.gen_tag(np.concatenate([o, f, tr])))
    ctx.event('direct')
    for etype in lib.ERRORS:
        func = get_error_func(etype)
        ko, kf, kt = o.copy(), f.copy(), tr.copy()
        ctx.close(func(f, o, tr), lib.ERRORS[etype](f, o, tr), 'error-function-' + etype, rtol=1e-9,
                  f=f, o=o, tr=tr)
        ctx.close(func(o, o, tr), 0.0, 'perfect-forecast-zero', atol=1e-12)
        if etype != 'MASE':
            ctx.close(func(o, f, tr), lib.ERRORS[etype](f, o, tr), 'error-function-' + etype, rtol=1e-9)
        ctx.same(np.concatenate([o, f, tr]), np.concatenate([ko, kf, kt]), 'data-unchanged')
    # units: MASE does not depend on the unit, MSE is quadratic in it
    c = float(rng.choice([0.001, 7.0, 1000.0]))
    if np.abs(np.diff(tr)).mean() > 1e-5 * np.abs(tr).max():
        ctx.close(get_error_func('MASE')(c * f, c * o, c * tr), lib.mase(f, o, tr), 'mase-scale-free',
                  rtol=1e-7)
    for bad in BAD:
        ctx.event('unknown')
        ctx.raises(ValueError, lambda: get_error_func(bad), 'unknown-error-rejected', name=bad)
        ctx.raises(ValueError, lambda: get_overall_error_func(bad), 'unknown-error-rejected', name=bad)


WORKLOADS = [('analysis', case, 4400, 8000), ('direct', direct, 1600, 3000)]
