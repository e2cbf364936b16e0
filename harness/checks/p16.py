'''P16: histories of training and analysis on one object, against a model without history.'''
import numpy as np

import lib

RULE = ('A history is a random sequence of trainings (other regions, kinds, test lengths, trainers that '
        'fail at points) and analyses (each point, single model, all models, summary, repeated, other error '
        'types) on one analysis object. Every answer is recomputed from the latest training data, the '
        'definition of the model and the error formulas. Non-trivial: at least 2 points.')
ASSUMPTIONS = ['The forecast models are mean-of-past with random failing points, so that the expected '
               'forecasts are known exactly.',
               'sMAPE is judged on positive data; MASE on non-constant training series.']
REQUIRED_EVENTS = ['train', 'each', 'single', 'all', 'summary', 'retrained', 'missing', 'cluster',
                   'scaled', 'centroid', 'parallel', 'other-length-rejected', 'untrained-rejected',
                   'same-region']


def setup():
    import spta.model.forecast, spta.model.mean, spta.region.partition, spta.region.scaling  # noqa


def history(ctx, rng):
    from spta.model.forecast import ForecastAnalysis
    from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
    from spta.region import Point
    x, y = lib.shape2(rng, 4, 12)
    past = int(rng.integers(1, 4))
    failing = set()

    def key(series):
        return tuple(float(v) for v in series)

    class Trainer(TrainerMeanOfPast):
        def training_function(self, model_params, training_series):
            if tuple(float(v) for v in training_series) in failing:
                return None
            return super(Trainer, self).training_function(model_params, training_series)

    workers = None
    if rng.random() < 0.12:
        workers = int(rng.integers(1, 4))
        ctx.event('parallel')
    trainer = Trainer(MeanOfPastParams(past), x, y)
    fa = ForecastAnalysis(trainer, workers)
    now = {}

    def world():
        if now and rng.random() < 0.3:
            # the same region again, with another split
            a, (region, members, have, lo, hi) = now['a'], now['wrapped']
            kind, t = now['kind'], len(a)
            test_len = int(rng.integers(1, min(4, t - past)))
            ctx.event('same-region')
        else:
            test_len = int(rng.integers(1, 4))
            t = test_len + past + int(rng.integers(2, 5))
            kind = str(rng.choice(lib.REGION_KINDS))
            a = lib.values(rng, (t, x, y), kind='positive') + 1.0
            region, members, have, lo, hi = lib.wrap(rng, a, kind)
        for k in ('scaled', 'cluster'):
            if k in kind:
                ctx.event(k)
        frac = float(rng.choice([0, 0, 0.3]))
        gone = [p for p in members if rng.random() < frac
                and key(have[:t - test_len, p[0], p[1]]) not in failing]
        already = sum(key(have[:t - test_len, p[0], p[1]]) in failing for p in members)
        gone = gone[:max(0, len(members) - 1 - already)]
        failing.update(key(have[:t - test_len, p[0], p[1]]) for p in gone)
        gone = [p for p in members if key(have[:t - test_len, p[0], p[1]]) in failing]
        centroid = now['centroid'] if now and region is now['region'] else None
        if rng.random() < 0.6:
            centroid = members[int(rng.integers(len(members)))]
            region.centroid = Point(*centroid)
            if not region.has_centroid:
                centroid = None
            else:
                ctx.event('centroid')
        spread = hi - lo
        ntr = t - test_len
        fc = {p: None if p in gone else
              np.full(test_len, float(np.mean(have[ntr - past:ntr, p[0], p[1]]))) for p in members}
        ob, tr = a[ntr:], a[:ntr]

        def units(s, q):
            return s * spread[q] + lo[q] if kind.startswith('scaled') else s

        def err(etype, s, q):
            if s is None:
                return float('nan')
            return float(lib.ERRORS[etype](units(s, q), ob[:, q[0], q[1]], tr[:, q[0], q[1]]))

        if gone:
            ctx.event('missing')
        return dict(region=region, members=members, test_len=test_len, fc=fc, err=err, kind=kind,
                    centroid=centroid, gone=gone, have=have, a=a, units=units,
                    wrapped=(region, members, have, lo, hi))

    def region_of(out):
        return {(p.x, p.y): float(v) for p, v in out}

    def same(out, want, mech, **w):
        got = region_of(out)
        ctx.eq(sorted(got), sorted(want), mech + '-points')
        for p in want:
            ctx.close(got[p], want[p], mech, rtol=1e-6, atol=1e-7, point=p, kind=now['kind'], **w)

    def check_each(etype):
        ctx.event('each')
        fr, er, _ = fa.forecast_at_each_point(now['test_len'], etype)
        for p in now['members']:
            s = np.array(fr.series_at(Point(*p)), dtype=float)
            want = now['fc'][p]
            want = np.full(now['test_len'], np.nan) if want is None else want
            ctx.close(s, want, 'forecast-of-latest-training', rtol=1e-9, atol=1e-9, point=p)
        same(er, {p: now['err'](etype, now['fc'][p], p) for p in now['members']}, 'each-point-error',
             etype=etype)
        ctx.close(er.overall_error, lib.rms([now['err'](etype, now['fc'][p], p)
                                             for p in now['members']]), 'each-overall', rtol=1e-6,
                  atol=1e-7)

    def overall(etype):
        out = {}
        for p in now['members']:
            s = now['fc'][p]
            out[p] = float('nan') if s is None else lib.rms(
                [now['err'](etype, s, q) for q in now['members']])
        return out

    log = []
    ctx.raises((AssertionError, ValueError, AttributeError, TypeError),
               lambda: ForecastAnalysis(trainer).forecast_at_each_point(2, 'MSE'), 'untrained-rejected')
    ctx.event('untrained-rejected')
    for step in range(11):
        act = 'train' if not now else str(rng.choice(
            ['train', 'each', 'single', 'single', 'all', 'summary', 'bad-length']))
        etype = str(rng.choice(['MSE', 'sMAPE', 'MASE']))
        log.append((act, etype))
        if act == 'train':
            if now:
                ctx.event('retrained')
            ctx.event('train')
            now = world()
            out = fa.train_models(now['region'], now['test_len'])
            for p in now['members']:
                ctx.eq(out.value_at(Point(*p)) is None, p in now['gone'], 'latest-models', point=p)
        elif act == 'each':
            check_each(etype)
        elif act == 'single':
            ctx.event('single')
            p = now['members'][int(rng.integers(len(now['members'])))]
            out = fa.forecast_whole_region_with_single_model(Point(*p), now['test_len'], etype)
            same(out, {q: now['err'](etype, now['fc'][p], q) for q in now['members']},
                 'single-model-error', model_at=p, etype=etype)
        elif act == 'all':
            ctx.event('all')
            out = fa.forecast_whole_region_with_all_models(now['test_len'], etype)
            same(out, overall(etype), 'all-models-error', etype=etype)
        elif act == 'bad-length':
            ctx.event('other-length-rejected')
            bad = now['test_len'] + 1
            for f in (lambda: fa.forecast_at_each_point(bad, etype),
                      lambda: fa.forecast_whole_region_with_all_models(bad, etype),
                      lambda: fa.forecast_whole_region_with_single_model(
                          Point(*now['members'][0]), bad, etype)):
                ctx.raises((AssertionError, ValueError), f, 'other-length-rejected')
        else:
            ctx.event('summary')
            if rng.random() < 0.6:
                now = world()
            errors, _, _ = fa.analyze_errors(now['region'], etype, now['test_len'])
            each = {p: now['err'](etype, now['fc'][p], p) for p in now['members']}
            ov = overall(etype)
            real = {p: v for p, v in ov.items() if not np.isnan(v)}
            ctx.close(errors.each, lib.rms(list(each.values())), 'summary-each', rtol=1e-6, atol=1e-7)
            ctx.close(errors.minimum, min(real.values()), 'summary-minimum', rtol=1e-6, atol=1e-7)
            ctx.close(errors.maximum, max(real.values()), 'summary-maximum', rtol=1e-6, atol=1e-7)
            best = min(v for v in each.values() if not np.isnan(v))
            options = [ov[p] for p in now['members']
                       if not np.isnan(each[p]) and each[p] <= best + 1e-6 * max(1.0, abs(best))]
            ctx.ok(any(abs(errors.min_local - o) <= 1e-7 + 1e-6 * abs(o) for o in options),
                   'summary-local-minimum', 'got {}, expected {}'.format(errors.min_local, options))
            want = float('nan') if now['centroid'] is None else ov[now['centroid']]
            ctx.close(errors.centroid, want, 'summary-centroid', rtol=1e-6, atol=1e-7,
                      centroid=now['centroid'])
            for v in (errors.min_local, errors.centroid):
                if not np.isnan(v):
                    ctx.ok(errors.minimum <= v <= errors.maximum, 'summary-order', repr(errors))
        # nothing was modified
        cur = np.array(now['region'].as_numpy)
        ctx.same(cur, now['have'], 'data-unchanged')
    ctx.describe(shape=[x, y], log=log, past=past)
    ctx.trivial = x * y < 2


WORKLOADS = [('history', history, 2400, 6500)]
