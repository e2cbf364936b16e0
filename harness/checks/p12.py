'''P12: recording trainers and the real models watch what training sees, point by point.'''
import random

import numpy as np

import lib

RULE = ('A case splits or trains on a random region (plain, cluster, scaled, scaled cluster; non-square, '
        'unique series per point) and compares every call of the training function with the expected '
        '(parameters, training series) pairs: exactly one call per requested point. Training fails at '
        'random points, parameters may differ per point, training may be restricted to representatives, '
        'and everything is repeated with other test samples. Non-trivial: at least 2 points.')
ASSUMPTIONS = ['The trainers used for recording are subclasses made through the documented extension '
               'points (training_function, create_model_region, forecast_from_model).',
               'ARIMA failures are injected by making the fit of chosen series raise the errors '
               'statsmodels raises.']
REQUIRED_EVENTS = ['split', 'long-series', 'trained', 'representatives', 'missing', 'params-region', 'analysis',
                   'other-test-data', 'kind:plain', 'kind:cluster', 'kind:scaled',
                   'kind:scaled-cluster', 'arima-failure', 'knn', 'mean', 'arima', 'refit']


def setup():
    import spta.model.train, spta.model.knn, spta.model.mean, spta.model.forecast  # noqa
    import spta.arima.train, spta.region.partition, spta.region.scaling  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def pick_kind(ctx, rng):
    kind = str(rng.choice(lib.REGION_KINDS))
    ctx.event('kind:' + kind)
    return kind


def unique_series(rng, t, x, y):
    a = lib.values(rng, (t, x, y), kind=str(rng.choice(['normal', 'unique', 'positive'])))
    return a + np.arange(x * y).reshape(x, y) * 0.137


def split_case(ctx, rng):
    from spta.model.train import SplitTrainingAndTestLast
    from spta.region import Point
    x, y = lib.shape2(rng, 5, 20)
    t = int(rng.integers(2, 14))
    if rng.random() < 0.03:
        ctx.event('long-series')
        t = int(rng.integers(367, 900))
    test_len = int(rng.choice([1, t - 1, int(rng.integers(1, t))]))
    kind = pick_kind(ctx, rng)
    a = lib.values(rng, (t, x, y))
    region, members, have, lo, hi = lib.wrap(rng, a, kind)
    ctx.describe(kind=kind, shape=[t, x, y], test_len=test_len, data=lib.gen_tag(a))
    ctx.trivial = x * y < 2
    ctx.event('split')
    splitter = SplitTrainingAndTestLast(test_len)
    for again in range(2):
        train, test = splitter.split(region)
        ctx.eq((train.series_len, test.series_len), (t - test_len, test_len), 'split-lengths')
        ctx.same(np.array(train.as_numpy), have[:t - test_len], 'training-is-all-earlier-samples')
        ctx.same(np.array(test.as_numpy), have[t - test_len:], 'observation-is-last-samples')
        for part, want in ((train, have[:t - test_len]), (test, have[t - test_len:])):
            got = [((p.x, p.y), np.array(s)) for p, s in part]
            ctx.eq([g[0] for g in got], members, 'split-keeps-points')
            for p, s in got:
                ctx.same(s, want[:, p[0], p[1]], 'split-series', point=p)
            p = members[int(rng.integers(len(members)))]
            ctx.same(part.series_at(Point(*p)), want[:, p[0], p[1]], 'split-series', point=p)
            if kind.startswith('scaled'):
                back = np.array(part.descale().as_numpy)
                n = part.series_len
                ref = a[:n] if part is train else a[t - n:]
                for q in members:
                    ctx.close(back[:, q[0], q[1]], ref[:, q[0], q[1]], 'split-descales',
                              rtol=1e-9, atol=1e-9 * max(1.0, np.abs(a).max()))
        ctx.same(np.array(region.as_numpy), have, 'split-source-unchanged')


class Log(object):
    pass


def make_classes():
    from spta.model.base import ModelRegion
    from spta.model.train import ModelTrainer

    class RecordedRegion(ModelRegion):
        def forecast_from_model(self, model_at_point, forecast_len, value_at_point, point):
            return np.repeat(float(model_at_point[1][-1]), forecast_len)

        def instance(self, model_numpy_array):
            return RecordedRegion(model_numpy_array)

    class RecordingTrainer(ModelTrainer):
        calls = None
        failing = ()

        def training_function(self, model_params, training_series):
            s = tuple(float(v) for v in training_series)
            self.calls.append((model_params, s))
            if s in self.failing:
                return None
            return (model_params, s)

        def create_model_region(self, numpy_model_array):
            return RecordedRegion(numpy_model_array)

    return RecordedRegion, RecordingTrainer


def recording(ctx, rng):
    from spta.model.forecast import ForecastAnalysis
    from spta.model.train import NoTrainer, SplitTrainingAndTestLast, TrainAtRepresentatives
    from spta.region import Point
    from spta.region.spatial import SpatialRegion
    _, RecordingTrainer = make_classes()
    x, y = lib.shape2(rng, 5, 20)
    t = int(rng.integers(2, 9))
    test_len = int(rng.integers(1, t))
    kind = pick_kind(ctx, rng)
    if kind.startswith('scaled') and t - test_len < 1:
        kind = 'plain'
    a = unique_series(rng, t, x, y)
    region, members, have, _, _ = lib.wrap(rng, a, kind)
    ctx.trivial = x * y < 2

    # parameters: the same everywhere, or one per point
    per_point = rng.random() < 0.4
    if per_point:
        ctx.event('params-region')
        params = np.empty((x, y), dtype=object)
        for i, p in enumerate(lib.points(x, y)):
            params[p] = 'params-{}'.format(i)
        trainer = RecordingTrainer(model_params_region=SpatialRegion(params))
    else:
        params = np.full((x, y), 'params', dtype=object)
        trainer = RecordingTrainer(model_params_and_shape=('params', x, y))
    training = have[:t - test_len]
    serie = {p: tuple(float(v) for v in training[:, p[0], p[1]]) for p in lib.points(x, y)}
    n_fail = int(rng.choice([0, 0, 1, 2, len(members)]))
    fail_pts = [members[int(i)] for i in rng.permutation(len(members))[:n_fail]]
    trainer.failing = set(serie[p] for p in fail_pts)

    applied = trainer
    wanted = list(members)
    if rng.random() < 0.45:
        ctx.event('representatives')
        reps = [members[int(i)] for i in rng.permutation(len(members))[:int(rng.integers(1, len(members) + 1))]]
        wanted = [p for p in members if p in reps]
        applied = TrainAtRepresentatives(trainer, [Point(*p) for p in reps])
    via = str(rng.choice(['analysis', 'split']))
    ctx.describe(kind=kind, shape=[t, x, y], test_len=test_len, per_point=bool(per_point), via=via,
                 representatives=len(wanted), failing=n_fail, data=lib.gen_tag(a))

    def train(reg):
        trainer.calls = []
        RecordingTrainer.calls = trainer.calls
        if via == 'analysis':
            ctx.event('analysis')
            fa = ForecastAnalysis(applied)
            out = fa.train_models(reg, test_len)
            ctx.ok(out is fa.model_region, 'trained-models-returned')
            return out, fa
        tr, _ = SplitTrainingAndTestLast(test_len).split(reg)
        return applied.apply_to(tr), None

    def judge(models):
        ctx.event('trained')
        got = sorted(trainer.calls)
        want = sorted((params[p], serie[p]) for p in wanted)
        ctx.eq(len(got), len(want), 'one-training-per-requested-point', kind=kind)
        ctx.ok(got == want, 'trained-on-own-training-series', got=got[:5], want=want[:5], kind=kind)
        missing = 0
        for p in lib.points(x, y):
            m = models.value_at(Point(*p)) if p in members else None
            if p in wanted and serie[p] not in trainer.failing:
                ctx.eq(m, (params[p], serie[p]), 'own-model-at-point', point=p, kind=kind)
            elif p in members:
                ctx.ok(m is None, 'point-without-model', 'model {!r}'.format(m), point=p, kind=kind)
                missing += 1
        ctx.eq(applied.missing_count, missing, 'missing-count', kind=kind, members=len(members))
        if missing:
            ctx.event('missing')

    models, fa = train(region)
    judge(models)
    # train again: the count is not accumulated
    models, fa = train(region)
    judge(models)

    # other test samples, same training samples
    ctx.event('other-test-data')
    other = have.copy()
    other[t - test_len:] = lib.values(rng, (test_len, x, y)) * 100 + 5
    reg2 = region.new_spatio_temporal_region(other)
    models2, fa2 = train(reg2)
    judge(models2)
    if fa is not None:
        f1 = np.array(fa.forecast_at_each_point(test_len, 'MSE')[0].as_numpy)
        f2 = np.array(fa2.forecast_at_each_point(test_len, 'MSE')[0].as_numpy)
        for p in members:
            ctx.same(f2[:, p[0], p[1]], f1[:, p[0], p[1]], 'forecast-independent-of-test-data', point=p)

    # models that exist already are used as they are
    n_calls = len(trainer.calls)
    nt = NoTrainer(models)
    ctx.ok(nt.apply_to(region) is models, 'no-trainer-returns-models')
    ctx.eq(len(trainer.calls), n_calls, 'no-trainer-does-not-train')


def real_models(ctx, rng):
    '''Real trainers: test samples never matter, failing points are counted, refits keep them.'''
    from statsmodels.tsa.arima.model import ARIMA
    from spta.arima import ArimaPDQ
    from spta.arima.train import TrainerArimaPDQ
    from spta.distance.dtw import DistanceByDTW
    from spta.model.forecast import ForecastAnalysis
    from spta.model.knn import KNNParams, TrainerKNN
    from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
    from spta.model.train import TrainAtRepresentatives
    from spta.region import Point
    model = str(rng.choice(['mean', 'knn', 'arima', 'arima']))
    ctx.event(model)
    x, y = lib.shape2(rng, 3, 6)
    test_len = int(rng.integers(1, 4))
    t = test_len + int(rng.integers(14, 22))
    kind = pick_kind(ctx, rng)
    a = unique_series(rng, t, x, y)
    region, members, have, _, _ = lib.wrap(rng, a, kind)
    ctx.trivial = x * y < 2
    if model == 'mean':
        trainer = TrainerMeanOfPast(MeanOfPastParams(int(rng.integers(1, 9))), x, y)
    elif model == 'knn':
        trainer = TrainerKNN(KNNParams(int(rng.integers(1, 4)), DistanceByDTW()), x, y)
    else:
        trainer = TrainerArimaPDQ(ArimaPDQ(int(rng.integers(0, 2)), int(rng.integers(0, 2)), 0), x, y)
    wanted = list(members)
    applied = trainer
    if rng.random() < 0.4:
        ctx.event('representatives')
        n = int(rng.integers(1, len(members) + 1))
        wanted = [members[int(i)] for i in rng.permutation(len(members))[:n]]
        applied = TrainAtRepresentatives(trainer, [Point(*p) for p in wanted])
    failing = []
    if model == 'arima' and rng.random() < 0.7:
        n = int(rng.integers(1, len(members) + 1))
        failing = [members[int(i)] for i in rng.permutation(len(members))[:n]]
    starts = set(float(have[0, p[0], p[1]]) if not kind.startswith('scaled') else
                 tuple(have[:t - test_len, p[0], p[1]]) for p in failing)
    ctx.describe(model=model, kind=kind, shape=[t, x, y], test_len=test_len, wanted=len(wanted),
                 failing=len(failing), data=lib.gen_tag(a))
    errors = [ValueError('not stationary'), np.linalg.LinAlgError('SVD did not converge')]

    orig = ARIMA.fit
    fits = []

    def fit(self, *args, **kw):
        s = np.asarray(self.endog, dtype=float).ravel()
        fits.append(tuple(s))
        key = tuple(s) if kind.startswith('scaled') else float(s[0])
        if key in starts:
            ctx.event('arima-failure')
            raise errors[len(fits) % 2]
        return orig(self, *args, **kw)

    ARIMA.fit = fit
    try:
        def run(reg):
            del fits[:]
            fa = ForecastAnalysis(applied)
            models = fa.train_models(reg, test_len)
            fr = fa.forecast_at_each_point(test_len, 'MSE')[0]
            return fa, models, np.array(fr.as_numpy)

        fa, models, f1 = run(region)
        if model == 'arima':
            got = sorted(fits)
            want = sorted(tuple(have[:t - test_len, p[0], p[1]]) for p in wanted)
            ctx.ok(got == want, 'arima-fits-own-training-series',
                   'fitted {} series, expected {}'.format(len(got), len(want)))
        missing = [p for p in members if p not in wanted or p in failing]
        ctx.eq(applied.missing_count, len(missing), 'missing-count', model=model, kind=kind)
        if model == 'arima':
            ctx.eq(models.missing_count, len(missing), 'missing-count', model=model, kind=kind)
        for p in members:
            ctx.eq(models.value_at(Point(*p)) is None, p in missing, 'failing-points-have-no-model',
                   point=p)
            ctx.eq(bool(np.isnan(f1[:, p[0], p[1]]).all()), p in missing, 'no-model-no-forecast',
                   point=p)
        if missing:
            ctx.event('missing')
        # other test samples
        ctx.event('other-test-data')
        other = have.copy()
        other[t - test_len:] = lib.values(rng, (test_len, x, y)) * 10 + 2
        _, _, f2 = run(region.new_spatio_temporal_region(other))
        for p in members:
            ctx.same(f2[:, p[0], p[1]], f1[:, p[0], p[1]], 'forecast-independent-of-test-data',
                     point=p, model=model)
        # the refitter trains with all samples; representatives stay restricted through it
        refitter = trainer.create_refitter(models)
        if applied is not trainer:
            refitter = TrainAtRepresentatives(refitter, [Point(*p) for p in wanted])
        ctx.event('refit')
        del fits[:]
        whole = refitter.apply_to(region)
        if model == 'arima':
            got = sorted(fits)
            want = sorted(tuple(have[:, p[0], p[1]]) for p in wanted)
            ctx.ok(got == want, 'refit-uses-whole-series',
                   'fitted {} series, expected {}'.format(len(got), len(want)))
        else:
            for p in wanted:
                ctx.ok(whole.value_at(Point(*p)) is not None, 'refit-has-model', point=p)
            for p in members:
                if p not in wanted:
                    ctx.ok(whole.value_at(Point(*p)) is None, 'refit-only-representatives', point=p)
    finally:
        ARIMA.fit = orig


WORKLOADS = [('split', split_case, 300, 5000), ('recording', recording, 520, 9000),
             ('real_models', real_models, 120, 1500)]
