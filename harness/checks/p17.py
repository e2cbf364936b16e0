'''P17: histories of queries to real trained solvers against an independent model of the answers.'''
import numpy as np

import lib
import solverlib

RULE = ('A case trains a solver on a random offset region (scaled or not, k-medoids or regular clustering, '
        'DTW or spatial DTW, mean of past / k-NN / ARIMA / auto ARIMA, some medoids without a model) and '
        'asks a history of in-sample and out-of-sample queries over random rectangles, repeated and in '
        'random order, with results saved in between and other solvers at work; every point of every '
        'answer is recomputed. Non-trivial: at least 2 clusters.')
ASSUMPTIONS = ['The partition itself is judged by P06 and P10; here it is recomputed without saved files.',
               'An independent statsmodels fit of the same order is the reference for ARIMA.',
               'The distances of the region are saved, as training requires.']
REQUIRED_EVENTS = ['train', 'in-sample', 'out-of-sample', 'scaled', 'regular', 'kmedoids', 'spatial-dtw',
                   'mean', 'knn', 'arima', 'auto', 'saved-in-between', 'other-solver', 'sub-rectangle',
                   'no-model']


def setup():
    import spta.solver.train, spta.solver.model, spta.solver.metadata  # noqa
    import spta.arima.train, spta.model.knn, spta.model.mean, spta.distance.rmse  # noqa
    import spta.clustering.factory, spta.region.metadata, spta.dataset.temp_brazil  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def note(ctx, s):
    ctx.event(s.model[0])
    ctx.event(s.clustering[0])
    if s.md.scaled:
        ctx.event('scaled')
    if s.measure is not None:
        ctx.event('spatial-dtw')


def run(ctx, rng, slow, queries):
    md, crop = solverlib.world(ctx, rng, t=int(rng.integers(16, 22)) if slow else None,
                               max_points=9 if slow else 20)
    s = solverlib.pick_setting(ctx, rng, md, crop, slow=slow)
    note(ctx, s)
    ctx.event('train')
    solver = s.train()
    others = []
    if rng.random() < 0.5:
        s2 = solverlib.pick_setting(ctx, rng, md, crop)
        note(ctx, s2)
        ctx.event('other-solver')
        others.append((s2, s2.train()))
    log, answers = [], {}
    for q in range(queries):
        who, sol = (s, solver) if not others or rng.random() < 0.7 else others[0]
        region, n = solverlib.pick_query(rng, who)
        if log and rng.random() < 0.3:
            k = list(answers)[int(rng.integers(len(answers)))]
            if k[0] == (who is s):
                from spta.region import Region
                region, n = Region(*k[1]), k[2]
        ctx.event('in-sample' if n == 0 else 'out-of-sample')
        key = (who is s, (region.x1, region.x2, region.y1, region.y2), n)
        log.append(key)
        result = sol.predict(region, n, output_home='outs', plot=False)
        solverlib.judge_answer(ctx, who, region, n, result)
        if rng.random() < 0.2:
            ctx.event('saved-in-between')
            result.save_as_csv()
            solverlib.judge_answer(ctx, who, region, n, result, 'after-saving-')
        # the same for a rectangle inside this one, exactly
        now = {(region.x1 + p.x, region.y1 + p.y): np.array(result.prediction_forecast_at(p))
               for p in [q2 for q2 in result]}
        for k, vals in answers.items():
            if k[0] == key[0] and k[2] == n:
                common = set(vals) & set(now)
                if common:
                    ctx.event('sub-rectangle')
                for p in common:
                    ctx.close(now[p], vals[p], 'same-answer-in-every-rectangle', rtol=1e-12, atol=1e-12,
                              point=p)
        answers[key] = now
    ctx.describe(setting=repr(s), log=log, data=lib.gen_tag(crop))
    ctx.trivial = s.clustering[1] < 2


def history(ctx, rng):
    run(ctx, rng, False, 9)


def history_arima(ctx, rng):
    run(ctx, rng, True, 4)


def no_model(ctx, rng):
    '''Medoids whose training fails: their cluster has no forecast, the others are not affected.'''
    from spta.model.mean import TrainerMeanOfPast
    from spta.region import Point
    from spta.solver.train import SolverTrainer
    md, crop = solverlib.world(ctx, rng)
    s = solverlib.pick_setting(ctx, rng, md, crop)
    s.model = ('mean', int(rng.integers(1, 4)))
    note(ctx, s)
    lab, med = s.partition()
    fail = [m for m in med if rng.random() < 0.5] or [med[0]]
    t_train = s.t - s.test_len
    keys = set(tuple(float(v) for v in s.have[:t_train, m[0], m[1]]) for m in fail)
    rounded = set(tuple(round(v, 9) for v in k) for k in keys)
    ctx.event('no-model')
    ctx.describe(setting=repr(s), fail=fail, data=lib.gen_tag(crop))

    class Trainer(TrainerMeanOfPast):
        def training_function(self, model_params, training_series):
            if tuple(round(float(v), 9) for v in training_series) in rounded:
                return None
            return super(Trainer, self).training_function(model_params, training_series)

    solver = SolverTrainer(s.region_metadata(), s.clustering_metadata(), s.distance(),
                           Trainer(s.params(), s.x, s.y), s.params(), s.test_len,
                           s.error_type).train('outputs')
    mag = max(1.0, float(np.abs(s.raw).max()))
    for _ in range(4):
        region, n = solverlib.pick_query(rng, s)
        result = solver.predict(region, n, output_home='outs', plot=False)
        for i, j in lib.points(region.x2 - region.x1, region.y2 - region.y1):
            p = (region.x1 + i, region.y1 + j)
            got = np.array(result.prediction_forecast_at(Point(i, j)), dtype=float)
            err = float(result.prediction_error_at(Point(i, j)))
            ctx.eq(len(got), n or s.test_len, 'forecast-length')
            if med[lab[p]] in fail:
                ctx.ok(np.isnan(err), 'no-model-no-error', 'error {}'.format(err), point=p)
                if n == 0:
                    ctx.ok(bool(np.isnan(got).all()), 'no-model-no-forecast', repr(got), point=p)
            else:
                ctx.close(got, s.forecast(p, n > 0, n or s.test_len), 'other-clusters-not-affected',
                          rtol=1e-9, atol=1e-9 * mag, point=p)
                ctx.close(err, s.error(p), 'other-clusters-not-affected', rtol=1e-6, atol=1e-7 * mag * mag)


WORKLOADS = [('history', history, 90, 3000), ('history_arima', history_arima, 24, 500),
             ('no_model', no_model, 30, 900)]
