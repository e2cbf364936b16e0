'''Worlds with trained solvers and an independent model of what the solvers must answer.'''
import numpy as np

import lib


class Setting(object):
    '''One solver: region, clustering, measure, model, test length and error, and what it must say.'''

    def __init__(self, md, raw, clustering, measure, model, test_len, error_type):
        self.md, self.raw = md, raw                  # raw: (t, x, y) in original units
        self.clustering = clustering                 # (name, k, kwargs)
        self.measure = measure                       # weight of spatial DTW or None
        self.model = model                           # (kind, params...)
        self.test_len, self.error_type = test_len, error_type
        self.t, self.x, self.y = raw.shape
        self.have = lib.scale(raw)[0] if md.scaled else raw
        self.lo, self.hi = raw.min(axis=0), raw.max(axis=0)
        self.cache = {}
        self.part = None

    def __repr__(self):
        return repr((self.md, self.clustering, self.measure, self.model, self.test_len,
                     self.error_type))

    # ---- objects of the repository, built anew every time
    def distance(self):
        from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
        return DistanceByDTW() if self.measure is None else DistanceBySpatialDTW(self.measure)

    def clustering_metadata(self):
        from spta.clustering.factory import ClusteringMetadataFactory
        name, k, kw = self.clustering
        return ClusteringMetadataFactory().instance(name, k, **dict(kw))

    def region_metadata(self):
        from spta.region import Region
        from spta.region.metadata import SpatioTemporalRegionMetadata
        m = self.md
        return SpatioTemporalRegionMetadata(m.name, Region(m.region.x1, m.region.x2, m.region.y1,
                                                           m.region.y2),
                                            m.year_start, m.year_end, m.spd, scaled=m.scaled)

    def params(self):
        from spta.arima import ArimaPDQ, AutoArimaParams
        from spta.distance.dtw import DistanceByDTW
        from spta.distance.rmse import DistanceByRMSE
        from spta.model.knn import KNNParams
        from spta.model.mean import MeanOfPastParams
        kind = self.model[0]
        if kind == 'mean':
            return MeanOfPastParams(self.model[1])
        if kind == 'knn':
            return KNNParams(self.model[1], DistanceByDTW() if self.model[2] == 'dtw'
                             else DistanceByRMSE())
        if kind == 'arima':
            return ArimaPDQ(*self.model[1])
        return AutoArimaParams(*self.model[1])

    def trainer(self):
        from spta.arima.train import TrainerArimaPDQ, TrainerAutoArima
        from spta.model.knn import TrainerKNN
        from spta.model.mean import TrainerMeanOfPast
        cls = {'mean': TrainerMeanOfPast, 'knn': TrainerKNN, 'arima': TrainerArimaPDQ,
               'auto': TrainerAutoArima}[self.model[0]]
        return cls(self.params(), self.x, self.y)

    def metadata(self):
        from spta.solver.metadata import SolverMetadataBuilder
        return SolverMetadataBuilder(self.region_metadata(), self.params(), self.test_len,
                                     self.error_type).with_clustering(
            self.clustering_metadata(), self.distance()).build()

    def solver_trainer(self):
        from spta.solver.train import SolverTrainer
        return SolverTrainer(self.region_metadata(), self.clustering_metadata(), self.distance(),
                             self.trainer(), self.params(), self.test_len, self.error_type)

    def train(self, output_home='outputs'):
        return self.solver_trainer().train(output_home)

    # ---- what the solver must answer
    def partition(self):
        if self.part is None:
            from spta.clustering.factory import ClusteringFactory
            p = ClusteringFactory(self.distance()).instance(self.clustering_metadata()).partition(
                self.md.create_instance(), with_medoids=True)
            self.part = (np.array(p.as_numpy).astype(int), [(int(q.x), int(q.y)) for q in p.medoids])
        return self.part

    def medoid_of(self, p):
        lab, med = self.partition()
        return med[lab[p]]

    def raw_forecast(self, m, out_of_sample, n):
        '''Forecast of the model at the medoid m, in the units the models work with.'''
        key = (m, out_of_sample, n)
        if key not in self.cache:
            whole = self.have[:, m[0], m[1]]
            train = whole[:self.t - self.test_len]
            s = whole if out_of_sample else train
            kind = self.model[0]
            if kind == 'mean':
                f = np.full(n, sum(float(v) for v in s[-self.model[1]:]) / self.model[1])
            elif kind == 'knn':
                w = [s[i:i + n] for i in range(len(s) - n + 1)]
                last, past = w[-1], w[:-1]
                dist = lib.dtw if self.model[2] == 'dtw' else \
                    (lambda a, b: float(np.sqrt(np.mean((a - b) ** 2))))
                order = sorted(range(len(past)), key=lambda i: dist(last, past[i]))
                f = np.mean([past[i] for i in order[:self.model[1]]], axis=0)
            else:
                from statsmodels.tsa.arima.model import ARIMA
                order = self.model[1] if kind == 'arima' else self.order_at(m)
                f = np.array(ARIMA(s, order=order).fit().forecast(n), dtype=float)
            self.cache[key] = f
        return self.cache[key]

    def order_at(self, m):
        if ('order', m) not in self.cache:
            from pmdarima.arima import auto_arima
            p = self.model[1]
            train = self.have[:self.t - self.test_len, m[0], m[1]]
            self.cache['order', m] = tuple(int(v) for v in auto_arima(
                train, start_p=p[0], start_q=p[1], max_p=p[2], max_q=p[3], d=p[4], stepwise=p[5],
                seasonal=False, suppress_warnings=True).order)
        return self.cache['order', m]

    def forecast(self, p, out_of_sample, n):
        f = self.raw_forecast(self.medoid_of(p), out_of_sample, n)
        if self.md.scaled:
            f = f * (self.hi[p] - self.lo[p]) + self.lo[p]
        return f

    def test(self, p):
        return self.raw[self.t - self.test_len:, p[0], p[1]]

    def error(self, p):
        return lib.ERRORS[self.error_type](self.forecast(p, False, self.test_len), self.test(p),
                                           self.raw[:self.t - self.test_len, p[0], p[1]])

    def rtol(self):
        return 1e-9 if self.model[0] in ('mean', 'knn') else 1e-5

    def max_forecast(self):
        '''Longest out-of-sample forecast the model can give.'''
        if self.model[0] == 'knn':
            return self.t - self.model[1]
        return self.t + 5


def in_sample(result):
    while not hasattr(result, 'prediction_test_at'):
        result = result.decorated
    return result


def world(ctx, rng, max_points=20, scaled=None, min_points=5, name='reg', max_side=5, t=None, level=1.0):
    x, y = lib.shape2(rng, max_side, max_points, min_points=min_points)
    t = t or int(rng.integers(9, 14))
    scaled = bool(rng.random() < 0.5) if scaled is None else scaled
    md, data, crop = lib.world(rng, t, x, y, scaled=scaled, kind=str(rng.choice(['groups', 'random'])),
                               name=name, level=level)
    lib.save_distances(md, lib.scale(crop)[0] if scaled else crop)
    return md, crop


def pick_clustering(rng, x, y):
    if rng.random() < 0.2:
        opts = []
        for k in range(1, 7):
            small = max(d for d in range(1, k + 1) if k % d == 0 and d * d <= k)
            dx, dy = (small, k // small) if x < y else (k // small, small)
            if dx <= x and dy <= y:
                opts.append(k)
        return ('regular', int(rng.choice(opts)), {})
    k = int(rng.integers(2, 5))
    if x * y > 12 and rng.random() < 0.15:
        k = int(rng.integers(11, min(x * y, 14)))
    return ('kmedoids', k, dict(random_seed=int(rng.integers(0, 13)),
                                                      mode=str(rng.choice(['lite', 'lite', 'robust']))))


def pick_model(rng, slow=False):
    r = rng.random()
    if slow and r < 0.5:
        if rng.random() < 0.3:
            return ('auto', (1, 1, 1, 1, [None, 0, 1][int(rng.integers(3))], True))
        return ('arima', [(0, 1, 0), (1, 0, 0), (0, 1, 1), (1, 1, 0)][int(rng.integers(4))])
    if r < 0.6:
        return ('mean', int(rng.integers(1, 5)))
    return ('knn', int(rng.integers(1, 3)), str(rng.choice(['dtw', 'rmse'])))


def pick_setting(ctx, rng, md, crop, slow=False):
    t, x, y = crop.shape
    model = pick_model(rng, slow)
    if slow and ctx.index % 4 == 1:
        model = ('auto', (1, 1, 1, 1, [None, 0, 1][int(rng.integers(3))], True))
    test_len = pick_test_len(rng, t)
    if model[0] == 'knn' and test_len <= 3 and t > 9 and rng.random() < 0.4:
        model = ('knn', int(rng.integers(1, t - 6))) + model[2:]     # enough windows with 3 samples held out
    return Setting(md, crop, pick_clustering(rng, x, y),
                   None if rng.random() < 0.8 else float(rng.choice([0.5, 4.0])),
                   model, test_len,
                   str(rng.choice(['MSE', 'sMAPE', 'MASE'])))


def pick_test_len(rng, t):
    '''Mostly short; sometimes as long as the models allow.'''
    if rng.random() < 0.2:
        return int(rng.integers(1, max(3, t // 3) + 1))
    return int(rng.integers(1, 4))


def pick_query(rng, s):
    from spta.region import Region
    x1, x2, y1, y2 = lib.subrect(rng, s.x, s.y)
    if rng.random() < 0.15:
        x1, x2, y1, y2 = 0, s.x, 0, s.y
    elif rng.random() < 0.15:
        x2, y2 = x1 + 1, y1 + 1
    n = 0
    if rng.random() < 0.5:
        n = int(rng.integers(1, min(5 if rng.random() < 0.8 else 14, s.max_forecast()) + 1))
    return Region(x1, x2, y1, y2), n


def judge_answer(ctx, s, region, n, result, mech=''):
    '''Every value of the answer to a query.'''
    from spta.region import Point
    lab, med = s.partition()
    length = n or s.test_len
    mag = max(1.0, float(np.abs(s.raw).max()))
    w, h = region.x2 - region.x1, region.y2 - region.y1
    rel = [(p.x, p.y) for p in result]
    ctx.eq(rel, lib.points(w, h), mech + 'answer-points')
    for i, j in rel:
        p = (region.x1 + i, region.y1 + j)
        got = np.array(result.prediction_forecast_at(Point(i, j)), dtype=float)
        ctx.eq(len(got), length, mech + 'forecast-length', query=[str(region), n])
        ctx.close(got, s.forecast(p, n > 0, length), mech + 'forecast-of-own-medoid-model',
                  rtol=s.rtol(), atol=s.rtol() * mag, point=p, setting=repr(s), forecast_len=n)
        dp = result.to_domain_coordinates(Point(i, j))
        ctx.eq((dp.x, dp.y), p, mech + 'domain-point')
        ctx.eq(int(result.cluster_index_of(Point(*p))), int(lab[p]), mech + 'cluster-of-point', point=p)
        err = float(result.prediction_error_at(Point(i, j)))
        want = s.error(p)
        # errors can be huge next to their inputs' rounding (e.g. sMAPE near zero sums)
        ctx.close(err, want, mech + 'error-of-point', rtol=max(1e-6, 10 * s.rtol()),
                  atol=max(1e-7, s.rtol()) * mag * mag, point=p, setting=repr(s))
        if n == 0:
            ctx.close(in_sample(result).prediction_test_at(Point(i, j)), s.test(p),
                      mech + 'held-out-observations', rtol=1e-9, atol=1e-9 * mag, point=p)
