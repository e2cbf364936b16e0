'''Worlds for the error-report programs and an independent model of what the reports must say.'''
import contextlib
import itertools

import numpy as np

import lib


class Reports(object):
    '''A region, its clusterings and the forecasts of the models at its points.'''

    def __init__(self, md, raw):
        self.md, self.raw = md, raw                     # raw: (t, x, y) in original units
        self.t, self.x, self.y = raw.shape
        self.have = np.array(md.create_instance().as_numpy)      # what the models see (judged by P05, P23)
        self.lo, self.hi = raw.min(axis=0), raw.max(axis=0)
        self.dm = lib.save_distances(md, lib.scale(raw)[0] if md.scaled else raw)
        self.parts, self.fits = {}, {}
        self.failing = set()

    def key(self, p):
        return float(self.have[0, p[0], p[1]])

    @contextlib.contextmanager
    def faults(self):
        '''ARIMA fits of the failing points fail.'''
        from statsmodels.tsa.arima.model import ARIMA
        orig, keys = ARIMA.fit, {self.key(p) for p in self.failing}

        def fit(model, *args, **kw):
            if float(np.asarray(model.endog).ravel()[0]) in keys:
                raise ValueError('injected')
            return orig(model, *args, **kw)
        ARIMA.fit = fit
        try:
            yield
        finally:
            ARIMA.fit = orig

    def partition(self, cmd):
        '''Labels and medoids (judged by P04, P06, P10); nothing saved is used.'''
        if repr(cmd) not in self.parts:
            from spta.clustering.factory import ClusteringFactory
            from spta.distance.dtw import DistanceByDTW
            p = ClusteringFactory(DistanceByDTW()).instance(cmd).partition(self.md.create_instance(),
                                                                           with_medoids=True)
            self.parts[repr(cmd)] = (np.array(p.as_numpy).astype(int), [(int(q.x), int(q.y)) for q in p.medoids])
        return self.parts[repr(cmd)]

    def members(self, cmd, i):
        lab, _ = self.partition(cmd)
        return [p for p in lib.points(self.x, self.y) if lab[p] == i]

    def distance(self, p, q):
        return float(self.dm[p[0] * self.y + p[1], q[0] * self.y + q[1]])

    def model(self, p, test_len, model):
        '''(order, aic, forecast in the units of the model); None if the model is missing.'''
        k = (p, test_len, model)
        if p in self.failing:
            return None
        if k not in self.fits:
            from statsmodels.tsa.arima.model import ARIMA
            s = self.have[:self.t - test_len, p[0], p[1]]
            if model[0] == 'auto':
                from pmdarima.arima import auto_arima
                a = model[1]
                order = tuple(int(v) for v in auto_arima(
                    s, start_p=a[0], start_q=a[1], max_p=a[2], max_q=a[3], d=a[4], stepwise=a[5], seasonal=False,
                    suppress_warnings=True).order)
            else:
                order = model[1]
            f = ARIMA(s, order=order).fit()
            self.fits[k] = (order, float(f.aic), np.array(f.forecast(test_len), dtype=float))
        return self.fits[k]

    def error(self, etype, m, q, test_len):
        '''Error at q of the forecast of model m.'''
        if m is None:
            return float('nan')
        f = m[2]
        if self.md.scaled:
            f = f * (self.hi[q] - self.lo[q]) + self.lo[q]
        n = self.t - test_len
        return float(lib.ERRORS[etype](f, self.raw[n:, q[0], q[1]], self.raw[:n, q[0], q[1]]))

    def cluster_errors(self, etype, members, medoid, test_len, model):
        '''The five errors of a cluster; min_local is the list of admissible values (ties).'''
        m = {p: self.model(p, test_len, model) for p in members}
        each = {p: self.error(etype, m[p], p, test_len) for p in members}
        over = {p: lib.rms([self.error(etype, m[p], q, test_len) for q in members])
                if m[p] is not None else float('nan') for p in members}
        real = [v for v in over.values() if not np.isnan(v)]
        best = min(v for v in each.values() if not np.isnan(v))
        local = [over[p] for p in members if each[p] <= best + 1e-4 * max(1.0, abs(best))]
        return dict(each=lib.rms(list(each.values())), minimum=min(real), maximum=max(real), min_local=local,
                    centroid=over[medoid] if medoid is not None else float('nan'))


class Suite(object):
    '''An iterable suite of clusterings, new at every request as in the catalogue.'''

    def __init__(self, make):
        self.make = make

    def __iter__(self):
        return iter(self.make())


def many_clusters(ctx, every):
    '''Every so many cases: more than ten clusters.'''
    if ctx.index % every != every - 1:
        return False
    ctx.event('many-clusters')
    return True


def pick_suite(rng, x, y, most=3, many=False):
    '''(type, function that makes the suite as the catalogue does, the clusterings).'''
    from spta.clustering.kmedoids import kmedoids_metadata_generator
    from spta.clustering.regular import regular_metadata_generator
    if many or rng.random() < 0.75:
        ks = [int(k) for k in sorted(rng.permutation(np.arange(2, 5))[:int(rng.integers(1, most))])]
        if many:
            ks = [int(rng.integers(11, min(x * y, 13)))]
        seeds = [int(s) for s in rng.permutation(13)[:1 if len(ks) > 1 else int(rng.integers(1, 3))]]

        def make():
            return kmedoids_metadata_generator(k_values=ks, seed_values=seeds)
        kind = 'kmedoids'
    else:
        opts = []
        for k in range(1, 7):
            small = max(d for d in range(1, k + 1) if k % d == 0 and d * d <= k)
            dx, dy = (small, k // small) if x < y else (k // small, small)
            if dx <= x and dy <= y:
                opts.append(k)
        ks = [int(k) for k in rng.permutation(opts)[:int(rng.integers(1, most))]]

        def make():
            return regular_metadata_generator(k_values=ks)
        kind = 'regular'
    return kind, make, list(make())


def world(ctx, rng, t, max_points=9, min_points=4, name='reg', many=False):
    x, y = lib.shape2(rng, 7, 16, min_points=13) if many else lib.shape2(rng, 4, max_points, min_points=min_points)
    md, data, raw = lib.world(rng, t, x, y, scaled=bool(rng.random() < 0.5),
                              kind=str(rng.choice(['groups', 'random'])), name=name)
    if md.scaled:
        ctx.event('scaled')
    return Reports(md, raw)


def suite_orders(ps, ds, qs):
    return list(itertools.product(ps, ds, qs))
