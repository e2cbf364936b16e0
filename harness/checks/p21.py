'''P21: the solver driven by a classifier, with the real classifier class over a stand-in network.'''
import functools
import os
import re
import sys
import types

import numpy as np

import lib
import solverlib

RULE = ('A case trains and saves the solvers of a suite (and others that differ in seed, k, model, test '
        'length or region, as decoys), gives the real classifier class a network stand-in with known '
        'weights and a random list of labels, and asks a history of queries over random rectangles with '
        'and without out-of-sample regions; labels, models, forecasts, test series, errors and reported '
        'clusters are recomputed at every point. Non-trivial: at least 2 labels in the answers.')
ASSUMPTIONS = ['The network is replaced by a stand-in with known scores (keras 3 cannot build the original '
               'network: Adam(lr=) is not accepted); normalisation, argmax and label lookup are the real '
               'ones.',
               'Labels name clusterings of k-medoids in mode lite, as documented.']
REQUIRED_EVENTS = ['query', 'out-of-sample-region', 'scaled', 'several-labels', 'decoy', 'longer-year', 'long-name', 'two-digits',
                   'other-solver', 'saved-in-between']


class Layer(object):
    def __init__(self, kind, *a, **k):
        self.kind = kind
        self.units = a[0] if a else k.get('units')
        self.sequences = bool(k.get('return_sequences', False))
        self.shape = k.get('input_shape') or k.get('shape')


class Net(object):
    '''Scores are products of the input with known weights.

    As a real network, it takes only the weights of a network with the same layers: those which the trained
    networks of this repository have (two hidden LSTM layers of 100 units between input and labels).'''

    def __init__(self, layers=None, *a, **k):
        self.w = None
        self.layers = []
        for one in layers or []:
            self.add(one)

    def add(self, layer, *a, **k):
        self.layers.append(layer)

    def compile(self, *a, **k):
        pass

    def summary(self, *a, **k):
        return ''

    def load_weights(self, path):
        w = np.load(path)
        own = [v for v in self.layers if isinstance(v, Layer) and v.kind in ('LSTM', 'Dense')]
        trained = [('LSTM', w.shape[1]), ('LSTM', 100), ('LSTM', 100), ('Dense', w.shape[0])]
        if [(v.kind, v.units) for v in own] != trained:
            raise ValueError('layers {} cannot load the weights of {}'.format([(v.kind, v.units) for v in own], trained))
        if [v.sequences for v in own] != [True, True, False, False]:
            raise ValueError('a layer gets an input with the wrong number of dimensions')
        self.w = w

    def predict(self, series, *a, **k):
        s = np.asarray(series, dtype=float)
        if self.w is None or s.shape[1:] != (self.w.shape[1], 1):
            raise ValueError('the network expects {} got {}'.format(None if self.w is None else self.w.shape, s.shape))
        return np.array([self.w @ one.ravel() for one in s])

    __call__ = predict


def setup():
    keras = types.ModuleType('keras')
    models, layers, optimizers = (types.ModuleType('keras.' + n) for n in
                                  ('models', 'layers', 'optimizers'))
    models.Sequential = Net
    for n in ('Dense', 'Dropout', 'LSTM', 'Input', 'InputLayer'):
        setattr(layers, n, functools.partial(Layer, n))
    keras.Input = layers.Input
    optimizers.Adam = lambda *a, **k: None
    keras.models, keras.layers, keras.optimizers = models, layers, optimizers
    keras.Sequential = Net
    for m in (keras, models, layers, optimizers):
        sys.modules[m.__name__] = m
    import spta.classifier.model, spta.classifier.dnn  # noqa
    import spta.solver.train, spta.solver.model, spta.solver.metadata  # noqa
    import spta.arima.train, spta.model.knn, spta.model.mean, spta.distance.rmse  # noqa
    import spta.clustering.factory, spta.region.metadata, spta.dataset.temp_brazil  # noqa
    import spta.clustering.suite  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def l1(s):
    n = float(np.sum(np.abs(s)))
    return s / n if n else s


class Judge(object):
    '''One classifier-driven solver and what it must answer.'''

    def __init__(self, ctx, rng, name, md, raw, settings, oos):
        from spta.classifier.dnn import ClassifierDNNParams
        from spta.classifier.model import SolverFromClassifier
        from spta.clustering.suite import ClusteringSuite
        self.ctx, self.md, self.raw, self.oos = ctx, md, raw, oos
        self.settings = {(s.clustering[1], s.clustering[2]['random_seed']): s for s in settings}
        self.any = settings[0]
        t, x, y = raw.shape
        self.tp = int(rng.integers(2, t + 1))
        every = [(k, seed, i) for (k, seed), s in self.settings.items() for i in range(k)]
        n = int(rng.integers(2, len(every) + 1))
        self.labels = [every[int(i)] for i in rng.permutation(len(every))[:n]]
        # templates: windows of points of the region, so that points get different labels
        have = self.any.have
        pts = lib.points(x, y)
        w = []
        for _ in self.labels:
            p = pts[int(rng.integers(len(pts)))]
            v = l1(have[t - self.tp:, p[0], p[1]]) + rng.normal(size=self.tp) * 0.2 / self.tp
            w.append(v / (np.linalg.norm(v) or 1.0))
        self.w = np.array(w)
        os.makedirs('lstm', exist_ok=True)
        # the stand-in reads what np.save wrote, whatever the suffix
        with open('lstm/{}.h5'.format(name), 'wb') as f:
            np.save(f, self.w)
        with open('lstm/{}.csv'.format(name), 'w') as f:
            f.write(',label\n')
            for i, lab in enumerate(self.labels):
                f.write('{},{}\n'.format(i, '-'.join(str(v) for v in lab)))
        params = ClassifierDNNParams(name, 'lstm/{}.h5'.format(name), 'lstm/{}.csv'.format(name), self.tp)
        s = self.any
        ks = sorted(set(k for k, _ in self.settings))
        seeds = sorted(set(sd for _, sd in self.settings))
        self.solver = SolverFromClassifier(
            region_metadata=s.region_metadata(), distance_measure=s.distance(),
            clustering_suite=ClusteringSuite('su' + name, 'kmedoids', k=ks, random_seed=seeds),
            model_trainer=s.trainer(), model_params=s.params(), classifier_params=params,
            test_len=s.test_len, error_type=s.error_type)

    def label(self, have):
        scores = self.w @ l1(have[len(have) - self.tp:])
        best = int(np.argmax(scores))
        order = np.sort(scores)
        clear = len(order) < 2 or order[-1] - order[-2] > 1e-9
        return self.labels[best], clear

    def query(self, rng, rect, target, n):
        '''target: None or (metadata, scaled-or-not values) of another region of the same shape.'''
        from spta.region import Point, Region
        from spta.region.metadata import SpatioTemporalRegionMetadata as MD
        ctx, s = self.ctx, self.any
        x1, x2, y1, y2 = rect
        ctx.event('query')
        have = s.have
        oos = None
        if target is not None:
            ctx.event('out-of-sample-region')
            m, have = target
            oos = MD(m.name, Region(m.region.x1, m.region.x2, m.region.y1, m.region.y2), m.year_start,
                     m.year_end, m.spd, scaled=m.scaled)
        home = 'outs{}'.format(n % 2)
        result = self.solver.predict(Region(*rect), self.tp, out_of_sample_region=oos, output_home=home)
        ctx.eq([(int(p.x), int(p.y)) for p in result], lib.points(x2 - x1, y2 - y1), 'answer-points')
        mag = max(1.0, float(np.abs(self.raw).max()))
        seen = set()
        answers = {}
        inner = solverlib.in_sample(result)
        for i, j in lib.points(x2 - x1, y2 - y1):
            p = (x1 + i, y1 + j)
            lab, clear = self.label(have[:, p[0], p[1]])
            intro = result.lines_for_point(Point(i, j))[0]
            found = re.findall(r'\d+-\d+-\d+', intro)
            ctx.eq(len(found), 1, 'reports-the-cluster', text=intro)
            got_label = found[0]
            if not clear:
                lab = tuple(int(v) for v in got_label.split('-'))
            text = '-'.join(str(v) for v in lab)
            ctx.eq(got_label, text, 'label-of-the-own-series', point=p)
            seen.add(lab)
            own = self.settings[lab[:2]]
            med = own.partition()[1][lab[2]]
            f = own.raw_forecast(med, False, s.test_len)
            if self.md.scaled:
                f = f * (s.hi[p] - s.lo[p]) + s.lo[p]
            got = np.array(result.prediction_forecast_at(Point(i, j)), dtype=float)
            ctx.close(got, f, 'forecast-of-the-labelled-model', rtol=s.rtol(), atol=s.rtol() * mag,
                      point=p, label=text, setting=repr(own))
            ctx.close(inner.prediction_test_at(Point(i, j)), s.test(p), 'held-out-observations',
                      rtol=1e-9, atol=1e-9 * mag)
            err = lib.ERRORS[s.error_type](f, s.test(p), self.raw[:s.t - s.test_len, p[0], p[1]])
            ctx.close(float(result.prediction_error_at(Point(i, j))), err, 'error-of-the-point',
                      rtol=max(1e-6, 10 * s.rtol()), atol=max(1e-7, s.rtol()) * mag * mag, point=p,
                      label=text)
            a = result.absolute_coordinates_of(result.to_domain_coordinates(Point(i, j)))
            ctx.eq((int(a.x), int(a.y)), (p[0] + self.md.region.x1, p[1] + self.md.region.y1),
                   'absolute-coordinates')
            answers[p] = (got_label, got.tolist())
        if len(seen) > 1:
            ctx.event('several-labels')
        for lab in seen:
            if lab[0] > 9 or lab[2] > 9 or lab[1] > 9:
                ctx.event('two-digits')
        if rng.random() < 0.25:
            ctx.event('saved-in-between')
            before = set(os.listdir('.'))
            result.save_as_csv()
            ctx.ok(os.path.isdir(home), 'saved-at-the-requested-home', repr(sorted(os.listdir('.'))))
            ctx.ok(set(os.listdir('.')) - before <= {home}, 'saved-at-the-requested-home')
        return answers, seen


def run(ctx, rng, slow):
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata as MD
    t = int(rng.integers(15, 19)) if slow else int(rng.integers(8, 13))
    many = not slow and ctx.index % 4 == 0
    x, y = lib.shape2(rng, 5, 20, min_points=13 if many else 5)
    data = lib.series_field(rng, t, x + 5, y + 5, kind='groups') + 30
    lib.install_dataset(data, 2015, 2015, 1)
    extra = int(rng.choice([0, 1, 4]))           # years are not equally long
    if extra:
        ctx.event('longer-year')
    other_year = lib.series_field(rng, t + extra, x + 5, y + 5, kind='groups') + 30
    lib.install_dataset(other_year, 2014, 2014, 1)
    scaled = bool(rng.random() < 0.5)
    if scaled:
        ctx.event('scaled')
    ox, oy = int(rng.integers(0, 5)), int(rng.integers(0, 5))
    one = 'one'
    if rng.random() < 0.3:
        ctx.event('long-name')
        one = 'one_region_of_the_catalogue_that_has_a_long_name_of_its_own'
    md = MD(one, Region(ox, ox + x, oy, oy + y), 2015, 2015, 1, scaled=scaled)
    raw = data[:, ox:ox + x, oy:oy + y].copy()
    lib.save_distances(md, lib.scale(raw)[0] if scaled else raw)
    targets = [None, None]
    for year, (px, py), sc in ((2014, (ox, oy), scaled), (2015, ((ox + 1) % 5, (oy + 2) % 5), not scaled),
                               (2014, ((ox + 3) % 5, oy), scaled)):
        field = (other_year if year == 2014 else data)[:, px:px + x, py:py + y].copy()
        targets.append((MD(one if (px, py) == (ox, oy) else 'two' + str(px), Region(px, px + x, py, py + y),
                           year, year, 1, scaled=sc), lib.scale(field)[0] if sc else field))
    model = solverlib.pick_model(rng, slow)
    test_len = int(rng.integers(1, 4))
    et = str(rng.choice(['MSE', 'sMAPE', 'MASE']))
    measure = None if rng.random() < 0.85 else 2.0

    def clusterings():
        out = set()
        while len(out) < int(rng.integers(1, 4)) or not out:
            k = int(rng.integers(2, 5))
            if many and not out:
                k = int(rng.integers(10, 13))
            out.add((k, int(rng.choice([0, 1, 2, 10, 11, 12, 21]))))
        return sorted(out)

    mine = clusterings()

    def setting(k, seed, model=model, test_len=test_len, et=et, md=md, raw=raw):
        return solverlib.Setting(md, raw, ('kmedoids', k, dict(random_seed=seed, mode='lite')), measure,
                                 model, test_len, et)
    settings = [setting(k, s) for k, s in mine]
    jobs = list(settings)
    # decoys that differ in one thing
    second = []
    for _ in range(2):
        k, s = mine[int(rng.integers(len(mine)))]
        which = str(rng.choice(['model', 'test_len', 'error']))
        ctx.event('decoy')
        if which == 'model':
            d = setting(k, s, model=('mean', 3 if model != ('mean', 3) else 2))
        elif which == 'test_len':
            d = setting(k, s, test_len=test_len % 3 + 1)
        else:
            d = setting(k, s, et={'MSE': 'MASE', 'MASE': 'sMAPE', 'sMAPE': 'MSE'}[et])
        if repr(d) not in [repr(j) for j in jobs]:
            jobs.append(d)
            second.append(d)
    for i in rng.permutation(len(jobs)):
        jobs[int(i)].train('outs').save()
    judges = [Judge(ctx, rng, 'net0', md, raw, settings, targets)]
    if second:
        ctx.event('other-solver')
        judges.append(Judge(ctx, rng, 'net1', md, raw, second[:1], targets))
    log, memory, labels = [], {}, set()
    for n in range(3 if slow else 6):
        g = int(rng.integers(len(judges))) if rng.random() < 0.4 else 0
        rect = tuple(int(v) for v in lib.subrect(rng, x, y))
        if rng.random() < 0.4:
            rect = (0, x, 0, y)
        ti = int(rng.integers(len(targets)))
        log.append((g, rect, ti))
        answers, seen = judges[g].query(rng, rect, targets[ti], n)
        labels |= seen
        for p, v in answers.items():
            key = (g, max(ti, 1), p)
            if key in memory:
                ctx.eq(v[0], memory[key][0], 'same-answer-as-before', point=p)
                ctx.close(v[1], memory[key][1], 'same-answer-as-before', rtol=1e-12, atol=1e-12)
            memory[key] = v
    ctx.describe(settings=[repr(s) for s in jobs], log=log, data=lib.gen_tag(raw))
    ctx.trivial = len(labels) < 2


def history(ctx, rng):
    run(ctx, rng, False)


def history_arima(ctx, rng):
    run(ctx, rng, True)


WORKLOADS = [('history', history, 60, 2000), ('history_arima', history_arima, 14, 300)]
