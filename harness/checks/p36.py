'''P36: the programs of the classifier, from trained solvers over training data to answers, by command line.'''
import os
import re

import numpy as np

import lib
import programs
import reports
import solverlib
from checks import p20, p21
from checks.p19 import near, numbers, read_csv, tree
from checks.p31 import blocks, joined

RULE = ('A case makes regions that share a dataset or a name (scaled, other year, other place), trains solvers for the '
        'clusterings of a suite with the program (with decoys that differ in test length, error or model), extracts '
        'training data by smallest distance and by smallest error with the program, gives the classifier a network '
        'stand-in whose labels and weights come from those files, and asks a history of queries with the program: with '
        'and without out-of-sample regions, over random rectangles. Files and printed text are parsed and judged point '
        'by point by an independent model. Non-trivial: at least 2 labels in the answers.')
ASSUMPTIONS = ['The network is replaced by a stand-in with known scores (see P21).', 'Numbers are printed with 3 decimals.',
               'Clusterings are judged by P06 and recomputed without saved files here.',
               'Scores of choices within 1e-4 of the smallest are ties.']
REQUIRED_EVENTS = ['train', 'decoy', 'analyse', 'extract-distance', 'extract-error', 'row', 'query', 'out-of-sample-region', 'scaled',
                   'several-labels', 'default-arguments', 'csv-row', 'query-again', 'refused-untrained', 'two-networks',
                   'above-default-length', 'longer-year', 'many-clusters']

AUTO = {'a1': (0, 0, 1, 0, 0, True), 'a2': (1, 0, 1, 1, 1, True)}


def setup():
    p21.setup()
    programs.install('auto_arima.solver', 'clustering.partition_analysis', 'clustering.extraction_lstm', 'classifier.solver_dnn')
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


class World(object):
    def __init__(self, ctx, rng):
        from spta.arima import AutoArimaParams
        from spta.region import Region
        from spta.region.metadata import SpatioTemporalRegionMetadata as MD
        self.ctx, self.rng = ctx, rng
        self.t = int(rng.integers(12, 16)) if rng.random() < 0.7 else int(rng.integers(22, 26))
        many = reports.many_clusters(ctx, 12)
        x, y = lib.shape2(rng, 4, 16, min_points=15) if many else lib.shape2(rng, 4, 12, min_points=8)
        self.x, self.y = x, y
        fields = {}
        for year in (2014, 2015):
            extra = int(rng.choice([0, 1, 4])) if year == 2014 else 0        # years are not equally long
            if extra:
                ctx.event('longer-year')
            f = lib.series_field(rng, self.t + extra, x + 4, y + 4, kind=str(rng.choice(['groups', 'random']))) + 30
            # different points have different series, also when rounded
            fields[year] = f + np.arange(f[0].size).reshape(f[0].shape) * 0.013
            lib.install_dataset(fields[year], year, year, 1)
        ox, oy = int(rng.integers(0, 5)), int(rng.integers(0, 5))
        scaled = bool(rng.random() < 0.5)
        self.regions = {}

        def add(name, label, px, py, year, sc):
            md = MD(label, Region(px, px + x, py, py + y), year, year, 1, scaled=sc)
            raw = fields[year][:, px:px + x, py:py + y].copy()
            have = lib.scale(raw)[0] if sc else raw
            lib.save_distances(md, have)
            self.regions[name] = (md, raw, have)
            if sc:
                ctx.event('scaled')
        add('one', 'one', ox, oy, 2015, scaled)
        add('same', 'one', ox, oy, 2015, not scaled)
        add('year', 'one', ox, oy, 2014, scaled)
        add('area', 'two', (ox + 2) % 5, (oy + 1) % 5, 2015, bool(rng.random() < 0.5))
        programs.CATALOG['regions'] = {n: r[0] for n, r in self.regions.items()}
        programs.CATALOG['auto_arima'] = {n: AutoArimaParams(*p) for n, p in AUTO.items()}
        self.home = ('one', 'a1')
        self.ks = sorted(int(k) for k in rng.permutation([2, 3, 4])[:int(rng.integers(1, 3))])
        if many:
            self.ks = [11]
        self.seeds = sorted(int(s) for s in rng.permutation([0, 1, 2, 10, 11])[:int(rng.integers(1, 3))])
        self.test_len = (8 if rng.random() < 0.5 else int(rng.integers(9, 12))) if self.t > 20 else int(rng.integers(1, 5))
        if self.test_len > 8:
            ctx.event('above-default-length')
        self.error = str(rng.choice(['sMAPE', 'sMAPE', 'MSE', 'MASE']))
        self.known = {}
        self.catalogues()

    def catalogues(self):
        '''As the real catalogues: new objects for every program.'''
        from experiments.metadata.arima_clustering import AutoArimaCluster
        from spta.clustering.kmedoids import kmedoids_metadata_generator
        programs.CATALOG['kmedoids'] = {
            'su': kmedoids_metadata_generator(k_values=list(self.ks), seed_values=list(self.seeds)),
            'other': kmedoids_metadata_generator(k_values=range(2, 4), seed_values=[7])}
        programs.CATALOG['regular'] = {}
        programs.CATALOG['auto_clusters'] = {'ac1': AutoArimaCluster('a1', 'kmedoids', 'su', 'dtw'),
                                             'ac2': AutoArimaCluster('a2', 'kmedoids', 'su', 'dtw')}

    def setting(self, k, seed, name='one', auto='a1', test_len=None, error=None):
        key = (k, seed, name, auto, test_len or self.test_len, error or self.error)
        if key not in self.known:
            md, raw, _ = self.regions[name]
            self.known[key] = solverlib.Setting(md, raw, ('kmedoids', k, dict(random_seed=seed, mode='lite')), None,
                                                ('auto',) + (AUTO[auto],), key[4], key[5])
        return self.known[key]

    def options(self, *pairs):
        '''Some arguments are left out when they are the defaults.'''
        out = []
        for flag, value, default in pairs:
            if value == default and self.rng.random() < 0.6:
                self.ctx.event('default-arguments')
                continue
            out.append([flag, value])
        return [v for i in self.rng.permutation(len(out)) for v in out[int(i)]]

    def train(self, k, seed, name='one', auto='a1', test_len=None, error=None):
        self.ctx.event('train')
        argv = ['train', name, auto, 'kmedoids', '-k', k]
        argv += self.options(('--seed', seed, 1), ('--tp', test_len or self.test_len, 8), ('--error', error or self.error, 'sMAPE'))
        programs.run('auto_arima.solver', *argv)


def extract(ctx, rng, w, criterion):
    '''Runs the extraction and judges its rows; returns [(point, (k, seed, i))].'''
    w.catalogues()
    md, raw, have = w.regions['one']
    settings = {(k, s): w.setting(k, s) for k in w.ks for s in w.seeds}
    parts = {ks: s.partition() for ks, s in settings.items()}
    meds = set(p for _, m in parts.values() for p in m)
    pts = lib.points(w.x, w.y)
    free = len(pts) - len(meds)
    if free < 1:
        return None
    count, seed = int(rng.integers(1, free + 1)), int(rng.choice([0, 0, 1, 12]))
    argv = ['one', 'kmedoids', 'su', criterion, '--random', count]
    argv += w.options(('--random-seed', seed, 0), ('--tp', w.test_len, 8), ('--error', w.error, 'sMAPE'),
                      ('--threshold', 0, 0))
    if rng.random() < 0.5:
        argv += ['--auto-arima', 'a1']
    else:
        programs.CATALOG['auto_arima'] = dict(programs.CATALOG['auto_arima'], simple=programs.CATALOG['auto_arima']['a1'])
        ctx.event('default-arguments')
    before = tree('.')
    programs.run('clustering.extraction_lstm', *argv)
    after = tree('.')
    ctx.event('extract-error' if criterion == 'min_error' else 'extract-distance')
    new = [f for f in after if after[f] != before.get(f)]
    ctx.eq([f for f in before if f not in after], [], 'nothing-is-removed')
    choice = [f for f in after if os.path.basename(f).startswith('random_point') and
              ('_medoid_min_pred_error_' if criterion == 'min_error' else '_dist_medoid_') in f and
              'count{}_seed{}'.format(count, seed) in f]
    ctx.eq(len(choice), 1, 'one-file-of-choices', names=sorted(new))
    ctx.ok(all(repr(md) in f for f in new if f.endswith('.csv')), 'files-of-the-region', names=sorted(new))
    header, rows, _ = p20.rows_of(choice[0])
    ctx.eq(len(rows), count, 'as-many-rows-as-requested')
    out, seen = [], set()
    dm = np.load(md.distances_filename)
    for row in rows:
        ctx.event('row')
        s = np.array([float(row['s{}'.format(i)]) for i in range(w.t)])
        diff = [float(np.abs(have[:, p[0], p[1]] - s).max()) for p in pts]
        ctx.ok(min(diff) <= 0.00051, 'row-is-a-series-of-the-region', criterion=criterion, distance=min(diff))
        who = [p for p, d in zip(pts, diff) if d <= 0.00051]
        lab = (int(row['k']), int(row['seed']), int(row['cluster_index']))
        ctx.ok(lab[:2] in settings and 0 <= lab[2] < lab[0], 'label-of-the-suite', label=lab)
        q = parts[lab[:2]][1][lab[2]]
        ctx.eq((int(row['medoid_x']), int(row['medoid_y'])), (q[0] + md.region.x1, q[1] + md.region.y1), 'row-medoid')
        ctx.eq(row['region_id'], repr(md), 'row-region')
        if len(who) > 1:          # scaled series may look the same
            continue
        p = who[0]
        ctx.ok(p not in meds and p not in seen, 'random-point-once-and-no-medoid', point=p)
        seen.add(p)
        if criterion == 'min_error':
            scores = {(k, sd, int(parts[k, sd][0][p])): settings[k, sd].error(p) for k, sd in settings}
            ctx.ok(lab in scores, 'cluster-of-the-point', point=p, label=lab)
            slack = 1e-4
        else:
            scores = {(k, sd, i): dm[p[0] * w.y + p[1], m[0] * w.y + m[1]]
                      for (k, sd), (_, med) in parts.items() for i, m in enumerate(med)}
            slack = 1e-9
        best = min(scores.values())
        ctx.ok(scores[lab] <= best + slack * max(1.0, abs(best)), 'smallest-score', point=p, label=lab,
               scores={str(a): float(b) for a, b in scores.items()})
        out.append((p, lab))
    return out


class Network(object):
    '''A stand-in network whose labels and weights come from training data.'''

    def __init__(self, w, rng, name, rows, extra=None):
        from spta.classifier.dnn import ClassifierDNNParams
        _, _, have = w.regions['one']
        self.w_, self.tp = w, int(rng.integers(2, w.t + 1))
        self.labels, weights = [], []
        for p, lab in rows + ([] if extra is None else [extra]):
            if lab in self.labels:
                continue
            v = p21.l1(have[w.t - self.tp:, p[0], p[1]]) + rng.normal(size=self.tp) * 0.1 / self.tp
            weights.append(v / (np.linalg.norm(v) or 1.0))
            self.labels.append(lab)
        self.weights = np.array(weights)
        os.makedirs('lstm', exist_ok=True)
        with open('lstm/{}.h5'.format(name), 'wb') as f:
            np.save(f, self.weights)
        with open('lstm/{}.csv'.format(name), 'w') as f:
            f.write(',label\n')
            for i, lab in enumerate(self.labels):
                f.write('{},{}\n'.format(i, '-'.join(str(v) for v in lab)))
        programs.CATALOG['classifier'][name] = ClassifierDNNParams(name, 'lstm/{}.h5'.format(name),
                                                                   'lstm/{}.csv'.format(name), self.tp)

    def label(self, series):
        scores = self.weights @ p21.l1(series[len(series) - self.tp:])
        order = np.sort(scores)
        return self.labels[int(np.argmax(scores))], len(order) < 2 or order[-1] - order[-2] > 1e-9


def query(ctx, rng, w, nets, q):
    net, rect, oos, auto, test_len, error = q
    x1, x2, y1, y2 = rect
    md, raw, _ = w.regions['one']
    target = w.regions[oos][2] if oos else w.regions['one'][2]
    w.catalogues()
    argv = ['one', 'ac1' if auto == 'a1' else 'ac2', net, x1, x2, y1, y2]
    if oos:
        ctx.event('out-of-sample-region')
        argv += ['--out-of-sample', oos]
    argv += w.options(('--error', error, 'sMAPE'), ('--tf', test_len, 8))
    pts = [(x1 + i, y1 + j) for i, j in lib.points(x2 - x1, y2 - y1)]
    labels = {p: nets[net].label(target[:, p[0], p[1]]) for p in pts}
    used = set(lab for lab, _ in labels.values())
    if any(lab[:2] not in w.trained.get((auto, test_len, error), ()) for lab in used):
        ctx.event('refused-untrained')
        before = tree('.')
        ctx.raises(Exception, lambda: programs.run('classifier.solver_dnn', *argv), 'refused-untrained')
        after = tree('.')
        ctx.eq([f for f in after if 'query-' in f and after[f] != before.get(f)], [], 'no-answer-when-refused')
        return used, None
    ctx.event('query')
    before = tree('.')
    text = programs.run('classifier.solver_dnn', *argv)
    after = tree('.')
    mag = max(1.0, float(np.abs(raw).max()))
    got = blocks(text)
    ctx.eq(len(got), len(pts), 'one-text-per-point', text=text[-600:])
    changed = [f for f in after if after[f] != before.get(f)]
    ctx.eq([f for f in before if f not in after], [], 'nothing-is-removed')
    ctx.ok(all('query-' in os.path.basename(f) for f in changed), 'writes-only-answers', names=changed)
    main = [f for f in changed if f.endswith('.csv') and 'query-summary' not in f]
    rows = None
    if main:
        ctx.eq(len(main), 1, 'one-file-of-answers', names=changed)
        rows, _ = read_csv(main[0])
        ctx.eq(len(rows), len(pts), 'one-row-per-point')
    answer = []
    for n, p in enumerate(pts):
        lab, clear = labels[p]
        b, vals = got[n], joined(got[n])
        shown = re.findall(r'\d+-\d+-\d+', b[0])
        ctx.eq(len(shown), 1, 'printed-label', text=b)
        if not clear:
            lab = tuple(int(v) for v in shown[0].split('-'))
        label = '-'.join(str(v) for v in lab)
        ctx.eq(shown[0], label, 'label-of-the-own-series', point=p, query=q)
        at = (float(p[0] + md.region.x1), float(p[1] + md.region.y1))
        ctx.eq(tuple(numbers(b[0])[:2]), at, 'printed-point', text=b)
        s = w.setting(lab[0], lab[1], 'one', auto, test_len, error)
        f = s.raw_forecast(s.partition()[1][lab[2]], False, test_len)
        if md.scaled:
            f = f * (s.hi[p] - s.lo[p]) + s.lo[p]
        e = lib.ERRORS[error](f, s.test(p), raw[:w.t - test_len, p[0], p[1]])
        near(ctx, vals['Forecast'], f, 'printed-forecast', 2, text=b, point=p, label=label, query=q)
        ctx.close(vals['Error'], [e], 'printed-error', rtol=1e-3, atol=0.01 * max(1.0, mag if error == 'MSE' else 1.0),
                  text=b, point=p, label=label)
        near(ctx, vals['Test'], s.test(p), 'printed-test', text=b, point=p)
        if rows:
            ctx.event('csv-row')
            row = rows[n]
            ctx.ok(row is not None, 'row-matches-header', main)
            ctx.eq(tuple(numbers(row['Point'])), at, 'csv-point')
            ctx.eq(row['label'], label, 'csv-label', point=p)
            near(ctx, numbers(row['forecast_series']), vals['Forecast'], 'csv-as-printed', 2)
            near(ctx, numbers(row['error']), vals['Error'], 'csv-as-printed', 2)
            near(ctx, numbers(row['test_series']), vals['Test'], 'csv-as-printed', 2)
        answer.append((shown[0], vals))
    return used, answer


def pipeline(ctx, rng):
    w = World(ctx, rng)
    programs.CATALOG['classifier'] = {}
    mine = [(k, s) for k in w.ks for s in w.seeds]
    # (auto, test length, error) -> trained clusterings
    w.trained = {}
    jobs = [(k, s, 'one', 'a1', w.test_len, w.error) for k, s in mine]
    for _ in range(int(rng.integers(1, 3))):
        ctx.event('decoy')
        k, s = mine[int(rng.integers(len(mine)))]
        job = [k, s, 'one', 'a1', w.test_len, w.error]
        what = int(rng.integers(4))
        if what == 0:
            job[3] = 'a2'
        elif what == 1:
            job[4] = 8 if w.test_len > 8 else w.test_len % 4 + 1
        elif what == 2:
            job[5] = {'MSE': 'MASE', 'MASE': 'sMAPE', 'sMAPE': 'MSE'}[w.error]
        else:
            job[2] = str(rng.choice(['same', 'year', 'area']))
        if tuple(job) not in jobs:
            jobs.append(tuple(job))
    steps = [('train', j) for j in jobs] + [('analyse', 'one')]
    if rng.random() < 0.5:
        steps.append(('analyse', str(rng.choice(['same', 'year', 'area']))))
    for i in rng.permutation(len(steps)):
        step, j = steps[int(i)]
        if step == 'analyse':
            ctx.event('analyse')
            programs.run('clustering.partition_analysis', j, 'kmedoids', 'su')
            w.catalogues()
            continue
        w.train(*j)
        if j[2] == 'one':
            w.trained.setdefault(j[3:], set()).add(j[:2])
    rows = []
    for criterion in [['min_distance', 'min_error'], ['min_error', 'min_distance']][int(rng.integers(2))]:
        rows.append(extract(ctx, rng, w, criterion) or [])
    rows = rows[0] + rows[1] if rng.random() < 0.5 else rows[0] or rows[1]
    pts = lib.points(w.x, w.y)
    if len(set(lab for _, lab in rows)) < 2:
        rows = rows + [(pts[int(rng.integers(len(pts)))], (k, s, i)) for k, s in mine for i in range(k)]
    nets = {'n1': Network(w, rng, 'n1', rows)}
    if rng.random() < 0.5:
        ctx.event('two-networks')
        order = [rows[int(i)] for i in rng.permutation(len(rows))]
        extra = (pts[int(rng.integers(len(pts)))], (5, 3, 0)) if rng.random() < 0.4 else None
        nets['n2'] = Network(w, rng, 'n2', order[:max(2, len(order) // 2)], extra)
    others = sorted(w.trained)
    log, seen, memory = [], set(), {}
    for _ in range(5):
        if log and rng.random() < 0.3:
            q = log[int(rng.integers(len(log)))]
            ctx.event('query-again')
        else:
            rect = tuple(int(v) for v in lib.subrect(rng, w.x, w.y)) if rng.random() < 0.6 else (0, w.x, 0, w.y)
            mine_first = ('a1', w.test_len, w.error)
            q = (sorted(nets)[int(rng.integers(len(nets)))], rect,
                 str(rng.choice(['same', 'year', 'area'])) if rng.random() < 0.4 else None) + (
                     mine_first if rng.random() < 0.75 else others[int(rng.integers(len(others)))])
        log.append(q)
        used, answer = query(ctx, rng, w, nets, q)
        seen |= used
        if answer is not None:
            if q in memory:
                ctx.eq([a[0] for a in answer], [a[0] for a in memory[q]], 'same-answer-as-before')
            memory[q] = answer
    if len(seen) > 1:
        ctx.event('several-labels')
    ctx.describe(jobs=jobs, log=log, nets={n: v.labels for n, v in nets.items()}, data=lib.gen_tag(w.regions['one'][1]))
    ctx.trivial = len(seen) < 2


WORKLOADS = [('pipeline', pipeline, 48, 600)]
