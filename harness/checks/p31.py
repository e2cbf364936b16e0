'''P31: the programs that train and ask solvers, run by their command line, against an independent model.'''
import os
import re

import numpy as np

import lib
import programs
import solverlib
from checks.p19 import near, numbers, read_csv, tree
from checks.p37 import judge_partition_plot

RULE = ('A case fills the catalogue with 2-3 regions (offset, scaled or not, sharing a dataset), trains several '
        'solvers with the programs (auto ARIMA, k-NN, mean of past; settings that differ in one argument), then '
        'asks a history of predictions over random rectangles with all of them in random order, interleaved '
        'with further training, the per-point programs and predictions for which nothing was trained. The '
        'printed text and the files of every query are parsed and compared point by point with a model that is '
        'computed from the arguments alone. Non-trivial: at least 2 settings were queried.')
ASSUMPTIONS = ['Numbers are printed with 3 decimals.',
               'The partition of a setting is judged by P06 and P10 and recomputed without saved files here.',
               'The regions of a case have different names; the distances of each were saved, as training needs.']
REQUIRED_EVENTS = ['train', 'predict', 'predict-again', 'in-sample', 'out-of-sample', 'auto_arima', 'knn', 'mean',
                   'regular', 'kmedoids', 'scaled', 'each-auto', 'each-knn', 'untrained', 'several-settings',
                   'default-arguments', 'csv-row', 'trained-again', 'default-test-length', 'each-long-test', 'figure',
                   'longer-test', 'many-neighbours']

PROGRAM = {'auto': 'auto_arima.solver', 'knn': 'baseline.solver_knn_medoids', 'mean': 'baseline.solver_mean_past'}
EACH = {'auto': 'auto_arima.solver_each', 'knn': 'baseline.solver_knn_each'}


SHOWN = []


def setup():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.show = lambda *a, **k: SHOWN.extend(plt.figure(n) for n in plt.get_fignums() if plt.figure(n) not in SHOWN)
    programs.install('auto_arima.solver', 'auto_arima.solver_each', 'baseline.solver_knn_each',
                     'baseline.solver_knn_medoids', 'baseline.solver_mean_past')
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


class Each(solverlib.Setting):
    '''The per-point programs: every point has the model of its own.'''

    def medoid_of(self, p):
        return p


def regions(ctx, rng, t):
    '''Up to three regions of one dataset.'''
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    x, y = lib.shape2(rng, 4, 12, min_points=5) if rng.random() < 0.85 else lib.shape2(rng, 7, 16, min_points=13)
    md, data, crop = lib.world(rng, t, x, y, scaled=bool(rng.random() < 0.5),
                               kind=str(rng.choice(['groups', 'random'])), name='reg')
    out = {}

    def add(name, m):
        c = data[:, m.region.x1:m.region.x2, m.region.y1:m.region.y2].copy()
        lib.save_distances(m, lib.scale(c)[0] if m.scaled else c)
        out[name] = (m, c)
        if m.scaled:
            ctx.event('scaled')
    add('one', md)
    add('two', SpatioTemporalRegionMetadata('reg', md.region, 2015, 2015, 1, scaled=not md.scaled))
    if data.shape[1] * data.shape[2] > x * y:
        X, Y = data.shape[1:]
        x1, y1 = int(rng.integers(0, X - x + 1)), int(rng.integers(0, Y - y + 1))
        add('three', SpatioTemporalRegionMetadata('other', Region(x1, x1 + x, y1, y1 + y), 2015, 2015, 1,
                                                  scaled=bool(rng.random() < 0.3)))
    return out


def fresh(s):
    '''The same setting, nothing computed.'''
    return type(s)(s.md, s.raw, s.clustering, s.measure, s.model, s.test_len, s.error_type)


def pick(ctx, rng, regs, program):
    name = list(regs)[int(rng.integers(len(regs)))]
    md, crop = regs[name]
    t, x, y = crop.shape
    if program == 'auto':
        model = ('auto', ((1, 1, 1, 1, 0, True), (0, 0, 1, 1, 1, True), (0, 0, 1, 0, None, True))[
            int(rng.integers(3))])
    elif program == 'knn':
        model = ('knn', int(rng.integers(1, 4)), 'dtw')
    else:
        model = ('mean', int(rng.integers(1, 5)) if t < 20 or rng.random() < 0.5 else int(rng.integers(8, 12)))
    clustering = solverlib.pick_clustering(rng, x, y)
    if clustering[0] == 'kmedoids':
        clustering[2]['mode'] = 'lite'
    test_len = solverlib.pick_test_len(rng, t)
    if t > 20 and rng.random() < 0.35:
        test_len = 8 if rng.random() < 0.7 else min(t // 3 + 2, int(rng.integers(9, 12)))
    if test_len > 8:
        ctx.event('longer-test')
    if program == 'knn' and t > 20 and test_len <= 3 and rng.random() < 0.6:
        model = ('knn', int(rng.integers(4, 13)), 'dtw')        # at least 16 windows
        ctx.event('many-neighbours')
    return name, solverlib.Setting(md, crop, clustering, None, model, test_len,
                                   str(rng.choice(['MSE', 'sMAPE', 'MASE'])))


def near_setting(rng, regs, name, s):
    '''A setting that differs in one argument.'''
    s2 = fresh(s)
    what = int(rng.integers(5))
    if what == 0:
        s2.test_len = s.test_len % max(3, s.t // 3) + 1
    elif what == 1:
        s2.error_type = {'MSE': 'sMAPE', 'sMAPE': 'MASE', 'MASE': 'MSE'}[s.error_type]
    elif what == 2 and s.clustering[0] == 'kmedoids':
        seed = s.clustering[2]['random_seed']
        s2.clustering = (s.clustering[0], s.clustering[1],
                         dict(s.clustering[2], random_seed=seed + 1 if rng.random() < 0.5 else seed + 10))
    elif what == 3 and s.model[0] in ('knn', 'mean'):
        value = s.model[1] % 4 + 1
        if s.model[1] < 3 and s.t > 20 and s.test_len <= 3 and rng.random() < 0.5:
            value = s.model[1] + 10
        s2.model = (s.model[0], value) + tuple(s.model[2:])
    else:
        other = [n for n in regs if n != name and regs[n][1].shape == regs[name][1].shape]
        if other:
            name = other[int(rng.integers(len(other)))]
            s2 = type(s)(regs[name][0], regs[name][1], s.clustering, s.measure, s.model, s.test_len, s.error_type)
    if s2.model[0] == 'knn' and s2.model[1] > max(4, s2.t - 2 * s2.test_len):
        s2.model = ('knn', 3) + tuple(s2.model[2:])       # as many windows as neighbours
    return name, s2


def key(name, s):
    return (name, s.clustering[0], s.clustering[1], s.clustering[2].get('random_seed') if
            s.clustering[0] == 'kmedoids' else None, s.model, s.test_len, s.error_type)


def arguments(ctx, rng, name, s):
    argv = [name]
    if s.model[0] == 'auto':
        ids = [i for i, p in programs.CATALOG['auto_arima'].items() if tuple(p) == s.model[1]]
        argv.append(ids[0])
    argv += [s.clustering[0], '-k', s.clustering[1]]
    if s.model[0] == 'knn':
        argv.append(s.model[1])
    seed = s.clustering[2].get('random_seed', 1)
    opts = []
    if seed != 1 or rng.random() < 0.5:
        opts.append(['--seed', seed])
    else:
        ctx.event('default-arguments')
    if s.error_type != 'sMAPE' or rng.random() < 0.5:
        opts.append(['--error', s.error_type])
    else:
        ctx.event('default-arguments')
    if s.test_len != 8 or rng.random() < 0.5:
        opts.append(['--tp' if s.model[0] == 'auto' else '--test', s.test_len])
    else:
        ctx.event('default-test-length')
    if s.model[0] == 'mean' and (s.model[1] != 10 or rng.random() < 0.5):
        opts.append(['--past', s.model[1]])
    for i in rng.permutation(len(opts)):
        argv += opts[i]
    return argv


def blocks(text):
    '''The part of the output that belongs to each point.'''
    parts = re.split(r'^\*{10,}$', text, flags=re.M)
    return [[line for line in p.strip().split('\n')] for p in parts if re.match(r'\s*Point', p)]


def joined(block):
    '''Values may be wrapped over several lines.'''
    out = {}
    last = None
    for line in block[1:]:
        m = re.match(r'\s*([A-Z]\w*)[^:\[]*:(.*)', line)
        if m:
            last = m.group(1)
            out[last] = m.group(2)
        elif last:
            out[last] += ' ' + line
    return {k: numbers(v) for k, v in out.items()}


def judge(ctx, s, rect, n, text, before, after, owner, who, clusters=True):
    x1, x2, y1, y2 = rect
    off = (s.md.region.x1, s.md.region.y1)
    pts = [(x1 + i, y1 + j) for i, j in lib.points(x2 - x1, y2 - y1)]
    length = n or s.test_len
    lab = s.partition()[0] if clusters else None
    loose = dict(decimals=3 if s.model[0] != 'auto' else 2)
    got = blocks(text)
    ctx.eq(len(got), len(pts), 'one-text-per-point', text=text[-600:])
    for b, p in zip(got, pts):
        intro, vals = numbers(b[0]), joined(b)
        ctx.eq(tuple(intro[:2]), (float(p[0] + off[0]), float(p[1] + off[1])), 'printed-point', text=b)
        if clusters:
            ctx.eq(intro[2:], [float(lab[p])], 'printed-cluster', text=b, point=p)
        near(ctx, vals['Forecast'], s.forecast(p, n > 0, length), 'printed-forecast', text=b, point=p, **loose)
        near(ctx, vals['Error'], [s.error(p)], 'printed-error', text=b, point=p, **loose)
        ctx.eq('Test' in vals, n == 0, 'printed-test-series-only-in-sample', text=b)
        if n == 0:
            near(ctx, vals['Test'], s.test(p), 'printed-test', text=b, point=p)
    # files
    changed = sorted(f for f in after if after[f] != before.get(f))
    ctx.eq([f for f in before if f not in after], [], 'nothing-is-removed')
    mine = [f for f in after if f.endswith('.csv') and 'query-' in os.path.basename(f) and
            (f in changed or owner.get(f) == who)]
    for f in changed:
        if 'query-' not in os.path.basename(f):
            continue
        o = who if f.endswith('.csv') else who[:-1] if f.endswith('.pdf') else None
        if o is None:
            continue
        if f.endswith('.pdf'):      # one plot per solver directory and rectangle
            o = (who[0][0], who[0][4], rect)
            if f in owner:
                ctx.eq(owner[f][2], rect, 'plots-of-another-rectangle-kept', file=f)
        elif f in owner:
            ctx.eq(owner[f], who, 'files-of-another-query-kept', file=f)
        owner[f] = o
    results = [f for f in mine if 'query-result' in f]
    summaries = [f for f in mine if 'query-summary' in f]
    ctx.eq((len(results), len(summaries)), (1, 1), 'files-of-the-query', changed=changed, owner=str(who))
    rows, header = read_csv(results[0])
    ctx.eq(len(rows), len(pts), 'one-row-per-point', file=results[0])
    for row, p in zip(rows, pts):
        ctx.event('csv-row')
        ctx.ok(row is not None, 'row-matches-header', repr(header))
        ctx.eq(tuple(numbers(row['Point'])), (float(p[0] + off[0]), float(p[1] + off[1])), 'saved-point')
        near(ctx, numbers(row['forecast_series']), s.forecast(p, n > 0, length), 'saved-forecast', point=p, **loose)
        near(ctx, numbers(row['error']), [s.error(p)], 'saved-error', point=p, **loose)
        if n == 0:
            near(ctx, numbers(row['test_series']), s.test(p), 'saved-test', point=p)
        if clusters:
            ctx.eq(int(row['cluster_index']), int(lab[p]), 'saved-cluster', point=p)
    srows, _ = read_csv(summaries[0])
    ctx.eq(len(srows), 1, 'one-summary-row')
    ctx.eq(srows[0]['tp'], str(s.test_len), 'summary-test-length')
    if clusters:
        ctx.eq(int(srows[0]['k']), s.clustering[1], 'summary-k')
        inside = set(int(v) for v in lab[x1:x2, y1:y2].ravel())
        ctx.eq(int(srows[0]['clusters']), len(inside), 'summary-clusters')
    want = float(np.mean([s.error(p) ** 2 for p in pts]))
    ctx.close(numbers(srows[0]['mse']), [want], 'summary-mse', rtol=1e-2 if s.model[0] == 'auto' else 1e-6,
              atol=0.1 if s.model[0] == 'auto' else 0.00051)


def judge_figure(ctx, s, rect):
    '''The figure of a query shows its partition, medoids and rectangle.'''
    from matplotlib.patches import Rectangle
    ctx.event('figure')
    ctx.eq(len(SHOWN), 1, 'one-figure-per-query')
    ax = SHOWN[0].axes[0]
    lab, med = s.partition()
    judge_partition_plot(ctx, ax, [int(v) for v in np.asarray(lab).ravel()], lab.shape)
    marks = sorted((int(ln.get_ydata()[0]), int(ln.get_xdata()[0])) for ln in ax.lines)
    ctx.eq(marks, sorted((int(p[0]), int(p[1])) for p in med), 'figure-medoids')
    x1, x2, y1, y2 = rect
    boxes = [p for p in ax.patches if isinstance(p, Rectangle)]
    ctx.eq(len(boxes), 1, 'figure-rectangle')
    b = boxes[0]
    ctx.close([b.get_y(), b.get_y() + b.get_height(), b.get_x(), b.get_x() + b.get_width()],
              [x1 - 0.5, x2 - 0.5, y1 - 0.5, y2 - 0.5], 'figure-rectangle-of-the-query', atol=1e-9, rect=rect)
    ox, oy = s.md.region.x1, s.md.region.y1
    for p in ((x1, y1), (x2, y2)):
        ctx.ok('({}, {})'.format(p[0] + ox, p[1] + oy) in ax.get_title(), 'figure-title', ax.get_title(), rect=rect)


def run(ctx, rng, kinds, n_train, n_ask):
    from spta.arima import AutoArimaParams
    regs = regions(ctx, rng, int(rng.integers(12, 16) if rng.random() < 0.6 else rng.integers(26, 36)))
    programs.CATALOG['regions'] = {n: v[0] for n, v in regs.items()}
    programs.CATALOG['auto_arima'] = {'a': AutoArimaParams(1, 1, 1, 1, 0, True),
                                      'simple': AutoArimaParams(0, 0, 1, 1, 1, True),
                                      'b': AutoArimaParams(0, 0, 1, 0, None, True)}
    trained, log, owner, models = {}, [], {}, {}
    plan = []
    for _ in range(n_train):
        if plan and rng.random() < 0.6:
            plan.append(near_setting(rng, regs, *plan[int(rng.integers(len(plan)))]))
        else:
            plan.append(pick(ctx, rng, regs, str(rng.choice(kinds))))

    def train(name, s):
        k = key(name, s)
        ctx.event('trained-again' if k in trained else 'train')
        ctx.event({'auto': 'auto_arima'}.get(s.model[0], s.model[0]))
        ctx.event(s.clustering[0])
        log.append(('train',) + k)
        programs.run(PROGRAM[s.model[0]], 'train', *arguments(ctx, rng, name, s))
        models.setdefault(k, s)
        trained[k] = (name, models[k])

    asked = set()
    import matplotlib.pyplot as plt
    plt.close('all')

    def ask():
        if rng.random() < 0.3:
            kind = str(rng.choice([k for k in ('auto', 'knn') if k in kinds] or ['knn']))
            name, s = pick(ctx, rng, regs, kind)
            if s.t > 20 and rng.random() < 0.5 and not (kind == 'knn' and s.model[1] > 3):
                s.test_len = int(rng.integers(8, 12))
            each = Each(s.md, s.raw, s.clustering, None, s.model, s.test_len, s.error_type)
            region, _ = solverlib.pick_query(rng, each)
            rect = [region.x1, region.x2, region.y1, region.y2]
            if rng.random() < 0.3:
                rect[1], rect[3] = rect[0] + 1, rect[2] + 1
            if kind == 'auto':      # a model per point
                rect[1] = min(rect[1], rect[0] + 2)
                rect[3] = min(rect[3], rect[2] + 2)
            who = (('each', name, s.model), tuple(rect), s.test_len, s.error_type)
            who = ((name, 'each', '', '', s.model, s.test_len, s.error_type), tuple(rect), 0)
            ctx.event('each-' + kind)
            log.append(who)
            argv = [name]
            argv += [[i for i, p in programs.CATALOG['auto_arima'].items() if tuple(p) == s.model[1]][0]] \
                if kind == 'auto' else [s.model[1]]
            argv += rect + ['--error', s.error_type]
            if s.test_len != 8 or rng.random() < 0.5:
                argv += ['--tf', s.test_len]
            if s.test_len > 8:
                ctx.event('each-long-test')
            before = tree('outputs')
            text = programs.run(EACH[kind], *argv)
            judge(ctx, each, tuple(rect), 0, text, before, tree('outputs'), owner, who, clusters=False)
            return
        k = list(trained)[int(rng.integers(len(trained)))]
        name, s = trained[k]
        region, n = solverlib.pick_query(rng, s)
        rect = (region.x1, region.x2, region.y1, region.y2)
        if rng.random() < 0.2 and log:
            prev = [w for w in log if w[0] == k]
            if prev:
                (_, rect, n) = prev[-1]
        who = (k, rect, n)
        ctx.event('predict-again' if who in owner.values() else 'predict')
        ctx.event('in-sample' if n == 0 else 'out-of-sample')
        log.append(who)
        asked.add(k)
        argv = arguments(ctx, rng, name, s) + list(rect)
        if n or rng.random() < 0.5:
            argv += ['--tf', n]
        before = tree('outputs')
        del SHOWN[:]
        text = programs.run(PROGRAM[s.model[0]], 'predict', *argv)
        judge_figure(ctx, s, rect)
        plt.close('all')
        judge(ctx, s, rect, n, text, before, tree('outputs'), owner, who)

    def untrained():
        base = list(trained.values())[int(rng.integers(len(trained)))]
        name, s = near_setting(rng, regs, *base)
        if key(name, s) in trained:
            return
        # models are shared between solvers that differ in the error measure only, errors are not
        ctx.event('untrained')
        log.append(('untrained',) + key(name, s))
        region, n = solverlib.pick_query(rng, s)
        argv = arguments(ctx, rng, name, s) + [region.x1, region.x2, region.y1, region.y2, '--tf', n]
        ctx.raises((Exception,), lambda: programs.run(PROGRAM[s.model[0]], 'predict', *argv),
                   'nothing-trained-no-answer', asked=str(key(name, s)), trained=str(list(trained)))

    for i, (name, s) in enumerate(plan):
        train(name, s)
        if rng.random() < 0.5:
            ask()
    if rng.random() < 0.5:
        train(*plan[int(rng.integers(len(plan)))])
    for _ in range(n_ask):
        if rng.random() < 0.2:
            untrained()
        else:
            ask()
    if len(asked) > 1:
        ctx.event('several-settings')
    ctx.describe(log=[str(v) for v in log], data=[lib.gen_tag(v[1]) for v in regs.values()])
    ctx.state(tuple(str(v[0]) for v in log))
    ctx.trivial = len(asked) < 2


def baseline(ctx, rng):
    run(ctx, rng, ['knn', 'mean'], 3, 5)


def arima(ctx, rng):
    run(ctx, rng, ['auto', 'auto', 'mean'], 2, 3)


WORKLOADS = [('baseline', baseline, 70, 1500), ('arima', arima, 16, 300)]
