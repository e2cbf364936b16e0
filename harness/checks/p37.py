'''P37: silhouette analysis: the reported clustering has the best score of all that were asked for.'''
import contextlib
import importlib
import io
import logging
import os
import re
import sys

import numpy as np

import lib
import programs

RULE = ('Analyses of random regions (several per process, with the measure by default or their own, with and without '
        'matrices, given initial medoids, both modes, graphs on and off) and histories of the silhouette program '
        '(save, distances, kmedoids, show_distances) over several regions. Every requested k-medoids run is repeated '
        'with textbook DTW distances and scored by the textbook silhouette; plots are read from the figures that '
        'are shown. Non-trivial: at least 2 combinations of k and seed.')
ASSUMPTIONS = ['All series of a region differ and 1 < k < number of points (otherwise there is no silhouette score).',
               'Scores within 1e-9 of the best are ties.', 'k-medoids results are judged by P06 and repeated here.']
REQUIRED_EVENTS = ['analysis', 'default-measure', 'own-measure', 'given-matrix', 'given-medoids', 'mode:lite', 'mode:robust',
                   'shown', 'saved', 'not-saved', 'several-seeds', 'same-shape', 'program', 'save', 'distances', 'kmedoids',
                   'kmedoids-without-distances', 'show_distances', 'refused-without-data', 'scaled', 'not-first-best',
                   'old-distances']

SHOWN = []


def setup():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import experiments.metadata.silhouette as s
    s.silhouette_metadata_by_name = by_name
    programs.install('clustering.silhouette')
    plt.show = lambda *a, **k: SHOWN.append(plt.gcf())
    plt.rcParams['figure.max_open_warning'] = 0
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


SUITES = {}


def by_name(name):
    from spta.kmedoids.silhouette import silhouette_default_metadata
    return silhouette_default_metadata(plot_name=name, **SUITES[name])


def samples(dm, labels):
    '''Silhouette of each point, by definition.'''
    labels = [int(v) for v in labels]
    n = len(dm)
    out = []
    for i in range(n):
        own = [j for j in range(n) if labels[j] == labels[i] and j != i]
        if not own:
            out.append(0.0)
            continue
        a = sum(dm[i, j] for j in own) / len(own)
        b = min(sum(dm[i, j] for j in range(n) if labels[j] == c) / labels.count(c)
                for c in set(labels) if c != labels[i])
        out.append((b - a) / max(a, b) if max(a, b) > 0 else 0.0)
    return out


def repeat(X, dm, ks, seeds, mode='lite', initial=None, max_iter=1000, tol=0.001):
    '''{(k, seed): (score, medoids, labels)}'''
    from spta.distance.dtw import DistanceByDTW
    from spta.kmedoids.kmedoids import run_kmedoids
    out = {}
    for seed in seeds:
        for k in ks:
            measure = DistanceByDTW()
            measure.distance_matrix = dm.copy()
            r = run_kmedoids(X, k, measure, initial_medoids=None if initial is None else initial[:k], random_seed=seed,
                             mode=mode, max_iter=max_iter, tol=tol, verbose=False)
            labels = [int(v) for v in r.labels]
            out[k, seed] = (float(np.mean(samples(dm, labels))), [int(v) for v in r.medoids], labels)
    return out


def judge(ctx, runs, k, seed, medoids, labels, dm):
    ctx.event('analysis')
    k, seed = int(k), int(seed)
    medoids, labels = [int(v) for v in medoids], [int(v) for v in labels]
    table = {'{}/{}'.format(*key): v[0] for key, v in runs.items()}
    ctx.ok((k, seed) in runs, 'combination-requested', k=k, seed=seed, scores=table)
    best = max(v[0] for v in runs.values())
    ctx.ok(runs[k, seed][0] >= best - 1e-9, 'best-score', k=k, seed=seed, scores=table)
    if [key for key, v in runs.items() if v[0] >= best - 1e-9][0] != list(runs)[0]:
        ctx.event('not-first-best')
    # equal scores of one combination in the repetition: the answer is of that very run
    ctx.eq(medoids, runs[k, seed][1], 'medoids-of-best-run')
    ctx.eq(labels, runs[k, seed][2], 'labels-of-best-run')
    ctx.close(dm[np.arange(len(dm)), [medoids[v] for v in labels]], dm[:, medoids].min(axis=1), 'nearest-medoid',
              rtol=1e-9, atol=1e-9)
    return runs[k, seed]


def judge_partition_plot(ctx, ax, labels, shape):
    image = np.asarray(ax.images[0].get_array())
    ctx.eq(image.shape[:2], tuple(shape), 'plot-shape')
    colours = {}
    for i, (px, py) in enumerate(lib.points(*shape)):
        colours.setdefault(tuple(float(v) for v in image[px, py]), set()).add(labels[i])
    ctx.ok(all(len(v) == 1 for v in colours.values()) and len(colours) == len(set(labels)), 'plot-one-colour-per-cluster',
           labels=labels)


def judge_silhouette_plot(ctx, ax, dm, labels):
    want = samples(dm, labels)
    line = [ln for ln in ax.lines if len(set(np.round(np.asarray(ln.get_xdata(), dtype=float), 12))) == 1]
    ctx.ok(any(abs(float(ln.get_xdata()[0]) - np.mean(want)) < 1e-9 for ln in line), 'plot-average-line', score=float(np.mean(want)))
    ctx.ok('{:1.3f}'.format(np.mean(want)) in ax.get_title() or abs(float(re.search(r'-?\d+\.\d+', ax.get_title()).group())
                                                                 - np.mean(want)) < 0.0006, 'plot-score', ax.get_title())
    ctx.eq(len(ax.collections), len(set(labels)), 'plot-one-band-per-cluster')
    for c, band in enumerate(ax.collections):
        got = {round(float(v[0]), 9) + 0.0 for p in band.get_paths() for v in p.vertices}
        mine = {round(w, 9) + 0.0 for w, lab in zip(want, labels) if lab == c}
        far = [g for g in got if min(abs(g - m) for m in mine | {0.0}) > 1e-6]
        missing = [m for m in mine if min(abs(g - m) for g in got) > 1e-6]
        ctx.ok(not far and not missing, 'plot-band-values', cluster=c, far=far, missing=missing)


def field(rng, t, x, y):
    '''Groups of series with noise: the score depends on k; all series differ.'''
    groups = int(rng.integers(2, 6))
    base = rng.normal(size=(groups, t)) * 4 + 300 if rng.random() < 0.8 else rng.normal(size=(groups, t)) + 20
    which = rng.integers(0, groups, size=(x, y))
    spread = float(rng.choice([0.05, 0.5, 2.0, 6.0]))
    return np.moveaxis(base[which], 2, 0) + rng.normal(size=(t, x, y)) * spread


def shape(rng):
    while True:
        x, y = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        if 5 <= x * y <= 20:
            return x, y


def pick_ks(rng, n):
    top = min(n - 1, 7 if rng.random() < 0.9 else 13)
    ks = [int(v) for v in rng.permutation(np.arange(2, top + 1))[:int(rng.integers(1, 5))]]
    kind = int(rng.integers(3))
    if kind == 0:
        lo = int(rng.integers(2, top + 1))
        return range(lo, int(rng.integers(lo, top + 1)) + 1)
    return tuple(ks) if kind == 1 else ks


def analyses(ctx, rng):
    import matplotlib.pyplot as plt
    from spta.distance.dtw import DistanceByDTW
    from spta.kmedoids.silhouette import do_silhouette_analysis, silhouette_default_metadata
    from spta.region.temporal import SpatioTemporalRegion
    x, y = shape(rng)
    cases = []
    for number in range(int(rng.integers(1, 4))):
        if number and rng.random() < 0.3:
            x, y = shape(rng)
        elif number:
            ctx.event('same-shape')
        data = field(rng, int(rng.integers(3, 7)), x, y)
        n = x * y
        ks, seeds = pick_ks(rng, n), [int(s) for s in rng.permutation(10)[:int(rng.integers(1, 4))]]
        region = SpatioTemporalRegion(data.copy())
        dm = lib.dtw_matrix(lib.series_list(data))
        kw = {}
        initial = None
        own = rng.random()
        if own < 0.5:
            ctx.event('default-measure')
        else:
            ctx.event('own-measure')
            kw['distance_measure'] = measure = DistanceByDTW()
            if own > 0.75:
                ctx.event('given-matrix')
                if rng.random() < 0.5:           # any distances
                    dm = np.triu(rng.uniform(0.5, 5.0, size=(n, n)), 1)
                    dm = dm + dm.T
                measure.distance_matrix = dm.copy()
        if rng.random() < 0.4:
            ctx.event('given-medoids')
            initial = [int(v) for v in rng.permutation(n)[:max(ks) + int(rng.integers(0, 2))]]
            kw['initial_medoids'] = list(initial)
        mode = str(rng.choice(['lite', 'robust']))
        ctx.event('mode:' + mode)
        limits = dict(max_iter=int(rng.choice([1000, 1000, 0])), tol=float(rng.choice([0.001, 0.5])))
        if len(seeds) > 1:
            ctx.event('several-seeds')
        save = None if rng.random() < 0.9 else 'plots/case{}'.format(number)
        show = bool(rng.random() < 0.3)
        os.makedirs('plots', exist_ok=True)
        np.random.seed(int(rng.integers(1 << 30)))
        del SHOWN[:]
        before = set(os.listdir('plots'))
        md = silhouette_default_metadata(ks, seeds, kmedoids_mode=mode, verbose=False, show_graphs=show, save_graphs=save,
                                         **dict(kw, **limits))
        k, seed, medoids, labels = do_silhouette_analysis(region, md)
        runs = repeat(np.array(lib.series_list(data)), dm, ks, seeds, mode, initial, **limits)
        judge(ctx, runs, k, seed, medoids, labels, dm)
        ctx.same(region.as_numpy, data, 'region-unchanged')
        if initial is not None:
            ctx.eq(list(md.initial_medoids), initial, 'initial-medoids-unchanged')
        new = set(os.listdir('plots')) - before
        if save:
            ctx.event('saved')
            ctx.eq(new, {'case{}_k{}_seed{}.eps'.format(number, a, b) for a in ks for b in seeds}, 'figure-per-run')
        else:
            ctx.event('not-saved')
            ctx.eq(new, set(), 'no-figures')
        if show:
            ctx.event('shown')
            ctx.eq(len(SHOWN), len(runs), 'figure-shown-per-run')
            left = dict(runs)
            for fig in SHOWN:
                title = [int(v) for v in re.findall(r'\d+', fig.get_suptitle() if hasattr(fig, 'get_suptitle')
                                                    else fig._suptitle.get_text())]
                ctx.ok(tuple(title[-2:]) in left, 'figure-of-run', title=title)
                run = left.pop(tuple(title[-2:]))
                judge_partition_plot(ctx, fig.axes[0], run[2], (x, y))
                judge_silhouette_plot(ctx, fig.axes[1], dm, run[2])
        plt.close('all')
        cases.append(dict(shape=[x, y], ks=list(ks), seeds=seeds, kw=sorted(kw), mode=mode, initial=initial,
                          data=lib.gen_tag(data)))
    ctx.trivial = all(len(c['ks']) * len(c['seeds']) < 2 for c in cases)
    ctx.describe(cases=cases)


def program(ctx, *argv):
    '''Lines that the silhouette program logs.'''
    m = importlib.import_module('experiments.clustering.silhouette')
    root, h = logging.getLogger(), programs.Lines()
    before, level, saved = list(root.handlers), root.level, sys.argv
    root.handlers = [h]
    root.setLevel(logging.INFO)
    sys.argv = ['silhouette'] + list(argv)
    off = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            m.processRequest()
    finally:
        root.handlers = before
        root.setLevel(level)
        sys.argv = saved
        logging.disable(off)
    return h.lines


def histories(ctx, rng):
    import matplotlib.pyplot as plt
    t, X, Y = int(rng.integers(3, 7)), 8, 8
    data = field(rng, t, X, Y)
    lib.install_dataset(data, 2015, 2015, 1)
    os.makedirs('plots', exist_ok=True)
    SUITES.clear()
    regions = {}
    x, y = shape(rng)
    for i in range(int(rng.integers(1, 4))):
        if i and rng.random() < 0.4:
            x, y = shape(rng)
        off = (int(rng.integers(0, X - x + 1)), int(rng.integers(0, Y - y + 1)))
        scaled = bool(rng.random() < 0.3)
        md = lib.region_metadata(rng, x, y, scaled, name='s%d' % i, offset=off)
        raw = data[:, off[0]:off[0] + x, off[1]:off[1] + y]
        seen = lib.scale(raw)[0] if scaled else raw
        if scaled:
            ctx.event('scaled')
        dm = lib.dtw_matrix(lib.series_list(seen))
        if np.any(dm[np.triu_indices(len(dm), 1)] == 0):
            continue
        ks, seeds = pick_ks(rng, x * y), [int(s) for s in rng.permutation(10)[:int(rng.integers(1, 4))]]
        SUITES['s%d' % i] = dict(k_values=ks, seed_values=seeds, show_graphs=bool(rng.random() < 0.2), verbose=False,
                                 save_graphs=None)
        if rng.random() < 0.3:                   # distances that somebody left there
            ctx.event('old-distances')
            np.save(md.distances_filename, rng.uniform(1, 2, size=dm.shape))
        regions['region-%d' % i] = dict(md=md, x=x, y=y, seen=seen, dm=dm, ks=ks, seeds=seeds, saved=False, matrix=False,
                                        name='s%d' % i)
    programs.CATALOG['regions'] = {n: r['md'] for n, r in regions.items()}
    todo = []
    for n in regions:
        steps = ['save', 'distances', 'kmedoids', 'show_distances', 'kmedoids']
        drop = rng.random(len(steps)) < 0.15
        todo.append([(n, s) for s, d in zip(steps, drop) if not d])
    order = []
    while any(todo):
        q = [q for q in todo if q]
        order.append(q[int(rng.integers(len(q)))].pop(0))
    ctx.describe(regions={n: [repr(r['md']), list(r['ks']), r['seeds']] for n, r in regions.items()}, order=order,
                 data=lib.gen_tag(data))
    ctx.trivial = len(order) < 3
    for name, step in order:
        r = regions[name]
        del SHOWN[:]
        ctx.event('program')
        if not r['saved'] and step != 'save':
            ctx.event('refused-without-data')
            ctx.raises(Exception, lambda: program(ctx, name, step), 'refused-without-data')
            plt.close('all')
            continue
        if not r['matrix'] and step != 'save' and step != 'distances' and os.path.exists(r['md'].distances_filename):
            continue
        if step == 'show_distances' and not r['matrix']:
            continue
        lines = program(ctx, name, step)
        ctx.event(step)
        if step == 'save':
            r['saved'] = True
            ctx.close(np.load(r['md'].dataset_filename), r['seen'], 'saved-region', rtol=1e-9, atol=1e-9)
        elif step == 'distances':
            r['matrix'] = True
            ctx.close(np.load(r['md'].distances_filename), r['dm'], 'saved-distances', rtol=1e-6, atol=1e-6)
        elif step == 'kmedoids':
            if not r['matrix']:
                ctx.event('kmedoids-without-distances')
            found = {}
            for line in lines:
                m = re.match(r'(?s)Best (k|seed|medoids|labels): (.*)', line)
                if m:
                    found[m.group(1)] = [int(v) for v in re.findall(r'\d+', m.group(2))]
            ctx.eq(sorted(found), ['k', 'labels', 'medoids', 'seed'], 'reported', lines=lines[-8:])
            # the program scores what it saved: equal to the textbook distances up to rounding
            dm = np.load(r['md'].distances_filename) if r['matrix'] else r['dm']
            runs = repeat(np.array(lib.series_list(r['seen'])), dm, r['ks'], r['seeds'])
            judge(ctx, runs, found['k'][0], found['seed'][0], found['medoids'], found['labels'], dm)
            ctx.ok(len(SHOWN) > 0, 'best-shown')
            judge_partition_plot(ctx, SHOWN[-1].axes[0], found['labels'], (r['x'], r['y']))
            judge_silhouette_plot(ctx, SHOWN[-1].axes[1], dm, found['labels'])
        else:
            images = [np.asarray(f.axes[0].images[0].get_array()) for f in SHOWN if f.axes and f.axes[0].images]
            for what, p in (('corner', (0, 0)), ('center', (r['x'] // 2, r['y'] // 2))):
                want = r['dm'][p[0] * r['y'] + p[1]].reshape(r['x'], r['y'])
                ctx.ok(any(i.shape == want.shape and np.allclose(i, want, rtol=1e-6, atol=1e-6) for i in images),
                       'plot-of-distances-to-' + what, shapes=[i.shape for i in images], point=p)
            for tag in ('0_0', 'center'):
                ctx.ok(os.path.exists('plots/distances_{}_{}.eps'.format(tag, r['name'])), 'plot-saved', os.listdir('plots'))
        plt.close('all')


WORKLOADS = [('analyses', analyses, 160, 2500), ('histories', histories, 90, 1500)]
