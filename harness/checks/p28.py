'''P28: silhouette analysis of clustering suites.'''
import glob
import os
import shutil

import numpy as np

import lib

RULE = ('The silhouette analysis runs on random regions (with saved or preloaded distances) and suites, with no '
        'saved partitions, with those of an earlier run, of a partition run, damaged ones and removed ones; '
        'every average is compared with the definition computed by double loops over the labels of '
        'independently computed partitions. Non-trivial: at least two clusterings with different averages.')
ASSUMPTIONS = ['2 <= k < number of points (the silhouette is not defined otherwise).',
               'Among averages within 1e-9 of the best any may win, unless their partitions are identical (then the first must).']
REQUIRED_EVENTS = ['analysis', 'kmedoids', 'regular', 'tied-best', 'best-not-first', 'cached', 'damaged',
                   'direct-average', 'many-points', 'singleton-cluster', 'preloaded', 'loaded']


def setup():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    import spta.clustering.silhouette, spta.clustering.suite, spta.clustering.factory  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def silhouette(dm, lab):
    '''mean of (b - a) / max(a, b); 0 for singletons and when both are 0.'''
    lab = np.asarray(lab)
    n = len(lab)
    total = 0.0
    groups = {int(c): np.flatnonzero(lab == c) for c in set(lab.tolist())}
    for i in range(n):
        own = groups[int(lab[i])]
        if len(own) == 1:
            continue
        a = sum(dm[i, j] for j in own if j != i) / (len(own) - 1)
        b = min(np.mean(dm[i, g]) for c, g in groups.items() if c != lab[i])
        if max(a, b) > 0:
            total += (b - a) / max(a, b)
    return total / n


def regular_ks(x, y, top=9):
    ks = []
    for k in range(2, top):
        small = max(d for d in range(1, k + 1) if k % d == 0 and d * d <= k)
        dx, dy = (small, k // small) if x < y else (k // small, small)
        if dx <= x and dy <= y and k < x * y:
            ks.append(k)
    return ks


def analysis(ctx, rng):
    import matplotlib.pyplot as plt
    from spta.clustering.factory import ClusteringFactory
    from spta.clustering.silhouette import SilhouetteAnalysis
    from spta.clustering.suite import ClusteringSuite
    from spta.distance.dtw import DistanceByDTW
    x, y = lib.shape2(rng, 5, 16, min_points=5)
    many = bool(rng.random() < 0.12)
    if many:
        x, y = int(rng.integers(7, 11)), int(rng.integers(7, 11))
    n = x * y
    md, _, _ = lib.world(rng, int(rng.integers(3, 6)), x, y, scaled=bool(rng.random() < 0.3),
                         kind=str(rng.choice(['groups', 'random', 'ties'])))
    spt = md.create_instance()
    m = lib.save_distances(md, np.array(spt.as_numpy))
    kind = 'regular' if many else str(rng.choice(['kmedoids', 'kmedoids', 'regular']))
    rks = regular_ks(x, y)
    if not rks:
        kind = 'kmedoids'
    ctx.event(kind)
    if kind == 'kmedoids':
        ks = [int(k) for k in rng.permutation(np.arange(2, min(5, n)))[:int(rng.integers(1, 4))]]
        if n > 12 and rng.random() < 0.3:
            ks = [int(rng.integers(11, n))] + ks[:1]
        seeds = [int(s) for s in rng.permutation(9)[:int(rng.integers(1, 3))]]
        suite = ClusteringSuite('abc', 'kmedoids', k=ks, random_seed=seeds, mode='lite')
    else:
        ks = [int(k) for k in rng.permutation(rks)[:int(rng.integers(1, 5))]]
        suite = ClusteringSuite('abc', 'regular', k=ks)
    names, want, labs = [], [], []
    for cmd in suite:
        p = ClusteringFactory(DistanceByDTW()).instance(cmd).partition(md.create_instance())
        lab = [int(v) for v in np.array(p.as_numpy).reshape(-1)]
        if min(lab.count(c) for c in set(lab)) == 1:
            ctx.event('singleton-cluster')
        names.append(repr(cmd))
        labs.append(lab)
        want.append(silhouette(m, lab))
    top = max(want)
    close = [i for i, w in enumerate(want) if abs(w - top) < 1e-9]
    if len(close) > 1:
        ctx.event('tied-best')
    first = close[0]
    identical = all(labs[i] == labs[close[0]] for i in close)
    if first > 0:
        ctx.event('best-not-first')
    ctx.describe(shape=[x, y], kind=kind, names=names, data=lib.gen_tag(m))
    ctx.trivial = len({round(w, 9) for w in want}) < 2

    plt.show = lambda *a, **k: None

    def run(preload):
        dm = DistanceByDTW()
        if preload:
            ctx.event('preloaded')
            dm.load_distance_matrix_md(md)
        else:
            ctx.event('loaded')
        an = SilhouetteAnalysis(md, dm, suite)
        singles = []
        original = getattr(an, 'single_silhouette', None)

        def watched(partition, algorithm, *a, **k):
            v = original(partition, algorithm, *a, **k)
            singles.append((repr(algorithm), float(v)))
            return v
        if original is not None:
            an.single_silhouette = watched
        ctx.event('analysis')
        best, alg = an.perform_analysis('outputs', 'pickle')
        plt.close('all')
        for name, v in singles:
            ctx.event('average')
            ctx.close(v, want[names.index(name)], 'silhouette-average', rtol=1e-7, atol=1e-9, clustering=name)
        ctx.close(float(best), top, 'best-average', rtol=1e-7, atol=1e-9, names=names, want=want)
        ctx.ok(repr(alg) in [names[i] for i in close], 'best-clustering', repr(alg), want=want, names=names)
        if identical:
            ctx.eq(repr(alg), names[close[0]], 'best-clustering-first-on-ties', want=want, names=names)
        for name in names:
            pdf = glob.glob(os.path.join('outputs', '**', 'silhouette-{}.pdf'.format(name)), recursive=True)
            ctx.eq(len(pdf), 1, 'one-graph-per-clustering', clustering=name)

    steps = ['fresh'] + [str(s) for s in rng.permutation(['again', 'damaged', 'removed', 'partition-run'])[:1]]
    if rng.random() < 0.3:
        steps = ['partition-run'] + steps[:1]
    for step in steps:
        if step == 'partition-run':
            for cmd in suite:
                ClusteringFactory(DistanceByDTW()).instance(cmd).partition(
                    md.create_instance(), with_medoids=bool(rng.random() < 0.5), pickle_home='pickle')
        elif step == 'damaged':
            ctx.event('damaged')
            for p in glob.glob('pickle/**/*.pkl', recursive=True):
                if rng.random() < 0.6:
                    with open(p, 'r+b') as f:
                        f.truncate(int(rng.integers(0, os.path.getsize(p))))
        elif step == 'removed':
            shutil.rmtree(os.path.join(ctx.dir, 'pickle'))
        if glob.glob('pickle/**/*.pkl', recursive=True):
            ctx.event('cached')
        run(bool(rng.random() < 0.5))


def direct(ctx, rng):
    import matplotlib.pyplot as plt
    from spta.util import plot as plot_util
    plt.show = lambda *a, **k: None
    for _ in range(2):
        x, y = lib.shape2(rng, 6, 25, min_points=3)
        if rng.random() < 0.25:
            ctx.event('many-points')
            x, y = int(rng.integers(5, 20)), int(rng.integers(5, 20))
        n = x * y
        k = int(rng.integers(2, min(n - 1, 6) + 1))
        lab = lib.labels(rng, x, y, k).reshape(-1)
        if rng.random() < 0.4:
            v = rng.integers(0, 3, size=(n, n)).astype(float)
        else:
            v = rng.random((n, n)) * float(rng.choice([1, 1000]))
        dm = np.tril(v, -1)
        dm = dm + dm.T
        frozen, frozen_lab = dm.copy(), lab.copy()
        if rng.random() < 0.5:
            _, (ax, _) = plt.subplots(1, 2)
        else:
            ax = None
        got = plot_util.plot_clustering_silhouette(dm, lab, subplot=ax)
        plt.close('all')
        ctx.event('direct-average')
        if min(list(lab).count(c) for c in range(k)) == 1:
            ctx.event('singleton-cluster')
        ctx.close(float(got), silhouette(frozen, [int(c) for c in frozen_lab]), 'plotted-average', rtol=1e-7,
                  atol=1e-9)
        ctx.same(dm, frozen, 'distances-unchanged')
        ctx.same(lab, frozen_lab, 'labels-unchanged')
    ctx.describe(shape=[x, y], k=k, tag=lib.gen_tag(dm))


WORKLOADS = [('analysis', analysis, 48, 1000), ('direct', direct, 60, 2000)]
