'''P27: distance histograms of regions and clusters, with random points of other clusters.'''
import os
import re

import numpy as np

import lib

RULE = ('Histograms are built over random regions and clusters with a distance table whose entries are all '
        'different (so that every distance identifies its pair) or full of ties, for medoids and centroids, '
        'with and without random points of other clusters; the distances, the statistics text, the data that '
        'reach the axes and the axis limits of whole figures are compared with the definition. Non-trivial: '
        'a cluster that is not the whole region.')
ASSUMPTIONS = ['The distance measure has its matrix, as the module requires.',
               'With random points, some point lies outside the cluster (documented).',
               'A figure has at least two clusters (documented).']
REQUIRED_EVENTS = ['region', 'cluster', 'singleton', 'statistics', 'random-points', 'random-capped', 'random-default',
                   'figure', 'figure-random', 'axes-data', 'centroid-plot', 'decorator-of-other-class']


def setup():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    import spta.distance.variance, spta.region.partition, spta.clustering.factory  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def measure(rng, n):
    from spta.distance.dtw import DistanceByDTW
    if rng.random() < 0.7:
        v = rng.permutation(n * n) * float(rng.choice([0.37, 11.3])) + 0.5
    else:
        v = rng.integers(int(rng.integers(2)), 4, size=n * n).astype(float)
    dm = np.tril(v.reshape(n, n), -1)
    dm = dm + dm.T
    d = DistanceByDTW()
    d.distance_matrix = dm.copy()
    return d, dm


def parse(text):
    out = {}
    for line in text.splitlines():
        m = re.match(r'^\s*(\S+)\s*=\s*(\S+)\s*$', line)
        if m:
            out[m.group(1)] = float(m.group(2))
    return out


def close2(ctx, got, want, mechanism, **w):
    '''figures with two decimals'''
    if want != want:
        ctx.ok(got != got, mechanism, 'expected nan, got {}'.format(got), **w)
    else:
        ctx.ok(abs(got - want) <= 0.00501 + 1e-9 * abs(want), mechanism,
               'expected {}, got {}'.format(want, got), **w)


def judge_statistics(ctx, text, want, rand=None):
    ctx.event('statistics')
    s = parse(text)
    want = np.sort(np.asarray(want, dtype=float))
    ctx.ok(s.get('n') == len(want), 'reported-count', text, want=len(want))
    close2(ctx, s['min'], want[1] if len(want) > 1 else float('nan'), 'reported-minimum', text=text)
    close2(ctx, s['max'], want[-1], 'reported-maximum', text=text)
    mean = sum(want) / len(want)
    close2(ctx, s['x\u0305'], mean, 'reported-mean', text=text)
    close2(ctx, s['s'], float(np.sqrt(sum((v - mean) ** 2 for v in want) / len(want))),
           'reported-deviation', text=text)
    h = len(want) // 2
    med = want[h] if len(want) % 2 else (want[h - 1] + want[h]) / 2
    close2(ctx, s['M'], med, 'reported-median', text=text)
    if rand is not None:
        ctx.ok(s.get('#rand') == len(rand), 'reported-random-count', text, want=len(rand))
        ctx.ok(s.get('\u2229rand') == sum(1 for r in rand if r < want[-1]), 'reported-intersection', text)


def make(ctx, rng, min_points=1, max_points=24):
    from spta.region.partition import PartitionRegionCrisp
    from spta.region.temporal import SpatioTemporalRegion
    x, y = lib.shape2(rng, 6, max_points, min_points=min_points)
    n = x * y
    a = rng.normal(size=(3, x, y))
    region = SpatioTemporalRegion(lib.layout(rng, a))
    d, dm = measure(rng, n)
    k = lib.clusters(rng, n, 5)
    lab = lib.labels(rng, x, y, k)
    return x, y, region, d, dm, k, lab, PartitionRegionCrisp(lab, k)


def random_ok(ctx, dm, q, outside, got, count):
    got = [float(v) for v in got]
    ctx.eq(len(got), count, 'random-count')
    avail = sorted(float(dm[q, o]) for o in outside)
    for v in got:
        ctx.ok(v in avail, 'random-point-outside-cluster-distance-to-medoid', str(v), available=avail)
        avail.remove(v)                          # distinct points: each distance is used up


def histograms(ctx, rng):
    from spta.region import Point
    from spta.distance import variance as V
    nontrivial = False
    for _ in range(3):
        x, y, region, d, dm, k, lab, partition = make(ctx, rng)
        pts = lib.points(x, y)
        whole = rng.random() < 0.25
        if whole:
            ctx.event('region')
            subject, members = region, list(range(x * y))
        else:
            ctx.event('cluster')
            c = int(rng.integers(k))
            subject = partition.create_spt_cluster(region, c)
            members = [i for i, p in enumerate(pts) if lab[p] == c]
            nontrivial = nontrivial or len(members) < x * y
        if len(members) == 1:
            ctx.event('singleton')
        q = members[int(rng.integers(len(members)))]
        point = Point(*pts[q])
        want = dm[q, members]
        hist = V.DistanceHistogram(subject, d, bins=str(rng.choice(['auto', 'sqrt', 'fd'])))
        for _ in range(2):
            got = hist.distances_to_point(point)
            ctx.close(np.sort(np.asarray(got)), np.sort(want), 'histogram-distances')
            ctx.eq(sorted(int(i) for i in hist.point_indices), members, 'histogram-members')
            judge_statistics(ctx, hist.statistics(got), want)
        ctx.close(float(hist.max_distance(got)), want.max(), 'maximum-distance')
        over = float(rng.uniform(0, 2 * want.max() + 1))
        ctx.close(float(hist.max_distance(got, over)), max(want.max(), over), 'maximum-distance-override')
        outside = [i for i in range(x * y) if i not in members]
        if not whole and outside:
            num = int(rng.choice([0, 1, 2, len(outside), len(outside) + 3, len(members)]))
            count = min(num if num else len(members), len(outside))
            if num == 0:
                ctx.event('random-default')
            if (num or len(members)) > len(outside):
                ctx.event('random-capped')
            ctx.event('random-points')
            np.random.seed(int(rng.integers(1 << 31)))
            both = V.DistanceHistogramWithRandomPointsOtherClusters(hist, num)
            seen = set()
            for _ in range(3):
                cd, rd = both.distances_to_point(point)
                ctx.close(np.sort(np.asarray(cd)), np.sort(want), 'decorated-cluster-distances')
                random_ok(ctx, dm, q, outside, rd, count)
                seen.add(tuple(sorted(float(v) for v in rd)))
                judge_statistics(ctx, both.statistics((cd, rd)), want, rd)
                ctx.close(float(both.max_distance((cd, rd))), max(want.max(), max(rd)), 'decorated-maximum')
                got = [int(i) for i in both.point_indices]
                ctx.eq(len(set(got)), count, 'random-indices-distinct', got=got)
                ctx.ok(not set(got) & set(members) and all(0 <= i < x * y for i in got),
                       'random-indices-outside', str(got))
            ctx.state(('draws', len(seen), count, len(outside)))
            ctx.event('decorator-of-other-class')
            other = V.DistanceHistogramRandomOutsidePoints(subject, d, num_points=num)
            random_ok(ctx, dm, q, outside, other.distances_to_point(point), count)
        ctx.same(d.distance_matrix, dm, 'matrix-unchanged')
    ctx.describe(shape=[x, y], k=k, tag=lib.gen_tag(dm))
    ctx.trivial = not nontrivial


class Recorder(object):
    '''Records what reaches the axes (hist data, text) and the figures that are shown.'''

    def __enter__(self):
        import matplotlib.axes
        import matplotlib.pyplot as plt
        self.plt, self.cls = plt, matplotlib.axes.Axes
        self.hists, self.texts, self.lims, self.keep, self.bins = [], [], [], [], []
        self.saved = (self.cls.hist, self.cls.text, plt.show)
        rec = self

        def hist(ax, x, *a, **k):
            rec.hists.append((id(ax), np.array(x, dtype=float)))
            rec.bins.append((id(ax), k.get('bins', a[0] if a else None)))
            rec.keep.append(ax)              # its id stays its own
            return rec.saved[0](ax, x, *a, **k)

        def text(ax, tx, ty, s, *a, **k):
            rec.texts.append((id(ax), s))
            return rec.saved[1](ax, tx, ty, s, *a, **k)

        def show(*a, **k):
            for num in plt.get_fignums():
                for ax in plt.figure(num).axes:
                    rec.lims.append((id(ax), ax.get_xlim()))
            plt.close('all')
        self.cls.hist, self.cls.text, plt.show = hist, text, show
        return self

    def __exit__(self, *exc):
        self.cls.hist, self.cls.text, self.plt.show = self.saved
        self.plt.close('all')


def figures(ctx, rng):
    from spta.region import Point
    from spta.clustering.factory import ClusteringFactory
    from spta.clustering.regular import RegularClusteringMetadata
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    from spta.distance import variance as V
    while True:
        x, y, region, d, dm, k, lab, partition = make(ctx, rng, min_points=3, max_points=20)
        if k >= 2:
            break
    pts = lib.points(x, y)
    cmd = RegularClusteringMetadata(k=k) if rng.random() < 0.5 else \
        KmedoidsClusteringMetadata(k=k, random_seed=int(rng.integers(5)))
    algorithm = ClusteringFactory(d).instance(cmd)
    meds = []
    for c in range(k):
        mem = [p for p in pts if lab[p] == c]
        meds.append(mem[int(rng.integers(len(mem)))])
    clusters = partition.create_all_spt_clusters(region, medoids=[Point(*p) for p in meds])
    sizes = [int((lab == c).sum()) for c in range(k)]
    ctx.describe(shape=[x, y], k=k, sizes=sizes, tag=lib.gen_tag(dm))
    before = set()
    for rand in (None, int(rng.choice([0, 1, 3, 50]))):
        bins = str(rng.choice(['auto', 'sqrt', 'fd', '7', '12']))
        bins = int(bins) if bins.isdigit() else bins
        ctx.event('figure' if rand is None else 'figure-random')
        if min(sizes) == 1:
            ctx.event('singleton')
        os.makedirs('plots', exist_ok=True)
        with Recorder() as rec:
            V.DistanceHistogramClusters.cluster_histograms(
                clusters=clusters, clustering_algorithm=algorithm, random_points=rand, bins=bins,
                with_statistics=True, plot_dir='plots', alpha=0.5)
        files = set(os.listdir('plots'))
        ctx.eq(len(files - before), 1, 'one-new-file-per-figure', files=sorted(files))
        before = files
        axes = []
        for i, _ in rec.texts:
            if i not in axes and any(h == i for h, _ in rec.hists):
                axes.append(i)
        ctx.eq(len(axes), k, 'one-subplot-per-cluster')
        top = max(dm[m[0] * y + m[1], i] for m in meds for i, p in enumerate(pts) if lab[p] == lab[m])
        for c, ax in enumerate(axes):
            ctx.event('axes-data')
            q = meds[c][0] * y + meds[c][1]
            members = [i for i, p in enumerate(pts) if lab[p] == c]
            outside = [i for i in range(x * y) if i not in members]
            data = [h for i, h in rec.hists if i == ax]
            ctx.eq(len(data), 1 if rand is None else 2, 'histograms-per-subplot', cluster=c)
            ctx.close(np.sort(data[0]), np.sort(dm[q, members]), 'plotted-distances', cluster=c)
            ctx.eq([b for i, b in rec.bins if i == ax], [bins] * len(data), 'bins-as-requested', cluster=c)
            if rand is not None:
                random_ok(ctx, dm, q, outside, data[1], min(rand or len(members), len(outside)))
            texts = [s for i, s in rec.texts if i == ax and 'max =' in s]
            ctx.eq(len(texts), 1, 'one-text-per-subplot')
            judge_statistics(ctx, texts[0], dm[q, members], data[1] if rand is not None else None)
            lims = [l for i, l in rec.lims if i == ax]
            ctx.ok(lims and lims[0][1] >= top - 1e-9, 'axis-covers-cluster-distances',
                   '{} < {}'.format(lims, top))
    # a whole region around its centroid
    if rng.random() < 0.6:
        ctx.event('centroid-plot')
        i = int(rng.integers(len(pts)))
        region.centroid = Point(*pts[i])
        with Recorder() as rec:
            V.DistanceHistogram.histogram_to_centroid(region, d, plot_name='plots/one.pdf')
        ctx.eq(len(rec.hists), 1, 'centroid-histograms')
        ctx.close(np.sort(rec.hists[0][1]), np.sort(dm[i]), 'centroid-distances')
        judge_statistics(ctx, [s for _, s in rec.texts if 'max =' in s][0], dm[i])
        ctx.ok(os.path.getsize('plots/one.pdf') > 0, 'centroid-file', '')


WORKLOADS = [('histograms', histograms, 150, 6000), ('figures', figures, 32, 800)]
