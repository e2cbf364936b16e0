'''P34: the distance, centroid, medoid-distance and elbow programs over histories of several regions.'''
import os
import re

import numpy as np

import lib
import programs
import reports
from checks.p09 import curvature
from checks.p19 import read_csv

RULE = ('A case makes one dataset with several regions (often of the same shape; scaled, offset) and runs a random '
        'sequence of the programs that compute distances (serial, parallel, plots), centroids, distances between '
        'medoids and elbows for them. Saved matrices are compared with textbook DTW of the region as loaded, the '
        'other outputs with what follows from the saved matrix of that region. Non-trivial: several regions.')
ASSUMPTIONS = ['k-medoids labels are judged by P06 and recomputed without saved files here.',
               'Elbows are judged up to rounding of the costs.']
REQUIRED_EVENTS = ['distance', 'parallel', 'plots', 'recomputed', 'stale-distances',
                   'large-values', 'centroid-program', 'centroid-catalogue',
                   'centroid-precalculated', 'refused-without-distances', 'medoid-distances', 'kmedoids', 'regular',
                   'elbow', 'several-seeds', 'scaled', 'same-shape', 'same-name', 'arbitrary-matrix', 'many-clusters']


def setup():
    programs.install('region.distance', 'region.centroid', 'clustering.medoid_distances', 'clustering.find_elbows')
    import experiments.metadata.centroid as c
    c.predefined_regions = lambda: dict(programs.CATALOG['regions'])
    c.precalculated_centroids = lambda: dict(programs.CATALOG['centroids'])
    programs.CATALOG['centroids'] = {}
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


class World(object):
    def __init__(self, ctx, rng):
        self.t, self.X, self.Y = int(rng.integers(4, 8)), int(rng.integers(4, 8)), int(rng.integers(4, 8))
        data = lib.series_field(rng, self.t, self.X, self.Y, kind=str(rng.choice(['groups', 'random'])))
        if rng.random() < 0.3:
            ctx.event('large-values')
            data = data * float(rng.choice([40.0, 700.0]))
        lib.install_dataset(data, 2015, 2015, 1)
        other = data[::-1] + rng.normal(size=data.shape)
        lib.install_dataset(other, 2014, 2014, 1)
        self.regions = {}
        x, y = min(int(rng.integers(2, 5)), self.X), min(int(rng.integers(2, 5)), self.Y)
        for i in range(int(rng.integers(2, 4))):
            if i and rng.random() < 0.6:
                ctx.event('same-shape')
            elif i:
                x, y = min(int(rng.integers(1, 5)), self.X), min(int(rng.integers(3, 5)), self.Y)
            off = (int(rng.integers(0, self.X - x + 1)), int(rng.integers(0, self.Y - y + 1)))
            scaled = bool(rng.random() < 0.4)
            if scaled:
                ctx.event('scaled')
            md = lib.region_metadata(rng, x, y, scaled, name='r%d' % i, offset=off)
            if i and rng.random() < 0.4:         # the same region of another year, or scaled
                ctx.event('same-name')
                twin = self.regions['region-0']['md']
                x, y, off = twin.x_len, twin.y_len, (twin.region.x1, twin.region.y1)
                year = 2014 if i == 1 and rng.random() < 0.5 else 2015
                scaled = (not twin.scaled) if year == 2015 else bool(rng.random() < 0.5)
                md = lib.region_metadata(rng, x, y, scaled, name='r0', offset=off, year=year)
                if any(repr(md) == repr(r['md']) for r in self.regions.values()):
                    continue
            name = 'region-%d' % i
            raw = (data if md.year_start == 2015 else other)[:, off[0]:off[0] + x, off[1]:off[1] + y]
            seen = lib.scale(raw)[0] if scaled else raw
            self.regions[name] = dict(md=md, x=x, y=y, seen=seen, matrix=None, arbitrary=False,
                                      dtw=lib.dtw_matrix(lib.series_list(seen)), labels={})
        programs.CATALOG['regions'] = {n: r['md'] for n, r in self.regions.items()}


def stamps():
    out = {}
    for d, _, files in os.walk('.'):
        for f in files:
            p = os.path.join(d, f)
            out[p] = (os.stat(p).st_mtime_ns, os.stat(p).st_size)
    return out


def touched(before):
    after = stamps()
    return sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))


class Images(object):
    '''Arrays shown as images.'''

    def __enter__(self):
        import matplotlib.axes
        import matplotlib.pyplot as plt
        self.plt, self.cls, self.seen = plt, matplotlib.axes.Axes, []
        self.old = {n: getattr(self.cls, n) for n in ('imshow', 'matshow', 'pcolor', 'pcolormesh')}

        def wrap(f):
            def show(ax, *a, **kw):
                self.seen.append(np.array(a[-1], dtype=float))
                return f(ax, *a, **kw)
            return show
        for n, f in self.old.items():
            setattr(self.cls, n, wrap(f))
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(self.cls, n, f)
        self.plt.close('all')


def distance(ctx, rng, w, name):
    r = w.regions[name]
    if r['arbitrary'] or r['labels']:
        return                              # saved partitions of another matrix: not the same history
    ctx.event('distance')
    argv = [name, 'dtw']
    if rng.random() < 0.3:
        argv += ['--parallel', int(rng.integers(1, 4))]
        ctx.event('parallel')
    plots = bool(rng.random() < 0.25)
    if plots:
        argv.append('--plots')
        ctx.event('plots')
        os.makedirs('plots', exist_ok=True)
    if r['matrix'] is not None:
        ctx.event('recomputed')
    elif rng.random() < 0.2:
        # distances left by somebody else
        ctx.event('stale-distances')
        n = r['x'] * r['y'] + int(rng.integers(2))
        np.save(r['md'].distances_filename, rng.random((n, n)))
    before = stamps()
    with Images() as images:
        programs.run('region.distance', *argv)
    path = r['md'].distances_filename
    changed = [p for p in touched(before) if not p.endswith('.out') and not p.startswith('./plots/')]
    ctx.ok(set(changed) <= {os.path.join('.', path)}, 'no-other-file-changes', repr(changed), region=name)
    m = np.load(path)
    ctx.close(m, r['dtw'], 'saved-distances', rtol=1e-9, atol=1e-9, region=name, argv=argv)
    r['matrix'] = m
    if plots:
        ctx.eq(len([p for p in touched(before) if p.startswith('./plots/')]), 2, 'two-plots')
        x, y = r['x'], r['y']
        want = {(0, 0)} | {(i, j) for i in ((x - 1) // 2, x // 2) for j in ((y - 1) // 2, y // 2)}
        rows = {p: r['dtw'][p[0] * y + p[1]].reshape(x, y) for p in want}
        ctx.eq(len(images.seen), 2, 'two-images')
        ctx.close(images.seen[0], rows[(0, 0)], 'image-of-first-point', rtol=1e-7, atol=1e-7)
        ctx.ok(any(images.seen[1].shape == v.shape and np.allclose(images.seen[1], v) for v in rows.values()),
               'image-of-center-point', region=name, shape=(x, y))


def arbitrary(ctx, rng, w, name):
    '''The matrix of this region was not computed by us.'''
    r = w.regions[name]
    if r['matrix'] is not None:
        return
    n = r['x'] * r['y']
    m = np.triu(rng.integers(1, 30, size=(n, n)).astype(float), 1)
    r['matrix'] = m + m.T
    r['arbitrary'] = True
    np.save(r['md'].distances_filename, r['matrix'])
    ctx.event('arbitrary-matrix')


def best_centroid(ctx, r, point, mech, **w):
    sums = r['matrix'].sum(axis=1)
    x, y = point
    ctx.ok(0 <= x < r['x'] and 0 <= y < r['y'], mech + '-inside', point=point, **w)
    ctx.ok(sums[x * r['y'] + y] <= sums.min() * (1 + 1e-9), mech + '-minimises', point=point, sums=sums.tolist(), **w)


def centroid(ctx, rng, w, name):
    from experiments.metadata.centroid import centroid_by_region_and_distance
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Point
    r = w.regions[name]
    before = stamps()
    if r['matrix'] is None:
        ctx.event('refused-without-distances')
        ctx.raises((ValueError, IOError, programs.Refused), lambda: programs.run('region.centroid', name),
                   'centroid-needs-distances')
        return
    if rng.random() < 0.5:
        ctx.event('centroid-program')
        text, lines = programs.run_logged('region.centroid', name)
        found = re.findall(r'[Cc]entroid\D*Point\(x=(\d+), y=(\d+)\)', '\n'.join([text] + lines))
        ctx.ok(len(found) >= 1, 'centroid-reported', repr((text, lines))[:500])
        best_centroid(ctx, r, (int(found[-1][0]), int(found[-1][1])), 'reported-centroid', region=name)
    else:
        ctx.event('centroid-catalogue')
        pre = {}
        for other in w.regions:
            if rng.random() < 0.4:
                pre[(other, 'DistanceByDTW')] = Point(int(rng.integers(20)), int(rng.integers(20)))
        programs.CATALOG['centroids'] = pre
        c = centroid_by_region_and_distance(name, DistanceByDTW())
        if (name, 'DistanceByDTW') in pre:
            ctx.event('centroid-precalculated')
            ctx.eq(tuple(c), tuple(pre[(name, 'DistanceByDTW')]), 'precalculated-centroid')
        else:
            best_centroid(ctx, r, (int(c.x), int(c.y)), 'catalogue-centroid', region=name)
    ctx.eq(touched(before), [], 'centroid-changes-no-file')


def partition(w, name, cmd):
    r = w.regions[name]
    if repr(cmd) not in r['labels']:
        from spta.clustering.factory import ClusteringFactory
        from spta.distance.dtw import DistanceByDTW
        d = DistanceByDTW()
        d.distance_matrix = r['matrix'].copy()
        p = ClusteringFactory(d).instance(cmd).partition(r['md'].create_instance(), with_medoids=True)
        r['labels'][repr(cmd)] = (np.array(p.as_numpy).astype(int), [(int(q.x), int(q.y)) for q in p.medoids])
    return r['labels'][repr(cmd)]


def medoid_distances(ctx, rng, w, name):
    r = w.regions[name]
    if r['matrix'] is None or r['x'] * r['y'] < 5:
        return
    many = r['x'] * r['y'] > 12 and rng.random() < 0.5
    if many:
        ctx.event('many-clusters')
    kind, make, cmds = reports.pick_suite(rng, r['x'], r['y'], most=4, many=many)
    programs.CATALOG['kmedoids'] = {'s': make(), 'other': []} if kind == 'kmedoids' else {}
    programs.CATALOG['regular'] = {'s': make(), 'other': []} if kind == 'regular' else {}
    ctx.event('medoid-distances')
    ctx.event(kind)
    before = stamps()
    programs.run('clustering.medoid_distances', name, kind, 's')
    files = [p for p in touched(before) if p.endswith('.csv')]
    ctx.eq(len(files), len({repr(c) for c in cmds}), 'one-table-per-clustering', files=files)
    for c in cmds:
        mine = [p for p in files if repr(c) in p.split(os.sep)]
        ctx.eq(len(mine), 1, 'one-table-per-clustering', clustering=repr(c), files=files)
        ctx.ok(repr(r['md']) in mine[0].split(os.sep), 'table-of-own-region', mine[0])
        rows, header = read_csv(mine[0])
        _, med = partition(w, name, c)
        idx = [p[0] * r['y'] + p[1] for p in med]
        ctx.eq(header, ['k'] + [str(i) for i in range(len(med))], 'header')
        ctx.eq([row and row['k'] for row in rows], [str(i) for i in range(len(med))], 'one-row-per-medoid')
        got = [[float(row[str(j)]) for j in range(len(med))] for row in rows]
        ctx.close(got, r['matrix'][np.ix_(idx, idx)], 'medoid-distances', rtol=1e-6, atol=6e-4, region=name,
                  clustering=repr(c))


def elbows(ctx, rng, w, name):
    from spta.clustering.kmedoids import kmedoids_metadata_generator
    r = w.regions[name]
    n = r['x'] * r['y']
    if r['matrix'] is None or n < 6:
        return
    ks = [int(k) for k in rng.permutation(np.arange(2, n))[:int(rng.integers(3, 6))]]
    seeds = [int(s) for s in rng.permutation(30)[:int(rng.integers(1, 4))]]
    if len(seeds) > 1:
        ctx.event('several-seeds')
    suite = kmedoids_metadata_generator(k_values=list(ks), seed_values=list(seeds))
    programs.CATALOG['kmedoids'] = {'s': suite, 'other': []}
    ctx.event('elbow')
    text = programs.run('clustering.find_elbows', name, 's')
    got = re.findall(r'Seed (\d+)\D[^[]*\[([^]]*)\]\s*Elbow found\D*?k=[^0-9]*k?(\d+)', text)
    ctx.eq(sorted(int(g[0]) for g in got), sorted(seeds), 'one-elbow-per-seed', text=text)
    cmds = list(kmedoids_metadata_generator(k_values=list(ks), seed_values=list(seeds)))
    for seed, values, k in got:
        ctx.eq([int(v) for v in values.split(',')], sorted(ks), 'values-of-k', text=text)
        costs = []
        for kk in sorted(ks):
            c, = [c for c in cmds if c.k == kk and c.random_seed == int(seed)]
            lab, med = partition(w, name, c)
            costs.append(sum(float(r['matrix'][med[lab[p]][0] * r['y'] + med[lab[p]][1], p[0] * r['y'] + p[1]]) ** 2
                             for p in lib.points(r['x'], r['y'])))
        cur = [float(v) for v in curvature(sorted(ks), costs)]
        ctx.ok(int(k) in sorted(ks)[1:-1], 'elbow-inside-range', k=k, ks=ks, text=text)
        mine = cur[sorted(ks).index(int(k)) - 1]
        ctx.ok(max(cur) - mine <= 1e-9 * max(1.0, max(costs)), 'elbow-maximises-curvature', k=k, ks=sorted(ks),
               curvature=cur, seed=seed, region=name)


OPS = [distance, distance, distance, arbitrary, centroid, centroid, medoid_distances, medoid_distances, elbows, elbows]


def case(ctx, rng):
    w = World(ctx, rng)
    names = list(w.regions)
    log = []
    for _ in range(int(rng.integers(6, 14))):
        op = OPS[int(rng.integers(len(OPS)))]
        name = names[int(rng.integers(len(names)))]
        log.append([op.__name__, name])
        op(ctx, rng, w, name)
    ctx.describe(dataset=[w.t, w.X, w.Y], regions=[repr(r['md']) for r in w.regions.values()], log=log)
    ctx.trivial = len(names) < 2


WORKLOADS = [('history', case, 330, 5000)]
