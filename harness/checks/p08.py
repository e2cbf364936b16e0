'''P08: centroids and intra-cluster costs recomputed from a distance matrix.'''
import numpy as np

import lib

RULE = ('A case computes centroids (of regions, clusters, clusters of slices; by calculator, get_centroid '
        'and metadata) and intra-cluster costs of random partitions with random medoids, with DTW or '
        'arbitrary symmetric matrices (stored, saved or computed); all are compared with the distance '
        'matrix. Some cases ask for centroids of several regions in one process, by metadata. '
        'Non-trivial: more than two points.')
ASSUMPTIONS = ['Intra-cluster cost means the sum of squared distances to the given medoids.']
REQUIRED_EVENTS = ['centroid:region', 'centroid:cluster', 'centroid:cached', 'cost', 'matrix:arbitrary',
                   'matrix:dtw', 'tie', 'cost-after-centroid', 'metadata:own-measure', 'metadata:default-measure',
                   'metadata:different-centroids', 'many-points', 'metadata:other-distances']


def setup():
    import spta.region.centroid, spta.region.partition, spta.region.metadata  # noqa
    import spta.dataset.temp_brazil, spta.clustering.kmedoids, spta.kmedoids  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def case(ctx, rng):
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Point
    from spta.region.centroid import CalculateCentroid
    from spta.region.partition import PartitionRegionCrisp, intra_cluster_cost
    from spta.region.scaling import ScaleFunction, SpatioTemporalScaled
    from spta.region.temporal import SpatioTemporalRegion
    x, y = lib.shape2(rng, 5, 18, min_points=2, grow=0.04)
    n, t = x * y, int(rng.integers(2, 6))
    many = n > 25
    saved = bool(rng.random() < 0.4)
    if saved:
        md, _, _ = lib.world(rng, t, x, y, scaled=bool(rng.random() < 0.3))
        spt = md.create_instance()
        a = np.array(spt.as_numpy)
    else:
        a = lib.series_field(rng, t, x, y) * lib.magnitude(rng)
        spt = SpatioTemporalRegion(lib.layout(rng, a))
    arbitrary = many or bool(rng.random() < 0.4)
    if many:
        ctx.event('many-points')
    if arbitrary:
        m = np.triu(rng.integers(0, 9, size=(n, n)).astype(float), 1)
        m = m + m.T
    else:
        m = lib.dtw_matrix(lib.series_list(a))
    ctx.event('matrix:arbitrary' if arbitrary else 'matrix:dtw')

    def fresh():
        d = DistanceByDTW()
        if saved:
            np.save(md.distances_filename, m)
        elif arbitrary:
            d.distance_matrix = m.copy()
        else:
            d.compute_distance_matrix(spt)
        return d
    k = int(rng.integers(6, 25)) if many else lib.clusters(rng, n, 5)
    lab = lib.labels(rng, x, y, k)
    part = PartitionRegionCrisp(lab.copy(), k)
    ctx.describe(shape=[t, x, y], k=k, labels=lab.tolist(), saved=saved, matrix=lib.gen_tag(m))
    ctx.trivial = n < 3

    def judge_centroid(point, members, mech):
        idx = [i * y + j for i, j in members]
        sums = {p: float(m[p[0] * y + p[1]][idx].sum()) for p in members}
        p = (int(point.x), int(point.y))
        ctx.ok(p in sums, mech + '-is-member', point=p)
        best = min(sums.values())
        if sum(abs(s - best) <= 1e-9 * best for s in sums.values()) > 1:
            ctx.event('tie')
        ctx.ok(sums[p] <= best * (1 + 1e-7), mech + '-minimises', point=p, sums=sums)
        return p, idx

    for op in [int(o) for o in rng.integers(0, 4, size=6)]:
        d = fresh()
        if op == 0:
            ctx.event('centroid:region')
            c, dist = CalculateCentroid(d).find_centroid_and_distances(spt)
            p, idx = judge_centroid(c, lib.points(x, y), 'centroid')
            ctx.close(dist, m[p[0] * y + p[1]][idx], 'centroid-distances', rtol=1e-7, atol=1e-12)
        elif op == 1:
            ctx.event('centroid:cluster')
            c = int(rng.integers(k))
            members = [p for p in lib.points(x, y) if lab[p] == c]
            cl = part.create_spt_cluster(spt, c)
            cen, dist = CalculateCentroid(d).find_centroid_and_distances(cl)
            p, idx = judge_centroid(cen, members, 'cluster-centroid')
            ctx.close(dist, m[p[0] * y + p[1]][idx], 'centroid-distances', rtol=1e-7, atol=1e-12)
        elif op == 2:
            ctx.event('centroid:cached')
            r = SpatioTemporalRegion(lib.layout(rng, a), spt.region_metadata if saved else None)
            ctx.ok(not r.has_centroid(), 'no-centroid-yet')
            ctx.raises(ValueError, lambda: r.get_centroid(), 'no-measure-no-centroid')
            c1 = r.get_centroid(d)
            judge_centroid(c1, lib.points(x, y), 'centroid')
            ctx.ok(r.has_centroid(), 'centroid-kept')
            ctx.eq(tuple(r.get_centroid()), tuple(c1), 'centroid-kept')
            # a decorated region that knows its own keeps it
            f = ScaleFunction(x, y)
            f.apply_to(r, t)
            w = SpatioTemporalScaled(r, f.scale_min, f.scale_max)
            ctx.eq(tuple(w.get_centroid()), tuple(c1), 'centroid-of-the-decorated')
            q = lib.points(x, y)[int(rng.integers(n))]
            w.centroid = Point(*q)
            ctx.eq(tuple(w.get_centroid()), q, 'own-centroid-first')
            # a cluster knows its own centroid, also when its region knows another one
            c = int(rng.integers(k))
            cl = part.create_spt_cluster(r if rng.random() < 0.6 else spt, c)
            members = [p for p in lib.points(x, y) if lab[p] == c]
            ctx.ok(not cl.has_centroid(), 'no-centroid-yet')
            c2 = cl.get_centroid(fresh())
            judge_centroid(c2, members, 'cluster-centroid')
            ctx.eq(tuple(cl.get_centroid()), tuple(c2), 'centroid-kept')
            ctx.eq(tuple(r.get_centroid()), tuple(c1), 'centroid-kept')
        else:
            ctx.event('cost')
            meds = []
            for c in range(k):
                mem = [p for p in lib.points(x, y) if lab[p] == c]
                meds.append(mem[int(rng.integers(len(mem)))])
            part.medoids = [Point(*q) for q in meds]
            if rng.random() < 0.3 or ctx.index % 5 == 0:     # a region that knows its centroid already
                ctx.event('cost-after-centroid')
                spt.get_centroid(d)
            got = intra_cluster_cost(part, spt, d)
            want = 0.0
            for p in lib.points(x, y):
                q = meds[int(lab[p])]
                want += m[q[0] * y + q[1], p[0] * y + p[1]] ** 2
            ctx.close(got, want, 'intra-cluster-cost', rtol=1e-7, atol=1e-18)
        ctx.same(np.array(spt.as_numpy), a, 'region-unchanged')
        ctx.same(np.array(part.as_numpy), lab, 'partition-unchanged')


def metadata_case(ctx, rng):
    '''Centroids by metadata, of several regions of the same process, each with its own saved matrix.'''
    from spta.distance.dtw import DistanceByDTW
    from spta.region.centroid import CalculateCentroid
    t, X, Y = int(rng.integers(3, 7)), int(rng.integers(4, 9)), int(rng.integers(4, 9))
    lib.install_dataset(lib.series_field(rng, t, X, Y) + 100.0, 2015, 2015, 1)
    x, y = lib.shape2(rng, 4, 12, min_points=2)
    x, y = min(x, X), min(y, Y)
    regions = []
    for i in range(int(rng.integers(2, 5))):
        if rng.random() < 0.3 and i:
            x, y = min(y, X), min(x, Y)                 # same number of points, another shape
        off = (int(rng.integers(0, X - x + 1)), int(rng.integers(0, Y - y + 1)))
        md = lib.region_metadata(rng, x, y, bool(rng.random() < 0.3), name='r%d' % i, offset=off)
        have = np.array(md.create_instance().as_numpy)
        if rng.random() < 0.5:
            m = np.triu(rng.integers(0, 9, size=(x * y, x * y)).astype(float), 1)
            m = m + m.T
        else:
            m = lib.dtw_matrix(lib.series_list(have))
        np.save(md.distances_filename, m)
        regions.append((md, m, x, y))
    ctx.describe(dataset=[t, X, Y], regions=[repr(r[0]) for r in regions])
    ctx.trivial = x * y < 3
    chosen = set()
    for _ in range(2 * len(regions)):
        md, m, x, y = regions[int(rng.integers(len(regions)))]
        if rng.random() < 0.3:
            ctx.event('metadata:own-measure')
            own = DistanceByDTW()
            if rng.random() < 0.5:
                # a measure that already knows other distances for this region
                m = np.triu(rng.integers(0, 9, size=m.shape).astype(float), 1)
                m = m + m.T
                own.distance_matrix = m.copy()
                ctx.event('metadata:other-distances')
            c = CalculateCentroid.for_sptr_metadata(md, own)
        else:
            ctx.event('metadata:default-measure')
            c = CalculateCentroid.for_sptr_metadata(md)
        sums = m.sum(axis=1)
        ctx.ok(0 <= c.x < x and 0 <= c.y < y, 'centroid-is-member', point=tuple(c))
        ctx.ok(sums[int(c.x) * y + int(c.y)] <= sums.min() * (1 + 1e-7), 'metadata-centroid-minimises',
               region=repr(md), point=tuple(c), sums=sums.tolist())
        chosen.add(int(np.argmin(sums)))
    if len(chosen) > 1:
        ctx.event('metadata:different-centroids')


WORKLOADS = [('centroids_costs', case, 520, 8000), ('metadata', metadata_case, 130, 2000)]
