'''P03: partitions are compared with a label matrix; merged results with a per-point lookup.'''
import numpy as np

import lib

RULE = ('A case builds a crisp partition (random labels with singletons/bands, regular, or from a '
        'membership array) over a random non-square region and drives membership queries, cluster '
        'creation, per-cluster functions, merging in random list order, representatives, rectangle '
        'intersection queries and clones in random order, against a label matrix. '
        'Non-trivial: at least 2 clusters.')
ASSUMPTIONS = ['Every label in [0, k) is present (what the clustering algorithms produce).']
REQUIRED_EVENTS = ['op:merge', 'op:representatives', 'op:intersect', 'op:membership', 'op:clusters',
                   'op:bad_merge', 'op:default_len', 'mixed-types', 'centroid-array']


def setup():
    import spta.region.partition, spta.region.function, spta.region.scaling  # noqa


def partition_case(ctx, rng):
    from spta.region import Point, Region, TimeInterval
    from spta.region.spatial import SpatialRegion
    from spta.region.temporal import SpatioTemporalRegion
    from spta.region.partition import PartitionRegionCrisp, PartitionRegion
    from spta.region.function import FunctionRegionScalarSame
    x, y = lib.shape2(rng, 7, 36, grow=0.005)
    n = x * y
    k = lib.clusters(rng, n, 7)
    pts = lib.points(x, y)
    how = str(rng.choice(['labels', 'array', 'regular']))
    lab = lib.labels(rng, x, y, k)
    if how == 'regular':
        try:
            part = PartitionRegionCrisp.with_regular_partition(k, x, y)
            lab = np.array(part.as_numpy).astype(int)
        except ValueError:
            how = 'array'
    if how == 'labels':
        part = PartitionRegionCrisp(lab.copy(order='K'), k)
    elif how == 'array':
        part = PartitionRegionCrisp.from_membership_array(lab.ravel().copy(), x, y)
    ctx.describe(how=how, shape=[x, y], k=k, labels=lab.tolist())
    ctx.trivial = k < 2
    t = int(rng.integers(1, 5))
    src2, src3 = lib.values(rng, (x, y)), lib.values(rng, (t, x, y))
    sp, st = SpatialRegion(lib.layout(rng, src2)), SpatioTemporalRegion(lib.layout(rng, src3))
    members = {c: [p for p in pts if lab[p] == c] for c in range(k)}
    for op in [int(o) for o in rng.permutation(9)]:
        if op == 0:
            ctx.event('op:membership')
            for p in pts:
                mem = [c for c in range(k) if part.is_member(Point(*p), c)]
                ctx.eq(mem, [int(lab[p])], 'exactly-one-cluster')
            ctx.ok(not part.is_member(None, 0), 'none-not-member')
            some = [pts[int(i)] for i in rng.integers(0, n, size=int(rng.integers(1, 2 * n + 1)))]
            ctx.eq([int(m) for m in part.membership_of_points([Point(*p) for p in some])],
                   [int(lab[p]) for p in some], 'membership-of-points')
            ctx.eq([int(m) for m in part.membership_of_point_indices([i * y + j for i, j in some])],
                   [int(lab[p]) for p in some], 'membership-of-indices')
            ctx.eq([int(part.cluster_len(c)) for c in range(k)],
                   [len(members[c]) for c in range(k)], 'cluster-sizes')
        elif op == 1:
            # the generic size of a partition (used by partitions without their own count)
            class Generic(PartitionRegion):
                def is_member(self, point, cluster_index):
                    return point is not None and self.numpy_dataset[point.x, point.y] == cluster_index
            ctx.event('op:default_len')
            g = Generic(lab.copy(), k)
            ctx.eq([int(g.cluster_len(c)) for c in range(k)], [len(members[c]) for c in range(k)],
                   'default-cluster-size')
        elif op == 2:
            ctx.event('op:clusters')
            use_medoids = rng.random()
            idx = [members[c][int(rng.integers(len(members[c])))] for c in range(k)]
            kw = {}
            if use_medoids < 0.35:
                kw = {'medoids': [Point(*p) for p in idx]}
            elif use_medoids < 0.7:
                kw = {'centroid_indices': [i * y + j for i, j in idx]}
                if use_medoids > 0.5:
                    ctx.event('centroid-array')
                    kw = {'centroid_indices': np.array(kw['centroid_indices'])}
            scl = part.create_all_spatial_clusters(sp)
            tcl = part.create_all_spt_clusters(st, **kw)
            ctx.eq((len(scl), len(tcl)), (k, k), 'one-cluster-per-label')
            seen = []
            for c in range(k):
                for one, cl in ((part.create_spatial_cluster(sp, c), scl[c]),
                                (part.create_spt_cluster(st, c), tcl[c])):
                    ctx.eq([tuple(p) for p, _ in cl], members[c], 'cluster-points')
                    ctx.eq([tuple(p) for p, _ in one], members[c], 'cluster-points')
                    ctx.eq(int(cl.cluster_len), len(members[c]), 'cluster-len')
                seen += [tuple(p) for p, _ in scl[c]]
                if kw:
                    cen = tcl[c].centroid
                    ctx.eq((int(cen.x), int(cen.y)), idx[c], 'cluster-centroid')
                for p in pts:
                    if lab[p] == c:
                        ctx.same(scl[c].value_at(Point(*p)), src2[p], 'cluster-values')
                        ctx.same(tcl[c].series_at(Point(*p)), src3[:, p[0], p[1]], 'cluster-values')
                    else:
                        ctx.raises(ValueError, lambda: scl[c].value_at(Point(*p)), 'non-member')
                        ctx.raises(ValueError, lambda: tcl[c].series_at(Point(*p)), 'non-member')
                t1, t2 = lib.interval(rng, t)
                sub = tcl[c].interval_subset(TimeInterval(t1, t2))
                got = [(tuple(p), s) for p, s in sub]
                ctx.eq([p for p, _ in got], members[c], 'interval-keeps-members')
                for p, s in got:
                    ctx.same(s, src3[t1:t2, p[0], p[1]], 'interval-values')
            ctx.eq(sorted(seen), pts, 'disjoint-cover')
        elif op in (3, 4):
            ctx.event('op:merge')
            cl = part.create_all_spatial_clusters(sp)
            want = src2.copy()
            if op == 4:      # each cluster gets its own function
                fs = [lambda v, c=c: v * 2.0 + 100.0 * c for c in range(k)]
                types = [np.float64] * k
                if rng.random() < 0.4:          # results of different types
                    ctx.event('mixed-types')
                    types = [[np.float64, np.int64, np.float32][int(rng.integers(3))] for _ in fs]
                    fs = [lambda v, f=f, d=d: float(d(f(v))) for f, d in zip(fs, types)]
                cl = [FunctionRegionScalarSame(fs[c], x, y, dtype=types[c]).apply_to(cl[c])
                      for c in range(k)]
                for p in pts:
                    want[p] = fs[lab[p]](src2[p])
            order = [int(c) for c in rng.permutation(k)]
            given = [cl[c] for c in order]
            merged = part.merge_clusters_2d(given)
            ctx.same(merged.as_numpy, want, 'merged-values', order=order)
            ctx.eq([g.cluster_index for g in given], order, 'merge-keeps-argument')
            for c in range(k):
                ctx.eq([tuple(p) for p, _ in cl[c]], members[c], 'merge-keeps-clusters')
        elif op == 5:
            ctx.event('op:representatives')
            reps = [members[c][int(rng.integers(len(members[c])))] for c in range(k)]
            cl = part.create_all_spatial_clusters(sp)
            order = [int(c) for c in rng.permutation(k)] if rng.random() < 0.5 else list(range(k))
            merged = part.merge_with_representatives_2d([cl[c] for c in order],
                                                        [Point(*reps[c]) for c in order])
            ctx.same(merged.as_numpy, [[src2[reps[lab[i, j]]] for j in range(y)] for i in range(x)],
                     'representative-values')
        elif op == 6:
            ctx.event('op:intersect')
            meds = [members[c][int(rng.integers(len(members[c])))] for c in range(k)]
            for _ in range(6):
                x1, x2, y1, y2 = lib.subrect(rng, x, y)
                want = sorted(set(int(v) for v in lab[x1:x2, y1:y2].ravel()))
                got = part.find_indices_of_clusters_intersecting_with(Region(x1, x2, y1, y2))
                ctx.eq(sorted(int(g) for g in got), want, 'intersecting-clusters',
                       rect=(x1, x2, y1, y2))
                p2 = part.clone()
                p2.medoids = [Point(*m) for m in meds]
                gm = p2.find_medoids_of_clusters_intersecting_with(Region(x1, x2, y1, y2))
                ctx.eq(sorted(tuple(m) for m in gm), sorted(meds[c] for c in want),
                       'intersecting-medoids')
            ctx.raises(ValueError, lambda: part.clone().find_medoids_of_clusters_intersecting_with(
                Region(0, x, 0, y)), 'no-medoids')
        elif op == 7 and k > 1:
            ctx.event('op:bad_merge')
            cl = part.create_all_spatial_clusters(sp)
            drop = int(rng.integers(k))
            ctx.raises(ValueError, lambda: part.merge_clusters_2d(
                [c for i, c in enumerate(cl) if i != drop]), 'merge-missing-cluster')
            other = (drop + 1) % k
            dup = [cl[other] if i == drop else c for i, c in enumerate(cl)]
            ctx.raises(ValueError, lambda: part.merge_clusters_2d(dup), 'merge-duplicate-cluster')
            # a cluster of another partition, whose index this one does not have
            big = lib.labels(rng, x, y, k + 1) if x * y > k else None
            if big is not None:
                stranger = PartitionRegionCrisp(big, k + 1).create_spatial_cluster(sp, k)
                odd = [stranger if i == drop else c for i, c in enumerate(cl)]
                ctx.raises(ValueError, lambda: part.merge_clusters_2d(odd), 'merge-foreign-cluster')
        elif op == 8:
            c2 = part.clone()
            ctx.same(c2.as_numpy, lab, 'clone')
            ctx.eq(c2.k, k, 'clone')
        ctx.same(np.array(part.as_numpy), lab, 'partition-unchanged', op=op)
        ctx.same(sp.as_numpy, src2, 'source-unchanged', op=op)
        ctx.same(st.as_numpy, src3, 'source-unchanged', op=op)


WORKLOADS = [('partition', partition_case, 6000, 20000)]
