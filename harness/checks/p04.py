'''P04: regular partitions observed through labels, geometry rebuilt from the labels alone.'''
import numpy as np

import lib

RULE = ('Every (x, y, k) of a dense grid plus random larger ones is requested through the array helper, '
        'the partition class and the clustering algorithm; the geometry of the answer is rebuilt from '
        'the labels. Non-trivial: k > 1.')
ASSUMPTIONS = ['x < y puts the smaller divisor on x; otherwise the larger divisor on x.']
REQUIRED_EVENTS = ['accepted', 'rejected', 'uneven', 'room-to-balance', 'many-clusters', 'spatial-region']


def setup():
    import spta.region.partition, spta.clustering.regular, spta.clustering.factory  # noqa
    import spta.distance.dtw  # noqa


def expected_divisors(k):
    best = max(d for d in range(1, k + 1) if k % d == 0 and d * d <= k)
    return best, k // best


def judge(ctx, labels, x, y, k):
    small, large = expected_divisors(k)
    dx, dy = (small, large) if x < y else (large, small)
    lab = np.asarray(labels).reshape(x, y).astype(int)
    ctx.eq(sorted(set(lab.ravel().tolist())), list(range(k)), 'exactly-k-labels')
    widths, heights = {}, {}
    rects = []
    for c in range(k):
        cells = np.argwhere(lab == c)
        (x1, y1), (x2, y2) = cells.min(axis=0), cells.max(axis=0) + 1
        ctx.eq(len(cells), int((x2 - x1) * (y2 - y1)), 'cluster-is-rectangle', label=c)
        rects.append((int(x1), int(x2), int(y1), int(y2)))
    xs = sorted(set((r[0], r[1]) for r in rects))
    ys = sorted(set((r[2], r[3]) for r in rects))
    ctx.eq((len(xs), len(ys)), (dx, dy), 'grid-dimensions', x=x, y=y, k=k)
    # grid of rectangles
    ctx.eq(sorted(rects), sorted((a, b, c, d) for a, b in xs for c, d in ys), 'grid-layout')
    for cuts, total, name in ((xs, x, 'x'), (ys, y, 'y')):
        ctx.eq(cuts[0][0], 0, 'grid-cover')
        ctx.eq(cuts[-1][1], total, 'grid-cover')
        for (a, b), (c, d) in zip(cuts, cuts[1:]):
            ctx.eq(b, c, 'grid-cover')
        sides = [b - a for a, b in cuts]
        ctx.ok(all(s == sides[0] for s in sides[:-1]), 'same-sides', sides=sides)
        ctx.ok(sides[-1] == total - sides[0] * (len(sides) - 1), 'last-takes-remainder', sides=sides)
        if len(sides) > 1 and total // len(sides) >= len(sides) - 1:
            ctx.event('room-to-balance')
            ctx.ok(2 * sides[-1] <= 3 * sides[0], 'last-not-much-larger', sides=sides, x=x, y=y, k=k)
        if sides[-1] != sides[0]:
            ctx.event('uneven')
    # labels are given in row-major order of the grid
    order = sorted(rects, key=lambda r: (r[0], r[2]))
    ctx.eq([int(lab[r[0], r[2]]) for r in order], list(range(k)), 'label-order')


def one(ctx, rng, x, y, k, which):
    from spta.region.partition import PartitionRegionCrisp
    from spta.util import arrays as arrays_util
    from spta.region.spatial import SpatialRegion
    from spta.region.temporal import SpatioTemporalRegion
    small, large = expected_divisors(k)
    dx, dy = (small, large) if x < y else (large, small)
    feasible = x >= dx and y >= dy

    def ask():
        if which == 0:
            return arrays_util.regular_partitioning(x, y, k)
        if which == 1:
            return PartitionRegionCrisp.with_regular_partition(k, x, y).as_numpy
        from spta.clustering.regular import RegularClusteringMetadata, RegularClusteringAlgorithm
        from spta.distance.dtw import DistanceByDTW
        md = RegularClusteringMetadata(k)
        if which == 3:
            # a spatial region has no series and no medoids
            ctx.event('spatial-region')
            p = RegularClusteringAlgorithm(md, DistanceByDTW()).partition_2d(
                SpatialRegion(np.zeros((x, y))))
            ctx.eq(p.k, k, 'k-kept')
            return p.as_numpy
        p = RegularClusteringAlgorithm(md, DistanceByDTW()).partition(
            SpatioTemporalRegion(np.zeros((2, x, y))), with_medoids=False)
        ctx.eq(p.k, k, 'k-kept')
        return p.as_numpy
    if feasible:
        ctx.event('accepted')
        if k > 256:
            ctx.event('many-clusters')
        judge(ctx, ask(), x, y, k)
        return True
    ctx.event('rejected')
    ctx.raises(ValueError, ask, 'infeasible-rejected', x=x, y=y, k=k)
    return False


def grid(ctx, rng):
    '''Exhaustive block: one x, all y and k.'''
    i = ctx.index
    x = i % 24 + 1
    ymax, kmax = (14, 26) if ctx.tier == 'quick' else (30, 60)
    ctx.describe(x=x, y=[1, ymax], k=[1, kmax])
    for y in range(1, ymax + 1):
        for k in range(1, kmax + 1):
            if one(ctx, rng, x, y, k, 0):
                ctx.state((x, y, k))


def random_shapes(ctx, rng):
    x, y = int(rng.integers(1, 60)), int(rng.integers(1, 60))
    k = int(rng.choice([rng.integers(1, 100), x * y if x * y < 400 else 7, max(x, y), min(x, y) ** 2,
                        rng.integers(1, 12), rng.integers(200, 1500)]))
    which = int(rng.integers(4))
    ctx.describe(x=x, y=y, k=k, which=which)
    ctx.trivial = k == 1
    one(ctx, rng, x, y, k, which)


WORKLOADS = [('grid', grid, 24, 24), ('random', random_shapes, 1200, 12000)]
