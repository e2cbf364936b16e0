'''P25: extremes of regions, clusters and arrays.'''
import numpy as np

import lib

RULE = ('Random regions, error regions, clusters and arrays (ties, missing values, infinities, negative '
        'zero, integers, members that hold no extreme) have their minimum and maximum compared with a scan '
        'in row-major order. Non-trivial: ties of the extreme, missing values or a cluster.')
ASSUMPTIONS = ['At least one finite value is present (what is returned for all-missing data is not claimed).']
REQUIRED_EVENTS = ['region', 'cluster', 'error-region', 'array', 'tie', 'missing', 'infinite',
                   'extreme-outside-cluster', 'error-cluster']


def setup():
    import spta.region.spatial, spta.region.partition, spta.model.error  # noqa
    import spta.util.arrays  # noqa


def field(rng, shape):
    n = int(np.prod(shape))
    kind = rng.random()
    if kind < 0.3:
        a = rng.integers(-3, 4, size=n).astype(float)
    elif kind < 0.4:
        a = np.full(n, float(rng.integers(-5, 5)))
    elif kind < 0.5:
        a = -np.abs(rng.normal(size=n)) - 1
    elif kind < 0.6:
        a = np.sort(rng.normal(size=n))[::int(rng.choice([1, -1]))].copy()
    elif kind < 0.7:
        a = rng.normal(size=n) * 1e-12 + 1
    elif kind < 0.76:
        a = np.where(rng.random(n) < 0.5, 0.0, -0.0)
    else:
        a = rng.normal(size=n) * 10.0 ** int(rng.integers(-5, 9))
    if rng.random() < 0.5:
        a[rng.random(n) < rng.uniform(0.05, 0.7)] = np.nan
    if rng.random() < 0.15:
        a[rng.random(n) < 0.3] = np.inf
    if rng.random() < 0.15:
        a[rng.random(n) < 0.3] = -np.inf
    return a.reshape(shape)


def scan(a, members):
    '''(point, value) of first minimum and first maximum.'''
    lo = hi = None
    for p in members:
        v = float(a[p])
        if v != v:
            continue
        if lo is None or v < lo[1]:
            lo = (p, v)
        if hi is None or v > hi[1]:
            hi = (p, v)
    return lo, hi


def note(ctx, a, members, lo, hi):
    vals = [float(a[p]) for p in members]
    tie = vals.count(lo[1]) > 1 or vals.count(hi[1]) > 1
    if tie:
        ctx.event('tie')
    if np.isnan(vals).any():
        ctx.event('missing')
    if np.isinf(vals).any():
        ctx.event('infinite')
    return tie or np.isnan(vals).any()


def judge(ctx, region, a, members):
    lo, hi = scan(a, members)
    if not (np.isfinite([a[p] for p in members]).any()):
        return
    for _ in range(2):
        p, v = region.find_minimum()
        ctx.eq(float(v), lo[1], 'minimum-value')
        ctx.eq((int(p.x), int(p.y)), lo[0], 'minimum-point', field=a)
        p, v = region.find_maximum()
        ctx.eq(float(v), hi[1], 'maximum-value')
        ctx.eq((int(p.x), int(p.y)), hi[0], 'maximum-point', field=a)


def regions(ctx, rng):
    from spta.model.error import ErrorRegion
    from spta.region import Region
    from spta.region.partition import PartitionRegionCrisp
    from spta.region.spatial import SpatialRegion
    interesting = False
    for _ in range(8):
        x, y = lib.shape2(rng, 7, 40, grow=0.02)
        a = field(rng, (x, y))
        pts = lib.points(x, y)
        if not np.isfinite(a).any():
            continue
        if rng.random() < 0.1 and np.isfinite(a).all():
            a = np.round(a).astype(int) if np.abs(a).max() < 1e6 else a
        frozen = np.array(a)
        kind = str(rng.choice(['region', 'cluster', 'error-region', 'cluster', 'subset']))
        if kind in ('region', 'subset'):
            ctx.event('region')
            region = SpatialRegion(lib.layout(rng, a))
            members = pts
            if kind == 'subset':
                x1, x2, y1, y2 = lib.subrect(rng, x, y)
                region = region.region_subset(Region(x1, x2, y1, y2))
                a = a[x1:x2, y1:y2]
                members = lib.points(x2 - x1, y2 - y1)
                frozen = np.array(a)
                if not np.isfinite(a).any():
                    continue
        elif kind == 'error-region':
            ctx.event('error-region')
            region, members = ErrorRegion(SpatialRegion(lib.layout(rng, a))), pts
        else:
            k = lib.clusters(rng, len(pts), 4)
            lab = lib.labels(rng, x, y, k)
            c = int(rng.integers(k))
            members = [p for p in pts if lab[p] == c]
            if not any(np.isfinite(float(a[p])) for p in members):
                continue
            ctx.event('cluster')
            inner = SpatialRegion(a)
            if rng.random() < 0.3:
                inner = ErrorRegion(inner)
            region = PartitionRegionCrisp(lab, k).create_spatial_cluster(inner, c)
            if rng.random() < 0.3:
                ctx.event('error-cluster')
                region = ErrorRegion(region)
            allo, alhi = scan(a, pts)
            if allo[0] not in members or alhi[0] not in members:
                ctx.event('extreme-outside-cluster')
            interesting = True
        if not any(np.isfinite(float(a[p])) for p in members):
            continue
        lo, hi = scan(a, members)
        interesting = note(ctx, a, members, lo, hi) or interesting
        judge(ctx, region, a, members)
        ctx.same(np.array(a), frozen, 'region-unchanged')
    ctx.describe(tag=lib.gen_tag(rng.random(4)))
    ctx.trivial = not interesting


def arrays(ctx, rng):
    from spta.util import arrays as au
    interesting = False
    for _ in range(8):
        d = int(rng.integers(1, 5))
        shape = tuple(int(v) for v in rng.integers(1, 6, size=d))
        a = field(rng, shape)
        if not np.isfinite(a).any():
            continue
        ctx.event('array')
        members = list(np.ndindex(*shape))
        lo, hi = scan(a, members)
        interesting = note(ctx, a, members, lo, hi) or interesting
        frozen = a.copy()
        v, i = au.minimum_value_and_index(a)
        ctx.eq(float(v), lo[1], 'array-minimum-value', array=a)
        ctx.eq(tuple(int(q) for q in i), lo[0], 'array-minimum-index', array=a)
        v, i = au.maximum_value_and_index(a)
        ctx.eq(float(v), hi[1], 'array-maximum-value', array=a)
        ctx.eq(tuple(int(q) for q in i), hi[0], 'array-maximum-index', array=a)
        ctx.same(a, frozen, 'array-unchanged')
    ctx.describe(tag=lib.gen_tag(rng.random(4)))
    ctx.trivial = not interesting


WORKLOADS = [('regions', regions, 6000, 8000), ('arrays', arrays, 3600, 5000)]
