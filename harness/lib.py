'''Generators and independent reference models (oracles). Nothing here comes from the repository.'''
import math
import os

import numpy as np


# ------------------------------------------------------------------------------ generators

def shape2(rng, max_side=6, max_points=30, min_points=1, grow=0.0):
    '''
    2d shapes, biased to be non-square and to include 1 x n and n x 1. With probability grow the
    shape is much larger than the others.
    '''
    if grow and rng.random() < grow:
        return int(rng.integers(6, 14)), int(rng.integers(6, 26))
    while True:
        r = rng.random()
        if r < 0.12:
            x, y = 1, int(rng.integers(1, max_side + 1))
        elif r < 0.24:
            x, y = int(rng.integers(1, max_side + 1)), 1
        else:
            x, y = int(rng.integers(1, max_side + 1)), int(rng.integers(1, max_side + 1))
        if min_points <= x * y <= max_points:
            return x, y


VALUE_KINDS = ('normal', 'ties', 'offset', 'unique')


def values(rng, shape, kind=None, nan=0.0):
    kind = kind or VALUE_KINDS[int(rng.integers(len(VALUE_KINDS)))]
    n = int(np.prod(shape))
    if kind == 'normal':
        a = rng.normal(size=n)
    elif kind == 'ties':
        a = rng.integers(-2, 3, size=n).astype(float)
    elif kind == 'offset':
        a = rng.normal(size=n) * rng.choice([0.01, 10.0]) + rng.choice([-1e4, 300.0, 1e5])
    elif kind == 'positive':
        a = rng.random(n) * 20 + 0.5
    else:
        a = rng.permutation(n) * 1.25 - n / 3.0
    a = np.asarray(a, dtype=float).reshape(shape)
    if nan:
        a[rng.random(a.shape) < nan] = np.nan
    return a


def layout(rng, a):
    '''
    A copy of the array with the same shape and values, in one of the memory layouts numpy can
    produce: C or Fortran order, a view with strides, a reversed view or (rarely) read-only.
    Integral values are sometimes stored as integers.
    '''
    a = np.array(a)
    if a.dtype == float and rng.random() < 0.5 and np.all(np.isfinite(a)) and np.all(a == np.round(a)):
        a = a.astype(np.int64 if rng.random() < 0.7 else np.int32)
    r = rng.random()
    if r < 0.45:
        return a
    if r < 0.6:
        return np.asfortranarray(a)
    if r < 0.72:
        axes = [int(i) for i in rng.permutation(a.ndim)]
        base = np.ascontiguousarray(np.transpose(a, axes))
        return np.transpose(base, np.argsort(axes))
    if r < 0.84:
        base = np.full(tuple(2 * n + 1 for n in a.shape), 777, dtype=a.dtype)
        view = base[tuple(slice(1, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if r < 0.94:
        return np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])[
            tuple(slice(None, None, -1) for _ in a.shape)]
    a.flags.writeable = False
    return a


def clusters(rng, n, usual):
    '''A number of clusters for n points: usually small, sometimes any (also beyond ten).'''
    if rng.random() < 0.8:
        return int(rng.integers(1, min(n, usual) + 1))
    if n > 60:
        return int(rng.integers(1, 25))
    return int(rng.integers(1, n + 1))


def magnitude(rng):
    '''A scale for data: mostly one, sometimes very small or large.'''
    return float(rng.choice([1.0, 1.0, 1.0, 1e-5, 1e-2, 1e3, 1e6]))


def labels(rng, x, y, k):
    '''Cluster labels where every label in [0, k) is present at least once.'''
    n = x * y
    assert k <= n
    lab = np.concatenate([np.arange(k), rng.integers(0, k, size=n - k)]).astype(int)
    kind = rng.random()
    if kind < 0.25:
        lab = np.sort(lab)                      # contiguous bands
    elif kind < 0.4:
        lab = np.concatenate([np.arange(k), np.full(n - k, rng.integers(k))])  # singletons + rest
        rng.shuffle(lab)
    else:
        rng.shuffle(lab)
    lab = lab.astype(int).reshape(x, y)
    # the layout in memory has no meaning
    return np.asfortranarray(lab) if rng.random() < 0.3 else lab


def subrect(rng, x, y):
    x1 = int(rng.integers(0, x))
    x2 = int(rng.integers(x1 + 1, x + 1))
    y1 = int(rng.integers(0, y))
    y2 = int(rng.integers(y1 + 1, y + 1))
    return x1, x2, y1, y2


def interval(rng, n):
    t1 = int(rng.integers(0, n))
    t2 = int(rng.integers(t1 + 1, n + 1))
    return t1, t2


def series_field(rng, t, x, y, kind=None):
    '''Series with spatial structure: groups of points with related shapes plus noise.'''
    kind = kind or rng.choice(['groups', 'random', 'ties'])
    tt = np.arange(t)
    if kind == 'groups':
        g = int(rng.integers(1, 5))
        bases = [np.sin(tt * rng.uniform(0.2, 1.5) + rng.uniform(0, 6)) * rng.uniform(1, 5) +
                 rng.uniform(0, 20) for _ in range(g)]
        out = np.empty((t, x, y))
        for i in range(x):
            for j in range(y):
                out[:, i, j] = bases[int(rng.integers(g))] + rng.normal(size=t) * 0.3
        return out
    if kind == 'ties':
        m = int(rng.integers(2, max(3, x * y // 2 + 1)))
        pool = rng.integers(0, 4, size=(m, t)).astype(float)
        out = np.empty((t, x, y))
        for i in range(x):
            for j in range(y):
                out[:, i, j] = pool[int(rng.integers(m))]
        return out
    return rng.normal(size=(t, x, y)) * 3 + 10


# ------------------------------------------------------------------------------ reference models

def points(x, y):
    return [(i, j) for i in range(x) for j in range(y)]


def dtw(a, b):
    '''Textbook dynamic time warping: root of the minimal sum of squared differences of a path.'''
    a = [float(v) for v in a]
    b = [float(v) for v in b]
    inf = float('inf')
    prev = [0.0] + [inf] * len(b)
    for i in range(len(a)):
        cur = [inf] * (len(b) + 1)
        for j in range(len(b)):
            d = a[i] - b[j]
            m = prev[j]
            if prev[j + 1] < m:
                m = prev[j + 1]
            if cur[j] < m:
                m = cur[j]
            cur[j + 1] = d * d + m
        prev = cur
    return math.sqrt(prev[len(b)])


def dtw_matrix(series):
    n = len(series)
    m = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            m[i, j] = m[j, i] = dtw(series[i], series[j])
    return m


def series_list(a):
    '''[t, x, y] -> list of series in row-major order of the points.'''
    t, x, y = a.shape
    return [a[:, i, j].copy() for i, j in points(x, y)]


def mse(f, o, tr=None):
    return sum((fi - oi) ** 2 for fi, oi in zip(f, o)) / len(o)


def smape(f, o, tr=None):
    return sum(200.0 * abs(fi - oi) / (fi + oi) for fi, oi in zip(f, o)) / len(o)


def mase(f, o, tr):
    naive = sum(abs(tr[i] - tr[i - 1]) for i in range(1, len(tr))) / (len(tr) - 1)
    return sum(abs(fi - oi) / naive for fi, oi in zip(f, o)) / len(o)


ERRORS = {'MSE': mse, 'sMAPE': smape, 'MASE': mase}


def rms(values):
    '''Root mean squared of the values that are not missing.'''
    v = [float(x) for x in values if not math.isnan(float(x))]
    if not v:
        return float('nan')
    return math.sqrt(sum(x * x for x in v) / len(v))


def kmedoids_cost(dm, medoids):
    return float(np.sum(np.min(dm[:, list(medoids)], axis=1)))


# ------------------------------------------------------------------------------ datasets

CACHED_NAME = 'SouthAmerica'


def install_dataset(data, year_start, year_end, spd):
    '''Makes data (t, X, Y) the dataset of those years in the current directory, as cached file.'''
    from spta.dataset import temp_brazil
    os.makedirs('raw', exist_ok=True)
    temp_brazil.save_dataset_interval(data, temp_brazil.DATASET_NAME, year_start, year_end, spd)


def region_metadata(rng, x, y, scaled, name='reg', offset=None, year=2015, spd=1):
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    ox, oy = offset if offset is not None else (int(rng.integers(0, 4)), int(rng.integers(0, 4)))
    if offset is None and rng.random() < 0.15:       # coordinates of more than one digit
        far = int(rng.choice([9, 10, 11, 58, 98, 99, 100, 101]))
        ox, oy = (far, oy) if rng.random() < 0.5 else (ox, far)
    return SpatioTemporalRegionMetadata(name, Region(ox, ox + x, oy, oy + y), year, year, spd,
                                        scaled=scaled)


def world(rng, t, x, y, scaled=False, positive=True, kind=None, name='reg', offset=None, ties=False,
          level=1.0):
    '''
    A small world in the current directory: a dataset that is larger than the region, region
    metadata with an offset, and the values the region should have (unscaled).
    '''
    md = region_metadata(rng, x, y, scaled, name=name, offset=offset)
    X, Y = md.region.x2 + int(rng.integers(0, 3)), md.region.y2 + int(rng.integers(0, 3))
    data = series_field(rng, t, X, Y, kind=kind)
    if positive:
        data = data - data.min() + level
    install_dataset(data, 2015, 2015, 1)
    crop = data[:, md.region.x1:md.region.x2, md.region.y1:md.region.y2].copy()
    return md, data, crop


def scale(a):
    lo, hi = a.min(axis=0), a.max(axis=0)
    rngv = np.where(hi == lo, 1.0, hi - lo)
    return (a - lo) / rngv, lo, hi


def save_distances(md, crop_as_loaded):
    '''Saves the DTW distance matrix of a region where the code looks for it.'''
    m = dtw_matrix(series_list(crop_as_loaded))
    np.save(md.distances_filename, m)
    return m


def gen_tag(a):
    import hashlib
    return hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()[:10]


REGION_KINDS = ('plain', 'cluster', 'scaled', 'scaled-cluster')


def wrap(rng, a, kind, k=None):
    '''
    A spatio-temporal region of that kind over the data a (t, x, y); a is scaled here if the kind
    is scaled. -> (region, member points, values as the region has them, lo, hi)
    '''
    from spta.region.partition import PartitionRegionCrisp
    from spta.region.scaling import ScaleFunction
    from spta.region.temporal import SpatioTemporalRegion
    t, x, y = a.shape
    region = SpatioTemporalRegion(layout(rng, a))
    have, lo, hi = a.copy(), np.zeros((x, y)), np.ones((x, y))
    if kind.startswith('scaled'):
        region = ScaleFunction(x, y).apply_to(region, t)
        have = np.array(region.as_numpy)
        lo, hi = a.min(axis=0), a.max(axis=0)
    members = points(x, y)
    if kind.endswith('cluster'):
        k = k or int(rng.integers(1, min(x * y, 4) + 1))
        lab = labels(rng, x, y, k)
        c = int(rng.integers(k))
        region = PartitionRegionCrisp(lab, k).create_spt_cluster(region, c)
        members = [p for p in members if lab[p] == c]
    return region, members, have, lo, hi
