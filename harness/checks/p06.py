'''P06: k-medoids results audited against the distances; every swap of its update rule is retried.'''
import numpy as np

import lib

RULE = ('A case runs k-medoids (lite/robust, given or seeded initial medoids, as list, tuple or array, '
        'small and large iteration limits) on random data with groups, ties and duplicated series, with '
        'DTW, RMSE-like, or an arbitrary symmetric distance, with and without a matrix. The result is '
        'audited against an independent distance matrix; all swaps of the update rule are retried. '
        'Non-trivial: 2 <= k < n.')
ASSUMPTIONS = ['Distances are symmetric, non-negative, zero on the diagonal.',
               'With the default limit of 1000 iterations a run on the items used here has converged.']
REQUIRED_EVENTS = ['audit', 'swap-retried', 'equal-series', 'initial-given', 'initial-seeded',
                   'matrix', 'on-the-fly', 'mode:lite', 'mode:robust', 'improved', 'large', 'line', 'many-clusters']


def setup():
    import spta.kmedoids.kmedoids, spta.clustering.kmedoids, spta.clustering.factory  # noqa
    import spta.region.metadata, spta.dataset.temp_brazil  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def make_distance(rng, which, X):
    '''-> (distance measure of the repository's kind, independent matrix)'''
    from spta.distance import DistanceBetweenSeries
    from spta.distance.dtw import DistanceByDTW
    n = len(X)
    if which == 'dtw':
        return DistanceByDTW(), lib.dtw_matrix(list(X))
    if which == 'l1':
        class L1(DistanceBetweenSeries):
            def measure(self, a, b):
                return float(np.sum(np.abs(a - b)))
        return L1(), np.abs(X[:, None, :] - X[None, :, :]).sum(axis=2)
    # arbitrary distances, not a metric; items recognised by their first sample
    m = rng.integers(0, 20, size=(n, n)) * 0.5 if rng.random() < 0.5 else rng.random((n, n)) * 9
    m = np.triu(m, 1)
    m = m + m.T
    X[:, 0] = np.arange(n)

    class Arbitrary(DistanceBetweenSeries):
        def measure(self, a, b):
            return float(m[int(a[0]), int(b[0])])
    return Arbitrary(), m


def audit(ctx, res, dm, k, n, seed, mode):
    ctx.event('audit')
    med = [int(m) for m in res.medoids]
    ctx.eq((res.k, res.random_seed, res.mode), (k, seed, mode), 'result-identity')
    ctx.eq(len(med), k, 'k-medoids')
    ctx.eq(len(set(med)), k, 'distinct-medoids', medoids=med)
    ctx.ok(all(0 <= m < n for m in med), 'medoids-in-data', medoids=med)
    labels = np.asarray(res.labels).astype(int)
    ctx.eq(labels.shape, (n,), 'labels-shape')
    near = dm[:, med].min(axis=1)
    own = np.array([dm[i, med[labels[i]]] for i in range(n)])
    ctx.close(own, near, 'nearest-medoid', rtol=1e-9, atol=1e-12, medoids=med, labels=labels)
    ctx.eq([int(labels[m]) for m in med], list(range(k)), 'medoid-in-own-cluster')
    costs = [float(sum(own[i] for i in range(n) if labels[i] == c)) for c in range(k)]
    ctx.close(res.costs, costs, 'cluster-costs', rtol=1e-9, atol=1e-9)
    ctx.close(res.total_cost, sum(costs), 'total-cost', rtol=1e-9, atol=1e-9)
    ctx.close(res.medoid_distances, dm[:, med], 'medoid-distances', rtol=1e-9, atol=1e-9)
    return med, labels


def algorithm(ctx, rng):
    from spta.kmedoids.kmedoids import (run_kmedoids, kmedoids_default_metadata,
                                        run_kmedoids_from_metadata)
    n = int(rng.integers(3, 23 if ctx.tier == 'thorough' else 16))
    t = int(rng.integers(2, 7))
    k = int(rng.integers(2, min(n, 6) + 1)) if rng.random() < 0.8 else int(rng.integers(2, n + 1))
    which = str(rng.choice(['dtw', 'l1', 'arbitrary']))
    X = np.array(lib.series_list(lib.series_field(rng, t, n, 1)))
    if which != 'arbitrary' and rng.random() < 0.35:      # equal series
        for _ in range(int(rng.integers(1, n))):
            X[int(rng.integers(n))] = X[int(rng.integers(n))]
    measure, dm = make_distance(rng, which, X)
    if np.any(dm[np.triu_indices(n, 1)] == 0):
        ctx.event('equal-series')
    mode = str(rng.choice(['lite', 'robust']))
    ctx.event('mode:' + mode)
    seed = int(rng.integers(0, 1000))
    max_iter = int(rng.choice([1000, 1000, 1000, 0, 1]))
    tol = float(rng.choice([0.001, 0.001, 0.25]))
    given = None
    if rng.random() < 0.5:
        idx = [int(i) for i in rng.permutation(n)[:k]]
        given = [idx, tuple(idx), np.array(idx)][int(rng.integers(3))]
        ctx.event('initial-given')
    else:
        np.random.seed(seed)
        idx = [int(i) for i in np.random.choice(n, size=k, replace=False)]
        ctx.event('initial-seeded')
    use_matrix = bool(rng.random() < 0.5)
    ctx.describe(n=n, k=k, distance=which, mode=mode, seed=seed, max_iter=max_iter, tol=tol,
                 initial=idx if given is not None else None, matrix=use_matrix, data=lib.gen_tag(X))
    ctx.trivial = k == n
    before = X.copy()
    if use_matrix:
        measure.distance_matrix = dm.copy()
    ctx.event('matrix' if use_matrix else 'on-the-fly')
    initial = given
    np.random.seed(int(rng.integers(2 ** 31)))      # the state of the generator must not matter
    if rng.random() < 0.3:
        res = run_kmedoids_from_metadata(X, kmedoids_default_metadata(
            k, distance_measure=measure, initial_medoids=initial, random_seed=seed, mode=mode,
            max_iter=max_iter, tol=tol))
    else:
        res = run_kmedoids(X, k, measure, initial_medoids=initial, random_seed=seed, mode=mode,
                           max_iter=max_iter, tol=tol, verbose=bool(rng.random() < 0.5))
    ctx.same(X, before, 'data-unchanged')
    if given is not None:
        ctx.eq([int(i) for i in given], idx, 'initial-unchanged')
    med, labels = audit(ctx, res, dm, k, n, seed, mode)
    start, total = lib.kmedoids_cost(dm, idx), lib.kmedoids_cost(dm, med)
    ctx.ok(total <= start + 1e-9, 'not-worse-than-initial', initial=start, final=total)
    if total < start - 1e-9:
        ctx.event('improved')
    ctx.state((k, n, tuple(sorted(med)) == tuple(sorted(idx)), mode))
    if max_iter >= 1000:
        for j in range(k):
            cand = range(n) if mode == 'robust' else [i for i in range(n) if labels[i] == j]
            for i in cand:
                if i in med:
                    continue
                ctx.event('swap-retried')
                other = med[:j] + [i] + med[j + 1:]
                ctx.ok(total - lib.kmedoids_cost(dm, other) <= tol + 1e-9, 'local-optimum',
                       medoids=med, replace=j, by=i, gain=total - lib.kmedoids_cost(dm, other))
    # same inputs: same result, with the distances from the other source
    m2, d2 = measure, dm
    m2.distance_matrix = None if use_matrix else dm.copy()
    if which == 'dtw' and not use_matrix:
        m2.distance_matrix = np.array(m2.compute_distance_matrix(X))
    again = run_kmedoids(X, k, m2, initial_medoids=initial, random_seed=seed, mode=mode,
                         max_iter=max_iter, tol=tol, verbose=False)
    # ties that differ by rounding only are not told apart: exact for exact distances
    if which != 'dtw' or not np.any(np.abs(X - np.round(X)) > 0):
        ctx.eq([int(m) for m in again.medoids], med, 'same-result-any-distance-source')
        ctx.same(again.labels, labels, 'same-result-any-distance-source')
    else:
        ctx.close(again.total_cost, res.total_cost, 'same-result-any-distance-source')
    audit(ctx, again, d2, k, n, seed, mode)
    third = run_kmedoids(X, k, m2, initial_medoids=initial, random_seed=seed, mode=mode,
                         max_iter=max_iter, tol=tol, verbose=False)
    ctx.eq([int(m) for m in third.medoids], [int(m) for m in again.medoids], 'deterministic')
    ctx.same(third.labels, again.labels, 'deterministic')


def through_factory(ctx, rng):
    '''The clustering algorithm on a region: partition and medoids are those of a valid result.'''
    from spta.distance.dtw import DistanceByDTW
    from spta.region.temporal import SpatioTemporalRegion
    from spta.clustering.factory import ClusteringFactory, ClusteringMetadataFactory
    from spta.kmedoids.kmedoids import run_kmedoids
    x, y = lib.shape2(rng, 5, 16, min_points=4)
    n, t = x * y, int(rng.integers(2, 6))
    k = int(rng.integers(2, min(n, 6)))
    a = lib.series_field(rng, t, x, y)
    X = np.array(lib.series_list(a))
    dm = lib.dtw_matrix(list(X))
    mode = str(rng.choice(['lite', 'robust']))
    ctx.event('mode:' + mode)
    seed = int(rng.integers(0, 50))
    kw = {}
    if rng.random() < 0.4:
        kw['initial_medoids'] = [int(i) for i in rng.permutation(n)[:k]]
    ctx.describe(shape=[t, x, y], k=k, seed=seed, mode=mode, data=lib.gen_tag(a), **kw)
    md = ClusteringMetadataFactory().instance('kmedoids', k, random_seed=seed, mode=mode, **kw)
    part = ClusteringFactory(DistanceByDTW()).instance(md).partition(SpatioTemporalRegion(lib.layout(rng, a)))
    ref = run_kmedoids(X, k, DistanceByDTW(), random_seed=seed, mode=mode, verbose=False, **kw)
    med, labels = audit(ctx, ref, dm, k, n, seed, mode)
    ctx.eq([int(p.x) * y + int(p.y) for p in part.medoids], med, 'partition-medoids')
    ctx.same(np.asarray(part.as_numpy).ravel().astype(int), labels, 'partition-labels')


def large(ctx, rng):
    '''More items, given distances: cheap enough to retry every swap.'''
    from spta.kmedoids.kmedoids import run_kmedoids
    n, k = int(rng.integers(24, 91)), int(rng.integers(2, 6))
    X = np.array(lib.series_list(lib.series_field(rng, int(rng.integers(2, 12)), n, 1)))
    mode = str(rng.choice(['lite', 'lite', 'robust']))
    initial = None
    if rng.random() < 0.4:          # on a line, started at one end: sweep after sweep of swaps
        n = int(rng.integers(40, 141))
        if rng.random() < 0.25:
            n, k = int(rng.integers(180, 240)), 2
        at = np.cumsum(np.ones(n) if rng.random() < 0.5 else rng.exponential(size=n))[::-1]
        X = np.repeat((at ** float(rng.choice([1, 1.5])))[:, None], int(rng.integers(1, 3)), axis=1)
        X = X * float(rng.choice([1.0, 100.0]))
        initial = [int(i) for i in rng.permutation(k)]
        ctx.event('line')
        if mode == 'robust':
            k = min(k, 3)
            initial = [int(i) for i in rng.permutation(k)]
            X, n = X[:80], min(n, 80)
    elif rng.random() < 0.15:       # more clusters than fit a small integer
        n = int(rng.integers(140, 180))
        k, mode = int(rng.integers(130, n)), 'lite'
        X = np.array(lib.series_list(lib.series_field(rng, int(rng.integers(2, 6)), n, 1)))
        ctx.event('many-clusters')
    elif mode == 'robust':
        X, n = X[:40], min(n, 40)
    measure, dm = make_distance(rng, 'l1', X)
    measure.distance_matrix = dm.copy()
    seed, tol = int(rng.integers(0, 1000)), float(rng.choice([0.001, 0.25, 1.0, 5.0]))
    ctx.event('mode:' + mode)
    ctx.event('large')
    ctx.describe(n=n, k=k, mode=mode, seed=seed, tol=tol, initial=initial, data=lib.gen_tag(X))
    res = run_kmedoids(X, k, measure, initial_medoids=initial, random_seed=seed, mode=mode, tol=tol,
                       verbose=False)
    med, labels = audit(ctx, res, dm, k, n, seed, mode)
    total = lib.kmedoids_cost(dm, med)
    for j in range(k):
        for i in (range(n) if mode == 'robust' else np.flatnonzero(labels == j)):
            if int(i) in med:
                continue
            ctx.event('swap-retried')
            other = med[:j] + [int(i)] + med[j + 1:]
            gain = total - lib.kmedoids_cost(dm, other)
            ctx.ok(gain <= tol + 1e-9, 'local-optimum', medoids=med, replace=j, by=int(i), gain=gain)


WORKLOADS = [('algorithm', algorithm, 200, 9000), ('large', large, 60, 1500), ('through_factory', through_factory, 60, 1500)]
