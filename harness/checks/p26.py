'''P26: fuzzy memberships and fuzzy masks.'''
import numpy as np

import lib

RULE = ('Memberships are computed for random series or hostile distance tables (near-ties, huge ranges, '
        'computed and precomputed distances), by the membership function and by the whole fuzzy algorithm, '
        'and compared with the definition; masks are built over computed and constructed memberships with '
        'thresholds at, just under and just over the occurring differences, and queried in several orders. '
        'Non-trivial: at least 2 clusters.')
ASSUMPTIONS = ['The fuzzifier is between 1.2 and 4 and the distances between different series span at most 6 '
               'orders of magnitude.',
               'A membership difference within 1e-12 of the threshold but not bitwise equal to it is not judged.']
REQUIRED_EVENTS = ['membership', 'precomputed', 'measured', 'run', 'no-swap-run', 'swap-run', 'from-params', 'equal-series', 'given-optimum', 'large-run',
                   'large-swap-run', 'large-distances',
                   'mask', 'threshold-zero',
                   'threshold-one', 'threshold-equal', 'in-many-clusters', 'clone']


def setup():
    import spta.kmedoids.kmedoids_fuzzy, spta.region.mask  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


class Table(object):
    '''A measure over a table of distances (the public protocol: distance_matrix or measure).'''

    def __init__(self, dm, precomputed, series):
        self.distance_matrix = dm if precomputed else None
        self.table = dm
        self.index = {tuple(float(v) for v in s): i for i, s in enumerate(series)}
        self.calls = 0

    def measure(self, a, b):
        self.calls += 1
        return self.table[self.index[tuple(float(v) for v in a)], self.index[tuple(float(v) for v in b)]]


def table(rng, n):
    kind = rng.random()
    if kind < 0.3:
        m = rng.uniform(0.1, 10.0, size=(n, n))
    elif kind < 0.55:
        m = rng.integers(1, 4, size=(n, n)).astype(float)
    elif kind < 0.8:
        m = 10.0 ** rng.uniform(-3, 3, size=(n, n))
    else:
        m = 1.0 + rng.uniform(0, 1e-9, size=(n, n))
    m = np.tril(m, -1)
    return m + m.T


def reference(dm, medoids, m):
    n, k = len(dm), len(medoids)
    u = np.zeros((n, k))
    for i in range(n):
        if i in medoids:
            u[i, medoids.index(i)] = 1.0
            continue
        d = [dm[i, q] for q in medoids]
        if min(d) == 0:
            # equal to some medoids: the limit of the definition, shared among them
            u[i] = [float(v == 0) / d.count(0) for v in d]
            continue
        for j in range(k):
            u[i, j] = 1.0 / sum((d[j] / d[c]) ** (1.0 / (m - 1)) for c in range(k))
    return u


def judge_memberships(ctx, u, dm, medoids, m):
    u = np.asarray(u)
    n, k = len(dm), len(medoids)
    ctx.eq(u.shape, (n, k), 'membership-shape')
    ctx.ok(bool((u >= 0).all() and (u <= 1).all()), 'membership-range', 'outside [0, 1]', u=u)
    ctx.close(u.sum(axis=1), np.ones(n), 'membership-sums-to-one', rtol=1e-9)
    for j, q in enumerate(medoids):
        ctx.eq([float(v) for v in u[q]], [1.0 if c == j else 0.0 for c in range(k)],
               'medoid-full-membership', medoid=q)
    for i in range(n):
        order = sorted(range(k), key=lambda j: dm[i, medoids[j]])
        for p, q in zip(order, order[1:]):
            if dm[i, medoids[p]] == dm[i, medoids[q]]:
                continue
            ctx.ok(u[i, p] >= u[i, q] - 1e-12, 'membership-not-increasing-with-distance',
                   'a farther medoid has more', point=i, u=u[i], d=dm[i])
    ctx.close(u, reference(dm, medoids, m), 'membership-definition', rtol=1e-8, atol=1e-12)


def make(rng):
    n = int(rng.integers(2, 11))
    t = int(rng.integers(2, 6))
    series = rng.permutation(n)[:, None] * 3.0 + rng.normal(size=(n, t))
    if rng.random() < 0.5:
        dm = table(rng, n)
    else:
        dm = lib.dtw_matrix(series)
        if not (dm[~np.eye(n, dtype=bool)] > 1e-3).all():
            dm = table(rng, n)
    k = int(rng.integers(1, min(n, 5) + 1))
    m = float(rng.choice([2, 2, 1.2, 1.5, 3, rng.uniform(1.2, 4)]))
    if rng.random() < 0.2:
        m = int(max(2, m))
    if rng.random() < 0.3:
        # some points have equal series
        source = np.concatenate([np.arange(n), rng.integers(0, n, size=int(rng.integers(1, 4)))])
        source = rng.permutation(source)
        series, dm = series[source], dm[np.ix_(source, source)]
    return series, dm, k, m


def memberships(ctx, rng):
    from spta.kmedoids import Medoid
    from spta.kmedoids import kmedoids_fuzzy as kf
    for _ in range(3):
        series, dm, k, m = make(rng)
        n = len(dm)
        ctx.event('membership')
        medoids = [int(v) for v in rng.permutation(n)[:k]]
        pre = bool(rng.random() < 0.5)
        measure = Table(dm.copy(), pre, series)
        meds = [Medoid(i, series[i]) for i in medoids]
        X = series.copy()
        u, costs, total, dist = kf.compute_membership_fcm(X, m, meds, measure, 0.001)
        ctx.event('precomputed' if pre else 'measured')
        if (dm + np.eye(n) == 0).any():
            ctx.event('equal-series')
        judge_memberships(ctx, u, dm, medoids, m)
        ctx.close(np.asarray(dist), dm[:, medoids], 'distances-to-medoids')
        want = [(u[:, j] * dm[:, q]).sum() for j, q in enumerate(medoids)]
        ctx.close(np.asarray(costs), want, 'cluster-cost', rtol=1e-9)
        ctx.close(float(total), sum(want), 'total-cost', rtol=1e-9)
        ctx.same(X, series, 'series-unchanged')
        if pre:
            ctx.same(measure.distance_matrix, dm, 'distances-unchanged')
    ctx.describe(n=n, k=k, m=m, tag=lib.gen_tag(dm))
    ctx.trivial = k < 2


def algorithm(ctx, rng):
    from spta.kmedoids import kmedoids_fuzzy as kf
    series, dm, k, m = make(rng)
    n = len(dm)
    pre = bool(rng.random() < 0.7)
    init = None
    kind = rng.random()
    if kind < 0.4:
        init = [int(v) for v in rng.permutation(n)[:k]]
    seed = int(rng.integers(0, 50))
    limit = int(rng.choice([0, 1, 1000]))
    ctx.event('run')

    wrapped = bool(rng.random() < 0.4)

    def go(initial, seed=seed):
        if wrapped:
            ctx.event('from-params')
            return kf.run_kmedoids_fuzzy_from_params(series.copy(), kf.kmedoids_fuzzy_default_params(
                k, m=m, distance_measure=Table(dm.copy(), pre, series), initial_medoids=initial, random_seed=seed,
                max_iter=limit, verbose=bool(rng.random() < 0.3)))
        return kf.run_kmedoids_fuzzy(series.copy(), k, m, Table(dm.copy(), pre, series),
                                     initial_medoids=initial, random_seed=seed, max_iter=limit,
                                     tol=0.001, verbose=bool(rng.random() < 0.3))
    r = go(init)
    medoids = [int(v) for v in r.medoids]
    ctx.eq(len(set(medoids)), k, 'distinct-medoids', medoids=medoids)
    ctx.ok(all(0 <= q < n for q in medoids), 'medoids-in-region', str(medoids))
    judge_memberships(ctx, r.uij, dm, medoids, m)
    want = [(np.asarray(r.uij)[:, j] * dm[:, q]).sum() for j, q in enumerate(medoids)]
    ctx.close(np.asarray(r.costs), want, 'result-costs', rtol=1e-9)
    ctx.close(float(r.total_cost), sum(want), 'result-total-cost', rtol=1e-9)
    if init is not None:
        u0 = reference(dm, init, m)
        c0 = sum((u0[:, j] * dm[:, q]).sum() for j, q in enumerate(init))
        ctx.ok(r.total_cost <= c0 + 1e-9 * max(1.0, abs(c0)), 'no-worse-than-start',
               '{} vs {}'.format(r.total_cost, c0))
        ctx.event('swap-run' if medoids != init else 'no-swap-run')
    # converged: restarting from the medoids finds nothing better
    if limit == 1000:
        best = float(r.total_cost)
        for j in range(k):
            for i in range(n):
                if i in medoids:
                    continue
                alt = list(medoids)
                alt[j] = i
                ua = reference(dm, alt, m)
                ca = sum((ua[:, c] * dm[:, q]).sum() for c, q in enumerate(alt))
                ctx.ok(best - ca <= 0.001 + 1e-9, 'local-optimum', 'swap {} -> {} saves {}'.format(
                    medoids[j], i, best - ca))
        # a given start that cannot be improved is the answer, whatever the seed
        ctx.event('given-optimum')
        ctx.eq([int(v) for v in go(list(medoids), int(rng.integers(0, 50))).medoids], medoids, 'keeps-given-optimum')
    again = go(init)
    ctx.eq([int(v) for v in again.medoids], medoids, 'reproducible')
    ctx.same(np.asarray(again.uij), np.asarray(r.uij), 'reproducible-memberships')
    ctx.describe(n=n, k=k, m=m, seed=seed, tag=lib.gen_tag(dm))
    ctx.trivial = k < 2


def cost_of(dm, medoids, m):
    '''Total cost of distinct medoids; every other point differs from all of them.'''
    d = dm[:, medoids]
    rest = [i for i in range(len(dm)) if i not in medoids]
    w = d[rest] ** (-1.0 / (m - 1))
    return float((w / w.sum(axis=1, keepdims=True) * d[rest]).sum())


def large(ctx, rng):
    '''More points, larger distances, starts far from any optimum: many swaps before the run may stop.'''
    from spta.kmedoids import kmedoids_fuzzy as kf
    n, k = int(rng.integers(14, 45)), int(rng.integers(2, 6))
    at = rng.normal(size=(n, int(rng.integers(1, 4)))) + rng.integers(0, 3, size=n)[:, None] * float(rng.choice([0, 4]))
    dm = np.sqrt(((at[:, None] - at[None]) ** 2).sum(axis=2)) + 0.02
    np.fill_diagonal(dm, 0)
    line = rng.random() < 0.4
    if line:                                     # every swap makes the next one possible
        n, k = int(rng.integers(25, 60)), int(rng.integers(3, 8))
        at = np.cumsum(np.ones(n) if rng.random() < 0.5 else rng.exponential(size=n))[::-1, None]
        at = at ** float(rng.choice([1, 1.5]))
        dm = np.abs(at - at.T) + 0.02
        np.fill_diagonal(dm, 0)
    elif rng.random() < 0.5:
        raw = np.tril(rng.uniform(0.1, 1, size=(n, n)), -1)
        dm = raw + raw.T
    level = float(rng.choice([1.0, 100.0, 1e4]))
    dm = dm * level
    if level > 1:
        ctx.event('large-distances')
    series = rng.permutation(n)[:, None] * 3.0 + rng.normal(size=(n, 3))
    m = float(rng.choice([2, 2, 1.2 if line else 2, 1.5, 3]))
    init = [int(v) for v in rng.permutation(n)[:k]]
    if line or rng.random() < 0.6:               # all at one edge
        init = [int(v) for v in np.argsort(at[:, 0])[:k]]
    r = kf.run_kmedoids_fuzzy(series.copy(), k, m, Table(dm.copy(), True, series), initial_medoids=list(init),
                              random_seed=1, max_iter=1000, tol=0.001, verbose=False)
    ctx.event('large-run')
    med = [int(v) for v in r.medoids]
    ctx.describe(n=n, k=k, m=m, level=level, start=init, medoids=med, tag=lib.gen_tag(dm))
    ctx.eq(len(set(med)), k, 'distinct-medoids', medoids=med)
    judge_memberships(ctx, r.uij, dm, med, m)
    best = cost_of(dm, med, m)
    tiny = 1e-9 * max(1.0, best)
    ctx.close(float(r.total_cost), best, 'result-total-cost', rtol=1e-9)
    ctx.ok(best <= cost_of(dm, init, m) + tiny, 'no-worse-than-start', start=init)
    for j in range(k):
        for i in range(n):
            if i not in med:
                saved = best - cost_of(dm, med[:j] + [i] + med[j + 1:], m)
                ctx.ok(saved <= 0.001 + tiny, 'local-optimum', 'swap {} -> {} saves {}'.format(med[j], i, saved))
    if sorted(med) != sorted(init):
        ctx.event('large-swap-run')


def masks(ctx, rng):
    from spta.region import Point
    from spta.region.mask import MaskRegionFuzzy
    x, y = lib.shape2(rng, 6, 24, grow=0.02)
    n = x * y
    k = int(rng.integers(1, 6))
    kind = rng.random()
    if kind < 0.4:
        w = rng.random((n, k)) + 1e-3
        u = w / w.sum(axis=1, keepdims=True)
    elif kind < 0.75:
        u = np.zeros((n, k))                     # multiples of 1/8: exact differences
        for i in range(n):
            cuts = np.sort(rng.integers(0, 9, size=k - 1))
            u[i] = np.diff(np.concatenate([[0], cuts, [8]])) / 8.0
    else:
        u = np.zeros((n, k))
        u[np.arange(n), rng.integers(0, k, size=n)] = 1.0
    diffs = sorted({float(u[i].max() - u[i, j]) for i in range(n) for j in range(k)})
    for _ in range(6):
        pick = rng.random()
        if pick < 0.2:
            thr = int(rng.integers(0, 2)) if rng.random() < 0.5 else float(rng.integers(0, 2))
        elif pick < 0.65:
            thr = diffs[int(rng.integers(len(diffs)))]
        elif pick < 0.8:
            d = diffs[int(rng.integers(len(diffs)))]
            thr = float(min(1.0, max(0.0, d + rng.choice([-1e-6, 1e-6]))))
        else:
            thr = float(rng.random())
        if thr == 0:
            ctx.event('threshold-zero')
        elif thr == 1:
            ctx.event('threshold-one')
        elif thr in diffs:
            ctx.event('threshold-equal')
        total = {}
        for c in range(k):
            ctx.event('mask')
            if rng.random() < 0.5:
                mask = MaskRegionFuzzy.from_uij_and_region(u.copy(), x, y, c, thr)
            else:
                mask = MaskRegionFuzzy(u.T.reshape(k, x, y).copy(), c, thr)
            if rng.random() < 0.3:
                ctx.event('clone')
                other = mask
                mask = mask.clone()
                list(other)
                other.numpy_dataset[:] = 0.0
            want, unsure = [], set()
            for i, p in enumerate(lib.points(x, y)):
                d = float(u[i].max() - u[i, c])
                if d <= thr:
                    want.append(p)
                if d != thr and abs(d - thr) < 1e-12:
                    unsure.add(p)
                total.setdefault(p, 0)
                total[p] += d <= thr
            if unsure:
                continue
            checks = ['len', 'iter', 'member', 'iter', 'len']
            rng.shuffle(checks)
            for q in checks:
                if q == 'len':
                    ctx.eq(int(mask.cluster_len), len(want), 'mask-size', thr=thr, cluster=c)
                elif q == 'iter':
                    ctx.eq([(int(p.x), int(p.y)) for p in mask], want, 'mask-points', thr=thr, cluster=c)
                else:
                    got = [p for p in lib.points(x, y) if mask.is_member(Point(*p))]
                    ctx.eq(got, want, 'mask-membership', thr=thr, cluster=c)
            ctx.eq(bool(mask.is_member(None)), False, 'no-point-is-no-member')
            ctx.eq((int(mask.x_len), int(mask.y_len)), (x, y), 'mask-shape')
            if thr == 1:
                ctx.eq(len(want), n, 'threshold-one-oracle')
        ctx.ok(all(v >= 1 for v in total.values()), 'oracle-every-point-somewhere', '')
        if any(v > 1 for v in total.values()):
            ctx.event('in-many-clusters')
    for bad in (-0.001, 1.001, -1, 2):
        ctx.raises((AssertionError, ValueError),
                   lambda: MaskRegionFuzzy(u.T.reshape(k, x, y), 0, bad), 'invalid-threshold-refused')
    ctx.describe(shape=[x, y], k=k, tag=lib.gen_tag(u))
    ctx.trivial = k < 2


WORKLOADS = [('memberships', memberships, 240, 6000), ('algorithm', algorithm, 192, 4000), ('large', large, 160, 3000),
             ('masks', masks, 240, 6000)]
