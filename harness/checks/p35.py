'''P35: DTW barycentre averaging and synthetic series, against textbook definitions.'''
import csv
import random

import numpy as np

import lib

RULE = ('Random sets of series (equal, constant, tied, of different lengths, with shared work matrices that hold '
        'garbage) are averaged step by step and as a whole: distances are compared with textbook DTW, the starting '
        'medoid with brute force, and every update must not increase the sum of squared DTW distances. Synthetic '
        'labelled series are generated with and without noise and every row is recomputed from its label. '
        'Non-trivial: at least 2 different series.')
ASSUMPTIONS = ['Sums of squares are compared up to rounding.', 'A delayed profile needs at least 14 samples.']
REQUIRED_EVENTS = ['dtw', 'different-lengths', 'medoid', 'medoid-tie', 'medoid-sampled', 'update', 'improved', 'fixed-point',
                   'average', 'no-iterations', 'single-series', 'long', 'aligned', 'synthetic', 'noise', 'csv', 'delayed', 'medium-set',
                   'longest-inside']


def setup():
    import spta.dba.dba, spta.classifier.synthetic, spta.dataset.synthetic_temporal  # noqa


def sq(s, t):
    return lib.dtw(s, t) ** 2


def sse(center, series):
    return sum(sq(center, s) for s in series)


def series_set(ctx, rng, n):
    kind = int(rng.integers(4))
    top = int(rng.integers(2, 9))
    out = []
    for i in range(n):
        length = top if kind < 2 else int(rng.integers(1, top + 1))
        s = lib.values(rng, length) if rng.random() < 0.3 else rng.normal(size=length)
        if kind == 1 or rng.random() < 0.2:
            s = rng.integers(-2, 3, size=length).astype(float)
        if out and rng.random() < 0.2:
            s = out[int(rng.integers(len(out)))].copy()
        out.append(np.asarray(s, dtype=float).ravel())
    if len({len(s) for s in out}) > 1:
        ctx.event('different-lengths')
    return out


def matrices(rng, series):
    '''Work matrices, maybe larger than needed, that hold values of other series.'''
    n = max(len(s) for s in series) + int(rng.integers(0, 3))
    return rng.normal(size=(n, n)) * 100, rng.integers(-1, 3, size=(n, n)).astype(np.int8), rng.normal(size=(n, n)) * 100


def averaging(ctx, rng):
    from spta.dba import dba
    n = int(rng.integers(1, 8))
    if rng.random() < 0.25:
        n = int(rng.choice([int(rng.integers(8, 51)), 50]))
        ctx.event('medium-set')
    series = series_set(ctx, rng, n)
    keep = [s.copy() for s in series]
    scale = max(1.0, max(float(np.abs(s).max()) for s in series)) ** 2 * 10
    cost, path, delta = matrices(rng, series)
    ctx.trivial = len({s.tobytes() for s in series}) < 2
    ctx.describe(series=[s.tolist() for s in series])
    if n == 1:
        ctx.event('single-series')
    for _ in range(4):
        a, b = series[int(rng.integers(n))], series[int(rng.integers(n))]
        ctx.event('dtw')
        want = sq(a, b)
        ctx.close(dba.squared_DTW(a, b, cost, delta), want, 'squared-dtw', rtol=1e-9, atol=1e-9 * scale)
        ctx.close(dba.DTW(a, b, cost, delta), np.sqrt(want), 'dtw', rtol=1e-7, atol=1e-7 * scale)
    ctx.close(dba.sum_of_squares(series[0], series, cost, delta), sse(series[0], series), 'sum-of-squares',
              rtol=1e-9, atol=1e-9 * scale)
    totals = [sse(s, series) for s in series]
    m = dba.approximate_medoid_index(series, cost, delta)
    ctx.event('medoid')
    if sum(v <= min(totals) * (1 + 1e-12) for v in totals) > 1:
        ctx.event('medoid-tie')
    ctx.ok(0 <= m < n and totals[m] <= min(totals) + 1e-9 * scale, 'medoid-minimises', m=int(m), totals=totals)
    center = series[m]
    before = totals[m]
    lo, hi = min(s.min() for s in series), max(s.max() for s in series)
    for _ in range(3):
        new = dba.DBA_update(center.copy(), series, cost, path, delta)
        ctx.event('update')
        ctx.eq(new.shape, center.shape, 'length-of-center')
        ctx.ok(bool(np.isfinite(new).all()), 'finite-center', repr(new))
        ctx.ok(new.min() >= lo - 1e-9 * scale and new.max() <= hi + 1e-9 * scale, 'center-within-values', new=new.tolist())
        after = sse(new, series)
        ctx.ok(after <= before + 1e-9 * scale * n, 'update-does-not-increase-cost', before=before, after=after,
               center=center.tolist(), new=new.tolist())
        if after < before - 1e-9 * scale:
            ctx.event('improved')
        elif np.allclose(new, center, rtol=0, atol=1e-12):
            ctx.event('fixed-point')
        center, before = new, after
    k = int(rng.integers(0, 6))
    avg = dba.performDBA(series, n_iterations=k)
    ctx.event('average')
    ctx.eq(len(avg), len(series[m]) if totals.count(min(totals)) == 1 else len(avg), 'length-of-average')
    ctx.ok(sse(avg, series) <= min(totals) + 1e-9 * scale * n, 'average-not-worse-than-medoid', iterations=k,
           average=np.asarray(avg).tolist(), cost=sse(avg, series), best=min(totals))
    if k == 0:
        ctx.event('no-iterations')
        ctx.ok(any(np.array_equal(avg, s) for s in series), 'no-iteration-is-medoid', average=np.asarray(avg).tolist())
    more = dba.performDBA(series, n_iterations=k + 2)
    ctx.ok(sse(more, series) <= sse(avg, series) + 1e-9 * scale * n, 'more-iterations-not-worse', k=k)
    ctx.close(dba.performDBA(series, n_iterations=k), avg, 'average-repeatable', rtol=0, atol=0)
    same = [series[0].copy() for _ in range(int(rng.integers(1, 5)))]
    ctx.close(dba.performDBA(same, n_iterations=2), series[0], 'average-of-equal-series', rtol=1e-12, atol=1e-12 * scale)
    for s, w in zip(series, keep):
        ctx.same(s, w, 'series-unchanged')


def stretched(ctx, rng):
    '''Long series that visit the same levels at very different times: only a free path aligns them.'''
    from spta.dba import dba
    levels = rng.permutation(20)[:int(rng.integers(1, 6))].astype(float)

    def one():
        length = int(rng.choice([int(rng.integers(20, 64)), int(rng.integers(65, 180))]))
        if rng.random() < 0.4:                          # a short event anywhere
            s = np.zeros(length)
            at = int(rng.integers(0, length - len(levels) - 1))
            s[at:at + len(levels)] = levels
            return s
        w = rng.dirichlet(np.full(len(levels), 0.3))    # the levels in order, each held for a random time
        reps = 1 + np.floor(w * (length - len(levels))).astype(int)
        return np.repeat(levels, reps)
    series = [one() for _ in range(int(rng.integers(2, 5)))]
    if max(len(s) for s in series) > 64:
        ctx.event('long')
    scale = 400.0
    cost, path, delta = matrices(rng, series)
    ctx.describe(series=[s.tolist() for s in series])
    want = [[sq(a, b) for b in series] for a in series]
    for i, a in enumerate(series):
        for j, b in enumerate(series):
            if want[i][j] < 1e-9 and not np.array_equal(a, b):
                ctx.event('aligned')
            ctx.event('dtw')
            ctx.close(dba.squared_DTW(a, b, cost, delta), want[i][j], 'squared-dtw', rtol=1e-9, atol=1e-9 * scale)
    totals = [sum(row) for row in want]
    m = int(dba.approximate_medoid_index(series, cost, delta))
    ctx.ok(totals[m] <= min(totals) + 1e-9 * scale, 'medoid-minimises', m=m, totals=totals)
    new = dba.DBA_update(series[m].copy(), series, cost, path, delta)
    ctx.event('update')
    ctx.ok(sse(new, series) <= totals[m] + 1e-9 * scale * len(series), 'update-does-not-increase-cost', before=totals[m])
    if max(len(s) for s in series) > max(len(series[0]), len(series[-1]), len(series[m])):
        ctx.event('longest-inside')
    avg = dba.performDBA(series, n_iterations=1)
    ctx.ok(sse(avg, series) <= totals[m] + 1e-9 * scale * len(series), 'average-not-worse-than-medoid', before=totals[m])


def many(ctx, rng):
    '''More series than candidates for the medoid.'''
    from spta.dba import dba
    n = int(rng.integers(51, 90))
    series = [rng.normal(size=3) for _ in range(n)]
    cost, path, delta = matrices(rng, series)
    np.random.seed(int(rng.integers(1 << 30)))
    state = np.random.get_state()
    totals = [sse(s, series) for s in series]
    m = dba.approximate_medoid_index(series, cost, delta)
    ctx.event('medoid-sampled')
    ctx.ok(0 <= int(m) < n, 'medoid-inside', m=int(m))
    # at least 50 of the n series are candidates: at most n - 50 are better than the chosen one
    ctx.ok(sum(v < totals[int(m)] * (1 - 1e-9) for v in totals) <= n - 50, 'best-of-50-candidates', m=int(m), n=n)
    np.random.set_state(state)
    avg = dba.performDBA(series, n_iterations=1)
    ctx.ok(sse(avg, series) <= totals[int(m)] * (1 + 1e-9), 'average-not-worse-than-medoid')
    ctx.describe(n=n)


def synthetic(ctx, rng):
    from spta.classifier.synthetic import generate_synthetic_csv, generate_synthetic_series
    ks = [int(k) for k in rng.permutation(np.arange(1, 90))[:int(rng.integers(1, 4))]]
    seeds = [int(s) for s in rng.permutation(12)[:int(rng.integers(1, 4))]]
    meds, n, t = int(rng.integers(1, 6)), int(rng.integers(1, 30)), int(rng.integers(1, 40))
    seed, x, y = int(rng.integers(1000)), int(rng.integers(1, 30)), int(rng.integers(1, 30))
    w = float(rng.choice([0.01, 0.5, 0.0, 2.0]))
    b = (298.0, 302.0) if rng.random() < 0.5 else (float(rng.normal()) * 5, 20.0)
    noise = 0.0 if rng.random() < 0.6 else 0.2
    ctx.event('noise' if noise else 'synthetic')
    ctx.describe(ks=ks, seeds=seeds, n=n, t=t, seed=seed, weight=w, b=b, noise=noise)
    kw = dict(a_weight=w, b_min=b[0], b_max=b[1], noise=noise)
    out = generate_synthetic_series(ks, seeds, meds, n, t, seed, x, y, **kw)
    ctx.eq(len(out), n, 'number-of-entries')
    where = set()
    for e in out:
        ctx.ok(e['k'] in ks and e['seed'] in seeds and 0 <= e['cluster_index'] < e['k'], 'label', repr(e)[:200])
        ctx.ok(0 <= e['medoid_x'] < x and 0 <= e['medoid_y'] < y, 'medoid-inside', repr(e)[:200])
        where.add((e['medoid_x'], e['medoid_y']))
        s = np.asarray(e['series'], dtype=float)
        ctx.eq(s.shape, (t,), 'series-length')
        slope = (e['k'] - e['cluster_index']) * (1 if e['seed'] % 2 else -1) * w
        rest = s - slope * np.arange(t)
        tol = 1e-9 * (abs(slope) * t + 400) if not noise else 7 * noise
        ctx.ok(rest.max() - rest.min() <= 2 * tol, 'series-is-a-line', repr(e)[:300], slope=slope)
        ctx.ok(b[0] - tol <= rest.min() and rest.max() <= b[1] + tol, 'intercept-within-range', repr(e)[:300], b=b)
    ctx.ok(len(where) <= meds, 'number-of-medoids', len(where))
    np.random.normal(size=int(rng.integers(5)))
    random.random()
    again = generate_synthetic_series(ks, seeds, meds, n, t, seed, x, y, **kw)
    for e, f in zip(out, again):
        ctx.eq({k: v for k, v in e.items() if k != 'series'}, {k: v for k, v in f.items() if k != 'series'},
               'same-seed-same-labels')
        ctx.same(np.asarray(e['series']), np.asarray(f['series']), 'same-seed-same-series')
    ctx.event('csv')
    generate_synthetic_csv(ks, seeds, meds, n, t, seed, x, y, 'a b.csv', region_id='the region', clustering_mode='lite', **kw)
    rows = list(csv.reader(open('a b.csv', newline=''), delimiter=' ', quotechar='|'))
    ctx.eq(rows[0], ['region_id', 'type', 'k', 'seed', 'mode', 'cluster_index', 'medoid_x', 'medoid_y'] +
           ['s%d' % i for i in range(t)], 'csv-header')
    ctx.eq(len(rows), n + 1, 'csv-rows')
    for e, r in zip(out, rows[1:]):
        ctx.eq(r[:8], ['the region', 'kmedoids', str(e['k']), str(e['seed']), 'lite', str(e['cluster_index']),
                       str(e['medoid_x']), str(e['medoid_y'])], 'csv-label')
        ctx.eq(len(r), 8 + t, 'csv-width')
        ctx.close([float(v) for v in r[8:]], e['series'], 'csv-series', rtol=0, atol=5.01e-4)


def delayed(ctx, rng):
    from spta.dataset import synthetic_temporal as st
    t = int(rng.integers(8, 260))
    np.random.seed(int(rng.integers(1 << 30)))
    name = str(rng.choice(['sine_function', 'square_function', 'gaussian_function']))
    f = getattr(st, name)
    s = np.asarray(st.delayed_function_with_noise(f, t))
    ctx.event('delayed')
    ctx.describe(t=t, function=name)
    ctx.eq(s.shape, (t,), 'length-of-series')
    pad = int(min(30, 0.15 * t))
    n = t - pad
    j = np.arange(n)
    want = np.sin(2 * np.pi * j / n)
    if name == 'square_function':
        want = np.where(np.abs(want) < 1e-9, np.nan, np.sign(want))     # sign of a rounding error
    if name == 'gaussian_function':
        want = np.exp(-0.5 * (3 * (2 * j / n - 1)) ** 2) / np.sqrt(2 * np.pi)
    best = min(float(np.nanmax(np.abs(s - np.concatenate([np.zeros(d), want, np.zeros(pad - d)])))) for d in range(pad + 1))
    ctx.ok(best <= 0.02 * 6.5, 'profile-with-delay-and-noise', best, function=name, t=t)


WORKLOADS = [('averaging', averaging, 1500, 30000), ('many', many, 30, 400), ('stretched', stretched, 60, 1500), ('synthetic', synthetic, 700, 12000),
             ('delayed', delayed, 500, 8000)]
