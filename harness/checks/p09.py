'''P09: elbows recomputed per seed from the costs; partitions audited through the saved files.'''
import numpy as np

import lib

RULE = ('Synthetic cases give the analysis random cost tables (exact ties, uneven and unordered k, several '
        'seeds) and compare each elbow with the definition; end-to-end cases run the analysis on a region '
        'with and without saved partitions and recompute every cost. Non-trivial: at least 2 seeds or 4 ks.')
ASSUMPTIONS = ['At least three different k per seed, no repeated k.',
               'For unevenly spaced k the second difference is the estimated second derivative.']
REQUIRED_EVENTS = ['elbow', 'tie', 'uneven', 'multi-seed', 'end-to-end', 'reused-partition']


def setup():
    import spta.clustering.suite, spta.clustering.factory, spta.region.metadata  # noqa
    import spta.dataset.temp_brazil  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def curvature(ks, costs):
    from fractions import Fraction as F
    out = []
    for i in range(1, len(ks) - 1):
        h1, h2 = ks[i] - ks[i - 1], ks[i + 1] - ks[i]
        y1, y2, y3 = (F(costs[i + d]) for d in (-1, 0, 1))
        out.append(2 * ((y3 - y2) / h2 - (y2 - y1) / h1) / (h1 + h2))
    return out


def judge(ctx, elbow, seed, table, exact):
    '''table: {k: cost} of one seed'''
    ctx.event('elbow')
    ks = sorted(table)
    c = curvature(ks, [float(table[k]) for k in ks])
    best = max(c)
    ctx.eq(elbow.random_seed, seed, 'elbow-of-own-seed')
    ctx.ok(elbow.k in ks[1:-1], 'elbow-inside-range', k=elbow.k, ks=ks)
    scale = max(1.0, max(abs(float(v)) for v in table.values()))
    mine = c[ks.index(elbow.k) - 1]
    ctx.ok(float(best - mine) <= 1e-9 * scale, 'elbow-maximises-curvature', k=elbow.k,
           curvature=[float(v) for v in c], ks=ks)
    if exact:
        ties = [ks[i + 1] for i, v in enumerate(c) if v == best]
        if len(ties) > 1:
            ctx.event('tie')
        ctx.eq(elbow.k, ties[0], 'first-elbow-on-ties', ties=ties)


def synthetic(ctx, rng):
    from spta.clustering.suite import ClusteringSuite, FindSuiteElbow, OrganizeClusteringSuite
    nk = int(rng.integers(3, 8))
    even = bool(rng.random() < 0.5)
    if even:
        step = int(rng.integers(1, 4))
        ks = [int(rng.integers(2, 5)) + step * i for i in range(1)]
        ks = [ks[0] + step * i for i in range(nk)]
    else:
        ks = sorted(int(v) for v in rng.permutation(np.arange(2, 25))[:nk])
        ctx.event('uneven')
    seeds = [int(s) for s in rng.permutation(20)[:int(rng.integers(1, 5))]]
    if len(seeds) > 1:
        ctx.event('multi-seed')
    given = list(ks)
    if rng.random() < 0.6:
        rng.shuffle(given)
    exact = even and bool(rng.random() < 0.7)
    suite = ClusteringSuite('t', 'kmedoids', k=[int(k) for k in given], random_seed=seeds)
    tables = {s: {} for s in seeds}
    costs = {}
    mds = list(suite)
    order = rng.permutation(len(mds))
    for i in order:
        md = mds[int(i)]
        if exact:
            # step is a power of two or the differences are multiples: exact in floating point
            v = float(rng.integers(0, 6) * 64)
        else:
            v = float(rng.random() * 100 / md.k) * 10 ** float(rng.integers(-3, 4))
        costs[md] = v
        tables[md.random_seed][md.k] = v
    exact = exact and step in (1, 2)
    ctx.describe(ks=given, seeds=seeds, costs=[tables[s][k] for s in seeds for k in ks])
    ctx.trivial = len(seeds) < 2 and nk < 4
    org = OrganizeClusteringSuite().organize_kmedoids_suite(suite)
    ctx.eq(sorted(org), sorted(seeds), 'organized-seeds')
    for s in seeds:
        ctx.eq([(m.k, m.random_seed) for m in org[s]], [(k, s) for k in ks], 'organized-by-k')
    finder = FindSuiteElbow(suite, None, None)
    snapshot = dict(costs)
    got = finder.find_cost_elbow_for_each_kmedoids_seed(costs)
    ctx.eq(sorted(got), sorted(seeds), 'one-elbow-per-seed')
    for s in seeds:
        judge(ctx, got[s], s, tables[s], exact)
    ctx.ok(snapshot == costs, 'costs-unchanged')
    # costs of the other seeds do not matter
    s = seeds[int(rng.integers(len(seeds)))]
    other = {m: (v if m.random_seed == s else float(rng.random() * 1e4)) for m, v in costs.items()}
    ctx.eq(repr(finder.find_cost_elbow_for_each_kmedoids_seed(other)[s]), repr(got[s]),
           'independent-of-other-seeds')
    one = ClusteringSuite('o', 'kmedoids', k=given, random_seed=[s])
    alone = FindSuiteElbow(one, None, None).find_cost_elbow_for_each_kmedoids_seed(
        {m: v for m, v in costs.items() if m.random_seed == s})
    ctx.eq(repr(alone[s]), repr(got[s]), 'independent-of-other-seeds')


def end_to_end(ctx, rng):
    from spta.clustering.suite import ClusteringSuite, FindSuiteElbow
    from spta.distance.dtw import DistanceByDTW
    x, y = lib.shape2(rng, 5, 16, min_points=9)
    t = int(rng.integers(3, 6))
    md, _, _ = lib.world(rng, t, x, y, scaled=bool(rng.random() < 0.4))
    spt = md.create_instance()
    a = np.array(spt.as_numpy)
    m = lib.save_distances(md, a)
    ks = sorted(int(k) for k in rng.permutation(np.arange(2, 8))[:int(rng.integers(3, 6))])
    given = [int(k) for k in rng.permutation(ks)]
    seeds = [int(s) for s in rng.permutation(9)[:int(rng.integers(1, 4))]]
    ctx.describe(shape=[t, x, y], ks=given, seeds=seeds, data=lib.gen_tag(a))
    ctx.event('end-to-end')
    suite = ClusteringSuite('t', 'kmedoids', k=given, random_seed=seeds)
    results = []
    for turn in range(2):
        finder = FindSuiteElbow(suite, md.create_instance(), DistanceByDTW())
        parts = finder.get_all_partitions('pk')
        if turn:
            ctx.event('reused-partition')
        costs = finder.get_all_intra_cluster_costs(parts)
        ctx.eq(len(parts), len(given) * len(seeds), 'one-partition-per-clustering')
        tables = {s: {} for s in seeds}
        for md_c, p in parts.items():
            ctx.eq(p.k, md_c.k, 'partition-of-own-clustering')
            lab = np.array(p.as_numpy).astype(int).ravel()
            med = [int(q.x) * y + int(q.y) for q in p.medoids]
            want = sum(m[med[lab[i]], i] ** 2 for i in range(x * y))
            ctx.close(costs[md_c], want, 'cost-of-own-partition', rtol=1e-7, atol=1e-7)
            tables[md_c.random_seed][md_c.k] = float(costs[md_c])
        elbows = FindSuiteElbow(suite, md.create_instance(), DistanceByDTW()) \
            .calculate_elbows_kmedoids('pk')
        ctx.eq(sorted(elbows), sorted(seeds), 'one-elbow-per-seed')
        for s in seeds:
            judge(ctx, elbows[s], s, tables[s], False)
        results.append({s: repr(e) for s, e in elbows.items()})
    ctx.eq(results[0], results[1], 'same-elbows-from-saved')


WORKLOADS = [('synthetic', synthetic, 750, 15000), ('end_to_end', end_to_end, 60, 900)]
