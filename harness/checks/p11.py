'''P11: clustering descriptions, suites and suite result files are round-tripped.'''
import itertools

import numpy as np

import lib
from checks.p30 import run_analysis

RULE = ('A case builds random clustering descriptions and compares equality, hash, text and label round '
        'trips pairwise against their parameters; or enumerates a random suite; or runs the suite analysis '
        'and reads the results file back. Non-trivial: at least two descriptions.')
ASSUMPTIONS = ['Seeds are not negative. Initial medoids are not part of the text round trip '
               '(the code documents this).']
REQUIRED_EVENTS = ['pair', 'equal-pair', 'label', 'suite', 'results-file', 'im-pair', 'single-k']


def setup():
    import spta.clustering.factory, spta.clustering.suite, spta.clustering.kmedoids  # noqa
    import spta.clustering.regular, spta.region.metadata, spta.dataset.temp_brazil  # noqa
    import experiments.clustering.partition_analysis  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def description(rng):
    k = int(rng.choice([1, 2, 3, 10, 12, 21, 100]))
    if rng.random() < 0.25:
        return ('regular', k, None, None, None)
    im = None
    if rng.random() < 0.3:
        im = tuple(int(i) for i in rng.integers(0, 13, size=min(k, 3)))
    return ('kmedoids', k, int(rng.choice([0, 1, 2, 11, 12, 21, 999])),
            str(rng.choice(['lite', 'robust'])), im)


def build(d):
    from spta.clustering.factory import ClusteringMetadataFactory
    name, k, seed, mode, im = d
    if name == 'regular':
        return ClusteringMetadataFactory().instance('regular', k)
    kw = {} if im is None else {'initial_medoids': list(im)}
    return ClusteringMetadataFactory().instance('kmedoids', k, random_seed=seed, mode=mode, **kw)


def same_parameters(ctx, md, d, mech):
    name, k, seed, mode, im = d
    ctx.eq((md.name, md.k), (name, k), mech)
    if name == 'kmedoids':
        ctx.eq((md.random_seed, md.mode), (seed, mode), mech)


def descriptions(ctx, rng):
    from spta.clustering.factory import ClusteringMetadataFactory
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    ds = [description(rng) for _ in range(8)]
    # near copies: one parameter changed
    for d in list(ds[:4]):
        e = list(d)
        f = int(rng.integers(1, 5))
        if d[0] == 'kmedoids':
            e[f] = {1: d[1] + 1, 2: d[2] + 1, 3: 'lite' if d[3] == 'robust' else 'robust',
                    4: (3, 1, 4)}[f]
        else:
            e = ['kmedoids', d[1], 1, 'lite', None]
        ds.append(tuple(e))
    ctx.describe(descriptions=ds)
    mds = [build(d) for d in ds]
    for d, md in zip(ds, mds):
        same_parameters(ctx, md, d, 'parameters-kept')
        if d[4] is None:
            back = ClusteringMetadataFactory().from_repr(repr(md))
            same_parameters(ctx, back, d, 'text-round-trip')
            ctx.ok(back == md, 'text-round-trip-equal', text=repr(md))
            ctx.eq(hash(back), hash(md), 'text-round-trip-hash')
        if d[0] == 'kmedoids':
            ctx.event('label')
            ci = int(rng.integers(d[1]))
            lbl = '{}-{}-{}'.format(d[1], d[2], ci)
            got = KmedoidsClusteringMetadata.from_classifier_label(lbl, mode=d[3])
            same_parameters(ctx, got, d, 'label-identifies-clustering')
    for (d, m), (e, o) in itertools.product(zip(ds, mds), zip(ds, [build(d) for d in ds])):
        ctx.event('pair')
        if d[0] == e[0] == 'kmedoids' and d[:4] == e[:4] and d[4] != e[4]:
            ctx.event('im-pair')
        ctx.eq(bool(m == o), d == e, 'equality', first=d, second=e)
        ctx.eq(bool(m != o), d != e, 'equality', first=d, second=e)
        if d == e:
            ctx.event('equal-pair')
            ctx.eq(hash(m), hash(o), 'equal-hash')
        else:
            ctx.ok(repr(m) != repr(o), 'text-unique', first=d, second=e)
    ctx.eq(len(set(mds)), len(set(ds)), 'distinct-in-sets')
    for bad in ('dbscan_k2', 'nothing', ''):
        ctx.raises(ValueError, lambda: ClusteringMetadataFactory().from_repr(bad), 'bad-text-rejected')


def suites(ctx, rng):
    from spta.clustering.suite import ClusteringSuite
    from spta.clustering.kmedoids import kmedoids_metadata_generator
    from spta.clustering.regular import regular_metadata_generator
    ks = [int(k) for k in rng.permutation(np.arange(2, 30))[:int(rng.integers(1, 6))]]
    seeds = [int(s) for s in rng.permutation(30)[:int(rng.integers(1, 5))]]
    mode = str(rng.choice(['lite', 'robust']))
    how = int(rng.integers(4))
    ctx.describe(ks=ks, seeds=seeds, mode=mode, how=how)
    ctx.event('suite')
    if how == 0:
        suite = ClusteringSuite('id', 'kmedoids', k=ks, random_seed=seeds, mode=mode)
    elif how == 1:
        suite = kmedoids_metadata_generator(ks, seeds, mode=mode)
    elif how == 2:
        seeds = seeds[:1]
        if rng.random() < 0.5:
            ctx.event('single-k')
            ks = ks[:1]
        given = dict(k=ks if len(ks) > 1 else ks[0], random_seed=seeds[0])
        suite = ClusteringSuite('id', 'kmedoids', mode=mode, **given)
    else:
        suite = regular_metadata_generator(ks) if rng.random() < 0.5 else \
            ClusteringSuite('id', 'regular', k=ks if len(ks) > 1 else ks[0])
        for _ in range(2):
            ctx.eq([(m.name, m.k) for m in suite], [('regular', k) for k in ks], 'suite-enumerates')
        return
    want = [(k, s, mode) for k in ks for s in seeds]      # in the given order
    for _ in range(2):
        got = [(m.k, m.random_seed, m.mode) for m in suite]
        ctx.eq(got, want, 'suite-enumerates')
    ctx.eq(len(set(suite)), len(want), 'suite-enumerates')


def results_file(ctx, rng):
    from spta.clustering.suite import ClusteringSuite
    from spta.clustering.factory import ClusteringFactory
    from spta.distance.dtw import DistanceByDTW
    many = ctx.index % 8 == 7
    x, y = lib.shape2(rng, 5, 18, min_points=13 if many else 6)
    t = int(rng.integers(3, 6))
    md, _, _ = lib.world(rng, t, x, y, scaled=bool(rng.random() < 0.4))
    a = np.array(md.create_instance().as_numpy)
    m = lib.save_distances(md, a)
    ks = [int(k) for k in rng.permutation(np.arange(2, 6))[:int(rng.integers(1, 4))]]
    if many:
        ks = [2, 11, 12][int(rng.integers(3)):]
        ctx.event('many-clusters')
    seeds = [int(s) for s in rng.permutation(13)[:int(rng.integers(1, 4))]]
    ctx.describe(shape=[t, x, y], ks=ks, seeds=seeds, data=lib.gen_tag(a))
    ctx.event('results-file')
    suite = ClusteringSuite('quick', 'kmedoids', k=ks, random_seed=seeds)
    dm = DistanceByDTW()
    ctx.raises(ValueError, lambda: suite.retrieve_suite_result_csv('outputs', md, dm),
               'missing-results-rejected')
    run_analysis(md, suite)
    got = suite.retrieve_suite_result_csv('outputs', md, dm)
    ctx.eq(sorted(got), sorted('kmedoids_k{}_seed{}_lite'.format(k, s) for k in ks for s in seeds),
           'results-list-every-clustering')
    # rows in order of the suite, with the total cost
    path = suite.analysis_csv_filepath('outputs', md, dm)
    lines = [l for l in open(path).read().splitlines() if l]
    rows = {l.split()[0]: l.split()[1] for l in lines[1:]}
    ctx.eq([l.split()[0] for l in lines[1:]], ['kmedoids_k{}_seed{}_lite'.format(k, s) for k in ks for s in seeds],
           'results-in-order-of-the-suite')
    ctx.eq(len(lines) - 1, len(ks) * len(seeds), 'results-list-every-clustering')
    for cmd in suite:
        part = ClusteringFactory(DistanceByDTW()).instance(cmd).partition(md.create_instance())
        rel = [(int(p.x), int(p.y)) for p in part.medoids]
        want = [(px + md.region.x1, py + md.region.y1) for px, py in rel]
        ctx.eq([(int(p.x), int(p.y)) for p in got[repr(cmd)]], want, 'results-medoids')
        lab = np.array(part.as_numpy).astype(int).ravel()
        cost = sum(m[rel[lab[i]][0] * y + rel[lab[i]][1], i] for i in range(x * y))
        ctx.close(float(rows[repr(cmd)]), cost, 'results-cost', rtol=1e-6, atol=0.0051)


WORKLOADS = [('descriptions', descriptions, 300, 6000), ('suites', suites, 300, 6000),
             ('results_file', results_file, 90, 900)]
