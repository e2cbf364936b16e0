'''P29: saved and pickled regions load back unchanged.'''
import os

import numpy as np

import lib

RULE = ('A case creates regions of every kind (spatial, spatio-temporal, scaled, clusters of both, subsets, '
        'partitions with medoids, model and error regions) with and without metadata, saves and pickles them '
        'in random order and repeatedly, loads them (in this process and in a child process) and compares '
        'everything that can be observed of the loaded region with the original; files are also truncated as '
        'by an interrupted save. Non-trivial: at least 3 regions.')
ASSUMPTIONS = ['Region names do not start with distances_, are not the name of the dataset and differ between regions '
               'that should not share a file.', 'A region is not saved in the middle of its own traversal.']
REQUIRED_EVENTS = ['spatial', 'spt', 'scaled', 'cluster', 'scaled-cluster', 'spatial-cluster', 'error', 'model',
                   'partition', 'pickled', 'saved', 'metadata-save', 'metadata-pickle', 'no-metadata', 'other-process',
                   'truncated', 'overwritten', 'after-traversal', 'names']


def setup():
    import spta.region.temporal, spta.region.scaling, spta.region.partition, spta.model.knn  # noqa
    import spta.region.metadata, spta.model.error, spta.dataset.temp_brazil  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def probe(region, what):
    '''Everything observable of a region, as plain data.'''
    out = {'type': type(region).__name__, 'shape': tuple(int(v) for v in region.shape)}
    if what == 'partition':
        out['labels'] = np.array(region.as_numpy, dtype=float)
        out['k'] = int(region.k)
        out['lens'] = [int(region.cluster_len(c)) for c in range(region.k)]
        out['medoids'] = [(int(p.x), int(p.y)) for p in getattr(region, 'medoids', None) or []]
        return out
    if what == 'model':
        from spta.region import Point
        x, y = region.x_len, region.y_len
        out['models'] = []
        for i, j in lib.points(x, y):
            m = region.value_at(Point(i, j))
            out['models'].append(None if m is None else (repr(m), np.array(m.training_series, dtype=float)))
        from spta.region.temporal import SpatioTemporalRegion
        f = region.apply_to(SpatioTemporalRegion(np.ones((2, x, y))), 2)
        out['forecast'] = np.array(f.as_numpy)
        return out
    out['values'] = np.array(region.as_numpy)
    out['dtype'] = str(region.as_numpy.dtype)
    out['iteration'] = [((int(p.x), int(p.y)), np.array(v)) for p, v in region]
    out['again'] = [((int(p.x), int(p.y)), np.array(v)) for p, v in region]
    if what in ('spatial', 'spatial-cluster', 'error'):
        if what == 'error':
            out['overall'] = float(region.overall_error)
    else:
        out['scaled'] = bool(region.has_scaling())
        if out['scaled']:
            out['descaled'] = np.array(region.descale().as_numpy)
            out['descaled-type'] = type(region.descale()).__name__
        out['indices'] = [int(i) for i in region.all_point_indices]
        md = region.region_metadata
        out['metadata'] = None if md is None else (
            repr(md), md.name, repr(md.region), md.year_start, md.year_end, md.spd, md.scaled, md.dataset_dir,
            md.dataset_filename, md.distances_filename)
        out['series_len'] = int(region.series_len)
        c = getattr(region, 'centroid', None)
        out['centroid'] = None if c is None else (int(c.x), int(c.y))
        out['str'] = str(region)
    if what.endswith('cluster'):
        out['cluster'] = (int(region.cluster_index), int(region.cluster_len))
        out['partition'] = probe(region.partition, 'partition')
    return out


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f' and b.dtype.kind == 'f')
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    return a == b


def compare(ctx, got, want, mechanism, what):
    for key in want:
        ctx.ok(key in got and same(got[key], want[key]), '{}-{}'.format(mechanism, key),
               'differs for {}: {!r} vs {!r}'.format(what, got.get(key), want[key]))


WHATS = ['spatial', 'spt', 'scaled', 'cluster', 'scaled-cluster', 'spatial-cluster', 'error', 'model', 'partition',
         'error-cluster', 'subset', 'interval']


def lib_md(*args, **kw):
    from spta.region.metadata import SpatioTemporalRegionMetadata
    return SpatioTemporalRegionMetadata(*args, **kw)


def years(rng):
    first = int(rng.integers(1979, 2016))
    return first, int(rng.integers(first, min(first + 3, 2016))), int(rng.choice([1, 4]))


def identity(md):
    return md.name, md.year_start, md.year_end, md.spd, bool(md.scaled)


def files_of(md, home='pk'):
    return {'dataset': md.dataset_filename, 'distances': md.distances_filename, 'minimum': md.scaled_min_filename,
            'maximum': md.scaled_max_filename, 'pickles': md.pickle_dir(home), 'pickle': md.pickle_filename(home),
            'outputs': md.output_dir('outputs')}


def names(ctx, rng):
    '''The files of regions that differ in one respect are different, those of equal regions are the same.'''
    from spta.region import Region
    from spta.region.temporal import SpatioTemporalRegion
    a = years(rng)
    scaled = bool(rng.random() < 0.5)
    x, y, t = int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
    base = ('sp_small', Region(2, 2 + x, 3, 3 + y)) + a
    variants = [base + (scaled,), base + (not scaled,), ('nordeste',) + base[1:] + (scaled,),
                base[:4] + (5 - a[2], scaled), base[:2] + (a[0] - 1,) + base[3:] + (scaled,),
                base[:3] + (a[1] + 1,) + base[4:] + (scaled,)]
    for _ in range(2):
        variants.append(base[:2] + years(rng) + (bool(rng.random() < 0.5),))
    os.makedirs('raw', exist_ok=True)
    ctx.describe(variants=[repr(v) for v in variants])
    mds = [lib_md(*v[:5], scaled=v[5]) for v in variants]
    for m in mds:
        for n in mds:
            for what in files_of(m):
                ctx.eq(files_of(m)[what] == files_of(n)[what], identity(m) == identity(n),
                       'own-files-for-every-region', what=what, regions=[repr(identity(m)), repr(identity(n))])
    ctx.event('names')
    kept = {}
    for i in rng.permutation(len(mds)):
        m = mds[int(i)]
        region = SpatioTemporalRegion(lib.values(rng, (t, x, y)))
        region.region_metadata = m
        region.save()
        region.pickle('pk')
        kept[identity(m)] = (m, np.array(region.as_numpy))
    for m, v in kept.values():
        again = lib_md(m.name, m.region, m.year_start, m.year_end, m.spd, scaled=m.scaled)
        ctx.same(np.load(again.dataset_filename), v, 'saved-next-to-others')
        ctx.same(SpatioTemporalRegion.from_pickle(again.pickle_filename('pk')).as_numpy, v, 'pickled-next-to-others')


def build(ctx, rng, what, number):
    '''-> (region, kind of probe, metadata or None)'''
    from spta.model.error import ErrorRegion
    from spta.model.knn import TrainerKNN
    from spta.region import Point, Region, TimeInterval
    from spta.region.partition import PartitionRegionCrisp
    from spta.region.scaling import ScaleFunction
    from spta.region.spatial import SpatialRegion
    from spta.region.temporal import SpatioTemporalRegion
    x, y = lib.shape2(rng, 5, 16)
    t = int(rng.integers(2, 6))
    a = lib.values(rng, (t, x, y))
    if rng.random() < 0.3:
        a[:, rng.random((x, y)) < 0.3] = np.nan
    md = None
    if rng.random() < 0.6:
        md = lib.region_metadata(rng, x, y, what.startswith('scaled'), name='reg{}'.format(number % 2))
        if rng.random() < 0.5:
            md = lib_md(md.name, md.region, *years(rng), scaled=md.scaled)
    else:
        ctx.event('no-metadata')
    k = lib.clusters(rng, x * y, 4)
    lab = lib.labels(rng, x, y, k)
    c = int(rng.integers(k))
    partition = PartitionRegionCrisp(lab, k)
    if rng.random() < 0.6:
        partition.medoids = [Point(*[p for p in lib.points(x, y) if lab[p] == i][0]) for i in range(k)]
    if what in ('spatial', 'error', 'spatial-cluster', 'error-cluster'):
        v = lib.values(rng, (x, y), nan=0.2)
        if rng.random() < 0.15 and what == 'spatial':
            v = rng.integers(-5, 5, size=(x, y))
        region = SpatialRegion(lib.layout(rng, v))
        if what.endswith('cluster'):
            region = partition.create_spatial_cluster(region, c)
        if what.startswith('error'):
            region = ErrorRegion(region)
            return region, 'error', None
        return region, what, None
    if what == 'partition':
        return partition, 'partition', None
    if what == 'model':
        from spta.model.knn import KNNParams
        from spta.distance.dtw import DistanceByDTW
        n = int(rng.integers(5, 9))
        spt = SpatioTemporalRegion(lib.values(rng, (n, x, y)))
        trained = TrainerKNN(KNNParams(k=int(rng.integers(1, 3)), distance_measure=DistanceByDTW()), x, y)
        region = trained.apply_to(spt)
        return region, 'model', None
    a = lib.layout(rng, a)
    region = SpatioTemporalRegion(a, md) if md is not None else SpatioTemporalRegion(a)
    probe_as = 'spt'
    if what.startswith('scaled'):
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                region = ScaleFunction(x, y).apply_to(region, t)
        probe_as = 'scaled'
    if what == 'subset':
        x1, x2, y1, y2 = lib.subrect(rng, x, y)
        region = region.region_subset(Region(x1, x2, y1, y2))
        md = region.region_metadata
    if what == 'interval':
        t1, t2 = lib.interval(rng, t)
        region = region.interval_subset(TimeInterval(t1, t2))
        md = region.region_metadata
    if what.endswith('cluster'):
        region = partition.create_spt_cluster(region, c)
        if rng.random() < 0.5:
            region.centroid = Point(*[p for p in lib.points(x, y) if lab[p] == c][-1])
        probe_as = what
        md = region.region_metadata
    elif rng.random() < 0.3 and what == 'spt':
        region.centroid = Point(int(rng.integers(x)), int(rng.integers(y)))
    return region, probe_as, md


def in_child(func):
    '''Runs func in a forked child; -> exit code 0 if it returned True.'''
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            code = 0 if func() else 1
        except BaseException:
            code = 2
        finally:
            os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


def saves(ctx, rng):
    from spta.region.base import BaseRegion
    from spta.region.partition import PartitionRegion
    os.makedirs('raw', exist_ok=True)
    os.makedirs('files', exist_ok=True)
    items = []
    kinds = [str(w) for w in rng.choice(WHATS, size=int(rng.integers(3, 7)))]
    for number, what in enumerate(kinds):
        ctx.event(what)
        region, as_, md = build(ctx, rng, what, number)
        items.append((region, as_, md, probe(region, as_)))
    names = ['n{}'.format(i) for i in range(len(items) + 1)]
    pickled, saved = {}, {}           # file -> index of the item it should hold
    log = []
    for step in range(int(rng.integers(8, 16))):
        i = int(rng.integers(len(items)))
        region, as_, md, want = items[i]
        op = str(rng.choice(['pickle_to', 'save_to', 'save', 'pickle', 'traverse']))
        if op == 'traverse' and as_ not in ('partition', 'model'):
            ctx.event('after-traversal')
            for _ in region:
                pass
            continue
        f = os.path.join('files', names[int(rng.integers(len(names)))])
        if op == 'pickle_to':
            f += '.pkl'
            if f in pickled:
                ctx.event('overwritten')
            if as_ == 'partition' and rng.random() < 0.5:
                region.to_pickle(f)
            else:
                region.pickle_to(f)
            pickled[f] = i
            ctx.event('pickled')
        elif op == 'save_to':
            if as_ == 'model':
                continue
            f += '.npy'
            if f in saved:
                ctx.event('overwritten')
            region.save_to(f)
            saved[f] = i
            ctx.event('saved')
        elif op in ('save', 'pickle') and as_ not in ('partition', 'model', 'error', 'spatial', 'spatial-cluster'):
            if md is None:
                if region.region_metadata is None and not as_.endswith('cluster'):
                    home = os.path.join('files', 'pk')
                    ctx.raises(ValueError, region.save if op == 'save' else (lambda: region.pickle(home)),
                               'refused-without-metadata')
                continue
            if op == 'save':
                region.save()
                ctx.event('metadata-save')
                saved[md.dataset_filename] = i
                if as_ == 'scaled':
                    ctx.same(np.load(md.scaled_min_filename), np.array(region.scale_min.as_numpy), 'saved-minimum')
                    ctx.same(np.load(md.scaled_max_filename), np.array(region.scale_max.as_numpy), 'saved-maximum')
            else:
                home = os.path.join('files', 'home{}'.format(int(rng.integers(2))))
                region.pickle(home)
                ctx.event('metadata-pickle')
                ctx.ok(os.path.isfile(md.pickle_filename(home)), 'pickle-where-the-metadata-says', '')
                pickled[md.pickle_filename(home)] = i
        log.append((op, i))
        # the region that was saved is as before
        compare(ctx, probe(region, as_), want, 'saving-modified-region', kinds[i])

    def load(f):
        if items[pickled[f]][1] == 'partition' and rng.random() < 0.5:
            return PartitionRegion.try_from_pickle(f)
        return BaseRegion.from_pickle(f)
    for f, i in pickled.items():
        _, as_, md, want = items[i]
        loaded = load(f)
        compare(ctx, probe(loaded, as_), want, 'loaded', kinds[i])
        compare(ctx, probe(loaded, as_), want, 'loaded-second-probe', kinds[i])
    for f, i in saved.items():
        got = np.load(f)
        w = items[i][3]
        ctx.ok(same(np.asarray(got, dtype=float), np.asarray(w['values' if 'values' in w else 'labels'], dtype=float)),
               'saved-array', 'differs for {}'.format(kinds[i]), file=f)
    if pickled:
        ctx.event('other-process')
        code = in_child(lambda: all(
            all(same(probe(BaseRegion.from_pickle(f), items[i][1]).get(k), items[i][3][k]) for k in items[i][3])
            for f, i in pickled.items()))
        ctx.eq(code, 0, 'loaded-in-another-process')
    # an interrupted save is never taken for a region
    for f, i in list(pickled.items())[:3]:
        size = os.path.getsize(f)
        with open(f, 'r+b') as h:
            h.truncate(int(rng.integers(0, size)))
        ctx.event('truncated')
        ctx.raises(Exception, lambda: load(f), 'truncated-pickle-refused')
    for f, i in list(saved.items())[:3]:
        size = os.path.getsize(f)
        with open(f, 'r+b') as h:
            h.truncate(int(rng.integers(0, size)))
        ctx.raises(Exception, lambda: np.load(f), 'truncated-array-refused')
    ctx.describe(kinds=kinds, log=log, tag=lib.gen_tag(rng.random(3)))
    ctx.trivial = len(items) < 3


WORKLOADS = [('saves', saves, 240, 6000), ('names', names, 240, 3000)]
