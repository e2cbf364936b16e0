'''P24: coordinates and names of region metadata.'''
import copy
import itertools
import os
import pickle

import numpy as np

import lib

RULE = ('Metadata over random offset rectangles are asked for every index, point and sub-rectangle and '
        'compared with arithmetic and with the cells of a dataset that holds its own coordinates; sets of '
        'metadata that differ in one part have their locations compared pairwise, on paper and by saving '
        'through them. Non-trivial: the rectangle has an offset.')
ASSUMPTIONS = ['Region names do not start with the prefix of the distance files ("distances_").']
REQUIRED_EVENTS = ['index', 'crop', 'rectangle', 'pair-of-metadata', 'rebuilt', 'saved-through']


def setup():
    import spta.region.metadata, spta.dataset.temp_brazil  # noqa


def coordinates(ctx, rng):
    from spta.region import Point, Region
    from spta.region.metadata import SpatioTemporalRegionMetadata as MD
    x, y = lib.shape2(rng, 9, 60)
    ox, oy = int(rng.integers(0, 8)), int(rng.integers(0, 8))
    X, Y = ox + x + int(rng.integers(0, 3)), oy + y + int(rng.integers(0, 3))
    t = int(rng.integers(1, 4))
    field = np.array([[[1000.0 * i + j + 0.001 * s for j in range(Y)] for i in range(X)]
                      for s in range(t)])
    lib.install_dataset(field, 2015, 2015, 1)
    md = MD('reg', Region(ox, ox + x, oy, oy + y), 2015, 2015, 1, scaled=False)
    ctx.describe(shape=[x, y], offset=[ox, oy])
    ctx.trivial = (ox, oy) == (0, 0)
    ctx.eq((md.x_len, md.y_len), (x, y), 'lengths')
    spt = md.create_instance()
    ctx.eq(tuple(spt.shape), (t, x, y), 'crop-shape')
    cells = np.asarray(spt.as_numpy)
    pts = lib.points(x, y)
    order = rng.permutation(len(pts))
    for n in order:
        p = pts[int(n)]
        ctx.event('index')
        index = int(n) if rng.random() < 0.5 else np.int64(n)
        a = md.index_to_absolute_point(index)
        ctx.eq((int(a.x), int(a.y)), (p[0] + ox, p[1] + oy), 'index-to-absolute', index=int(n))
        b = md.absolute_position_of_point(Point(*p))
        ctx.eq((int(b.x), int(b.y)), (p[0] + ox, p[1] + oy), 'point-to-absolute', point=p)
        ctx.event('crop')
        ctx.eq(float(cells[0, p[0], p[1]]), float(field[0, int(a.x), int(a.y)]),
               'crop-inverts-absolute', point=p)
        ctx.eq(float(spt.series_at(Point(*p))[0]), 1000.0 * (p[0] + ox) + p[1] + oy,
               'crop-inverts-absolute', point=p)
    for _ in range(6):
        x1, x2, y1, y2 = lib.subrect(rng, x, y)
        ctx.event('rectangle')
        r = md.absolute_coordinates_of_region(Region(x1, x2, y1, y2))
        ctx.eq((int(r.x1), int(r.x2), int(r.y1), int(r.y2)), (x1 + ox, x2 + ox, y1 + oy, y2 + oy),
               'rectangle-to-absolute')
        sub = np.asarray(spt.region_subset(Region(x1, x2, y1, y2)).as_numpy)
        ctx.same(sub, field[:, int(r.x1):int(r.x2), int(r.y1):int(r.y2)], 'rectangle-inverts-crop')
    ctx.eq((md.region.x1, md.region.x2, md.region.y1, md.region.y2), (ox, ox + x, oy, oy + y),
           'metadata-unchanged')


def large(ctx, rng):
    '''Regions as large as the data set or larger, without data.'''
    from spta.region import Point, Region
    from spta.region.metadata import SpatioTemporalRegionMetadata as MD
    x, y = (int(10 ** (rng.random() * 3.7)) for _ in range(2))
    ox, oy = int(rng.integers(0, 3000)), int(rng.integers(0, 3000))
    md = MD('reg', Region(ox, ox + x, oy, oy + y), 2015, 2015, 1)
    ctx.describe(shape=[x, y], offset=[ox, oy])
    for _ in range(40):
        p = tuple(int(rng.choice([0, n - 1, int(rng.integers(n))])) for n in (x, y))
        ctx.event('large')
        a = md.index_to_absolute_point(p[0] * y + p[1])
        ctx.eq((int(a.x), int(a.y)), (p[0] + ox, p[1] + oy), 'index-to-absolute', point=p)
        a = md.absolute_position_of_point(Point(*p))
        ctx.eq((int(a.x), int(a.y)), (p[0] + ox, p[1] + oy), 'point-to-absolute', point=p)
        x1, x2, y1, y2 = lib.subrect(rng, x, y)
        r = md.absolute_coordinates_of_region(Region(x1, x2, y1, y2))
        ctx.eq((int(r.x1), int(r.x2), int(r.y1), int(r.y2)), (x1 + ox, x2 + ox, y1 + oy, y2 + oy),
               'rectangle-to-absolute')


def places(md, home):
    return {'dataset': md.dataset_filename, 'min': md.scaled_min_filename, 'max': md.scaled_max_filename,
            'distances': md.distances_filename, 'pickle': md.pickle_filename(home),
            'pickle-dir': md.pickle_dir(home), 'output-dir': md.output_dir(home)}


def names(ctx, rng):
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata as MD
    pool = ['a', 'aa', 'b', 'a_2014', 'a_2014_2015', 'a_scaled', 'whole_brazil', 'whole_real_brazil',
            'a_2015_2015_1spd', 'A', 'a_1', 'min', 'a_min', 'a-b', 'a.b']
    chosen = [pool[int(i)] for i in rng.choice(len(pool), size=5, replace=False)]
    years = [(2015, 2015), (2014, 2015), (2014, 2014), (2011, 2015), (1979, 1980)]
    if rng.random() < 0.7:
        # any intervals, some of which begin or end together
        ends = [int(v) for v in rng.integers(1979, 2016, size=4)]
        if rng.random() < 0.5:
            ends[1] = min(2015, ends[0] + 10 * int(rng.integers(1, 4)))
        years = sorted({(a, b) for a in ends for b in ends if a <= b})
    combos = [(n, y, s, sc) for n in chosen for y in years for s in (1, 4) for sc in (False, True)]
    combos = [combos[int(i)] for i in rng.choice(len(combos), size=14, replace=False)]
    home = str(rng.choice(['pickle', 'out/puts']))
    ox, oy = int(rng.integers(0, 60)), int(rng.integers(0, 60))

    def make(c, centroid=None, dirname=None):
        kw = {} if dirname is None else dict(dataset_dir=dirname)
        return MD(c[0], Region(ox, ox + 3, oy, oy + 4), c[1][0], c[1][1], c[2], centroid, c[3], **kw)

    mds = {c: make(c) for c in combos}
    ctx.describe(combos=[str(c) for c in combos], home=home)
    for c, d in itertools.combinations(combos, 2):
        ctx.event('pair-of-metadata')
        a, b = places(mds[c], home), places(mds[d], home)
        both = set(os.path.normpath(v) for v in a.values()) & set(os.path.normpath(v) for v in b.values())
        ctx.eq(sorted(both), [], 'different-metadata-different-places', one=str(c), other=str(d))
        ctx.ok(repr(mds[c]) != repr(mds[d]) and str(mds[c]) != str(mds[d]), 'different-descriptions')
    for c in combos[:6]:
        ctx.event('rebuilt')
        a = places(mds[c], home)
        files = [a[k] for k in ('dataset', 'min', 'max', 'distances', 'pickle')]
        ctx.eq(len(set(os.path.normpath(f) for f in files)), 5, 'one-place-per-thing', places=a)
        for again in (make(c), copy.deepcopy(mds[c]), pickle.loads(pickle.dumps(mds[c])),
                      MD(name=c[0], region=Region(ox, ox + 3, oy, oy + 4), year_start=c[1][0],
                         year_end=c[1][1], spd=c[2], scaled=c[3])):
            ctx.eq(places(again, home), a, 'rebuilt-metadata-same-places')
            ctx.eq((repr(again), str(again)), (repr(mds[c]), str(mds[c])), 'rebuilt-metadata-same-places')
        ctx.ok(os.path.normpath(a['pickle']).startswith(os.path.normpath(a['pickle-dir']) + os.sep),
               'pickle-file-in-pickle-dir')
        other = places(mds[c], home + '2')
        for k in ('pickle', 'pickle-dir', 'output-dir'):
            ctx.ok(os.path.normpath(other[k]) != os.path.normpath(a[k]), 'home-is-part-of-the-place')
        e = places(make(c, dirname='elsewhere'), home)
        for k in ('dataset', 'min', 'max', 'distances'):
            ctx.ok(os.path.normpath(e[k]) != os.path.normpath(a[k]), 'dataset-dir-is-part-of-the-place')


def through(ctx, rng):
    '''Regions of metadata that differ in one part, saved through their metadata and read back.'''
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata as MD
    x, y = lib.shape2(rng, 4, 12)
    t = 4
    X, Y = x + 2, y + 2
    data = {}
    for years in ((2014, 2014), (2015, 2015), (2014, 2015)):
        for spd in (1, 4):
            data[years, spd] = lib.series_field(rng, t, X, Y, kind='random')
            lib.install_dataset(data[years, spd], years[0], years[1], spd)
    name = str(rng.choice(['one', 'a_b', 'x_2014']))
    combos = [(n, ys, s, sc) for n in (name, name + '2') for ys in ((2014, 2014), (2015, 2015),
                                                                   (2014, 2015))
              for s in (1, 4) for sc in (False, True)]
    combos = [combos[int(i)] for i in rng.choice(len(combos), size=6, replace=False)]
    ctx.describe(combos=[str(c) for c in combos], shape=[x, y], tag=lib.gen_tag(data[(2014, 2014), 1]))
    want = {}

    def make(c):
        off = 0 if c[0] == name else 1
        return MD(c[0], Region(off, off + x, off, off + y), c[1][0], c[1][1], c[2], scaled=c[3])

    for c in combos:
        spt = make(c).create_instance()
        off = 0 if c[0] == name else 1
        raw = data[c[1], c[2]][:, off:off + x, off:off + y]
        w = lib.scale(raw)[0] if c[3] else raw
        ctx.close(np.asarray(spt.as_numpy), w, 'created-from-own-years-and-sampling', rtol=1e-12, atol=1e-12,
                  metadata=str(c))
        spt.save()
        spt.pickle('pick')
        want[c] = (w, raw)
        ctx.event('saved-through')
    for c in combos:
        md = make(c)
        w, raw = want[c]
        ctx.close(np.load(md.dataset_filename), w, 'saved-data-not-overwritten', rtol=1e-12, atol=1e-12,
                  metadata=str(c))
        if c[3]:
            ctx.close(np.load(md.scaled_min_filename), raw.min(axis=0), 'saved-range-not-overwritten')
            ctx.close(np.load(md.scaled_max_filename), raw.max(axis=0), 'saved-range-not-overwritten')
        with open(md.pickle_filename('pick'), 'rb') as f:
            back = pickle.load(f)
        ctx.close(np.asarray(back.as_numpy), w, 'pickled-region-not-overwritten', rtol=1e-12, atol=1e-12)


WORKLOADS = [('coordinates', coordinates, 1440, 8000), ('large', large, 800, 8000), ('names', names, 1440, 8000),
             ('through', through, 600, 4000)]
