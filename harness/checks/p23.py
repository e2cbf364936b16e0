'''P23: datasets are requested from a real HDF5 file in histories with caches, damage and crashes.'''
import calendar
import glob
import os
import resource
import signal

import numpy as np

import lib

RULE = ('A case writes an HDF5 file with all samples of 1979-2015 for a small grid (a known value at every '
        'sample and point) and makes a history of requests: years, sampling, invalid years, metadata of '
        'random rectangles, with cached files deleted, damaged, left by a killed process, or the raw file '
        'gone, and returned arrays overwritten; every answer is compared with slices computed from a '
        'calendar. Non-trivial: at least 3 different requests.')
ASSUMPTIONS = ['Crashes are process deaths; loss of written pages in a power cut is not modelled.']
REQUIRED_EVENTS = ['from-raw', 'from-cache', 'leap-year', 'many-years', '1spd', '4spd', 'invalid-years',
                   'cache-deleted', 'cache-damaged', 'cache-overwritten', 'killed-while-caching', 'raw-file-gone', 'metadata',
                   'scaled-metadata', 'interval', 'float32']

FIRST, LAST = 1979, 2015


def setup():
    import spta.dataset.temp_brazil, spta.region.metadata, spta.util.maths  # noqa


def days(year):
    return 366 if calendar.isleap(year) else 365


TOTAL = sum(days(y) for y in range(FIRST, LAST + 1)) * 4


def span(y1, y2):
    start = sum(days(y) for y in range(FIRST, y1)) * 4
    return start, start + sum(days(y) for y in range(y1, y2 + 1)) * 4


def intervals(ctx, rng):
    from spta.util import maths as mu
    for _ in range(40):
        first = int(rng.integers(1900, 2016))
        y1 = first + int(rng.integers(0, 60))
        y2 = y1 + int(rng.integers(0, 20))
        spd = int(rng.choice([1, 2, 4, 8]))
        ctx.event('interval')
        s, e = mu.years_to_series_interval(y1, y2, first, spd)
        a = sum(days(y) for y in range(first, y1)) * spd
        ctx.eq((int(s), int(e)), (a, a + sum(days(y) for y in range(y1, y2 + 1)) * spd),
               'years-to-samples', years=[y1, y2], first=first, spd=spd)
    ctx.describe(tag=lib.gen_tag(rng.random(3)))


def write_raw(rng, x, y, dtype):
    import h5py
    os.makedirs('raw', exist_ok=True)
    # a known value at every sample and point, different in every sample of a day
    a = (np.arange(TOTAL) * 7.0 % 4096)[:, None, None] * 0.25 + \
        np.arange(x * y).reshape(x, y)[None] * 1000.0 + (np.arange(TOTAL) // 1500)[:, None, None] * 0.125
    a = a + rng.integers(0, 64, size=(TOTAL, x, y)) / 64.0
    a = a.astype(dtype)
    with h5py.File('raw/TEMPERATURE_1979-2015.hdf', 'w') as f:
        f.create_dataset('real', data=a)
    return a


def want(raw, y1, y2, spd):
    s, e = span(y1, y2)
    part = raw[s:e].astype(float)
    if spd == 4:
        return part
    t, x, y = part.shape
    out = np.zeros((t // 4, x, y))
    for q in range(4):
        out += part[q::4]
    return out / 4.0


def killed(func, limit):
    pid = os.fork()
    if pid == 0:
        try:
            os.close(2)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            func()
            os._exit(0)
        except BaseException:
            os._exit(3)
    _, status = os.waitpid(pid, 0)
    return os.WIFSIGNALED(status)


def pick_years(rng):
    r = rng.random()
    if r < 0.35:
        return (2015, 2015) if rng.random() < 0.5 else (2012, 2012)
    if r < 0.5:
        return (1979, 1979) if rng.random() < 0.5 else (1980, 1980)
    y1 = int(rng.integers(FIRST, LAST + 1))
    return y1, min(LAST, y1 + int(rng.choice([0, 0, 1, 2, 4])))


def history(ctx, rng):
    from spta.dataset import temp_brazil as tb
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata as MD
    x, y = lib.shape2(rng, 4, 8, min_points=2)
    dtype = np.float32 if rng.random() < 0.4 else np.float64
    if dtype is np.float32:
        ctx.event('float32')
    raw = write_raw(rng, x, y, dtype)
    tol = dict(rtol=1e-6, atol=0) if dtype is np.float32 else dict(rtol=1e-13, atol=0)
    pool = [pick_years(rng) for _ in range(3)]
    # intervals that share a first or a last year, or the file name but for one digit
    pool.append((pool[0][0], min(LAST, pool[0][1] + 1)))
    log = []
    gone = False

    def cached(y1, y2, spd):
        return os.path.exists('raw/SouthAmerica_{}_{}_{}spd.npy'.format(y1, y2, spd))

    def usable(y1, y2, spd):
        return not gone or (y1, y2, spd) in good

    good = set()

    def judge(got, y1, y2, spd, mech):
        w = want(raw, y1, y2, spd)
        got = np.asarray(got, dtype=float)
        ctx.eq(got.shape, w.shape, mech + '-shape', years=[y1, y2], spd=spd, log=log)
        if not np.allclose(got, w, **tol):
            i = np.argwhere(~np.isclose(got, w, **tol))[0]
            ctx.ok(False, mech, '{} of {}, first at {}: got {}, expected {}'.format(
                int((~np.isclose(got, w, **tol)).sum()), got.size, i, got[tuple(i)], w[tuple(i)]),
                years=[y1, y2], spd=spd, log=log)
        ctx.ok(True, mech)

    for _ in range(9):
        y1, y2 = pool[int(rng.integers(len(pool)))]
        spd = int(rng.choice([1, 4]))
        act = str(rng.choice(['get', 'get', 'get', 'metadata', 'metadata', 'invalid', 'delete', 'damage',
                              'kill', 'gone']))
        log.append((act, y1, y2, spd))
        if act in ('get', 'metadata'):
            if not usable(y1, y2, spd):
                continue
            ctx.event('from-cache' if cached(y1, y2, spd) else 'from-raw')
            ctx.event('{}spd'.format(spd))
            if any(calendar.isleap(v) for v in range(y1, y2 + 1)):
                ctx.event('leap-year')
            if y2 > y1:
                ctx.event('many-years')
        if act == 'get':
            got = tb.retrieve_dataset_interval(y1, y2, spd)
            judge(got, y1, y2, spd, 'samples-of-the-years')
            if rng.random() < 0.5 and got.flags.writeable:
                got[:] = -1.0              # what was returned belongs to the caller
            good.add((y1, y2, spd))
        elif act == 'metadata':
            x1, x2, r1, r2 = lib.subrect(rng, x, y)
            scaled = bool(rng.random() < 0.5)
            md = MD('part', Region(x1, x2, r1, r2), y1, y2, spd, scaled=scaled)
            spt = md.create_instance()
            ctx.event('metadata')
            w = want(raw, y1, y2, spd)[:, x1:x2, r1:r2]
            ctx.eq(tuple(spt.shape), w.shape, 'metadata-shape')
            if scaled:
                ctx.event('scaled-metadata')
                s, lo, hi = lib.scale(w)
                ctx.close(np.asarray(spt.as_numpy), s, 'metadata-scaled-data', rtol=1e-5, atol=1e-6)
                ctx.ok(spt.has_scaling(), 'metadata-scaled-data')
                ctx.close(np.asarray(spt.descale().as_numpy), w, 'metadata-original-data', rtol=1e-5,
                          atol=1e-3)
            else:
                ctx.close(np.asarray(spt.as_numpy), w, 'metadata-original-data', **tol)
                ctx.ok(not spt.has_scaling(), 'metadata-original-data')
            good.add((y1, y2, spd))
        elif act == 'invalid':
            ctx.event('invalid-years')
            bad = [(y2 + 1, y1), (FIRST - 1 - int(rng.integers(3)), y2), (y1, LAST + 1 +
                                                                         int(rng.integers(3))),
                   (LAST + 1, LAST + 1), (FIRST - 1, FIRST - 1), (y1 + 1, y1)][int(rng.integers(6))]
            ctx.raises(ValueError, lambda: tb.retrieve_dataset_interval(bad[0], bad[1], spd),
                       'invalid-years-fail', years=bad)
            ctx.raises(ValueError, lambda: MD('part', Region(0, x, 0, y), bad[0], bad[1], spd,
                                              scaled=False).create_instance(), 'invalid-years-fail',
                       years=bad)
            ctx.eq([f for f in glob.glob('raw/*{}_{}_*.npy'.format(*bad))], [], 'invalid-years-not-cached')
        elif act == 'delete':
            for f in glob.glob('raw/*.npy'):
                if rng.random() < 0.5:
                    ctx.event('cache-deleted')
                    os.unlink(f)
                    good = set(g for g in good if cached(*g))
        elif act == 'damage':
            if gone:
                continue
            for f in glob.glob('raw/*.npy'):
                if rng.random() < 0.5:
                    ctx.event('cache-damaged')
                    size = os.path.getsize(f)
                    cut = int(rng.integers(0, max(1, size))) if rng.random() < 0.7 else max(0, size - 1)
                    if rng.random() < 0.3:
                        junk = [b'', b'PK\x03\x04 no archive', b'\x80\x04 no pickle', b'\x93NUMPY\x01\x00', b'text\n' * 9]
                        ctx.event('cache-overwritten')
                        with open(f, 'wb') as fh:
                            fh.write(junk[int(rng.integers(len(junk)))])
                        continue
                    with open(f, 'r+b') as fh:
                        fh.truncate(cut)
        elif act == 'kill':
            if gone:
                continue
            f = 'raw/SouthAmerica_{}_{}_{}spd.npy'.format(y1, y2, spd)
            if os.path.exists(f):
                os.unlink(f)
            limit = int(rng.integers(0, want(raw, y1, y2, spd).nbytes + 200))
            if killed(lambda: tb.retrieve_dataset_interval(y1, y2, spd), limit):
                ctx.event('killed-while-caching')
            judge(tb.retrieve_dataset_interval(y1, y2, spd), y1, y2, spd, 'samples-after-a-crash')
            good.add((y1, y2, spd))
        elif act == 'gone' and not gone and len(log) > 4:
            # make every cached file whole first
            for g in [(a, b, c) for a, b in pool for c in (1, 4) if cached(a, b, c)]:
                judge(tb.retrieve_dataset_interval(*g), g[0], g[1], g[2], 'samples-of-the-years')
                good.add(g)
            good = set(g for g in good if cached(*g))
            os.rename('raw/TEMPERATURE_1979-2015.hdf', 'raw/away.hdf')
            gone = True
            ctx.event('raw-file-gone')
            miss = [m for m in ((1990, 1991, 4), (1993, 1995, 1), (1991, 1997, 4)) if not cached(*m)][0]
            ctx.raises(ValueError, lambda: tb.retrieve_dataset_interval(*miss), 'no-raw-file-fails')
    for g in [(a, b, c) for a, b in pool for c in (1, 4)]:
        if usable(*g):
            judge(tb.retrieve_dataset_interval(*g), g[0], g[1], g[2], 'samples-of-the-years')
    ctx.describe(shape=[x, y], log=log, dtype=str(np.dtype(dtype)))
    ctx.trivial = len(set(pool)) < 3


def averages(ctx, rng):
    from spta.dataset import temp_brazil as tb
    x, y = lib.shape2(rng, 5, 20)
    n = int(rng.integers(1, 12))
    a = rng.normal(size=(4 * n, x, y)) * 20
    ctx.describe(shape=[n, x, y], tag=lib.gen_tag(a))
    frozen = a.copy()
    got = np.asarray(tb.average_4spd_to_1spd(a))
    w = (a[0::4] + a[1::4] + a[2::4] + a[3::4]) / 4.0
    ctx.close(got, w, 'daily-means', rtol=1e-12, atol=1e-12)
    ctx.same(a, frozen, 'source-unchanged')
    ctx.event('1spd')


WORKLOADS = [('history', history, 400, 900), ('intervals', intervals, 400, 800),
             ('averages', averages, 600, 1500)]
