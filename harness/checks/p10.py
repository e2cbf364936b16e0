'''P10: histories of clustering requests with saved partitions, crashes while saving and damaged files.'''
import glob
import os
import pickle
import random
import resource
import signal
import time

import numpy as np

import lib

RULE = ('A history is a random sequence of requests over a pool that differs in region, measure, k, seed, '
        'mode, initial medoids, clustering type, medoids wanted or not and pickle home; between requests '
        'processes are killed while saving (the kernel kills the writer at a random byte, or a SIGKILL '
        'arrives at a random time), and saved files are truncated, emptied, filled with garbage or '
        'deleted. Every answer is compared with a computation without saved files. '
        'Sibling cases ask for all variants of a request that differ in one parameter. Concurrent cases run the same request from several processes. Non-trivial: every case.')
ASSUMPTIONS = ['Damage is a missing, truncated, empty or unreadable (not unpicklable to a valid partition) '
               'file; silent bit flips inside a valid pickle are not claimed.',
               'Crashes are process deaths; loss of written pages in a power cut is not modelled.']
REQUIRED_EVENTS = ['request', 'reused', 'computed', 'killed-at-byte', 'killed-at-time', 'damaged',
                   'survived-crash', 'prefix', 'concurrent', 'without-medoids', 'siblings', 'reuse-told-apart']


def setup():
    import spta.clustering.factory, spta.clustering.kmedoids, spta.region.metadata  # noqa
    import spta.dataset.temp_brazil, spta.region.partition, spta.distance.dtw  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def signature(part):
    med = getattr(part, 'medoids', None)
    return (int(part.k), np.asarray(part.as_numpy).astype(int).tolist(),
            None if med is None else [(int(p.x), int(p.y)) for p in med])


class World(object):
    def __init__(self, ctx, rng):
        from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
        self.ctx, self.rng = ctx, rng
        x, y = lib.shape2(rng, 4, 12, min_points=6)
        t = int(rng.integers(3, 6))
        self.regions = []
        for name, scaled in (('one', False), ('two', False), ('one', True)):
            md, _, _ = lib.world(rng, t, x, y, scaled=False, name=name, offset=(1, 2))
            self.regions.append((md, scaled))
        # one dataset in the end: regions of different offsets make different data
        X, Y = x + 8, y + 8
        data = lib.series_field(rng, t, X, Y, kind='groups') + 30
        lib.install_dataset(data, 2015, 2015, 1)
        from spta.region import Region
        from spta.region.metadata import SpatioTemporalRegionMetadata as MD
        self.x, self.y, self.t = x, y, t
        self.mds = [MD('one', Region(1, 1 + x, 2, 2 + y), 2015, 2015, 1, scaled=False),
                    MD('two', Region(4, 4 + x, 0, y), 2015, 2015, 1, scaled=False),
                    MD('one', Region(1, 1 + x, 2, 2 + y), 2015, 2015, 1, scaled=True)]
        for md in self.mds:
            np.save(md.distances_filename,
                    lib.dtw_matrix(lib.series_list(np.array(md.create_instance().as_numpy))))
        w = float(rng.choice([3.0, 8.0]))
        self.measures = [DistanceByDTW, lambda: DistanceBySpatialDTW(w),
                         lambda: DistanceBySpatialDTW(w + 50.0)]
        n = x * y
        im = [int(i) for i in rng.permutation(n)[:2]]
        im2 = [int(i) for i in rng.permutation(n)[:2]]
        self.clusterings = [
            ('kmedoids', 2, dict(random_seed=1, mode='lite')),
            ('kmedoids', 2, dict(random_seed=2, mode='lite')),
            ('kmedoids', 2, dict(random_seed=1, mode='robust')),
            ('kmedoids', 3, dict(random_seed=1, mode='lite')),
            ('kmedoids', 2, dict(random_seed=1, mode='lite', initial_medoids=im)),
            ('kmedoids', 2, dict(random_seed=1, mode='lite', initial_medoids=im2)),
            ('kmedoids', 2, dict(random_seed=12, mode='lite')),
            ('regular', 2, {}), ('regular', 3 if max(x, y) >= 3 else 1, {}),
        ]
        self.truth = {}

    def request(self, q, home, medoids=True):
        from spta.clustering.factory import ClusteringFactory, ClusteringMetadataFactory
        r, m, c = q
        name, k, kw = self.clusterings[c]
        md = ClusteringMetadataFactory().instance(name, k, **dict(kw))
        algo = ClusteringFactory(self.measures[m]()).instance(md)
        return algo, algo.partition(self.mds[r].create_instance(), with_medoids=medoids,
                                    pickle_home=home)

    def expected(self, q):
        if q not in self.truth:
            self.truth[q] = signature(self.request(q, None)[1])
        return self.truth[q]

    def pick(self):
        rng = self.rng
        return (int(rng.integers(3)), int(rng.integers(3)), int(rng.integers(len(self.clusterings))))

    def judge(self, q, part, medoids, mech):
        k, lab, med = signature(part)
        want = self.expected(q)
        self.ctx.eq((k, lab), want[:2], mech, request=q)
        if medoids:
            self.ctx.eq(med, want[2], mech + '-medoids', request=q)
        # answers stay usable as partitions
        self.ctx.eq(sum(int(part.cluster_len(i)) for i in range(k)), self.x * self.y, mech)


def saved_files(home):
    return sorted(p for p in glob.glob(os.path.join(home, '**', '*'), recursive=True)
                  if os.path.isfile(p))


def kill_child(w, q, home, nbytes=None, after=None):
    '''Makes the request in a process that dies while it saves. -> True if it was killed'''
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            os.close(2)
            if nbytes is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (nbytes, nbytes))
            w.request(q, home)
            rc = 0
        except BaseException:
            rc = 3
        finally:
            os._exit(rc)
    if after is not None:
        time.sleep(after)
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    return os.WIFSIGNALED(status)


def history(ctx, rng):
    w = World(ctx, rng)
    homes = ['pickle', os.path.join('other', 'pk')]
    log = []
    pool = [w.pick() for _ in range(5)]
    done = set()
    for _ in range(14):
        q = pool[int(rng.integers(len(pool)))] if rng.random() < 0.7 else w.pick()
        home = homes[int(rng.random() < 0.35)]
        act = float(rng.random())
        if act < 0.15:
            n = int(rng.integers(0, 700))
            killed = kill_child(w, q, home, nbytes=n)
            if killed:
                ctx.event('killed-at-byte')
                ctx.state('killed at {}'.format(n))
            log.append(('crash', q, home, n, killed))
            act = 1.0
            after_crash = killed
        elif act < 0.22:
            d = float(rng.random() * 0.02)
            killed = kill_child(w, q, home, after=d)
            if killed:
                ctx.event('killed-at-time')
            log.append(('kill', q, home, killed))
            after_crash = killed
        elif act < 0.4:
            files = saved_files(home)
            after_crash = False
            if files:
                f = files[int(rng.integers(len(files)))]
                how = str(rng.choice(['truncate', 'empty', 'garbage', 'text', 'delete', 'half']))
                size = os.path.getsize(f)
                if how == 'delete':
                    os.unlink(f)
                elif how in ('truncate', 'half', 'empty'):
                    cut = {'truncate': int(rng.integers(0, max(1, size))), 'half': size // 2,
                           'empty': 0}[how]
                    with open(f, 'r+b') as fh:
                        fh.truncate(min(cut, max(0, size - 1)))
                else:
                    with open(f, 'wb') as fh:
                        fh.write(b'not a partition\n' * 3 if how == 'text'
                                 else b'\xff\xfe\x00' + bytes(rng.integers(0, 256, 40).tolist()))
                ctx.event('damaged')
                log.append((how, f))
        else:
            after_crash = False
        medoids = bool(rng.random() < 0.85)
        if not medoids:
            ctx.event('without-medoids')
        ctx.event('request')
        ctx.event('reused' if (q, home) in done else 'computed')
        done.add((q, home))
        algo, part = w.request(q, home, medoids)
        log.append(('request', q, home, medoids))
        w.judge(q, part, medoids, 'right-partition')
        if after_crash:
            ctx.event('survived-crash')
            w.judge(q, w.request(q, home)[1], True, 'right-partition')
        # the caller may change the partition it got; later answers are not affected
        part.as_numpy[0, 0] = (int(part.as_numpy[0, 0]) + 1) % w.clusterings[q[2]][1]
        if rng.random() < 0.3:
            loaded = algo.try_load_previous_partition(w.mds[q[0]], home)
            if loaded is not None:
                w.judge(q, loaded, False, 'loaded-partition')
    ctx.describe(shape=[w.t, w.x, w.y], log=log)


def prefixes(ctx, rng):
    '''Every sampled prefix of a saved file: the request recomputes.'''
    w = World(ctx, rng)
    q = w.pick()
    algo, part = w.request(q, 'pk')
    files = saved_files('pk')
    ctx.ok(len(files) == 1, 'saved-file', 'the partition was not saved in the pickle home', files=files)
    f = files[0]
    full = open(f, 'rb').read()
    cuts = sorted(set([0, 1, 2, len(full) - 1, len(full) - 2] +
                      [int(c) for c in rng.integers(0, len(full), size=25)]))
    ctx.describe(request=q, size=len(full), cuts=cuts)
    for cut in cuts:
        with open(f, 'wb') as fh:
            fh.write(full[:cut])
        ctx.event('prefix')
        _, got = w.request(q, 'pk')
        w.judge(q, got, True, 'prefix-recomputed')
        # and the file is whole again
        again = algo.try_load_previous_partition(w.mds[q[0]], 'pk')
        ctx.ok(again is not None, 'repaired-file')
        w.judge(q, again, True, 'repaired-file')


def reuse(ctx, rng):
    '''What was saved is answered again without computing it: other distances would give other partitions.'''
    w = World(ctx, rng)
    qs = []
    for _ in range(3):
        q = w.pick()
        while w.clusterings[q[2]][0] == 'regular' and rng.random() < 0.7:
            q = w.pick()
        if q not in qs:
            qs.append(q)
    for q in qs:
        w.judge(q, w.request(q, 'pk')[1], True, 'right-partition')
    for r, md in enumerate(w.mds):
        m = np.load(md.distances_filename)
        p = rng.permutation(len(m))
        np.save(md.distances_filename, m[np.ix_(p, p)])
    for i in rng.permutation(len(qs)):
        q = qs[int(i)]
        medoids = bool(rng.random() < 0.7)
        w.judge(q, w.request(q, 'pk', medoids)[1], medoids, 'saved-partition-is-reused')
        if signature(w.request(q, None)[1]) != w.expected(q):
            ctx.event('reuse-told-apart')
    ctx.describe(requests=qs, shape=[w.t, w.x, w.y])


def siblings(ctx, rng):
    '''A request and variants of it that differ in one parameter share a home, in random order.'''
    from spta.clustering.factory import ClusteringFactory, ClusteringMetadataFactory
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata as MD
    w = World(ctx, rng)
    n = w.x * w.y
    k = int(rng.integers(2, min(n, 5)))
    perm = [int(i) for i in rng.permutation(n)]
    im = perm[:k]
    base = dict(region=0, measure=0, name='kmedoids', k=k,
                kw=dict(random_seed=1, mode='lite', initial_medoids=None))
    if rng.random() < 0.6:
        base['kw']['initial_medoids'] = im
    md0 = w.mds[0]
    regions = [md0, w.mds[1], w.mds[2],
               MD('one1', md0.region, 2015, 2015, 1, scaled=False)]

    def variant(**ch):
        v = dict(base, kw=dict(base['kw']))
        for key, val in ch.items():
            if key in v:
                v[key] = val
            else:
                v['kw'][key] = val
        return v
    ims = [None, im, im[::-1], im[1:] + im[:1], perm[-k:], sorted(im)]
    if n > 11 and k == 2:
        ims += [[1, 10], [11, 0], [1, 11], [11, 1]]       # same digits in a row
    vs = [base] + [variant(initial_medoids=i) for i in ims]
    vs += [variant(random_seed=s) for s in (0, 2, 11, 12, 21, 111)]
    vs += [variant(mode='robust'), variant(name='regular', kw={}), variant(region=1),
           variant(region=2), variant(measure=1), variant(measure=2)]
    if base['kw']['initial_medoids'] is None:
        vs += [variant(k=kk) for kk in range(1, min(n, 12))]
    order = [int(i) for i in rng.permutation(len(vs))] + [int(i) for i in rng.permutation(len(vs))]
    ctx.describe(shape=[w.t, w.x, w.y], base=base, order=order)
    ctx.event('siblings')

    def ask(v, home):
        md = ClusteringMetadataFactory().instance(v['name'], v['k'], **dict(v['kw']))
        return ClusteringFactory(w.measures[v['measure']]()).instance(md).partition(
            regions[v['region']].create_instance(), pickle_home=home)
    truth = {}
    for i in order:
        v = vs[i]
        if i not in truth:
            try:
                truth[i] = signature(ask(v, None))
            except ValueError:
                truth[i] = None             # a regular partition that does not exist
        if truth[i] is not None:
            ctx.eq(signature(ask(v, 'pk')), truth[i], 'right-partition', request=v)


def concurrent(ctx, rng):
    '''Several processes make requests on the same home at once; all get right answers.'''
    w = World(ctx, rng)
    qs = [w.pick() for _ in range(2)]
    n = 5
    plan = [(qs[int(rng.integers(2))], float(rng.random() * 0.01)) for _ in range(n)]
    ctx.describe(plan=plan)
    ctx.event('concurrent')
    pids = []
    for i, (q, d) in enumerate(plan):
        pid = os.fork()
        if pid == 0:
            try:
                os.close(2)
                time.sleep(d)
                res = []
                for _ in range(3):
                    res.append(signature(w.request(q, 'pk')[1]))
                    time.sleep(d / 3)
                with open('res-{}'.format(i), 'wb') as f:
                    pickle.dump(res, f)
            except BaseException as e:
                with open('res-{}'.format(i), 'wb') as f:
                    pickle.dump(repr(e), f)
            finally:
                os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    for i, (q, d) in enumerate(plan):
        with open('res-{}'.format(i), 'rb') as f:
            res = pickle.load(f)
        ctx.eq(res, [w.expected(q)] * 3, 'concurrent-right-partition', request=q)


WORKLOADS = [('history', history, 90, 1400), ('reuse', reuse, 40, 600), ('prefixes', prefixes, 24, 300),
             ('siblings', siblings, 60, 900),
             ('concurrent', concurrent, 21, 250)]
