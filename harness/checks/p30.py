'''P30: the partition analysis driver is run for real; its files are compared with the partitions.'''
import glob
import os
import re
import shutil
from types import SimpleNamespace

import numpy as np

import lib
import programs
import reports
from checks import p27, p28
from checks.p19 import tree

RULE = ('A case runs the partition analysis of a random suite (k-medoids or regular) on a random offset '
        'region, then again with saved partitions, with some of them damaged, with files of another suite '
        'present, and with a fresh pickle directory; the CSV files are parsed and compared with '
        'independently computed partitions. Non-trivial: at least 2 clusterings.')
ASSUMPTIONS = ['The distances of the region are saved, as the driver requires.']
REQUIRED_EVENTS = ['driver-run', 'kmedoids', 'regular', 'rerun-saved', 'rerun-damaged', 'other-suite',
                   'membership-file', 'row', 'program-run', 'variance-option', 'random-option', 'silhouette-option', 'many-clusters']


def setup():
    p27.setup()
    p28.setup()
    programs.install('clustering.partition_analysis')
    import experiments.clustering.partition_analysis, spta.clustering.factory  # noqa
    import spta.clustering.suite, spta.region.metadata, spta.dataset.temp_brazil  # noqa
    from spta.distance.dtw import DistanceByDTW
    DistanceByDTW().measure(np.arange(3.0), np.arange(4.0))


def run_analysis(md, suite, variance=False, silhouette=False):
    '''Runs the real driver on that region and suite, in the current directory.'''
    import logging
    import experiments.metadata.region as er
    import experiments.metadata.clustering as ec
    from experiments.clustering import partition_analysis as pa
    patches = []
    for mod in (er, ec, pa):
        for name, new in (('predefined_regions', lambda: {'the-region': md}),
                          ('get_suite', lambda *a, **k: suite)):
            if hasattr(mod, name):
                patches.append((mod, name, getattr(mod, name)))
                setattr(mod, name, new)
    try:
        args = SimpleNamespace(region='the-region', clustering_type=suite.metadata_name,
                               clustering_suite=suite.identifier, variance=variance,
                               silhouette=silhouette, random=None, bins='auto', log='INFO',
                               plot=False)
        pa.analyze_suite(args, logging.getLogger('verif'))
    finally:
        for mod, name, old in patches:
            setattr(mod, name, old)


def read_files(home='outputs'):
    out = {}
    for p in sorted(glob.glob(os.path.join(home, '**', '*.csv'), recursive=True)):
        out[p] = open(p, newline='').read()
    return out


def driver(ctx, rng):
    from spta.clustering.suite import ClusteringSuite
    from spta.clustering.factory import ClusteringFactory
    from spta.distance.dtw import DistanceByDTW
    many = reports.many_clusters(ctx, 10)
    x, y = lib.shape2(rng, 5, 16, min_points=13 if many else 6)
    t = int(rng.integers(3, 6))
    md, _, _ = lib.world(rng, t, x, y, scaled=bool(rng.random() < 0.4))
    spt = md.create_instance()
    a = np.array(spt.as_numpy)
    m = lib.save_distances(md, a)
    kind = str(rng.choice(['kmedoids', 'kmedoids', 'regular']))
    ctx.event(kind)
    if kind == 'kmedoids':
        ks = [int(k) for k in rng.permutation(np.arange(2, 6))[:int(rng.integers(1, 4))]]
        if many:
            ks = [2, int(rng.integers(11, 13))]
        seeds = [int(s) for s in rng.permutation(13)[:int(rng.integers(1, 3))]]
        mode = str(rng.choice(['lite', 'lite', 'robust']))
        suite = ClusteringSuite('abc', 'kmedoids', k=ks, random_seed=seeds, mode=mode)
    else:
        ks = []
        for k in range(1, 13):
            small = max(d for d in range(1, k + 1) if k % d == 0 and d * d <= k)
            dx, dy = (small, k // small) if x < y else (k // small, small)
            if dx <= x and dy <= y:
                ks.append(k)
        ks = [int(k) for k in rng.permutation(ks)[:int(rng.integers(1, 4))]]
        seeds, mode = [], None
        suite = ClusteringSuite('abc', 'regular', k=ks)
    ctx.describe(shape=[t, x, y], kind=kind, ks=ks, seeds=seeds, mode=mode,
                 offset=[md.region.x1, md.region.y1], data=lib.gen_tag(a))
    ctx.trivial = len(list(suite)) < 2
    truth = {}
    for cmd in suite:
        p = ClusteringFactory(DistanceByDTW()).instance(cmd).partition(md.create_instance())
        truth[repr(cmd)] = (np.array(p.as_numpy).astype(int), [(int(q.x), int(q.y)) for q in p.medoids])

    def judge():
        dm = DistanceByDTW()
        path = suite.analysis_csv_filepath('outputs', md, dm)
        lines = [l for l in open(path, newline='').read().splitlines() if l]
        ctx.eq(lines[0].split(' '), ['clustering', 'total_cost', 'medoids'], 'suite-header')
        ctx.eq([l.split(' ')[0] for l in lines[1:]], [repr(c) for c in suite], 'one-row-per-clustering')
        for l in lines[1:]:
            ctx.event('row')
            name, cost, rest = l.split(' ', 2)
            lab, med = truth[name]
            want = 0.0
            for i, p in enumerate(lib.points(x, y)):
                q = med[lab[p]]
                want += m[q[0] * y + q[1], i]
            ctx.close(float(cost), want, 'row-total-cost', rtol=1e-6, atol=0.00051, clustering=name)
            meds = [tuple(int(v) for v in part.strip('()').split(','))
                    for part in rest.strip('|').split(' ') if part]
            ctx.eq(meds, [(px + md.region.x1, py + md.region.y1) for px, py in med],
                   'row-absolute-medoids', clustering=name)
            # the membership file of this clustering
            files = glob.glob(os.path.join('outputs', '**', 'clustering__{}.csv'.format(name)),
                              recursive=True)
            ctx.eq(len(files), 1, 'one-membership-file', clustering=name, files=files)
            ctx.event('membership-file')
            rows = [r.split(' ') for r in open(files[0], newline='').read().splitlines() if r]
            ctx.eq(rows[0], ['cluster', 'points', 'coverage'], 'membership-header')
            k = int(lab.max()) + 1
            sizes = [int((lab == c).sum()) for c in range(k)]
            ctx.eq([(int(r[0]), int(r[1])) for r in rows[1:]], list(enumerate(sizes)),
                   'membership-points', clustering=name)
            for r, s in zip(rows[1:], sizes):
                ctx.close(float(r[2]), s * 100.0 / (x * y), 'membership-coverage', atol=0.0501)

    ctx.event('driver-run')
    run_analysis(md, suite)
    judge()
    first = read_files()
    for step in [int(s) for s in rng.permutation(4)[:2]]:
        ctx.event('driver-run')
        if step == 0:
            ctx.event('rerun-saved')
            run_analysis(md, suite)
        elif step == 1:
            pkls = glob.glob(os.path.join('pickle', '**', '*.pkl'), recursive=True)
            ctx.event('rerun-damaged')
            for p in pkls:
                if rng.random() < 0.6:
                    with open(p, 'r+b') as f:
                        f.truncate(int(rng.integers(0, os.path.getsize(p))))
            run_analysis(md, suite)
        elif step == 2:
            shutil.rmtree(os.path.join(ctx.dir, 'pickle'))
            shutil.rmtree(os.path.join(ctx.dir, 'outputs'))
            run_analysis(md, suite)
        else:
            ctx.event('other-suite')
            other = ClusteringSuite('xyz', 'kmedoids', k=[2], random_seed=[77])
            run_analysis(md, other)
            run_analysis(md, suite, silhouette=bool(kind == 'kmedoids' and rng.random() < 0.5))
        judge()
        second = read_files()
        ctx.eq({p: second.get(p) for p in first}, first, 'rerun-reproduces-files', step=step)


def options(ctx, rng):
    '''The program by its command line, with plots, over regions that share a name.'''
    from experiments.clustering import partition_analysis  # noqa
    from spta.clustering.kmedoids import kmedoids_metadata_generator
    from spta.clustering.regular import regular_metadata_generator
    from spta.clustering.factory import ClusteringFactory
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata as MD
    wide = reports.many_clusters(ctx, 16)
    x, y = lib.shape2(rng, 5, 16, min_points=13) if wide else lib.shape2(rng, 4, 12, min_points=6)
    t = int(rng.integers(3, 6))
    raw = {}
    for year in (2014, 2015):
        f = lib.series_field(rng, t, x + 3, y + 3, kind=str(rng.choice(['groups', 'random', 'ties'])))
        # the points of a region have different series
        raw[year] = f + np.arange(f[0].size).reshape(f[0].shape) * 1e-3
        lib.install_dataset(raw[year], year, year, 1)
    regions = {}
    ox, oy = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    for name, (year, scaled) in {'one': (2015, False), 'sc': (2015, True), 'old': (2014, False)}.items():
        md = MD('r', Region(ox, ox + x, oy, oy + y), year, year, 1, scaled=scaled)
        a = raw[year][:, ox:ox + x, oy:oy + y]
        regions[name] = (md, lib.save_distances(md, lib.scale(a)[0] if scaled else a))
    programs.CATALOG['regions'] = {n: r[0] for n, r in regions.items()}
    ks = [int(k) for k in rng.permutation([2, 3, 4, 5])[:int(rng.integers(1, 4))]]
    if wide:
        ks = [11]
    seeds = [int(v) for v in rng.permutation(13)[:int(rng.integers(1, 3))]]
    rks = [k for k in p28.regular_ks(x, y, 7)]
    rks = [int(k) for k in rng.permutation(rks)[:2]]

    def catalogues():
        programs.CATALOG['kmedoids'] = {'s': kmedoids_metadata_generator(k_values=ks, seed_values=seeds)}
        programs.CATALOG['regular'] = {'s': regular_metadata_generator(k_values=rks)}
    log = []
    known = {}
    many = False
    for _ in range(3):
        catalogues()
        name = str(rng.choice(sorted(regions)))
        kind = 'regular' if rks and rng.random() < 0.35 else 'kmedoids'
        variance, sil = bool(rng.random() < 0.6), bool(rng.random() < 0.5)
        rand = int(rng.choice([0, 1, 2, 30])) if variance and rng.random() < 0.6 else None
        bins = str(rng.choice(['auto', 'sturges', 'fd', '7', '12', '25'])) if variance and rng.random() < 0.6 else None
        md, dm = regions[name]
        cmds = list(programs.CATALOG[kind]['s'])
        many = many or len(cmds) > 1
        argv = [name, kind, 's'] + ['--silhouette'] * sil + ['--variance'] * variance
        argv += ([] if rand is None else ['--random', rand]) + ([] if bins is None else ['--bins', bins])
        log.append([str(a) for a in argv])
        ctx.event('program-run')
        before = tree('.')
        with p27.Recorder() as rec:
            _, lines = programs.run_logged('clustering.partition_analysis', *argv)
        after = tree('.')
        changed = [f for f in after if after[f] != before.get(f)]
        ctx.eq([f for f in before if f not in after], [], 'nothing-is-removed')
        ctx.ok(all('/' + repr(md) + '/' in f.replace(os.sep, '/') for f in changed), 'files-of-the-region', log=log,
               names=sorted(changed))
        ctx.ok(all(f.endswith('.pkl') or f.endswith('.pickle') for f in changed if f.replace('./', '').startswith('pickle')) and
               not any(f.endswith('.pkl') or f.endswith('.pickle') for f in changed if f.replace('./', '').startswith('outputs')),
               'partitions-and-reports-apart', names=sorted(changed))
        truth = []
        for cmd in cmds:
            if (name, repr(cmd)) not in known:
                p = ClusteringFactory(DistanceByDTW()).instance(cmd).partition(md.create_instance())
                known[name, repr(cmd)] = (np.array(p.as_numpy).astype(int), [(int(q.x), int(q.y)) for q in p.medoids])
            truth.append((repr(cmd), ) + known[name, repr(cmd)])
        dt = DistanceByDTW()
        path = programs.CATALOG[kind]['s'].analysis_csv_filepath('outputs', md, dt)
        rows = [l for l in open(path, newline='').read().splitlines() if l][1:]
        ctx.eq(len(rows), len(truth), 'one-row-per-clustering', log=log)
        pts = lib.points(x, y)
        for row, (desc, lab, med) in zip(rows, truth):
            got, cost, _ = row.split(' ', 2)
            ctx.eq(got, desc, 'one-row-per-clustering')
            want = sum(dm[med[lab[p]][0] * y + med[lab[p]][1], i] for i, p in enumerate(pts))
            ctx.close(float(cost), want, 'row-total-cost', rtol=1e-6, atol=0.00051, log=log)
        if sil:
            ctx.event('silhouette-option')
            scores = [p28.silhouette(dm, lab.ravel()) for _, lab, _ in truth]
            said = [l for l in lines if 'best_silhouette_avg' in l]
            ctx.eq(len(said), 1, 'one-best-silhouette', lines=said)
            m = re.search(r'best_silhouette_avg (\S+) -> (.*)$', said[0])
            best = max(scores)
            if best > -1 + 1e-9:
                ctx.close(float(m.group(1)), best, 'best-silhouette', rtol=1e-6, atol=1e-8, log=log)
            for desc, _, _ in truth:
                ctx.eq(len([f for f in after if os.path.basename(f) == 'silhouette-{}.pdf'.format(desc) and
                            '/' + repr(md) + '/' in f]), 1, 'silhouette-figure-saved', clustering=desc)
        axes = [i for i, s in rec.texts if 'max =' in s]
        if not variance:
            ctx.eq(axes, [], 'histograms-only-as-requested')
            continue
        ctx.event('variance-option')
        if rand is not None:
            ctx.event('random-option')
        ctx.eq(len(axes), sum(len(med) for _, _, med in truth), 'one-histogram-per-cluster', log=log)
        at = 0
        for desc, lab, med in truth:
            want = 'variance-histograms__{}{}.pdf'.format(desc, '' if rand is None else '__random{}'.format(rand))
            ctx.eq(len([f for f in after if os.path.basename(f) == want and '/' + repr(md) + '/' in f]), 1,
                   'histogram-figure-saved', want=want)
            for c, q in enumerate(med):
                ax, text = axes[at], [s for i, s in rec.texts if 'max =' in s][at]
                at += 1
                data = [h for i, h in rec.hists if i == ax]
                members = [i for i, p in enumerate(pts) if lab[p] == c]
                qi = q[0] * y + q[1]
                outside = [i for i in range(x * y) if i not in members]
                ctx.eq(len(data), 1 if rand is None else 2, 'histograms-as-requested', log=log)
                ctx.close(np.sort(data[0]), np.sort(dm[qi, members]), 'histogram-of-own-cluster', rtol=1e-9, cluster=c,
                          clustering=desc, log=log)
                if rand is not None:
                    p27.random_ok(ctx, dm, qi, outside, data[1], min(rand or len(members), len(outside)))
                p27.judge_statistics(ctx, text, dm[qi, members], data[1] if rand is not None else None)
    ctx.describe(shape=[t, x, y], ks=ks, seeds=seeds, regular=rks, log=log)
    ctx.trivial = not many


WORKLOADS = [('driver', driver, 60, 1400), ('options', options, 32, 500)]
