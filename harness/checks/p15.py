'''P15: overall errors of every forecast, serial and with parallel workers under injected delays.'''
import os
import time

import numpy as np

import lib

RULE = ('A case evaluates every forecast of a random region (plain, cluster, scaled, scaled cluster; points '
        'without forecast) serially and with 1 to 7 worker processes, whose work is slowed at random so '
        'that they finish in many different orders; every overall error is recomputed from the formulas '
        'and the orders in which processes worked are recorded. Non-trivial: at least 2 points.')
ASSUMPTIONS = ['Schedules are produced by random delays inside the workers, not enumerated.',
               'sMAPE is judged on positive data; MASE on non-constant training series.']
REQUIRED_EVENTS = ['serial', 'parallel', 'missing-forecast', 'all-missing', 'many-chunks', 'cluster',
                   'scaled', 'repeated-run']


def setup():
    import spta.model.error, spta.model.train, spta.region.partition, spta.region.scaling  # noqa


def delayed(func, log, seed):
    def wrapper(f, o, *args):
        n = abs(hash((float(f[0]), float(o[-1]), seed))) % 11
        if n >= 7:
            time.sleep((n - 6) * 0.0004)
        fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (str(os.getpid()) + '\n').encode())
        os.close(fd)
        return func(f, o, *args)
    wrapper.__name__ = func.__name__
    return wrapper


def case(ctx, rng):
    import spta.util.error as error_util
    from spta.model.error import ErrorAnalysis
    from spta.model.train import SplitTrainingAndTestLast
    from spta.region import Point
    big = rng.random() < 0.4
    x, y = lib.shape2(rng, 8, 42, min_points=22) if big else lib.shape2(rng, 5, 16)
    if big:
        ctx.event('many-chunks')
    test_len = int(rng.integers(1, 4))
    t = test_len + int(rng.integers(3, 7))
    kind = str(rng.choice(lib.REGION_KINDS))
    a = lib.values(rng, (t, x, y), kind='positive') + 1.0
    region, members, have, lo, hi = lib.wrap(rng, a, kind, k=None if not big else 2)
    scaled = kind.startswith('scaled')
    for k in ('scaled', 'cluster'):
        if k in kind:
            ctx.event(k)
    train, test = SplitTrainingAndTestLast(test_len).split(region)
    etype = str(rng.choice(['MSE', 'sMAPE', 'MASE']))
    # forecasts as the region has them
    f = rng.random((test_len, x, y)) * (1.0 if scaled else 20.0) + 0.05
    frac = float(rng.choice([0, 0.2, 0.6, 1.0], p=[0.4, 0.3, 0.2, 0.1]))
    missing = [p for p in members if rng.random() < frac]
    for p in missing:
        f[:, p[0], p[1]] = np.nan
    if missing:
        ctx.event('missing-forecast')
    if len(missing) == len(members):
        ctx.event('all-missing')
    workers = [int(rng.integers(1, 8)) for _ in range(2)]
    ctx.describe(kind=kind, shape=[t, x, y], etype=etype, workers=workers, missing=len(missing),
                 data=lib.gen_tag(a))
    ctx.trivial = x * y < 2

    spread = hi - lo
    ob, tr = a[t - test_len:], a[:t - test_len]
    want = {}
    for p in members:
        s = f[:, p[0], p[1]]
        if np.isnan(s).any():
            want[p] = float('nan')
            continue
        errs = []
        for q in members:
            g = s * spread[q] + lo[q] if scaled else s
            errs.append(lib.ERRORS[etype](g, ob[:, q[0], q[1]], tr[:, q[0], q[1]]))
        want[p] = lib.rms(errs)

    def judge(out, mech):
        got = [((p.x, p.y), float(v)) for p, v in out]
        ctx.eq([g[0] for g in got], members, mech + '-points')
        for p, v in got:
            ctx.close(v, want[p], mech, rtol=1e-7, atol=1e-7, point=p, etype=etype, kind=kind)
            ctx.close(out.value_at(Point(*p)), v, mech + '-value-at', point=p)
        return {p: v for p, v in got}

    freg = region.new_spatio_temporal_region(f.copy())
    ctx.event('serial')
    serial = judge(ErrorAnalysis(test, train).overall_with_each_forecast(freg, etype), 'serial-overall')
    log = os.path.join(ctx.dir, 'order.log')
    saved = {n: getattr(error_util, n) for n in ('mse', 'smape', 'mase')}
    seed = int(rng.integers(1000))
    for n, func in saved.items():
        setattr(error_util, n, delayed(func, log, seed))
    try:
        for w in workers:
            ea = ErrorAnalysis(test, train, parallel_workers=w)
            for again in range(2 if rng.random() < 0.4 else 1):
                ctx.event('parallel')
                if again:
                    ctx.event('repeated-run')
                if os.path.exists(log):
                    os.unlink(log)
                out = judge(ea.overall_with_each_forecast(freg, etype), 'parallel-overall')
                for p in members:
                    ctx.close(out[p], serial[p], 'parallel-equals-serial', rtol=1e-12, atol=1e-12,
                              point=p, workers=w)
                if os.path.exists(log):
                    order = open(log).read().split()
                    names = {}
                    seq = [str(names.setdefault(o, len(names))) for o in order]
                    ctx.event('observed-worker-step', len(seq))
                    ctx.state(' '.join(seq))
    finally:
        for n, func in saved.items():
            setattr(error_util, n, func)
    now = np.array(freg.as_numpy)
    for p in members:
        ctx.same(now[:, p[0], p[1]], f[:, p[0], p[1]], 'forecast-unchanged')
    ctx.same(np.array(test.as_numpy), have[t - test_len:], 'data-unchanged')


WORKLOADS = [('schedules', case, 210, 1500)]
