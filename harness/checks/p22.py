'''P22: windows of series and of labelled series, enumerated independently.'''
import numpy as np

import lib

RULE = ('Windows of random arrays (lengths around the window length, strides, ties) and of random labelled '
        'frames (repeated labels, shuffled columns, odd row labels, windows from 1 to longer than the '
        'series) are compared with direct slices. Non-trivial: more than one window and, for frames, more '
        'than one series.')
ASSUMPTIONS = ['Labelled series have no missing values.', 'Window lengths are at least 1.']
REQUIRED_EVENTS = ['windows', 'stride', 'too-long', 'labelled', 'whole-series-window', 'window-of-one',
                   'repeated-label', 'labelled-too-long', 'csv-frame']


def setup():
    import spta.util.arrays, spta.classifier.sliding_window  # noqa


def plain(ctx, rng):
    from spta.util import arrays as au
    for _ in range(12):
        n = int(rng.integers(1, 30))
        w = int(rng.integers(1, n + 3))
        stride = 1 if rng.random() < 0.6 else int(rng.integers(1, 6))
        kind = rng.random()
        a = rng.normal(size=n)
        if kind < 0.2:
            a = rng.integers(0, 3, size=n)
        elif kind < 0.3:
            a = np.where(rng.random(n) < 0.3, np.nan, a)
        arg = a.tolist() if rng.random() < 0.3 else a.copy()
        frozen = np.array(arg)
        ctx.event('windows')
        if stride > 1:
            ctx.event('stride')
        try:
            got = au.sliding_window(arg, w, stride) if rng.random() < 0.8 or stride > 1 else \
                au.sliding_window(arg, w)
        except ValueError:
            ctx.ok(w > n, 'windows-within-the-series', 'rejected window {} of {}'.format(w, n))
            ctx.event('too-long')
            continue
        if w > n:
            ctx.event('too-long')
            ctx.eq(len(got), 0, 'longer-window-gives-none', n=n, w=w)
            continue
        want = [frozen[i:i + w] for i in range(0, n - w + 1, stride)]
        ctx.eq(len(got), len(want), 'number-of-windows', n=n, w=w, stride=stride)
        for g, h in zip(got, want):
            ctx.same(np.asarray(g, dtype=float), np.asarray(h, dtype=float), 'windows-in-order', n=n, w=w,
                     stride=stride)
        ctx.same(np.asarray(arg, dtype=float), frozen.astype(float), 'series-unchanged')
        ctx.state((min(n, 9), min(w, 9), stride))
    ctx.describe(tag=lib.gen_tag(rng.random(4)))


def labelled(ctx, rng):
    import pandas as pd
    from spta.classifier.sliding_window import apply_sliding_window_to_labeled_series as apply
    n = int(rng.integers(1, 14))
    rows = int(rng.integers(1, 7))
    data = rng.normal(size=(rows, n)) * 10
    if rng.random() < 0.3:
        data = rng.integers(0, 3, size=(rows, n)).astype(float)
    pool = ['2-0-1', '3-1-0', '10-0-11', 'a', 'b', 'zz'][:int(rng.integers(1, 7))]
    if rng.random() < 0.15:
        pool = [0, 1, 2]
    labels = [pool[int(rng.integers(len(pool)))] for _ in range(rows)]
    if len(set(labels)) < rows:
        ctx.event('repeated-label')
    cols = {'label': labels}
    for i in range(n):
        cols['s{}'.format(i)] = data[:, i]
    names = list(cols)
    if rng.random() < 0.3:
        names = [names[int(i)] for i in rng.permutation(len(names))]
    df = pd.DataFrame({c: cols[c] for c in names})
    if rng.random() < 0.3:
        df.index = rng.integers(0, 3, size=rows)
    elif rng.random() < 0.2:
        ctx.event('csv-frame')
        df.to_csv('frame.csv', index=False)
        df = pd.read_csv('frame.csv')
        data = df[['s{}'.format(i) for i in range(n)]].values
    w = int(rng.choice([1, n, n + 1, n + 3])) if rng.random() < 0.4 else int(rng.integers(1, n + 1))
    ctx.describe(n=n, rows=rows, w=w, labels=[str(v) for v in labels], data=lib.gen_tag(data))
    ctx.trivial = rows < 2 or n - w < 1
    before = df.copy()
    if w > n:
        ctx.event('labelled-too-long')
        try:
            got = apply(df, w)
        except Exception:
            ctx.ok(True, 'longer-window-gives-none')
            return
        ctx.eq(len(got), 0, 'longer-window-gives-none')
        return
    ctx.event('labelled')
    if w == n:
        ctx.event('whole-series-window')
    if w == 1:
        ctx.event('window-of-one')
    got = apply(df, w)
    want = [(labels[r], data[r, o:o + w], o) for r in range(rows) for o in range(n - w + 1)]
    ctx.eq(len(got), len(want), 'number-of-windows', n=n, rows=rows, w=w)
    for i, (lab, win, off) in enumerate(want):
        row = got.iloc[i]
        ctx.eq(row['label'], lab, 'label-of-the-window', row=i)
        ctx.close(np.asarray(row['window'], dtype=float), win, 'window-of-the-series', rtol=1e-12,
                  atol=1e-12, row=i, n=n, w=w)
        ctx.eq(int(row['offset']), off, 'offset-of-the-window', row=i)
    ctx.ok(before.equals(df), 'frame-unchanged')
    # twice gives the same
    again = apply(df, w)
    ctx.eq(list(again['label']), list(got['label']), 'same-again')


WORKLOADS = [('plain', plain, 1280, 6000), ('labelled', labelled, 1920, 8000)]
