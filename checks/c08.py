'''C08: merging the cluster files of all devices.'''
import itertools
import os

import numpy as np

from mc import core
from checks import common
from beam_telescope_analysis import hit_analysis

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all histories of 3 events of 2 devices with 0..2 clusters each (chunk sizes 3,4,1000), of 3 events of 3 devices with 0..1 clusters (chunk sizes 2,3,1000), of 2 events of 3 devices with 0..2 clusters (chunk sizes 3,5); long files with all 64 multiplicities 0..3 of 3 devices in 6 orders and all chunk sizes 4..24; 1 and 4 devices; event numbers with gaps, starting at 0 or beyond 32 bit; all 8 combinations of index/position input',
    'thorough': 'as quick with all histories of 4 events of 2 devices, chunk sizes 3..7, and all histories of 3 events of 3 devices with 0..2 clusters, chunk sizes 3,4',
}
RULE = 'states: distinct (cluster history, chunk size, layout); transitions: rows compared; traces: runs of the real merging'
ASSUMPTIONS = ['event numbers are sorted, an event fits into a chunk', 'each cluster file has at least one cluster', 'cluster positions are not NaN']

INDEX = np.dtype([('event_number', '<i8'), ('cluster_ID', '<u2'), ('n_hits', '<u4'), ('charge', '<f4'), ('frame', '<u2'), ('seed_column', '<u2'), ('seed_row', '<u2'),
                  ('mean_column', '<f8'), ('mean_row', '<f8'), ('err_column', '<f4'), ('err_row', '<f4'), ('n_cluster', '<u4'), ('cluster_shape', '<i8')])
POSITION = np.dtype([('event_number', '<i8'), ('cluster_ID', '<u2'), ('n_hits', '<u4'), ('charge', '<f4'), ('frame', '<u2'), ('seed_x', '<f8'), ('seed_y', '<f8'),
                     ('mean_x', '<f8'), ('mean_y', '<f8'), ('err_x', '<f4'), ('err_y', '<f4'), ('n_cluster', '<u4'), ('cluster_shape', '<i8')])
SIZE = [(8, 6, 50., 40.), (10, 4, 18.4, 20.), (3, 5, 250., 50.), (7, 7, 10., 30.)]


def warmup():
    common.quiet(hit_analysis)


def clusters(dut, counts, numbers, pos):
    '''Clusters of a device with different values in every field; counts: clusters per event.'''
    ev = np.repeat(numbers, counts)
    n = len(ev)
    k = np.concatenate([np.arange(c) for c in counts] + [[]]).astype(int)
    t = np.zeros(n, dtype=POSITION if pos else INDEX)
    i = np.arange(n)
    t['event_number'] = ev
    t['cluster_ID'] = k
    t['n_hits'] = 1 + (i * 5 + dut) % 23
    t['charge'] = 0.5 + i + 1000 * dut
    t['frame'] = 1 + (i * 3 + dut) % 60000
    cols, rows = SIZE[dut][:2]
    t['mean_x' if pos else 'mean_column'] = ((i * 7 + dut) % 160) - 80.25 if pos else 1 + ((i * 7 + dut) % (8 * cols - 8)) / 8.
    t['mean_y' if pos else 'mean_row'] = ((i * 11 + dut) % 60) - 30.5 if pos else 1 + ((i * 11 + dut) % (8 * rows - 8)) / 8.
    t['err_x' if pos else 'err_column'] = 0.25 + (i % 9) / 8.
    t['err_y' if pos else 'err_row'] = 0.5 + (i % 5) / 8. + dut
    t['n_cluster'] = np.repeat(counts, counts)
    t['cluster_shape'] = np.where(i % 7 == 3, -1, (1 << 40) * (i % 5) + 3 + (i * 13 + dut) % 50)
    return t


def model(tables):
    '''Merged table as list of (event, [row of device or None])'''
    per = []
    for t in tables:
        d = {}
        for r in t:
            d.setdefault(int(r['event_number']), []).append(r)
        per.append(d)
    for e in sorted(set().union(*per)):
        for k in range(max(len(d.get(e, ())) for d in per)):
            yield e, [d[e][k] if k < len(d.get(e, ())) else None for d in per]


def expected(tables, layout, dtype):
    rows = list(model(tables))
    out = np.zeros(len(rows), dtype=dtype)
    for i, (e, hits) in enumerate(rows):
        out[i]['event_number'] = e
        flag = 0
        for d, h in enumerate(hits):
            v = dict(x=np.nan, y=np.nan, z=np.nan, charge=np.nan, frame=0, n_hits=0, cluster_ID=0, cluster_shape=0, n_cluster=0, x_err=np.nan, y_err=np.nan, z_err=np.nan)
            if h is not None:
                flag |= 1 << d
                cols, rws, px, py = SIZE[d]
                if layout[d]:
                    v.update(x=h['mean_x'], y=h['mean_y'], x_err=h['err_x'], y_err=h['err_y'])
                else:
                    v.update(x=(h['mean_column'] - 0.5 - cols / 2.) * px, y=(h['mean_row'] - 0.5 - rws / 2.) * py, x_err=float(h['err_column']) * px, y_err=float(h['err_row']) * py)
                v.update(z=0., z_err=0., **{n: h[n] for n in ('charge', 'frame', 'n_hits', 'cluster_ID', 'cluster_shape', 'n_cluster')})
            for n, x in v.items():
                out[i]['%s_dut_%d' % (n, d) if not n.endswith('_err') else '%s_err_dut_%d' % (n[0], d)] = x
        out[i]['hit_flag'] = flag
    return out


def columns(n):
    c = ['event_number'] + ['%s_dut_%d' % (a, i) for a in 'xyz' for i in range(n)]
    c += ['%s_dut_%d' % (a, i) for a in ('charge', 'frame', 'n_hits', 'cluster_ID', 'cluster_shape', 'n_cluster') for i in range(n)]
    return c + ['hit_flag'] + ['%s_err_dut_%d' % (a, i) for a in 'xyz' for i in range(n)]


class Runner(object):
    def __init__(self, rec, n):
        self.rec, self.n, self.d = rec, n, core.scratch()
        self.conf = os.path.join(self.d, 'tel.yaml')
        common.telescope(self.conf, [common.pixel(*s, translation_z=1e4 * i, translation_x=7. * i, rotation_beta=0.1 * i) for i, s in enumerate(SIZE[:n])])

    def run(self, tables, layout, chunks, what, default_name=False):
        files = [common.write(os.path.join(self.d, 'c%d.h5' % i), Clusters=t) for i, t in enumerate(tables)]
        before = [common.content(f) for f in files]
        exp = None
        for chunk in chunks:
            w = '%s, chunk size %d, positions %r' % (what, chunk, layout)
            self.rec.state(w)
            out = os.path.join(self.d, 'Merged.h5' if default_name else 'm.h5')
            try:
                r = hit_analysis.merge_cluster_data(self.conf, files, None if default_name else out, chunk_size=chunk)
            except Exception as e:
                self.rec.violation('C08:error', '%s: %s: %s' % (w, type(e).__name__, e))
                return False
            self.rec.traces += 1
            if r != out or 'MergedClusters' not in common.nodes(out):
                self.rec.violation('C08:name', '%s: returned %r' % (w, r))
                return False
            got = common.read(out, 'MergedClusters')
            if exp is None:
                if sorted(got.dtype.names) != sorted(columns(self.n)):
                    self.rec.violation('C08:columns', '%s: columns are %r' % (w, got.dtype.names))
                    return False
                exp = expected(tables, layout, got.dtype)
            self.rec.transitions += len(exp)
            if len(got) != len(exp) or not np.array_equal(got['event_number'], exp['event_number']):
                self.rec.violation('C08:rows', '%s: events are %r, expected %r' % (w, got['event_number'].tolist()[:60], exp['event_number'].tolist()[:60]))
                return False
            for name in got.dtype.names:
                a, b = got[name], exp[name]
                ok = np.array_equal(a, b) if a.dtype.kind != 'f' else np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True)
                if not ok:
                    i = int(np.flatnonzero(~((a == b) | (np.isnan(a) & np.isnan(b)) if a.dtype.kind == 'f' else a == b))[0])
                    self.rec.violation('C08:values', '%s: %s of row %d (event %d) is %r, expected %r' % (w, name, i, exp['event_number'][i], a[i], b[i]))
                    return False
            self.rec.outcome(got['hit_flag'].tobytes() + got['event_number'].tobytes())
            if [common.content(f) for f in files] != before:
                self.rec.violation('C08:input', w + ': input file changed')
                return False
        return True


NUMBERS = [lambda n: np.arange(n), lambda n: 3 + 2 * np.arange(n), lambda n: 2 ** 40 + np.array([0, 1, 5, 6, 7, 100, 2 ** 33] * 20)[:n] + 2 ** 34 * (np.arange(n) // 7)]


def cases(tier):
    out = [['hist', tier, 2, 4 if tier == 'thorough' else 3, 3, c, k, 8] for c in ([3, 1000], [4, 5, 7] if tier == 'thorough' else [4]) for k in range(8)]
    out += [['hist', tier, 3, 3, 2, [2, 3, 1000], k, 8] for k in range(8)]
    out += [['hist', tier, 3, 2, 3, [3, 5], k, 8] for k in range(8)]
    if tier == 'thorough':
        out += [['hist', tier, 3, 3, 3, [3, 4], k, 64] for k in range(64)]
    out += [['long', tier, n, o] for n in (1, 3) for o in range(6)]
    out += [['long', tier, 4, 0], ['layout', tier], ['invalid', tier]]
    return out[::-1]


def run_case(case, rec):
    kind, tier, n = (case + [3])[:3]
    R = Runner(rec, n)
    if kind == 'hist':
        _, _, n, length, mult, chunks, k, mod = case
        for j, h in enumerate(itertools.product(itertools.product(range(mult), repeat=n), repeat=length)):
            if j % mod != k:
                continue
            counts = list(zip(*h))
            if not all(any(c) for c in counts):
                continue
            numbers = NUMBERS[(j // mod) % 3](length)
            layout = [bool((j // mod // 3 >> i) & 1) for i in range(n)]
            tables = [clusters(d, c, numbers, layout[d]) for d, c in enumerate(counts)]
            if not R.run(tables, layout, chunks, 'clusters per event and device %r, events %r' % (h, numbers.tolist())):
                return
    elif kind == 'long':
        order = case[3]
        h = list(itertools.product(range(4), repeat=n))
        if n == 4:
            h = h[::5]
        if n == 1:
            h = [(0,), (1,), (2,), (0,), (0,), (3,), (1,), (1,), (1,), (0,)]
        if order == 1:
            h = h[::-1]
        elif order > 1:
            h = [h[(i * (order * 10 + 7)) % len(h)] for i in range(len(h))]
        counts = [c for c in zip(*h)]
        numbers = NUMBERS[order % 3](len(h))
        layout = [bool((order >> i) & 1) for i in range(n)]
        tables = [clusters(d, c, numbers, layout[d]) for d, c in enumerate(counts)]
        R.run(tables, layout, [4, 5, 6, 7, 8, 9, 11, 13, 16, 19, 24, 50, 95, 96, 97, 1000] if tier == 'quick' else range(4, 120), 'long history %d of %d devices' % (order, n), default_name=order == 2)
    elif kind == 'layout':
        for layout in itertools.product((False, True), repeat=3):
            for counts in ([(1, 2, 0, 1), (0, 1, 2, 2), (2, 0, 1, 1)], [(0, 0, 1, 0), (1, 0, 0, 1), (1, 1, 1, 0)]):
                tables = [clusters(d, c, np.array([0, 4, 5, 9]), layout[d]) for d, c in enumerate(counts)]
                R.run(tables, list(layout), (3, 4, 100), 'clusters per event %r' % counts)
    else:
        files = [common.write(os.path.join(R.d, 'c%d.h5' % i), Clusters=clusters(i, (1, 1), np.arange(2), False)) for i in range(3)]
        for k in (0, 1, 2):
            rec.transitions += 1
            try:
                hit_analysis.merge_cluster_data(R.conf, files[:k], os.path.join(R.d, 'o.h5'))
            except (ValueError, IndexError):
                continue
            rec.violation('C08:invalid', '%d files for 3 devices were accepted' % k)
        big = clusters(1, (1, 5), np.arange(2), False)
        common.write(files[1], Clusters=big)
        for chunk in (2, 3, 4):
            rec.transitions += 1
            try:
                hit_analysis.merge_cluster_data(R.conf, files, os.path.join(R.d, 'o.h5'), chunk_size=chunk)
            except Exception:
                continue
            rec.violation('C08:lost', 'event with 5 clusters was merged with chunk size %d' % chunk)
