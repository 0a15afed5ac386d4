'''C09: correlation histograms of pairs of devices.'''
import itertools
import math
import os

import numpy as np
import tables as tb

from mc import core
from checks import common
from beam_telescope_analysis import hit_analysis

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all histories of 3 events of 2 devices with 0..2 entries each (chunk sizes 3,4 or 1000), of 2 events of 3 devices with 0..2 entries (chunk sizes 3,5; one or every reference); long files with all multiplicities 0..3 of 3 devices, 5 orders, chunk sizes 4..24; all pairs of pixels of 3 devices for 6 orientations and 7 resolutions; hits/clusters with indices/positions for both devices (16 combinations); device sizes with 1..130 columns of 4 pitches (number of bins); all selections/orders of 3 devices and references; one run with the real worker pool',
    'thorough': 'as quick with histories of 4 events of 2 devices, all chunk sizes, all resolutions for all orientations',
}
RULE = 'states: distinct (history, chunk size, set-up); transitions: histogram bins compared; traces: runs of the real correlation'
ASSUMPTIONS = ['event numbers are sorted, an event fits into a chunk', 'positions are inside of the sensor', 'entries within rounding errors of a bin edge may be in either bin (avoided by the choice of positions)']

KINDS = [('Hits', False), ('Hits', True), ('Clusters', False), ('Clusters', True)]
SETUP = [dict(common.pixel(8, 6, 50., 40.)),
         dict(common.pixel(10, 4, 18.4, 20.), translation_x=33., translation_y=-120., translation_z=1e4),
         dict(common.pixel(3, 5, 250., 50.), translation_x=-5., translation_z=2e4, rotation_beta=0.2, rotation_gamma=0.05)]


def warmup():
    common.quiet(hit_analysis)
    hit_analysis.Pool = common.FakePool


def entries(dut, counts, numbers, kind, seed=0):
    '''Table of a device with the given number of entries per event.'''
    ev = np.repeat(numbers, counts)
    i = np.arange(len(ev)) + seed
    cols, rows = SETUP[dut]['n_columns'], SETUP[dut]['n_rows']
    return table(dut, kind, ev, 1 + (i * 7 + dut * 3) % cols, 1 + (i * 5 + i // cols + dut) % rows)


def table(dut, kind, ev, c, r):
    name, pos = kind
    s = SETUP[dut]
    ev, c, r = np.asarray(ev), np.asarray(c, dtype=float), np.asarray(r, dtype=float)
    if name == 'Clusters' and len(c):
        c = np.minimum(c + 0.375 * (np.arange(len(c)) % 2), s['n_columns'] + 0.375)  # not the pixel center
    pre = 'mean_' if name == 'Clusters' else ''
    cn, rn = ('x', 'y') if pos else ('column', 'row')
    num = 'f8' if pos or pre else 'u2'
    t = np.zeros(len(ev), dtype=[('event_number', 'i8'), (pre + cn, num), (pre + rn, num), ('charge', 'f4')])
    t['event_number'] = ev
    x, y = (c - 0.5 - s['n_columns'] / 2.) * s['column_size'], (r - 0.5 - s['n_rows'] / 2.) * s['row_size']
    t[pre + cn], t[pre + rn] = (x, y) if pos else (c, r)
    gx, gy, _ = common.to_global(s, x, y)
    return t, ev, gx, gy


def size(s):
    x, y, _ = common.to_global(s, [a * s['n_columns'] * s['column_size'] / 2 for a in (-1, -1, 1, 1)], [a * s['n_rows'] * s['row_size'] / 2 for a in (-1, 1, -1, 1)])
    return x.max() - x.min(), y.max() - y.min()


def bins(s, k, resolution):
    '''Number of bins and lower edge of the histogram axis.'''
    n = max(1, math.ceil(size(s)[k] / resolution - 1e-7))
    return n, s.get('translation_' + 'xy'[k], 0.) - n * resolution / 2.


def index(v, low, res):
    i = (v - low) / res
    f = i - np.floor(i)
    return np.floor(i).astype(int), np.any((f < 1e-6) | (f > 1 - 1e-6))


def model(ref, dut, rs, ds, resolution):
    out = []
    for k in range(2):
        nr, lr = bins(rs, k, resolution[k])
        nd, ld = bins(ds, k, resolution[k])
        ri, e1 = index(ref[2 + k], lr, resolution[k])
        di, e2 = index(dut[2 + k], ld, resolution[k])
        if e1 or e2:
            out.append(None)
            continue
        h = np.zeros((nd, nr), dtype=int)
        by = {}
        for j, e in enumerate(dut[1].tolist()):
            by.setdefault(e, []).append(j)
        for i, e in enumerate(ref[1].tolist()):
            for j in by.get(e, ()):
                h[di[j], ri[i]] += 1
        out.append((h, resolution[k], [lr, lr + nr * resolution[k]], [ld, ld + nd * resolution[k]]))
    return out


class Runner(object):
    def __init__(self, rec, n=3, setup=None):
        self.rec, self.d = rec, core.scratch()
        self.setup = (SETUP if setup is None else setup)[:n]
        self.conf = os.path.join(self.d, 'tel.yaml')
        common.telescope(self.conf, self.setup)

    def run(self, tabs, chunks, what, resolution=(100., 100.), select=None, ref=0, default_name=False):
        '''tabs: entries of the selected devices in the order of the selection'''
        order = list(range(len(self.setup))) if select is None else select
        refs = order if ref is None else (ref if isinstance(ref, list) else [ref])
        files = [common.write(os.path.join(self.d, 'f%d.h5' % i), **{('Clusters' if any(n.startswith('mean') for n in t[0].dtype.names) else 'Hits'): t[0]}) for i, t in enumerate(tabs)]
        before = [common.content(f) for f in files]
        exp = {}
        for r in refs:
            for o in order:
                if r != o:
                    m = model(tabs[order.index(r)], tabs[order.index(o)], self.setup[r], self.setup[o], resolution)
                    self.rec.extra['ties'] += m.count(None)
                    exp[r, o] = m
        for chunk in chunks:
            w = '%s, chunk size %d, resolution %r, selection %r, reference %r' % (what, chunk, resolution, select, ref)
            self.rec.state(w)
            out = os.path.join(self.d, 'Correlated.h5' if default_name else 'o.h5')
            try:
                r = hit_analysis.correlate(self.conf, files, None if default_name else out, resolution=resolution, select_duts=select, select_reference_duts=ref, plot=False, chunk_size=chunk)
            except Exception as e:
                self.rec.violation('C09:error', '%s: %s: %s' % (w, type(e).__name__, e))
                return False
            self.rec.traces += 1
            names = sorted('Correlation_%s_%d_%d%s' % (k, a, b, s) for a, b in exp for k in 'xy' for s in ('', '_reduced_background'))
            if r != out or sorted(set(common.nodes(out)) - {'arguments'}) != names:
                self.rec.violation('C09:nodes', '%s: returned %r with %r' % (w, r, common.nodes(out)))
                return False
            with tb.open_file(out) as f:
                for (a, b), m in exp.items():
                    for k in range(2):
                        n = f.get_node('/Correlation_%s_%d_%d' % ('xy'[k], a, b))
                        red = f.get_node('/Correlation_%s_%d_%d_reduced_background' % ('xy'[k], a, b))
                        if m[k] is None:
                            continue
                        h = m[k][0]
                        self.rec.transitions += h.size
                        got = n[:]
                        if got.shape != h.shape or not np.array_equal(got, h):
                            self.rec.violation('C09:histogram', '%s: %s correlation of %d and %d has shape %r, entries %r, expected %r, %r' % (w, 'xy'[k], a, b, got.shape, entries_of(got), h.shape, entries_of(h)))
                            return False
                        for node in (n, red):
                            if abs(node.attrs.resolution - resolution[k]) > 1e-9 or not np.allclose(node.attrs.ref_hist_extent, m[k][2], atol=1e-6) or not np.allclose(node.attrs.dut_hist_extent, m[k][3], atol=1e-6):
                                self.rec.violation('C09:axes', '%s: axes of %s are %r, %r, expected %r' % (w, node._v_name, node.attrs.ref_hist_extent, node.attrs.dut_hist_extent, m[k][1:]))
                                return False
                        rb = red[:]
                        self.rec.outcome(got.tobytes())
                        u, s, v = np.linalg.svd(h.astype(float))
                        if rb.shape != h.shape or rb.min() != 0 or (len(s) == 1 or s[0] - s[1] > 1e-3) and not reduced_ok(rb, h - s[0] * np.outer(u[:, 0], v[0])):
                            self.rec.violation('C09:background', '%s: %s correlation of %d and %d without background is %r for %r' % (w, 'xy'[k], a, b, rb.tolist(), h.tolist()))
                            return False
            if [common.content(f) for f in files] != before:
                self.rec.violation('C09:input', w + ': input file changed')
                return False
        return True


def reduced_ok(got, rest):
    '''The background is rounded to integers and the result shifted to start at zero.'''
    d = got - rest
    return d.max() - d.min() < 2. + 1e-6


def entries_of(h):
    return [(int(i), int(j), int(h[i, j])) for i, j in np.argwhere(h)][:40]


NUMBERS = [lambda n: np.arange(n), lambda n: 3 + 2 * np.arange(n), lambda n: 2 ** 40 + np.array([0, 1, 5, 6, 7, 100, 2 ** 33] * 20)[:n] + 2 ** 34 * (np.arange(n) // 7)]


def cases(tier):
    T = tier == 'thorough'
    out = [['hist', tier, 2, 4 if T else 3, 3, None, k, 64 if T else 8] for k in range(64 if T else 8)]
    out += [['hist', tier, 3, 2, 3, None, k, 8] for k in range(8)]
    out += [['long', tier, o] for o in range(5)]
    out += [['pixels', tier, a] for a in range(6)]
    out += [['kinds', tier, k] for k in range(4)]
    out += [['sizes', tier, p] for p in (50., 18.4, 20.7, 1. / 3)]
    out += [['select', tier], ['pool', tier], ['invalid', tier]]
    return out[::-1]


def run_case(case, rec):
    kind, tier = case[:2]
    hit_analysis.Pool = common.FakePool
    if kind == 'hist':
        _, _, n, length, mult, _, k, mod = case
        R = Runner(rec, n)
        for j, h in enumerate(itertools.product(itertools.product(range(mult), repeat=n), repeat=length)):
            if j % mod != k:
                continue
            q = j // mod
            numbers = NUMBERS[q % 3](length)
            kinds = [KINDS[(q >> (2 * i)) % 4] for i in range(n)]
            tabs = [entries(d, c, numbers, kinds[d], seed=j) for d, c in enumerate(zip(*h))]
            chunks = (3, 4, 5, 1000) if tier == 'thorough' else ((3,), (4,), (1000, 3))[q % 3] if n == 2 else (3, 5)[q % 2:][:1]
            if not R.run(tabs, chunks, 'entries per event and device %r, events %r, kinds %r' % (h, numbers.tolist(), kinds), resolution=((100., 100.), (47., 61.))[q % 2], ref=(0, None, 1, [0, 1])[q % 4]):
                return
    elif kind == 'long':
        R = Runner(rec)
        order = case[2]
        h = list(itertools.product(range(4), repeat=3))
        h = h[::-1] if order == 1 else [h[(i * (order * 10 + 7)) % len(h)] for i in range(len(h))] if order > 1 else h
        numbers = NUMBERS[order % 3](len(h))
        tabs = [entries(d, c, numbers, KINDS[(order + d) % 4]) for d, c in enumerate(zip(*h))]
        R.run(tabs, [4, 5, 6, 7, 8, 9, 11, 13, 16, 19, 24, 50, 95, 96, 97] if tier == 'quick' else range(4, 100), 'long history %d' % order, resolution=(31., 43.), ref=None, default_name=order == 1)
    elif kind == 'pixels':
        pose = [dict(), dict(rotation_alpha=0.3), dict(rotation_beta=math.pi), dict(rotation_gamma=math.pi / 2), dict(rotation_alpha=-0.1, rotation_beta=0.2, rotation_gamma=2.5), dict(rotation_alpha=math.pi / 2)][case[2]]
        for k, other in enumerate((dict(), dict(rotation_gamma=-math.pi / 2), dict(rotation_alpha=math.pi, rotation_beta=0.1))):
            setup = [dict(SETUP[0], **other), dict(SETUP[1], **pose), dict(SETUP[2])]
            R = Runner(rec, 3, setup)
            global_tabs = []
            n0, n1, n2 = (s['n_columns'] * s['n_rows'] for s in setup)
            ev = np.arange(n0 * n1)
            for d, i in ((0, ev % n0), (1, ev // n0), (2, ev % n2)):
                t, e, _, _ = table(d, ('Hits', k == 1), ev, 1 + i % setup[d]['n_columns'], 1 + i // setup[d]['n_columns'])
                x, y = (1 + i % setup[d]['n_columns'] - 0.5 - setup[d]['n_columns'] / 2.) * setup[d]['column_size'], (1 + i // setup[d]['n_columns'] - 0.5 - setup[d]['n_rows'] / 2.) * setup[d]['row_size']
                global_tabs.append((t, e) + common.to_global(setup[d], x, y)[:2])
            res = [(100., 100.), (33., 21.), (7.3, 290.), (1000., 1000.), (50., 20.), (18.4, 20.), (13., 17.)]
            for m, r in enumerate(res if tier == 'thorough' else res[k::3] + res[3:4]):
                R.run(global_tabs, ((1000, 777), (100000,))[m % 2], 'all pairs of pixels, orientation %r and %r' % (pose, other), resolution=r, ref=None)
    elif kind == 'kinds':
        R = Runner(rec)
        h = [(1, 2, 0), (0, 1, 1), (2, 2, 2), (1, 0, 1), (0, 0, 2), (1, 1, 1)]
        for k2, k3 in itertools.product(range(4), repeat=2):
            tabs = [entries(d, c, NUMBERS[1](6), KINDS[k]) for (d, c), k in zip(enumerate(zip(*h)), (case[2], k2, k3))]
            R.run(tabs, (3, 100), 'kinds %r' % [KINDS[k] for k in (case[2], k2, k3)], ref=(0, None)[k3 % 2])
    elif kind == 'sizes':
        p = case[2]
        for n in list(range(1, 131) if tier == 'quick' else range(1, 400)):
            if tier == 'quick' and n % 2 and int(n * p / p) == n and n > 20:
                continue
            setup = [common.pixel(n, 3, p, 50.), common.pixel(4, n, 20., p, translation_x=10.)]
            R = Runner(rec, 2, setup)
            tabs = []
            for d, s in enumerate(setup):
                c = np.arange(1, s['n_columns'] + 1)
                r = np.arange(1, s['n_rows'] + 1)
                c, r = (g.ravel() for g in np.meshgrid(c, r))
                t = np.zeros(len(c), dtype=[('event_number', 'i8'), ('column', 'u2'), ('row', 'u2')])
                t['event_number'] = np.arange(len(c)) // 2
                t['column'], t['row'] = c, r
                x, y = (c - 0.5 - s['n_columns'] / 2.) * s['column_size'], (r - 0.5 - s['n_rows'] / 2.) * s['row_size']
                tabs.append((t, t['event_number']) + common.to_global(s, x, y)[:2])
            if not R.run(tabs, (1000,), '%d columns of %r um' % (n, p), resolution=(p, p)):
                return
    elif kind == 'select':
        R = Runner(rec)
        h = [(1, 2, 0), (0, 1, 1), (2, 2, 2), (1, 0, 1), (0, 0, 2), (1, 1, 1)]
        for n in (2, 3):
            for sel in itertools.permutations(range(3), n):
                tabs = [entries(d, list(zip(*h))[d], NUMBERS[0](6), KINDS[d]) for d in sel]
                for ref in [None] + list(sel) + [list(sel), [sel[-1]]]:
                    R.run(tabs, (3,), 'selection', select=list(sel), ref=ref)
    elif kind == 'pool':
        import multiprocessing
        hit_analysis.Pool = multiprocessing.Pool
        R = Runner(rec)
        h = list(itertools.product(range(2), repeat=3))
        tabs = [entries(d, c, NUMBERS[1](8), KINDS[d]) for d, c in enumerate(zip(*h))]
        R.run(tabs, (3, 4, 100), 'real worker pool', ref=None)
        hit_analysis.Pool = common.FakePool
    else:
        R = Runner(rec)
        tabs = [entries(d, (1, 1), np.arange(2), KINDS[0]) for d in range(3)]
        files = [common.write(os.path.join(R.d, 'f%d.h5' % i), Hits=t[0]) for i, t in enumerate(tabs)]
        for kw in (dict(select_duts=[0, 1]), dict(select_duts=[0, 1, 3]), dict(select_duts=[0, 1, -1]), dict(select_duts=2), dict(select_duts=[1, 2], select_reference_duts=0)):
            rec.transitions += 1
            try:
                hit_analysis.correlate(R.conf, files, os.path.join(R.d, 'o.h5'), plot=False, **kw)
            except Exception:
                continue
            rec.violation('C09:invalid', 'invalid arguments %r were accepted' % kw)
        big = entries(1, (1, 5), np.arange(2), KINDS[0])
        for i in (0, 1):
            common.write(files[i], Hits=big[0])
            for chunk in (2, 3, 4):
                rec.transitions += 1
                try:
                    hit_analysis.correlate(R.conf, files, os.path.join(R.d, 'o.h5'), plot=False, chunk_size=chunk)
                except Exception:
                    continue
                rec.violation('C09:lost', 'event with 5 hits was correlated with chunk size %d' % chunk)
            common.write(files[i], Hits=tabs[i][0])
