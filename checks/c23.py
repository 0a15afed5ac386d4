'''C23: checking hit and cluster files.'''
import itertools
import os

import numpy as np

from mc import core
from checks import common
from beam_telescope_analysis import hit_analysis
from beam_telescope_analysis.telescope import dut as dm

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all event number sequences (sorted or not) of up to 5 rows over {0..3} (every fifth one over numbers beyond 32 bit) and all sorted ones of up to 7 rows, event ranges 1..3, chunk sizes 2..5 and 1000; all pairs of pixels of two devices in consecutive events; hits/clusters with indices or positions; positions at, next to and beyond all borders at every place of a file; 4 resolutions; device sizes with 1..130 columns; wrapper with all selections of 3 devices',
    'thorough': 'as quick with unsorted sequences of up to 6 rows and sorted ones of up to 9 rows over {0..4}',
}
RULE = 'states: distinct (event history, chunk size, event range); transitions: values and bins compared; traces: runs of the real check'
ASSUMPTIONS = ['an event fits into a chunk (otherwise an error is required)', 'event numbers are not negative', 'positions are not NaN']

N, ROWS, PX, PY = 5, 4, 18.4, 50.
BIG = [5, 2 ** 32 + 4, 2 ** 32 + 5, 2 ** 32 + 6, 2 ** 40, 2 ** 40 + 1]
KINDS = [('Hits', False), ('Hits', True), ('Clusters', False), ('Clusters', True)]


def dut_of(n=N, rows=ROWS, px=PX, py=PY):
    return dm.RectangularPixelDut(name='DUT', translation_x=100., translation_y=-20., translation_z=0., rotation_alpha=0.1, rotation_beta=0.3, rotation_gamma=0., **common.pixel(n, rows, px, py))


def table(kind, ev, c, r, n=N, rows=ROWS, px=PX, py=PY):
    name, pos = kind
    pre = 'mean_' if name == 'Clusters' else ''
    cn, rn = ('x', 'y') if pos else ('column', 'row')
    num = 'f8' if pos or pre else 'u2'
    t = np.zeros(len(ev), dtype=[('event_number', 'i8'), (pre + cn, num), (pre + rn, num), ('charge', 'f4')])
    t['event_number'] = ev
    c, r = np.asarray(c, dtype=float), np.asarray(r, dtype=float)
    t[pre + cn] = (c - 0.5 - n / 2.) * px if pos else c
    t[pre + rn] = (r - 0.5 - rows / 2.) * py if pos else r
    return t


def model(ev, c, r, rng, n=N, rows=ROWS, bx=1., by=1.):
    '''bx, by: bin sizes in pixels'''
    h = []
    for v, m, b in ((c, n, bx), (r, rows, by)):
        nb = max(1, int(np.ceil(m / b - 1e-7)))
        i = (np.asarray(v, dtype=float) - 0.5 - m / 2. + nb * b / 2.) / b
        f = i - np.floor(i)
        if np.any((f < 1e-6) | (f > 1 - 1e-6)):
            return None
        i = np.floor(i).astype(int)
        hist = np.zeros((nb, nb), dtype=int)
        for j in range(len(ev)):
            for k in range(j):
                if 0 < ev[j] - ev[k] <= rng:
                    hist[i[k], i[j]] += 1
        h.append(hist)
    return h


def verify(rec, d, what, kind, ev, c, r, rng, chunk, n=N, rows=ROWS, px=PX, py=PY, b=None):
    '''b: bin sizes in pixels'''
    what = '%s, events %r, event range %r, chunk size %d, kind %r, bins %r' % (what, list(map(int, ev))[:40], rng, chunk, kind, b)
    rec.state(what)
    p, out = os.path.join(d, 'h.h5'), os.path.join(d, 'o.h5')
    common.write(p, **{kind[0]: table(kind, ev, c, r, n, rows, px, py)})
    before = common.content(p)
    up = all(a <= b for a, b in zip(ev, ev[1:]))
    fits = max([list(ev).count(e) for e in set(ev)] or [0]) < chunk
    try:
        got = hit_analysis.check_file(dut_of(n, rows, px, py), p, output_check_file=out, event_range=rng, resolution=None if b is None else (b[0] * px, b[1] * py), plot=False, chunk_size=chunk)
    except Exception as e:
        rec.traces += 1
        rec.outcome(type(e).__name__)
        return rec.expect(not (up and fits), 'C23:error', '%s: %s: %s' % (what, type(e).__name__, e))
    rec.traces += 1
    if not up:
        rec.violation('C23:accepted', what + ': decreasing event number was accepted')
        return False
    if got != out or sorted(set(common.nodes(out)) - {'arguments'}) != ['CorrelationColumns', 'CorrelationRows', 'EventDelta', 'EventNumber']:
        rec.violation('C23:nodes', '%s: returned %r with %r' % (what, got, common.nodes(out)))
        return False
    u = sorted(set(map(int, ev)))
    rec.transitions += 2 * len(u) + n * n + rows * rows
    for name, exp in (('EventNumber', u), ('EventDelta', [b - a for a, b in zip(u, u[1:])])):
        g = common.read(out, name).tolist()
        if g != exp:
            rec.violation('C23:' + name, '%s: %s is %r, expected %r' % (what, name, g[:50], exp[:50]))
            return False
    m = model(ev, c, r, rng, n, rows, *(b or (1., 1.)))
    if m is None:
        rec.extra['ties'] += 1
    else:
        for name, exp in zip(('CorrelationColumns', 'CorrelationRows'), m):
            g = common.read(out, name)
            if g.shape != exp.shape or not np.array_equal(g, exp):
                rec.violation('C23:' + name, '%s: %s is %r, expected %r' % (what, name, g.tolist() if n < 20 else g.shape, exp.tolist() if n < 20 else exp.shape))
                return False
            rec.outcome(g.tobytes())
    return rec.expect(common.content(p) == before, 'C23:input', what + ': input changed')


def cases(tier):
    T = tier == 'thorough'
    out = [['unsorted', tier, 6 if T else 5, k, 16] for k in range(16)]
    out += [['sorted', tier, 9 if T else 7, 5 if T else 4, k, 16] for k in range(16)]
    out += [['pixels', tier, k] for k in range(4)] + [['sizes', tier, p] for p in (18.4, 50., 20.7)]
    out += [['border', tier, k] for k in range(4)] + [['wrapper', tier]]
    return out


def run_case(case, rec):
    kind, tier = case[:2]
    d = core.scratch()
    if kind == 'unsorted':
        j = 0
        for length in range(1, case[2] + 1):
            for ev in itertools.product(range(4), repeat=length):
                if list(ev) == sorted(ev):
                    continue
                j += 1
                if j % case[4] != case[3]:
                    continue
                for chunk in ((2, 3, 4, 5, 1000) if tier == 'thorough' or length < 5 else ((2, 3, 4, 5, 1000)[j // case[4] % 5],)):
                    if not verify(rec, d, 'sequence', KINDS[j // 16 % 4], ev, [1] * length, [2] * length, 1, chunk):
                        return
    elif kind == 'sorted':
        j = 0
        for length in range(0, case[2] + 1):
            for ev in itertools.combinations_with_replacement(range(case[3]), length):
                j += 1
                if j % case[5] != case[4]:
                    continue
                i = np.arange(length)
                if j // 16 % 5 == 4:
                    # large numbers, large gaps
                    ev = [BIG[e] for e in ev]
                for n, chunk in enumerate((2, 3, 4, 5, 1000) if tier == 'quick' else (2, 3, 4, 5, 6, 7, 1000)):
                    for rng in ((1, 2, 3) if tier == 'thorough' else (1 + (j // 16 + n) % 3,)):
                        if not verify(rec, d, 'sequence', KINDS[j // 16 % 4], ev, 1 + (i * 3) % N, 1 + (i * 5 + j) % ROWS, rng, chunk):
                            return
    elif kind == 'pixels':
        k = KINDS[case[2]]
        n = N * ROWS
        ev = np.arange(2 * n * n)
        pix = np.stack([np.repeat(np.arange(n), n), np.tile(np.arange(n), n)], axis=1).ravel()
        c, r = 1 + pix % N, 1 + pix // N
        for b in (None, (1., 1.), (2., 3.), (0.35, 1.7), (10., 10.)):
            for chunk in (4000, 100):
                # pairs of pixels in consecutive events, different pairs are separated
                verify(rec, d, 'all pairs of pixels', k, (ev // 2 * 3 + ev % 2).tolist(), c, r, 1, chunk, b=b)
        if k[0] == 'Clusters':
            c = np.minimum(c + 0.25, N)
            verify(rec, d, 'clusters between pixels', k, (ev // 2 * 3 + ev % 2).tolist(), c, r, 1, 1000, b=(0.3, 1.))
    elif kind == 'sizes':
        p = case[2]
        for n in range(1, 131):
            if n > 20 and n % 2 and int(n * p / p) == n and tier == 'quick':
                continue
            i = np.arange(2 * n)
            if not verify(rec, d, 'device with %d columns of %r um' % (n, p), KINDS[n % 4], i.tolist(), 1 + i % n, 1 + i % 3, 1, 1000, n=n, rows=3, px=p):
                return
    elif kind == 'border':
        name, pos = KINDS[case[2]]
        base = [(1, 1), (3, 2), (N, ROWS), (2, 3)]
        eps = 1e-3
        if pos:
            cs = [(0.5 - eps, 0), (0.5, 1), (0.5 + eps, 1), (N + 0.5 - eps, 1), (N + 0.5, 1), (N + 0.5 + eps, 0), (-1000, 0), (1000, 0)]
            rs = [(0.5 - eps, 0), (0.5, 1), (0.5 + eps, 1), (ROWS + 0.5 - eps, 1), (ROWS + 0.5, 1), (ROWS + 0.5 + eps, 0), (-1000, 0), (1000, 0)]
        else:
            cs = [(0, 0), (1, 1), (N, 1), (N + 1, 0), (65535, 0)]
            rs = [(0, 0), (1, 1), (ROWS, 1), (ROWS + 1, 0), (65535, 0)]
            if name == 'Clusters':
                cs += [(0.9, 0), (N + 0.1, 0), (-3., 0), (N - 0.1, 1)]
                rs += [(0.9, 0), (ROWS + 0.1, 0), (-3., 0), (ROWS - 0.1, 1)]
        dut = dut_of(px=20., py=50.)
        for (c, co), (r, ro) in itertools.product(cs + [(2, 1)], rs + [(2, 1)]):
            for place in (0, 2, 4):
                for chunk in (2, 3, 1000):
                    pts = base[:place] + [(c, r)] + base[place:]
                    rec.state((case[2], c, r, place, chunk))
                    p, out = os.path.join(d, 'h.h5'), os.path.join(d, 'o.h5')
                    common.write(p, **{name: table((name, pos), np.arange(5), [q[0] for q in pts], [q[1] for q in pts], px=20., py=50.)})
                    try:
                        hit_analysis.check_file(dut, p, out, plot=False, chunk_size=chunk)
                        ok = True
                    except (RuntimeError, ValueError) as e:
                        rec.outcome(type(e).__name__)
                        ok = False
                    rec.traces += 1
                    if ok != bool(co and ro):
                        rec.violation('C23:border', '%s with %s at column %r, row %r of a device with %d x %d pixels was %s (chunk size %d, row %d)' % (name, 'positions' if pos else 'indices', c, r, N, ROWS, 'accepted' if ok else 'rejected', chunk, place))
                        return
                    if ok:
                        # an entry at the border belongs to one of the neighboring bins, entries of bins elsewhere do not exist
                        h, g = common.read(out, 'CorrelationColumns'), common.read(out, 'CorrelationRows')
                        rec.transitions += h.size + g.size
                        ci = [min(max(int(np.floor(q[0] - 0.5 + 1e-9)), 0), N - 1) for q in pts]
                        ri = [min(max(int(np.floor(q[1] - 0.5 + 1e-9)), 0), ROWS - 1) for q in pts]
                        e1, e2 = np.zeros((N, N), dtype=int), np.zeros((ROWS, ROWS), dtype=int)
                        for a in range(4):
                            e1[ci[a], ci[a + 1]] += 1
                            e2[ri[a], ri[a + 1]] += 1
                        rec.expect(np.array_equal(h, e1) and np.array_equal(g, e2), 'C23:border', 'entry at column %r, row %r: correlations are %r, %r, expected %r, %r' % (c, r, h.tolist(), g.tolist(), e1.tolist(), e2.tolist()))
    else:
        shapes = [(5, 4), (3, 3), (4, 2)]
        conf = os.path.join(d, 'tel.yaml')
        common.telescope(conf, [common.pixel(*s) for s in shapes])
        ev = [0, 1, 1, 2, 4]
        files = [common.write(os.path.join(d, 'h%d.h5' % i), Hits=table(KINDS[0], ev, 1 + np.arange(5) % s[0], 1 + np.arange(5) % s[1])) for i, s in enumerate(shapes)]
        for sel in [None] + [list(s) for n in (1, 2, 3) for s in itertools.permutations(range(3), n)]:
            order = list(range(3)) if sel is None else sel
            for lists in (True, False):
                rngs = [(1, 2, 3)[i] for i in order] if lists else 2
                res = [(50. * (i + 1), 50.) for i in order] if lists else None
                outs = [os.path.join(d, 'o%d.h5' % i) for i in order] if lists else None
                r = hit_analysis.check(conf, [files[i] for i in order], outs, sel, event_ranges=rngs, resolutions=res, plot=False, chunk_size=4)
                rec.traces += 1
                rec.state((repr(sel), lists))
                if r != (outs or [files[i][:-3] + '_check.h5' for i in order]):
                    rec.violation('C23:name', 'selection %r: returned %r' % (sel, r))
                    return
                for k, i in enumerate(order):
                    m = model(ev, 1 + np.arange(5) % shapes[i][0], 1 + np.arange(5) % shapes[i][1], rngs[k] if lists else 2, *shapes[i], bx=i + 1. if lists else 1.)
                    for j, name in enumerate(('CorrelationColumns', 'CorrelationRows')):
                        g = common.read(r[k], name)
                        rec.transitions += g.size
                        if m is not None and not np.array_equal(g, m[j]):
                            rec.violation('C23:wrapper', 'selection %r DUT%d: %s is %r, expected %r' % (sel, i, name, g.tolist(), m[j].tolist()))
        for kw in (dict(select_duts=[3]), dict(select_duts=[-1]), dict(select_duts=[0, 1]), dict(event_ranges=[1, 2]), dict(output_check_files=[]), dict(resolutions=[(1, 1)] * 2)):
            rec.transitions += 1
            try:
                hit_analysis.check(conf, files[:1], plot=False, **dict(dict(select_duts=[0]), **kw))
            except ValueError:
                continue
            rec.violation('C23:invalid', 'invalid arguments %r were accepted' % kw)
