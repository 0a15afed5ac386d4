'''C04: index histograms and correlation histograms.'''
import itertools

import numpy as np

from beam_telescope_analysis.tools import analysis_utils as au

LEVEL = 'model_checking'
RULE = 'states: distinct argument tuples; transitions: histogram entries accounted for; traces: calls of the real functions compared with the definition'
BOUNDS = {'quick': 'index tuples up to length 4 (1D), 3 (2D), 2 (3D) over all in- and out-of-range indices of shapes up to 3; event sequences of up to 4 entries',
          'thorough': 'one entry more everywhere, shapes up to 4'}
ASSUMPTIONS = ['indices are integers of at most 32 bit', 'correlation histograms are large enough (checked for the caller in C09)']


def cases(tier):
    T = tier == 'thorough'
    out = []
    for n in range(1, 5 if T else 4):
        out.append(['h1', n, 5 if T else 4])
    for nx in range(1, 5 if T else 4):
        for ny in range(1, 4):
            out.append(['h2', [nx, ny], 3])
    for s in itertools.product((1, 2, 3) if T else (1, 2), repeat=3):
        out.append(['h3', list(s), 2])
    out.append(['h3', [2, 3, 4], 2])
    out.append(['big', 0, 0])
    for n in range(0, 5 if T else 4):
        for m in range(0, 5 if T else 4):
            if n + m <= (7 if T else 6):
                out.append(['pairs', n, m])
    for n in range(0, 7 if T else 6):
        out.append(['range', n, 4 if T else 3])
    out.append(['stat', 4, 4])
    return out


def warmup():
    z = np.zeros(1, dtype=np.int64)
    h = np.zeros((1, 1), dtype=np.uint32)
    au.correlate_position_on_event_number(z, z, z, z, z, z, h, h)
    au.correlate_hits_on_event_range(z, z, z, h, h, 1)


def check_hist(rec, func, idx, shape, dtype, dims):
    '''idx: list of index tuples.'''
    cols = [np.array([i[d] for i in idx], dtype=dtype) for d in range(dims)]
    ok = all(0 <= i[d] < shape[d] for i in idx for d in range(dims))
    rec.state((dims, tuple(idx), tuple(shape), np.dtype(dtype).str))
    rec.traces += 1
    keep = [c.copy() for c in cols]
    try:
        h = func(*cols, shape=tuple(shape))
    except Exception as e:
        rec.extra['errors'] += 1
        if ok:
            rec.violation('C04:hist%dd:spurious-error' % dims, 'indices %r shape %r: %r' % (idx, shape, e))
        return
    if not ok:
        rec.violation('C04:hist%dd:out-of-range' % dims, 'indices %r are not all inside of %r, but there is no error: %r' % (idx, shape, h))
        return
    exp = np.zeros(shape, dtype=np.int64)
    for i in idx:
        exp[i] += 1
    rec.transitions += len(idx)
    rec.outcome(exp.tobytes() + repr(shape).encode())
    if h.shape != tuple(shape) or not np.array_equal(h, exp):
        rec.violation('C04:hist%dd' % dims, 'indices %r shape %r: %r, expected %r' % (idx, shape, h, exp))
    if any((a != b).any() for a, b in zip(keep, cols)):
        rec.violation('C04:hist%dd:inputs' % dims, 'inputs are changed')


def run_case(case, rec):
    kind, a, b = case
    if kind == 'h1':
        vals = list(range(-1, a + 2)) + [2**31 - 1]
        for n in range(b + 1):
            for v in itertools.product(vals, repeat=n):
                for dt in (np.int64, np.int32, np.uint16):
                    if dt is np.uint16 and any(x < 0 or x > 60000 for x in v):
                        continue
                    check_hist(rec, au.hist_1d_index, [(x,) for x in v], (a,), dt, 1)
    elif kind == 'h2':
        points = list(itertools.product(range(-1, a[0] + 1), range(-1, a[1] + 1)))
        for n in range(b + 1):
            for v in itertools.combinations_with_replacement(points, n):
                check_hist(rec, au.hist_2d_index, list(v), a, np.int64, 2)
                if n == 2:
                    check_hist(rec, au.hist_2d_index, list(v)[::-1], a, np.int32, 2)
    elif kind == 'h3':
        points = list(itertools.product(*[range(-1, s + 1) for s in a]))
        for n in range(b + 1):
            for v in itertools.combinations_with_replacement(points, n):
                check_hist(rec, au.hist_3d_index, list(v), a, np.int64, 3)
    elif kind == 'big':
        for n in (65535, 65536, 70000):
            x = np.full(n, 1)
            rec.state(('big', n))
            rec.traces += 3
            rec.transitions += n
            if au.hist_1d_index(x, shape=(2,)).tolist() != [0, n] or au.hist_2d_index(x, x, shape=(2, 2)).tolist() != [[0, 0], [0, n]]:
                rec.violation('C04:big', '%d entries in one bin are not counted' % n)
            try:
                h = au.hist_3d_index(x, x, x, shape=(2, 2, 2))
            except Exception:
                h = None
            if (h is None and n <= 65535) or (h is not None and (h[1, 1, 1] != n or h.sum(dtype=np.int64) != n)):
                rec.violation('C04:big', '%d entries in one bin of a 3D histogram: %r' % (n, h))
        # mismatch of dimensions is an error
        for f, args, shape in ((au.hist_1d_index, 1, (2, 2)), (au.hist_2d_index, 2, (2,)), (au.hist_3d_index, 3, (2, 2))):
            try:
                f(*[np.array([0, 1])] * args, shape=shape)
                rec.violation('C04:dimensions', 'shape %r is accepted' % (shape,))
            except Exception:
                pass
        for f, args in ((au.hist_2d_index, 2), (au.hist_3d_index, 3)):
            cols = [np.array([0, 1])] * (args - 1) + [np.array([0])]
            try:
                f(*cols, shape=(2,) * args)
                rec.violation('C04:dimensions', 'columns of different length are accepted')
            except Exception:
                pass
    elif kind == 'pairs':
        pairs(rec, a, b)
    elif kind == 'range':
        event_range(rec, a, b)
    elif kind == 'stat':
        for n in range(1, a + 1):
            for counts in itertools.product(range(4), repeat=n):
                if not sum(counts):
                    continue
                pos = np.array([-1.5, 0.5, 2.0, 7.25][:n])
                c = np.array(counts)
                data = np.repeat(pos, c)
                rec.state(('stat', counts))
                rec.traces += 3
                rec.transitions += n
                for f, e in ((au.get_mean_from_histogram, data.mean()), (au.get_rms_from_histogram, data.std()), (au.get_median_from_histogram, np.median(data))):
                    r = f(c, pos)
                    if not np.isclose(r, e, rtol=1e-12, atol=1e-12):
                        rec.violation('C04:statistics', '%s of %r at %r: %r, expected %r' % (f.__name__, counts, pos, r, e))
    rec.sample({'case': case})


def pairs(rec, n, m):
    '''All event sequences of n reference and m DUT entries with distinct indices.'''
    for e1 in itertools.combinations_with_replacement((0, 1, 3), n):
        for e2 in itertools.combinations_with_replacement((0, 1, 2, 3), m):
            for v in range(2):
                rx = np.arange(n) % (v + 3)
                ry = (np.arange(n) * 2 + 1) % 4
                dx = (np.arange(m) + v) % 4
                dy = np.arange(m)[::-1] % 3
                hx = np.full((4, 5), 7, dtype=np.uint32)
                hy = np.full((3, 4), 2, dtype=np.uint32)
                ex, ey = hx.astype(int), hy.astype(int)
                for i in range(n):
                    for j in range(m):
                        if e1[i] == e2[j]:
                            ex[dx[j], rx[i]] += 1
                            ey[dy[j], ry[i]] += 1
                            rec.transitions += 1
                rec.state(('pairs', e1, e2, v))
                rec.traces += 1
                au.correlate_position_on_event_number(np.array(e1, dtype=np.int64), np.array(e2, dtype=np.int64), rx, ry, dx, dy, hx, hy)
                rec.outcome(ex.tobytes())
                if not (np.array_equal(hx, ex) and np.array_equal(hy, ey)):
                    rec.violation('C04:pairs', 'events %r / %r: %r, %r, expected %r, %r' % (e1, e2, hx, hy, ex, ey))


def event_range(rec, n, max_range):
    for ev in itertools.combinations_with_replacement((0, 1, 2, 4, 7), n):
        for xs in itertools.product((0, 1), repeat=n):
            for r in range(1, max_range + 1):
                x = np.array(xs, dtype=np.int64)
                y = (np.arange(n) + x) % 3
                hx, hy = np.zeros((2, 2), dtype=np.int32), np.zeros((3, 3), dtype=np.int32)
                ex, ey = np.zeros((2, 2), dtype=int), np.zeros((3, 3), dtype=int)
                for i in range(n):
                    for j in range(n):
                        if ev[i] - r <= ev[j] < ev[i]:
                            ex[x[j], x[i]] += 1
                            ey[y[j], y[i]] += 1
                            rec.transitions += 1
                rec.state(('range', ev, xs, r))
                rec.traces += 1
                au.correlate_hits_on_event_range(np.array(ev, dtype=np.int64), x, y, hx, hy, r)
                rec.outcome(ex.tobytes() + ey.tobytes())
                if not (np.array_equal(hx, ex) and np.array_equal(hy, ey)):
                    rec.violation('C04:event-range', 'events %r, indices %r, range %d: %r, %r, expected %r, %r' % (ev, xs, r, hx, hy, ex, ey))
