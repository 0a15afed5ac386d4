'''C10: track finding.'''
import itertools
import os

import numpy as np
import tables as tb

from mc import core
from checks import common
from beam_telescope_analysis import track_analysis

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all 19683 arrangements of 3 rows and 3 devices (no hit or one of two positions), all 4096 of 2x3 (three positions), every 37th of 3 rows/4 devices and of 4 rows/3 devices, incl. coinciding hits, for 3 orders in z and 5 choices of extrapolation devices, chunk sizes 5..1000 rows; 3 well separated particles in 4 devices: all 1296 row orders, all 512 patterns of missing hits behind the first device with 6 row orders, for 6 geometries (tilted, flipped, permuted, beam alignment), with/without extrapolation and beam alignment; 1, 2, 11 and 12 devices; event limits 0..14 and all chunk sizes for 12 events',
    'thorough': 'as quick with every arrangement of 3 rows/4 devices and 4 rows/3 devices and all row orders for all missing hit patterns',
}
RULE = 'states: distinct (hit arrangement, set-up, parameters); transitions: candidates judged; traces: runs of the real track finding'
ASSUMPTIONS = ['events fit into a chunk', 'one candidate per particle: all particles have a hit in the first device in beam direction and their distance is large compared to the extrapolation error (hits of different particles cannot be told apart otherwise)', 'with an event limit at most that many events are required, exactly as many as available for a single chunk (the events are chosen randomly)']


def warmup():
    common.quiet(track_analysis)
    d = core.scratch()  # compile
    find(core.Rec(), d, setup(d, GEOMETRIES[0]), merged(np.zeros(1, dtype=int), np.zeros((1, 4)), np.zeros((1, 4)), np.zeros((1, 4), dtype=int)), 'warm-up')


def dtype(n):
    d = [('event_number', 'i8')] + [('%s_dut_%d' % (a, i), 'f8') for a in 'xyz' for i in range(n)]
    for a, t in (('charge', 'f4'), ('frame', 'u2'), ('n_hits', 'u4'), ('cluster_ID', 'i2'), ('cluster_shape', 'i8'), ('n_cluster', 'u4')):
        d += [('%s_dut_%d' % (a, i), t) for i in range(n)]
    return np.dtype(d + [('hit_flag', 'u4')] + [('%s_err_dut_%d' % (a, i), 'f4') for a in 'xyz' for i in range(n)])


def merged(ev, x, y, ident):
    '''x, y, ident: arrays (rows, duts), NaN for no hit; ident names the hit and goes to all other columns.'''
    n = x.shape[1]
    t = np.zeros(len(ev), dtype=dtype(n))
    t['event_number'] = ev
    for i in range(n):
        hit = np.isfinite(x[:, i])
        t['x_dut_%d' % i], t['y_dut_%d' % i], t['z_dut_%d' % i] = x[:, i], y[:, i], np.where(hit, 0., np.nan)
        q = ident[:, i]
        for a, v in (('charge', q + 0.5), ('x_err', 1. + q), ('y_err', 2. + q), ('z_err', 0. * q)):
            t[('%s_dut_%d' % (a, i)) if '_err' not in a else '%s_err_dut_%d' % (a[0], i)] = np.where(hit, v, np.nan)
        for a, v in (('frame', 1 + q % 60000), ('n_hits', 1 + q * 3), ('cluster_ID', 1 + q % 30000), ('cluster_shape', 3 + 7 * q), ('n_cluster', 5 + q)):
            t['%s_dut_%d' % (a, i)] = np.where(hit, v, 0)
        t['hit_flag'] += (hit << i).astype('u4')
    return t


def fields(t, i):
    return [n for n in t.dtype.names if n.endswith('_dut_%d' % i)]


def judge(rec, what, src, got):
    '''The candidates are the merged data with hits exchanged between the rows of an event.'''
    if got.dtype != src.dtype or len(got) != len(src) or not np.array_equal(got['event_number'], src['event_number']):
        rec.violation('C10:rows', '%s: events are %r, expected %r' % (what, got['event_number'].tolist()[:50], src['event_number'].tolist()[:50]))
        return False
    rec.transitions += len(src)
    n = sum(1 for c in src.dtype.names if c.startswith('x_dut_'))
    flag = np.zeros(len(got), dtype=int)
    for i in range(n):
        f = fields(src, i)
        key = ['event_number'] + f
        a, b = (np.array([np.nan_to_num(t[c].astype('f8'), nan=-1e30) for c in key]) for t in (src, got))
        a, b = a[:, np.lexsort(a[::-1])], b[:, np.lexsort(b[::-1])]
        if not np.array_equal(a, b):
            k = int(np.flatnonzero((a != b).any(axis=0))[0])
            e = a[0, k]
            rec.violation('C10:hits', '%s: hits of DUT%d in event %d are %r, were %r' % (what, i, e, got[got['event_number'] == e][f].tolist(), src[src['event_number'] == e][f].tolist()))
            return False
        flag += np.isfinite(got['x_dut_%d' % i]).astype(int) << i
    if not np.array_equal(flag, got['hit_flag']):
        k = int(np.flatnonzero(flag != got['hit_flag'])[0])
        rec.violation('C10:flag', '%s: hit flag of row %d is %d, but the candidate has the hits %d' % (what, k, got['hit_flag'][k], flag[k]))
        return False
    return True


SLOPES = [(0., 0.), (1e-3, -5e-4), (-1e-3, 2e-3)]
OFFSETS = [(0., 0.), (3000., 500.), (-2500., 2500.)]
Z = [0., 1e5, 2e5, 3e5]
GEOMETRIES = [
    [dict(translation_z=z) for z in Z],
    [dict(translation_z=z) for z in (2e5, 0., 3e5, 1e5)],
    [dict(translation_z=Z[0], rotation_alpha=0.2), dict(translation_z=Z[1], rotation_beta=-0.3, translation_x=500.), dict(translation_z=Z[2], rotation_gamma=1.5, translation_y=-900.), dict(translation_z=Z[3], rotation_alpha=0.1, rotation_beta=0.4, rotation_gamma=-3.)],
    [dict(translation_z=Z[0], rotation_alpha=np.pi), dict(translation_z=Z[1], rotation_beta=np.pi), dict(translation_z=Z[2], rotation_gamma=np.pi), dict(translation_z=Z[3], rotation_alpha=np.pi, rotation_gamma=np.pi / 2)],
    [dict(translation_z=Z[3], translation_x=50.), dict(translation_z=Z[2], rotation_beta=0.1), dict(translation_z=Z[1]), dict(translation_z=Z[0], rotation_gamma=0.01)],
    [dict(translation_z=-5e4), dict(translation_z=-4e4, rotation_alpha=-0.05), dict(translation_z=1e4), dict(translation_z=4e5)],
]
BEAMS = [None, None, dict(rotation_alpha=0.01, rotation_beta=-0.02), dict(rotation_beta=0.03), dict(rotation_alpha=-0.02), None]
DIRECTION = [(0., 0.), (0., 0.), (0.02, 0.01), (-0.03, 0.), (0., -0.02), (0., 0.)]


def crossing(dut, p, direction=(0., 0.)):
    """Local position where particle p crosses the device."""
    R = common.rotation(*[dut.get('rotation_' + n, 0.) for n in ('alpha', 'beta', 'gamma')])
    T = np.array([dut.get('translation_' + n, 0.) for n in 'xyz'])
    o = np.array([OFFSETS[p][0], OFFSETS[p][1], 0.])
    s = np.array([SLOPES[p][0] + direction[0], SLOPES[p][1] + direction[1], 1.])
    n = R[:, 2]
    g = o + s * (n.dot(T - o) / n.dot(s))
    return R.T.dot(g - T)[:2]


def setup(d, geometry, beam=None, n=None):
    conf = os.path.join(d, 'tel.yaml')
    t = common.telescope(conf, [common.pixel(2000, 2000, 50., 50., **g) for g in geometry])
    for k, v in (beam or {}).items():
        setattr(t, k, v)
    if beam:
        t.save_configuration(conf)
    return conf


def find(rec, d, conf, src, what, **kw):
    p, out = os.path.join(d, 'm.h5'), os.path.join(d, 'o.h5')
    common.write(p, MergedClusters=src)
    before = common.content(p)
    what = '%s, %r' % (what, kw)
    rec.traces += 1
    try:
        r = track_analysis.find_tracks(conf, p, out, **kw)
    except Exception as e:
        rec.violation('C10:error', '%s: %s: %s' % (what, type(e).__name__, e))
        return None
    if r != out or 'TrackCandidates' not in common.nodes(out):
        rec.violation('C10:name', '%s: returned %r' % (what, r))
        return None
    if common.content(p) != before:
        rec.violation('C10:input', what + ': input file changed')
    return common.read(out, 'TrackCandidates')


def arrangement(n_r, n_d, values, part, mod, stride):
    X = []
    for k, v in enumerate(itertools.product(range(len(values)), repeat=n_d * n_r)):
        if k % (mod * stride) == part * stride:
            X.append(v)
    X = np.array(X).reshape(-1, n_d)
    V = np.array(values, dtype=float)
    return np.arange(len(X)) // n_r, V[X][..., 0], V[X][..., 1], np.arange(X.size).reshape(X.shape) % 20000


def cases(tier):
    T = tier == 'thorough'
    out = [['limit', tier, m, k] for m in (0, 1) for k in range(4)]
    out += [['arb', tier, 3, 3, 3, k, 8, 1] for k in range(8)] + [['arb', tier, 2, 3, 4, k, 2, 1] for k in range(2)]
    out += [['arb', tier, 3, 4, 3, k, 8, 1 if T else 37] for k in range(8)] + [['arb', tier, 4, 3, 3, k, 8, 1 if T else 37] for k in range(8)]
    out += [['tracks', tier, g] for g in range(6)] + [['many', tier], ['invalid', tier]]
    return out


def run_case(case, rec):
    kind, tier = case[:2]
    d = core.scratch()
    if kind == 'arb':
        _, _, n_r, n_d, n_v, part, mod, stride = case
        ev, x, y, ident = arrangement(n_r, n_d, [(np.nan, np.nan), (0., 0.), (50., 0.), (100., 50.)][:n_v], part, mod, stride)
        src = merged(3 + 2 * ev, x, y, ident)
        for j, zs in enumerate(([0., 1e5, 2e5, 3e5], [3e5, 0., 2e5, 1e5], [0., -1e4, 1e5, -2e4])):
            conf = setup(d, [dict(translation_z=z, rotation_beta=0.1 * (i == 1), rotation_gamma=0.2 * i * (j == 2)) for i, z in enumerate(zs[:n_d])])
            full = None
            for sel in (None, [0, 1], [], [1], [0, 2]):
                for chunk in ((1000000,) if sel else (5, 17, 1000000)[part % 3 * (n_r < 4):][:1] + (1000000,)):
                    got = find(rec, d, conf, src[:2000] if chunk < 100 else src, 'arrangements of hits', select_extrapolation_duts=sel, align_to_beam=bool(j), chunk_size=chunk)
                    rec.state((case, j, sel, chunk))
                    if got is None or not judge(rec, 'arrangements %r' % case, src[:2000] if chunk < 100 else src, got):
                        return
                    rec.outcome(got['hit_flag'].tobytes())
                    if chunk < 100:
                        full = got
                    elif full is not None and sel is None:
                        rec.expect(common.same(got[got['event_number'] < full['event_number'][-1]], full[full['event_number'] < full['event_number'][-1]]), 'C10:chunk', 'candidates depend on the chunk size')
                    if sel is not None:
                        full = None
        for k in range(0, len(src), 3):
            rec.state((case, src[k:k + 3].tobytes()))
    elif kind == 'tracks':
        g = GEOMETRIES[case[2]]
        conf = setup(d, g, BEAMS[case[2]])
        first = int(np.argmin([a['translation_z'] for a in g]))
        pos = np.array([[crossing(a, p, DIRECTION[case[2]]) for p in range(3)] for a in g])
        perms = list(itertools.permutations(range(3)))
        events = [((7,) * 4, pp) for pp in itertools.product(range(6), repeat=4)]
        others = [(0, 0, 0, 0), (1, 2, 3, 4), (5, 3, 1, 0), (2, 4, 2, 5), (4, 4, 0, 3), (3, 0, 5, 1)] if tier == 'quick' else [(a, b, (a + b) % 6, (a * b) % 6) for a in range(6) for b in range(6)]
        for miss in itertools.product(range(8), repeat=3):
            m = list(miss)
            m.insert(first, 7)
            events += [(tuple(m), pp) for pp in others]
        # the same with one and two particles
        for m in itertools.product(range(4), repeat=3):
            m = list(m)
            m.insert(first, 3)
            events += [(tuple(m), pp) for pp in others[:3]]
        rows, ident, ev = [], [], []
        for e, (miss, pp) in enumerate(events):
            X, I = np.full((3, 4, 2), np.nan), np.zeros((3, 4), dtype=int)
            for i in range(4):
                seen = [p for p in perms[pp[i]] if miss[i] >> p & 1]
                X[:len(seen), i] = pos[i, seen]
                I[:len(seen), i] = np.array(seen, dtype=int) + 3 * e % 6000
            n = bin(miss[first]).count('1')
            rows.append(X[:n])
            ident.append(I[:n])
            ev += [e] * n
            rec.state((case[2], miss, pp))
        X, I = np.concatenate(rows), np.concatenate(ident)
        src = merged(np.array(ev), X[..., 0], X[..., 1], I)
        particle = (I - np.array(ev)[:, None] * 3 % 6000)
        for sel, beam in itertools.product((None, [], [0, 1, 2], [1, 3]), (True, False)):
            chunk = 100 if sel and len(sel) == 3 else 1000000
            what = 'well separated particles, geometry %d' % case[2]
            got = find(rec, d, conf, src, what, select_extrapolation_duts=sel, align_to_beam=beam, chunk_size=chunk)
            if got is None or not judge(rec, what, src, got):
                return
            q = np.stack([got['charge_dut_%d' % i] - 0.5 for i in range(4)], axis=1)
            bad = np.nanmax(q, axis=1) != np.nanmin(q, axis=1)
            if any(DIRECTION[case[2]]) and not beam:
                rec.extra['not judged: large angle without beam alignment'] += 1
                continue
            rec.outcome(q.tobytes())
            if bad.any():
                k = int(np.flatnonzero(bad)[0])
                miss, pp = events[ev[k]]
                rec.violation('C10:mixed', '%s, extrapolation %r, beam alignment %r: candidate %d of event %d has hits of different particles %r (hits seen %r, row orders %r)' % (what, sel, beam, k, ev[k], (got[k:k + 1].tolist()), miss, pp))
                return
    elif kind == 'many':
        for n in (1, 2, 11, 12, 20):
            conf = setup(d, [dict(translation_z=1e4 * i) for i in range(n)])
            x, y, I = [], [], []
            perms = list(itertools.permutations(range(3)))
            for e in range(40):
                pp = [perms[(e * (i + 1) + i) % 6] for i in range(n)]
                x.append([[OFFSETS[pp[i][r]][0] for i in range(n)] for r in range(3)])
                y.append([[OFFSETS[pp[i][r]][1] for i in range(n)] for r in range(3)])
                I.append([[pp[i][r] + 3 * e for i in range(n)] for r in range(3)])
            x, y, I = np.concatenate(x), np.concatenate(y), np.concatenate(I)
            src = merged(np.arange(120) // 3, np.array(x), np.array(y), np.array(I))
            for chunk in (4, 7, 1000):
                got = find(rec, d, conf, src, '%d devices' % n, chunk_size=chunk)
                rec.state((n, chunk))
                if got is None or not judge(rec, '%d devices' % n, src, got):
                    return
                q = np.stack([got['charge_dut_%d' % i] for i in range(n)], axis=1)
                rec.expect((q == q[:, :1]).all(), 'C10:mixed', '%d devices: candidates have hits of different particles' % n)
    elif kind == 'limit':
        conf = setup(d, GEOMETRIES[0])
        mult = [(1, 2, 3, 1, 1, 2, 3, 3, 1, 2, 1, 1), (3, 3, 1, 1, 1, 1, 1, 1, 2, 2, 2, 1)][case[2]]
        ev = np.repeat(np.arange(12) * 3 + 5, mult)
        n = len(ev)
        x = np.array([[OFFSETS[(i + k) % 3][0] for k in range(4)] for i in range(n)])
        y = np.array([[OFFSETS[(i + k) % 3][1] for k in range(4)] for i in range(n)])
        src = merged(ev, x, y, np.arange(4 * n).reshape(n, 4))
        full = find(rec, d, conf, src, 'no limit')
        for limit in range(case[3], 15, 4):
            for chunk in range(4, n + 2):
                got = find(rec, d, conf, src, 'event limit', max_events=limit, chunk_size=chunk)
                if got is None:
                    return
                rec.state((mult, limit, chunk))
                u = np.unique(got['event_number'])
                exp = full[np.isin(full['event_number'], u)]
                rec.transitions += len(got)
                rec.outcome(u.tobytes())
                if not common.same(got, exp):
                    rec.violation('C10:limit', 'event limit %d, chunk size %d: events are not complete and unchanged: %r' % (limit, chunk, got['event_number'].tolist()))
                    return
                want = 12 if limit == 0 else min(limit, 12)
                if len(u) > want or chunk > n and len(u) != want:
                    rec.violation('C10:limit', 'event limit %d, chunk size %d: got %d of 12 events' % (limit, chunk, len(u)))
                    return
    else:
        conf = setup(d, GEOMETRIES[0])
        src = merged(np.arange(3), np.zeros((3, 4)), np.zeros((3, 4)), np.arange(12).reshape(3, 4))
        p = common.write(os.path.join(d, 'm.h5'), MergedClusters=src)
        for sel in ([4], [-1], [0, 1, 7], 1, 'all'):
            rec.transitions += 1
            try:
                track_analysis.find_tracks(conf, p, os.path.join(d, 'o.h5'), select_extrapolation_duts=sel)
            except ValueError:
                continue
            rec.violation('C10:invalid', 'extrapolation devices %r were accepted' % (sel,))
        src = merged(np.array([0, 1, 1, 1, 1, 2]), np.zeros((6, 4)), np.zeros((6, 4)), np.arange(24).reshape(6, 4))
        common.write(p, MergedClusters=src)
        for chunk in (2, 3, 4):
            rec.transitions += 1
            try:
                track_analysis.find_tracks(conf, p, os.path.join(d, 'o.h5'), chunk_size=chunk)
            except Exception:
                continue
            rec.violation('C10:lost', 'event with 4 rows was accepted for chunk size %d' % chunk)
