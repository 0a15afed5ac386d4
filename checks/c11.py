'''C11: track fit (selection of tracks and hits, flags, stored values).'''
import itertools
import os

import numpy as np

from mc import core
from checks import common
from checks.c10 import dtype
from beam_telescope_analysis import track_analysis

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all 256 pairs of hit patterns of two candidates in 4 devices (plus events with 1, 3 and 4 candidates) with displaced hits, in 4 geometries (tilted, flipped, permuted); all fit device sets (11) x included/excluded device under test x all minimum hit numbers, all required hit sets (16), 40 mixed per-device settings, all 15 device selections; quality/isolation distances of 0..4 different kinds per device, limits on/off, full track information, keeping all candidates; both fit methods; chunk sizes 3..1000000; 1 event limit per 0..14 and chunk size; 12 and 20 devices',
    'thorough': 'as quick with three arrangements of displacements per geometry and all per-device settings of two devices',
}
RULE = 'states: distinct (candidates file, parameters); transitions: tracks compared; traces: runs of the real fit'
ASSUMPTIONS = ['events fit into a chunk', 'a hit has a finite position and positive errors exactly if the hit flag is set', 'the Kalman fit needs three hits (documented in the code); its values are judged in C12, here the flags calculated from them', 'distances within 1e-6 um of a limit are not judged', 'with an event limit the events are chosen randomly: at most that many, whole',
               'keeping all candidates: candidates with two fit hits that miss other requirements may or may not have a track']

PIX = [(50., 50.), (250., 50.), (18.4, 20.), (50., 250.)]
SHAPE = [(200, 200), (40, 200), (500, 500), (200, 40)]
GEO = [
    [dict(translation_z=1e5 * i) for i in range(4)],
    [dict(translation_z=2e5, rotation_alpha=0.3), dict(translation_z=0., rotation_beta=-0.4, translation_x=300.), dict(translation_z=3.1e5, rotation_gamma=1.1), dict(translation_z=1e5, rotation_alpha=0.1, rotation_beta=0.2, rotation_gamma=-2.)],
    [dict(translation_z=0., rotation_alpha=np.pi), dict(translation_z=1e4, rotation_beta=np.pi, translation_y=-700.), dict(translation_z=2e5, rotation_gamma=np.pi / 2), dict(translation_z=2.2e5, rotation_alpha=np.pi - 0.2, rotation_gamma=0.3)],
    [dict(translation_z=-1e5, rotation_gamma=0.02), dict(translation_z=3e4, rotation_beta=0.02, x_limit=(-800., 900.)), dict(translation_z=4e4, x_limit=(-np.inf, 950.), y_limit=(-1000., np.inf)), dict(translation_z=9e5, rotation_alpha=-0.01, y_limit=(-900., 900.))],
]
LINES = [(0., 0., 0., 0.), (600., -300., 1e-3, 5e-4), (-500., 450., -7e-4, 0.), (180., 60., 0., 1.1e-3)]
DEV = [(0., 0.), (31., -12.), (-140., 45.), (9., 260.), (-77., -301.), (612., 5.), (0., -2.)]
QUALITY = [(250., 250.), None, [(40., 40.), (300., 1000.), None, (150., 700.)], [(120., 90.), (100., 5000.), (46., 50.), (900., 10.)], (0., 0.)]
ISOLATION = [(500., 500.), None, [(0., 0.), (50., 700.), None, (2000., 2000.)], (100., 300.)]


def warmup():
    common.quiet(track_analysis)
    track_analysis.Pool = common.FakePool
    track_analysis.cpu_count = lambda: 3
    d = core.scratch()
    R = Runner(core.Rec(), 0, 0, 12)
    for m in ('fit', 'kalman'):
        R.fit(method=m, **(KALMAN if m == 'kalman' else {}))


KALMAN = dict(beam_energy=5000., particle_mass=0.511)


def geometry(g):
    return [dict(common.pixel(*(SHAPE[i] + PIX[i]), material_budget=1e-3, **kw)) for i, kw in enumerate(GEO[g])]


def rt(dut):
    return common.rotation(*[dut.get('rotation_' + n, 0.) for n in ('alpha', 'beta', 'gamma')]), np.array([dut.get('translation_' + n, 0.) for n in 'xyz'])


def candidates(duts, flags, shift=0):
    '''flags: list (events) of lists (candidates) of hit flags'''
    n = len(duts)
    rows = [(3 * e + (e > 20), k, f) for e, ev in enumerate(flags) for k, f in enumerate(ev)]
    t = np.zeros(len(rows), dtype=dtype(n))
    t['event_number'] = [r[0] for r in rows]
    t['hit_flag'] = [r[2] for r in rows]
    i = np.arange(len(rows))
    line = np.array([LINES[(r[1] + (r[0] // 7) * (r[0] % 5 == 0)) % 4] for r in rows]).reshape(-1, 4)
    ev = t['event_number']
    for d, dut in enumerate(duts):
        R, T = rt(dut)
        hit = (t['hit_flag'] >> d & 1).astype(bool)
        o = np.column_stack([line[:, 0], line[:, 1], np.zeros(len(rows))])
        u = np.column_stack([line[:, 2], line[:, 3], np.ones(len(rows))])
        nrm = R[:, 2]
        p = ((o + u * (((T - o) @ nrm) / (u @ nrm))[:, None]) - T) @ R
        dev = np.array(DEV)[(i * (d + 2) + i // 9 + shift * (d + 1) + d) % len(DEV)]
        t['x_dut_%d' % d] = np.where(hit, np.round(p[:, 0] + dev[:, 0], 2), np.nan)
        t['y_dut_%d' % d] = np.where(hit, np.round(p[:, 1] + dev[:, 1], 2), np.nan)
        t['z_dut_%d' % d] = np.where(hit, 0., np.nan)
        t['charge_dut_%d' % d] = np.where(hit, i + d / 4., np.nan)
        t['x_err_dut_%d' % d] = np.where(hit, 5. + (i + d) % 3, np.nan)
        t['y_err_dut_%d' % d] = np.where(hit, 7. + (i + d) % 4, np.nan)
        t['z_err_dut_%d' % d] = np.where(hit, 0., np.nan)
        for c, v in (('frame', 1 + i), ('n_hits', 1 + i % 7), ('cluster_ID', i % 3), ('cluster_shape', (1 << 35) + i), ('n_cluster', 1 + i % 4)):
            t['%s_dut_%d' % (c, d)] = np.where(hit, v + d, 0)
    return t, ev


class Model(object):
    '''Straight line fits of all candidates.'''

    def __init__(self, duts, t):
        self.duts, self.t, self.n = duts, t, len(duts)
        self.flag = t['hit_flag'].astype(int)
        self.local = [np.column_stack([t['%s_dut_%d' % (a, d)] for a in 'xyz']) for d in range(self.n)]
        self.glob = [l @ rt(dut)[0].T + rt(dut)[1] for l, dut in zip(self.local, duts)]
        self.cache = {}

    def hits(self, S):
        return sum((self.flag >> d & 1) for d in S) if len(S) else 0 * self.flag

    def fit(self, S):
        '''-> offset (rows, duts, 3), slope (rows, duts, 3) in the local frames, chi2, reduced chi2'''
        S = tuple(sorted(set(S)))
        if S in self.cache:
            return self.cache[S]
        N = len(self.t)
        off, slo = np.full((N, self.n, 3), np.nan), np.full((N, self.n, 3), np.nan)
        for pattern in set(self.flag.tolist()):
            use = [d for d in S if pattern >> d & 1]
            if len(use) < 2:
                continue
            k = np.flatnonzero(self.flag == pattern)
            P = np.stack([self.glob[d][k] for d in use], axis=1)
            m = P.sum(axis=1) / len(use)
            Q = P - m[:, None]
            u = np.linalg.eigh(np.einsum('nij,nik->njk', Q, Q))[1][:, :, 2]
            u = u * np.sign(u[:, 2:])
            for d, dut in enumerate(self.duts):
                R, T = rt(dut)
                s = ((T - m) @ R[:, 2]) / (u @ R[:, 2])
                off[k, d] = (m + s[:, None] * u - T) @ R
                v = u @ R
                slo[k, d] = v * np.sign(v[:, 2:])
        chi, nh = np.zeros(N), self.hits(S)
        for d in S:
            for j, a in enumerate('xy'):
                chi += np.nan_to_num(((self.local[d][:, j] - off[:, d, j]) / self.t['%s_err_dut_%d' % (a, d)]) ** 2)
        with np.errstate(all='ignore'):
            red = np.where(nh > 2, chi / (2. * (nh - 2)), 0.)
        self.cache[S] = off, slo, chi, red
        return self.cache[S]


def near(a, b, limit, ellipse):
    '''(within limit, decided) for two arrays of differences'''
    a, b = np.abs(a), np.abs(b)
    with np.errstate(all='ignore'):
        if ellipse:
            r = (a / limit[0]) ** 2 + (b / limit[1]) ** 2
            return r <= 1, ~(np.abs(r - 1) < 1e-7)
        return (a <= limit[0]) & (b <= limit[1]), ~((np.abs(a - limit[0]) < 1e-6) | (np.abs(b - limit[1]) < 1e-6))


def flags(m, off, fitted, q, iso, limits, names=('quality_flag', 'isolated_track_flag', 'isolated_hit_flag')):
    '''Expected flags of all candidates and bits that are undecided'''
    out, und = {n: np.zeros(len(m.t), dtype=int) for n in names}, {n: np.zeros(len(m.t), dtype=int) for n in names}
    ev = m.t['event_number']
    first = np.searchsorted(ev, ev)
    last = np.searchsorted(ev, ev, side='right')
    for d, dut in enumerate(m.duts):
        hx, hy = m.local[d][:, 0], m.local[d][:, 1]
        dist = q[d] if isinstance(q, list) else q
        dist = dist or (np.inf, np.inf)
        ell = dist[0] >= 2.5 * dut['column_size'] and dist[1] >= 2.5 * dut['row_size']
        has = np.isfinite(hx) & np.isfinite(off[:, d, 0])
        ok, dec = near(hx - off[:, d, 0], hy - off[:, d, 1], dist, ell and np.isfinite(dist[0]))
        if ell and np.isinf(dist[0]):
            ok, dec = np.ones_like(ok), np.ones_like(dec)
        ok &= has
        if limits:
            for v, lim in ((hx, dut.get('x_limit')), (hy, dut.get('y_limit'))):
                if lim is not None:
                    ok &= (v >= lim[0]) & (v <= lim[1])
        out[names[0]] |= ok.astype(int) << d
        und[names[0]] |= (~dec & has).astype(int) << d
        r = iso[d] if isinstance(iso, list) else iso
        r = r or (0., 0.)
        for name, X, Y, sel, e in ((names[1], off[:, d, 0], off[:, d, 1], fitted, True), (names[2], hx, hy, np.ones(len(ev), dtype=bool), ell)):
            for i in range(len(ev)):
                if not sel[i]:
                    continue
                bit, u = 1, 0
                for j in range(first[i], last[i]):
                    if j != i and sel[j] and np.isfinite(X[i]) and np.isfinite(X[j]):
                        c, dd = near(X[i] - X[j], Y[i] - Y[j], r, e and r[0] > 0 and r[1] > 0)
                        if not dd:
                            u = 1
                        elif c:
                            bit = 0
                out[name][i] |= bit << d
                und[name][i] |= u << d
    return out, und


class Runner(object):
    def __init__(self, rec, g, shift=0, n_events=None, duts=None, events=None):
        self.rec, self.d = rec, core.scratch()
        self.duts = duts or geometry(g)
        n = len(self.duts)
        if events is None:
            events = [[a, b] for a in range(16) for b in range(16)]
            events += [[a] for a in range(16)] + [[15, a, 15 - a] for a in range(0, 16, 3)] + [[15, a, 7, 14] for a in range(0, 16, 5)]
        self.conf = os.path.join(self.d, 'tel.yaml')
        common.telescope(self.conf, self.duts)
        self.t, self.ev = candidates(self.duts, events[:n_events], shift)
        self.m = Model(self.duts, self.t)
        self.p, self.out = os.path.join(self.d, 'cand.h5'), os.path.join(self.d, 'tracks.h5')
        common.write(self.p, TrackCandidates=self.t)
        self.before = common.content(self.p)
        self.what = 'geometry %r, displacement %d' % (g, shift)
        self.memo = {}

    def fit(self, **kw):
        self.rec.traces += 1
        self.rec.state((self.what, repr(sorted(kw.items()))))
        try:
            r = track_analysis.fit_tracks(self.conf, self.p, self.out, plot=False, **kw)
        except Exception as e:
            self.rec.violation('C11:error', '%s, %r: %s: %s' % (self.what, kw, type(e).__name__, e))
            return None
        if r != self.out:
            self.rec.violation('C11:name', '%r returned' % (r,))
            return None
        if common.content(self.p) != self.before:
            self.rec.violation('C11:input', 'input changed')
            return None
        return {int(n[10:]): common.read(self.out, n) for n in common.nodes(self.out) if n.startswith('Tracks_DUT')}

    def flags(self, S, min_sel, q, iso, limits, off):
        key = repr((S, q, iso, limits))
        if key not in self.memo:
            self.memo[key] = flags(self.m, off, self.m.hits(S) >= 2, q, iso, limits)
        return self.memo[key]

    def judge(self, got, what, dut, S, H, need, q=(250., 250.), iso=(500., 500.), limits=True, full=False, keep=False, values=True):
        '''Tracks of a device against the definition'''
        t, m = self.t, self.m
        what = '%s, %s, DUT%d fitted with %r (at least %d hits, required %r)' % (self.what, what, dut, S, need, H)
        mask = sum(1 << h for h in set(H))
        sel = (m.hits(S) >= max(2, need)) & ((m.flag & mask) == mask)
        fitted = m.hits(S) >= 2
        rows = np.arange(len(t)) if keep else np.flatnonzero(sel)
        if got is None:
            if len(rows):
                self.rec.violation('C11:tracks', '%s: no tracks, expected %d' % (what, len(rows)))
            return not len(rows)
        self.rec.transitions += len(got)
        for n in t.dtype.names:
            if n not in got.dtype.names or got[n].dtype != t[n].dtype or not np.array_equal(got[n], t[n][rows], equal_nan=got[n].dtype.kind == 'f'):
                self.rec.violation('C11:tracks', '%s: %s of the tracks is %r, expected %r' % (what, n, got[n].tolist()[:40] if n in got.dtype.names else None, t[n][rows].tolist()[:40]))
                return False
        if not values:
            return True
        off, slo, chi, red = m.fit(S)
        fl, und = self.flags(S, need, q, iso, limits, off)
        skip = keep & ~sel[rows] & fitted[rows] & ~np.isfinite(got['offset_x']) if keep else np.zeros(len(rows), dtype=bool)
        exp = {}
        none = ~fitted[rows]
        for j, a in enumerate('xyz'):
            exp['offset_' + a] = off[rows, dut, j], 1e-5
            exp['slope_' + a] = slo[rows, dut, j], 1e-10
            for d in range(m.n) if full else ():
                exp['offset_%s_dut_%d' % (a, d)] = off[rows, d, j], 1e-5
                exp['slope_%s_dut_%d' % (a, d)] = slo[rows, d, j], 1e-10
        exp['track_chi2'] = np.where(none, np.nan, chi[rows]), 1e-5
        exp['track_chi_red'] = np.where(none, np.nan, red[rows]), 1e-5
        for n, v in fl.items():
            exp[n] = np.where(none, 0, v[rows]), 0
        if set(got.dtype.names) != set(t.dtype.names) | set(exp) | {'track_chi_prob'}:
            self.rec.violation('C11:columns', '%s: columns are %r' % (what, got.dtype.names))
            return False
        for n, (v, tol) in exp.items():
            g = got[n]
            if tol:
                bad = ~(np.abs(g - v) <= tol + 1e-6 * np.abs(v) * (n[:6] == 'track_')) & ~(np.isnan(g) & np.isnan(v))
            else:
                bad = ((g.astype(int) ^ v) & ~und[n][rows]) != 0
                self.rec.extra['undecided flags'] += int(np.count_nonzero(und[n][rows]))
            bad &= ~skip
            if bad.any():
                k = int(np.flatnonzero(bad)[0])
                e = t['event_number'][rows[k]]
                i = np.flatnonzero(t['event_number'] == e)
                pos = [[(round(float(m.local[d][r, 0]), 3), round(float(m.local[d][r, 1]), 3)) for d in range(m.n)] for r in i]
                self.rec.violation('C11:values', '%s: %s of track %d in event %d is %r, expected %r; candidates of the event %r, track positions %r' % (what, n, k, e, g[k], v[k], pos, off[i][:, :, :2].tolist()))
                return False
        self.rec.outcome(got['quality_flag'].tobytes() + got['isolated_hit_flag'].tobytes())
        return True


def sets(n=4, least=2):
    return [list(s) for k in range(least, n + 1) for s in itertools.combinations(range(n), k)]


def cases(tier):
    T = tier == 'thorough'
    out = []
    for g in range(4):
        for s in ((0, 1, 2) if T else (g % 3,)):
            out += [['sets', tier, g, s, k] for k in range(4)] + [['flags', tier, g, s, k] for k in range(2)] + [['mixed', tier, g, s, k] for k in range(3)]
    out = [['kalman', tier, g, k] for g in range(4) for k in range(2 if T or g % 2 else 1)] + [['limit', tier, m, k] for m in range(2) for k in range(4)] + out
    out += [['many', tier, n] for n in (12, 20)] + [['chunks', tier], ['invalid', tier], ['pool', tier]]
    return out


def run_case(case, rec):
    kind, tier = case[:2]
    if kind == 'sets':
        _, _, g, s, part = case
        R = Runner(rec, g, s)
        j = 0
        for S in sets():
            for excl in (True, False):
                for need in [None] + list(range(2, len(S) + 1)):
                    j += 1
                    if j % 4 != part:
                        continue
                    size = [len(set(S) - ({d} if excl else set())) for d in range(4)]
                    duts = [d for d in range(4) if size[d] >= 2 and (need is None or need <= size[d])]
                    if not duts:
                        continue
                    order = duts[::-1] if j % 3 == 0 else duts
                    H = [[], None, [3], [0, 2]][j % 4 if j % 5 == 0 else 0]
                    chunk = (1000000, 7, 50)[j % 3]
                    got = R.fit(select_duts=order, select_fit_duts=S[::-1] if j % 2 else S, select_hit_duts=H, min_track_hits=need, exclude_dut_hit=excl, chunk_size=chunk)
                    if got is None:
                        return
                    for d in duts:
                        F = [x for x in S if not (excl and x == d)]
                        if not R.judge(got.get(d), 'fit DUTs %r, exclude %r, minimum %r, chunk size %d' % (S, excl, need, chunk), d, F, H or [], len(F) if need is None else need):
                            return
                    rec.expect(set(got) <= set(duts), 'C11:tracks', 'tracks of other devices: %r' % sorted(got))
        # all required hits, all selections of devices
        for k in range(part, 16, 4):
            H = [d for d in range(4) if k >> d & 1]
            D = H or [2]
            got = R.fit(select_duts=D if len(D) > 1 else D[0], select_hit_duts=H, min_track_hits=2, chunk_size=(13, 1000)[k % 2])
            if got is None:
                return
            for d in D:
                if not R.judge(got.get(d), 'selection %r' % (D,), d, [x for x in range(4) if x != d], H, 2):
                    return
            rec.expect(set(got) <= set(D), 'C11:tracks', 'tracks of other devices: %r' % sorted(got))
    elif kind == 'flags':
        _, _, g, s, part = case
        R = Runner(rec, g, s)
        for j, (q, iso) in enumerate(itertools.product(QUALITY, ISOLATION)):
            if j % 2 != part:
                continue
            limits, full, keep = bool(j % 3), bool(j // 2 % 2), bool(j // 4 % 2)
            kw = dict(select_duts=[j % 4, (j + 2) % 4], quality_distances=q, isolation_distances=iso, use_limits=limits, full_track_info=full, keep_data=keep, min_track_hits=2 + j % 2, select_hit_duts=[j // 3 % 4] if keep else None, chunk_size=(1000, 5, 60)[j % 3])
            got = R.fit(**kw)
            if got is None:
                return
            for d in kw['select_duts']:
                if not R.judge(got.get(d), repr(kw), d, [x for x in range(4) if x != d], kw['select_hit_duts'] or [], 2 + j % 2, q, iso, limits, full, keep):
                    return
    elif kind == 'mixed':
        # different settings of every device, devices with identical tracks are fitted together
        _, _, g, s, part = case
        R = Runner(rec, g, s, 150)
        fits = [[0, 1, 2], [0, 1, 2, 3], [1, 2, 3], [0, 2, 3], [3, 1, 0], None]
        hits = [[], [1], [2], [1, 2], [2, 1], None]
        for j in range(part, 72 if tier == 'quick' else 432, 3):
            a = [(j * (3 + i) + i * (j // 6)) for i in range(4)]
            F = [fits[(a[i] // 2) % 6 if j % 2 else (j // 2 + (i == j % 4)) % 6] for i in range(4)]
            X = [bool((a[i] + i * j // 3) % 2) for i in range(4)]
            H = [hits[(a[i] // 5) % 6 if j % 3 else j // 3 % 6] for i in range(4)]
            M = [[None, 2, 2, 3][(a[i] // 7) % 4 if j % 4 else j // 4 % 4] for i in range(4)]
            eff = [[x for x in (F[i] or range(4)) if not (X[i] and x == i)] for i in range(4)]
            M = [2 if M[i] is not None and M[i] > len(eff[i]) else M[i] for i in range(4)]
            D = list(itertools.permutations(range(4), 4 - j % 2))[j % 24]
            what = 'devices %r: fit DUTs %r, hit DUTs %r, minimum %r, exclude %r' % (D, F, H, M, X)
            got = R.fit(select_duts=list(D), select_fit_duts=[F[d] and list(F[d]) for d in D], select_hit_duts=[H[d] and list(H[d]) if H[d] else H[d] for d in D], min_track_hits=[M[d] for d in D], exclude_dut_hit=[X[d] for d in D], full_track_info=j % 5 == 0, chunk_size=(10 ** 6, 11)[j % 2])
            if got is None:
                return
            for d in D:
                if not R.judge(got.get(d), what, d, eff[d], H[d] or [], len(eff[d]) if M[d] is None else M[d], full=j % 5 == 0):
                    return
            rec.expect(set(got) <= set(D), 'C11:tracks', 'tracks of other devices: %r' % sorted(got))
    elif kind == 'kalman':
        R = Runner(rec, case[2], 1)
        ref = None
        for need, H, chunk in [(None, [], 1000000)] * case[3] + list(itertools.product((None, 2, 3), ([], [1], [0, 3]), ((1000000, 30)[case[3]],))):
            kw = dict(method='kalman', exclude_dut_hit=False, full_track_info=True, keep_data=need == 2, min_track_hits=need, select_hit_duts=H, select_duts=[0, 2], chunk_size=chunk, **KALMAN)
            got = R.fit(**kw)
            if got is None:
                return
            for d in (0, 2):
                n = 4 if need is None else max(3, need)
                if not R.judge(got.get(d), repr(kw), d, [0, 1, 2, 3], H, n, full=True, keep=need == 2, values=False):
                    return
                g = got[d]
                off = np.full((len(R.t), 4, 3), np.nan)
                fitted = R.m.hits(range(4)) >= n
                if need == 2:
                    rows = np.arange(len(R.t))
                    rec.expect(np.array_equal(np.isfinite(g['offset_x']), fitted), 'C11:kalman', '%r: tracks of %r' % (kw, np.flatnonzero(np.isfinite(g['offset_x']))[:20]))
                else:
                    if H:
                        continue
                    rows = np.flatnonzero(fitted)
                for e in range(4):
                    for k, a in enumerate('xyz'):
                        off[rows, e, k] = g['offset_%s_dut_%d' % (a, e)]
                if ref is None:
                    ref = off[R.m.flag == 15]
                if not np.allclose(off[R.m.flag == 15], ref, rtol=0, atol=1e-6):
                    rec.violation('C11:chunk', '%r: tracks depend on the chunk size or selection' % kw)
                    return
                fl, und = flags(R.m, off, fitted, (250., 250.), (500., 500.), True)
                for name in fl:
                    exp = np.where(fitted[rows], fl[name][rows], 0)
                    bad = ((g[name].astype(int) ^ exp) & ~und[name][rows]) != 0
                    if bad.any():
                        k = int(np.flatnonzero(bad)[0])
                        rec.violation('C11:kalman', '%r: %s of row %d is %r, expected %r' % (kw, name, k, g[name][k], exp[k]))
                        return
                for k, a in enumerate('xyz'):
                    if not (np.array_equal(g['offset_' + a], g['offset_%s_dut_%d' % (a, d)], equal_nan=True) and np.array_equal(g['slope_' + a], g['slope_%s_dut_%d' % (a, d)], equal_nan=True)):
                        rec.violation('C11:kalman', '%r: offset or slope is not the one at DUT%d' % (kw, d))
                        return
    elif kind == 'limit':
        mult = [(1, 2, 3, 1, 1, 2, 3, 3, 1, 2, 1, 1), (3, 3, 1, 1, 1, 1, 1, 1, 2, 2, 2, 1)][case[2]]
        R = Runner(rec, 0, 0, None, None, [[15 if (e * 3 + k) % 7 else 3 for k in range(n)] for e, n in enumerate(mult)])
        n = len(R.t)
        kw = dict(select_duts=[0, 3], min_track_hits=3)
        full = R.fit(**kw)
        if full is None:
            return
        for limit in range(15):
            for chunk in range(4 + case[3], n + 3, 4):
                got = R.fit(max_events=limit, chunk_size=chunk, **kw)
                if got is None:
                    return
                for d in (0, 3):
                    avail = np.unique(full[d]['event_number'])
                    g = got.get(d, full[d][:0])
                    u = np.unique(g['event_number'])
                    want = len(avail) if limit == 0 else min(limit, len(avail))
                    rec.transitions += len(g)
                    if not common.same(g, full[d][np.isin(full[d]['event_number'], u)]):
                        rec.violation('C11:limit', 'event limit %d, chunk size %d: events are not complete and unchanged' % (limit, chunk))
                        return
                    if len(u) > want or chunk > n and len(u) != want:
                        rec.violation('C11:limit', 'event limit %d, chunk size %d: got %d of %d events' % (limit, chunk, len(u), len(avail)))
                        return
    elif kind == 'many':
        n = case[2]
        duts = [common.pixel(400, 400, 50., 50., translation_z=2e4 * i, translation_x=10. * i, rotation_beta=0.01 * i, rotation_gamma=0.1 * i) for i in range(n)]
        full = (1 << n) - 1
        ev = [[full, full ^ (1 << i)] for i in range(n)] + [[full ^ (1 << i) ^ (1 << (i * 7 + 3) % n), 3 << (n - 2)] for i in range(n)] + [[(1 << i) | 1, (1 << i) - 1] for i in range(n)]
        R = Runner(rec, 'many', 0, None, duts, ev)
        for D, S, H, need, chunk in (([0, 1, n - 1], range(n), [], 2, 1000), ([10, 1], [1, 10, 11, 0], [11], 3, 5), (range(n), range(n), [n - 1, 1], n - 2, 9), ([n - 1], [n - 1, n - 2], [n - 2], 2, 100)):
            for excl in (False, True) if len(S) > 2 else (False,):
                got = R.fit(select_duts=list(D), select_fit_duts=list(S), select_hit_duts=list(H), min_track_hits=need, exclude_dut_hit=excl, chunk_size=chunk)
                if got is None:
                    return
                for d in D:
                    if not R.judge(got.get(d), '%d devices' % n, d, [x for x in S if not (excl and x == d)], H, need):
                        return
    elif kind == 'chunks':
        R = Runner(rec, 1, 2, 60)
        for chunk in range(5, 40) if tier == 'quick' else range(5, 150):
            got = R.fit(select_duts=[1, 3], chunk_size=chunk, keep_data=bool(chunk % 2))
            if got is None:
                return
            for d in (1, 3):
                if not R.judge(got.get(d), 'chunk size %d' % chunk, d, [x for x in range(4) if x != d], [], 3, keep=bool(chunk % 2)):
                    return
    elif kind == 'pool':
        from multiprocessing import Pool, cpu_count
        track_analysis.Pool, track_analysis.cpu_count = Pool, cpu_count
        R = Runner(rec, 3, 0, 100)
        got = R.fit(select_duts=[0, 1], chunk_size=50)
        if got is not None:
            for d in (0, 1):
                R.judge(got.get(d), 'real process pool', d, [x for x in range(4) if x != d], [], 3)
    else:
        R = Runner(rec, 0, 0, 60)
        bad = [dict(method='spline'), dict(method='kalman'), dict(method='kalman', beam_energy=1.), dict(scattering_planes=[1]), dict(select_duts=[0, 0]), dict(select_duts=[[0]]), dict(select_fit_duts=[]), dict(select_fit_duts=[1]), dict(select_fit_duts=3), dict(select_duts=[0, 1], select_fit_duts=[[0, 1, 2]]),
               dict(select_hit_duts=3), dict(select_duts=[0], select_hit_duts=[[0], [1]]), dict(quality_distances=[(1, 1)]), dict(quality_distances=[(1, 1, 1)] * 4), dict(quality_distances=3), dict(quality_distances=(-1., 5.), min_track_hits=2), dict(isolation_distances=[(1, 1)]), dict(isolation_distances=(1., -1.), min_track_hits=2),
               dict(exclude_dut_hit=[True]), dict(exclude_dut_hit=['a'] * 4), dict(min_track_hits=[2]), dict(min_track_hits=1), dict(min_track_hits=5), dict(select_fit_duts=[0, 1], exclude_dut_hit=True), dict(select_duts=[0], select_fit_duts=[[0, 1, 2]], min_track_hits=3)]
        for kw in bad:
            rec.transitions += 1
            rec.state(repr(kw))
            try:
                track_analysis.fit_tracks(R.conf, R.p, R.out, plot=False, **kw)
            except (ValueError, RuntimeError, TypeError):
                continue
            rec.violation('C11:invalid', 'invalid arguments %r were accepted' % kw)
