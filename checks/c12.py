'''C12: Kalman filter and straight line fit against batch estimators.'''
import itertools
import os

import numpy as np
from scipy.stats import chi2 as chi2_dist

from mc import core
from checks import common, c11
from checks.c10 import dtype
from beam_telescope_analysis import track_analysis
from beam_telescope_analysis.telescope import dut as dm

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'telescopes of 4 and 5 planes in 6 arrangements (shifted, tilted, flipped, uneven, permuted) with all 24 numberings of 4 devices; all hit patterns with at least 3 hits; all fit device sets of 3 to 5 devices, device under test included or not; displacements {-20, 0, 13} um of every hit (one third of the 6561 combinations of 4 planes) and collinear hits on 12 lines; 3 energies (no, little, strong scattering), errors from hits or from the device; 0..2 additional scattering planes before, between and behind; 1..4 tracks processed together',
    'thorough': 'as quick with all displacement combinations, 24 numberings for every arrangement',
}
RULE = 'states: distinct (geometry, numbering, hit pattern, displacement, parameters); transitions: track states compared at a plane; traces: runs of the real fit'
ASSUMPTIONS = ['the reference estimator has the assumptions of the code: initial estimate at the outer planes with 14 um and 3 mrad around the straight line fit and scattering angles of the Highland formula', 'agreement within 2e-4 um and 2e-8 of slopes (linearisation of the second order is not judged: both linearise around the same line)', 'all planes but the last have material']

GEO = [
    [dict(translation_z=1e5 * i) for i in range(5)],
    [dict(translation_z=0., rotation_alpha=0.3), dict(translation_z=9e4, rotation_beta=-0.4, translation_x=300.), dict(translation_z=1.7e5, rotation_gamma=1.1), dict(translation_z=3.1e5, rotation_alpha=0.1, rotation_beta=0.2, rotation_gamma=-2.), dict(translation_z=3.2e5, translation_y=-150.)],
    [dict(translation_z=0., rotation_alpha=np.pi), dict(translation_z=1e4, rotation_beta=np.pi, translation_y=-700.), dict(translation_z=2e5, rotation_gamma=np.pi / 2), dict(translation_z=2.2e5, rotation_alpha=np.pi - 0.2, rotation_gamma=0.3), dict(translation_z=2.9e5, rotation_beta=np.pi, rotation_gamma=1.)],
    [dict(translation_z=-1e5, rotation_gamma=0.02), dict(translation_z=3e4, rotation_beta=0.02), dict(translation_z=6e4), dict(translation_z=5e5, rotation_alpha=-0.01), dict(translation_z=6e5)],
    [dict(translation_z=1e3, translation_x=2e3, rotation_alpha=0.7), dict(translation_z=4e4, rotation_beta=0.6, rotation_gamma=0.2), dict(translation_z=8e4, rotation_alpha=-0.5, translation_y=900.), dict(translation_z=1.2e5, rotation_beta=-0.8), dict(translation_z=2e5, rotation_alpha=0.2, rotation_beta=0.2)],
    [dict(translation_z=5e4 * i, rotation_gamma=0.8 * i, rotation_alpha=0.02 * i, rotation_beta=-0.03 * i) for i in range(5)],
]
LINES = [(0., 0., 0., 0.), (600., -300., 1e-3, 5e-4), (-500., 450., -7e-4, 2e-3), (180., 60., 5e-3, 1.1e-3), (5., 7., -2e-2, 1e-2)]
ENERGY = [1e9, 5000., 300.]
MASS = 0.511
KNOWN_DOUBLE = 'C12:hit-counted-twice'


def warmup():
    c11.warmup()


def rt(p):
    return common.rotation(p.get('rotation_alpha', 0.), p.get('rotation_beta', 0.), p.get('rotation_gamma', 0.)), np.array([p.get('translation_' + n, 0.) for n in 'xyz'])


def propagate(state, a, b):
    '''Local track state (u, v, u', v') of plane a on plane b'''
    Ra, Ta = rt(a)
    Rb, Tb = rt(b)
    one, zero = np.ones_like(state[:, 0]), np.zeros_like(state[:, 0])
    p = np.stack([state[:, 0], state[:, 1], zero], axis=1) @ Ra.T + Ta
    d = np.stack([state[:, 2], state[:, 3], one], axis=1) @ Ra.T
    p, d = (p - Tb) @ Rb, d @ Rb
    p = p - d * (p[:, 2] / d[:, 2])[:, None]
    return np.stack([p[:, 0], p[:, 1], d[:, 0] / d[:, 2], d[:, 1] / d[:, 2]], axis=1)


def jacobian(state, a, b):
    J = np.empty((len(state), 4, 4))
    for i in range(4):
        s = state.astype(complex)
        s[:, i] += 1e-40j
        J[:, :, i] = propagate(s, a, b).imag / 1e-40
    return J


def gain(state):
    '''Derivative of the slopes for small rotations of the track around two axes'''
    n = np.column_stack([state[:, 2], state[:, 3], np.ones(len(state))])
    n /= np.linalg.norm(n, axis=1)[:, None]
    e = np.cross(n, [0.3, 1., 0.1])
    e /= np.linalg.norm(e, axis=1)[:, None]
    f = np.cross(n, e)
    G = np.zeros((len(state), 4, 2))
    for j, w in enumerate((e, f)):
        for i in (0, 1):
            G[:, 2 + i, j] = (w[:, i] * n[:, 2] - n[:, i] * w[:, 2]) / n[:, 2] ** 2
    return G


def highland(state, x0, energy):
    p = np.sqrt(energy ** 2 - MASS ** 2)
    x = x0 * np.sqrt(1 + state[:, 2] ** 2 + state[:, 3] ** 2)
    return 13.6 / p / (p / energy) * np.sqrt(x) * (1 + 0.038 * np.log(x))


P0 = np.diag([2e2, 2e2, 9e-6, 9e-6])


def condition(A, S, meas):
    '''Mean and covariance of the variables with covariance S after measurements [(H, value, covariance)]'''
    if not meas:
        return np.zeros(S.shape[:2]), S
    H = np.concatenate([m[0] for m in meas], axis=1)
    y = np.concatenate([m[1] for m in meas], axis=1)
    V = np.zeros((len(y), y.shape[1], y.shape[1]))
    i = 0
    for m in meas:
        k = m[1].shape[1]
        V[:, i:i + k, i:i + k] = m[2]
        i += k
    SH = S @ H.transpose(0, 2, 1)
    K = SH @ np.linalg.inv(H @ SH + V)
    return np.einsum('nij,nj->ni', K, y), S - K @ SH.transpose(0, 2, 1)


def reference(planes, hits, err, fit, energy):
    """planes in z order (with material), hits (N, planes, 2) (NaN: none), err like hits, fit: indices of fit planes.
    -> states (optimal), states (hits of inner planes counted twice), chi2 of both, seen from all tracks having the same hits"""
    n, N = len(planes), len(hits)
    glob = [np.column_stack([hits[:, k], np.zeros(N)]) @ rt(p)[0].T + rt(p)[1] for k, p in enumerate(planes)]
    use = [k for k in fit if np.isfinite(hits[0, k, 0])]
    P = np.stack([glob[k] for k in use], axis=1)
    m = P.mean(axis=1)
    Q = P - m[:, None]
    u = np.linalg.eigh(np.einsum('nij,nik->njk', Q, Q))[1][:, :, 2]
    R, T = rt(planes[0])
    p, d = (m - T) @ R, u @ R
    p = p - d * (p[:, 2] / d[:, 2])[:, None]
    seed = np.column_stack([p[:, 0], p[:, 1], d[:, 0] / d[:, 2], d[:, 1] / d[:, 2]])
    for step in range(2):
        ref = [propagate(seed, planes[0], q) for q in planes]
        J = [jacobian(ref[k], planes[k], planes[k + 1]) for k in range(n - 1)]
        Jb = [jacobian(ref[k + 1], planes[k + 1], planes[k]) for k in range(n - 1)]
        G = [gain(r) for r in ref]
        th = [highland(ref[k], planes[k]['material_budget'], energy) for k in range(n - 1)]
        size = 4 + 2 * (n - 1)
        S = np.zeros((N, size, size))
        S[:, :4, :4] = P0
        for k in range(n - 1):
            S[:, 4 + 2 * k, 4 + 2 * k] = S[:, 5 + 2 * k, 5 + 2 * k] = th[k] ** 2
        E = [np.zeros((2, size)) for k in range(n - 1)]
        for k in range(n - 1):
            E[k][:, 4 + 2 * k:6 + 2 * k] = np.eye(2)
        A = [np.tile(np.eye(4, size), (N, 1, 1))]
        for k in range(n - 1):
            A.append(J[k] @ (A[k] + G[k] @ E[k]))
        B = [np.tile(np.eye(4, size), (N, 1, 1))]
        for k in range(n - 2, -1, -1):
            B.insert(0, Jb[k] @ B[0] - G[k] @ E[k])

        def meas(base, ks):
            return [(base[k][:, :2], hits[:, k] - ref[k][:, :2], np.einsum('ni,ij->nij', err[:, k] ** 2, np.eye(2))) for k in ks if k in use]

        def state(base, ks, k):
            z, C = condition(base, S, meas(base, ks))
            return np.einsum('nij,nj->ni', base[k], z), base[k] @ C @ base[k].transpose(0, 2, 1)

        if step == 0:
            seed = seed + state(B, range(n), 0)[0]
    out = {}
    for name in ('optimal', 'twice'):
        X, chi = np.empty((N, n, 4)), np.zeros(N)
        for k in range(n):
            if k == 0:
                x, C = state(B, range(n), 0)
            elif k == n - 1:
                x, C = state(A, range(n), k)
            else:
                xf, Cf = state(A, range(k + 1), k)
                xb, Cb = state(B, range(k + (name == 'optimal'), n), k)
                If, Ib = np.linalg.inv(Cf), np.linalg.inv(Cb)
                C = np.linalg.inv(If + Ib)
                x = np.einsum('nij,nj->ni', C, np.einsum('nij,nj->ni', If, xf) + np.einsum('nij,nj->ni', Ib, xb))
            X[:, k] = x + ref[k]
            if k in use:
                r = hits[:, k] - X[:, k, :2]
                V = np.einsum('ni,ij->nij', err[:, k] ** 2, np.eye(2)) - C[:, :2, :2]
                chi += np.einsum('ni,nij,nj->n', r, np.linalg.inv(V), r)
        out[name] = X, chi
    return out


class Telescope(object):
    '''planes: list of parameters in z order; order[i]: plane of device i'''

    def __init__(self, rec, planes, order=None, extra=()):
        self.rec, self.d = rec, core.scratch()
        self.planes, self.order = planes, order or range(len(planes))
        self.duts = [dict(common.pixel(1000, 1000, 50., 50.), **planes[k]) for k in self.order]
        self.conf = os.path.join(self.d, 'tel.yaml')
        common.telescope(self.conf, self.duts)
        self.extra = list(extra)
        allp = [(p['translation_z'], k, p) for k, p in enumerate(planes)] + [(p['translation_z'], None, p) for p in self.extra]
        self.all = sorted(allp, key=lambda v: v[0])
        self.pos = {k: i for i, (z, k, p) in enumerate(self.all) if k is not None}  # plane -> index in all planes

    def table(self, hits, err):
        '''hits (N, planes, 2)'''
        N, n = hits.shape[:2]
        t = np.zeros(N, dtype=dtype(n))
        t['event_number'] = np.arange(N) // 3
        for i, k in enumerate(self.order):
            has = np.isfinite(hits[:, k, 0])
            t['x_dut_%d' % i], t['y_dut_%d' % i], t['z_dut_%d' % i] = hits[:, k, 0], hits[:, k, 1], np.where(has, 0., np.nan)
            t['x_err_dut_%d' % i], t['y_err_dut_%d' % i], t['z_err_dut_%d' % i] = np.where(has, err[:, k, 0], np.nan), np.where(has, err[:, k, 1], np.nan), np.where(has, 0., np.nan)
            t['hit_flag'] |= has.astype('u4') << np.uint32(i)
        return t

    def run(self, hits, err, what, **kw):
        p, out = os.path.join(self.d, 'c.h5'), os.path.join(self.d, 't.h5')
        common.write(p, TrackCandidates=self.table(hits, err))
        self.rec.traces += 1
        if self.extra:
            kw['scattering_planes'] = [dm.ScatteringPlane(name='S%d' % i, **{k: e.get(k, 0.) for k in ('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma', 'material_budget')}) for i, e in enumerate(self.extra)]
        try:
            track_analysis.fit_tracks(self.conf, p, out, full_track_info=True, plot=False, quality_distances=None, **kw)
        except Exception as e:
            self.rec.violation('C12:error', '%s: %s: %s' % (what, type(e).__name__, e))
            return None
        return {int(n[10:]): common.read(out, n) for n in common.nodes(out) if n.startswith('Tracks_DUT')}

    def crossing(self, line, k):
        o, u = np.array([line[0], line[1], 0.]), np.array([line[2], line[3], 1.])
        R, T = rt(self.planes[k])
        return (R.T @ (o + u * (R[:, 2] @ (T - o) / (R[:, 2] @ u)) - T))[:2]

    def states(self, g, kalman=True):
        '''(N, planes, 4) of the tracks'''
        X = np.empty((len(g), len(self.planes), 4))
        for i, k in enumerate(self.order):
            for j, a in enumerate('xy'):
                X[:, k, j] = g['offset_%s_dut_%d' % (a, i)]
                X[:, k, 2 + j] = g['slope_%s_dut_%d' % (a, i)] / g['slope_z_dut_%d' % i]
        return X

    def judge(self, hits, err, fit, energy, what, select=None, excl=False, cpus=1, chunk=1000000):
        '''fit: planes used (of all tracks the same hit pattern per call of reference)'''
        track_analysis.cpu_count = lambda: cpus
        dev = [self.order.index(k) if isinstance(self.order, list) else k for k in fit]
        select = [self.order.index(k) if isinstance(self.order, list) else k for k in (range(len(self.planes)) if select is None else select)]
        what = '%s, numbering %r, fit planes %r%s, energy %g, %d processes' % (what, list(self.order), fit, ' without device under test' if excl else '', energy, cpus)
        res = [p.get('intrinsic_resolution') for p in self.planes]
        got = self.run(hits, err, what, method='kalman', beam_energy=energy, particle_mass=MASS, select_duts=select, select_fit_duts=dev, exclude_dut_hit=excl, min_track_hits=3, chunk_size=chunk)
        if got is None:
            return False
        eff = err.copy()
        for k, r in enumerate(res):
            if r is not None:
                eff[:, k] = r
        n_all = len(self.all)
        for i in select:
            F = [k for k in fit if not (excl and k == self.order[i])]
            pattern = np.isfinite(hits[:, :, 0])
            rows = np.flatnonzero(pattern[:, F].sum(axis=1) >= 3)
            g = got.get(i)
            if g is None or len(g) != len(rows):
                self.rec.violation('C12:tracks', '%s: %r tracks, expected %d' % (what, None if g is None else len(g), len(rows)))
                return False
            X = self.states(g)
            H, Er = np.full((len(rows), n_all, 2), np.nan), np.ones((len(rows), n_all, 2))
            for k in range(len(self.planes)):
                H[:, self.pos[k]], Er[:, self.pos[k]] = hits[rows, k], eff[rows, k]
            keys = pattern[rows].astype(int) @ (1 << np.arange(len(self.planes)))
            for key in np.unique(keys):
                s = np.flatnonzero(keys == key)
                ref = reference([p for z, k, p in self.all], H[s], Er[s], [self.pos[k] for k in F], energy)
                used = [k for k in F if key >> k & 1]
                ndof = 2 * len(used) - 4
                opt, chi_o = ref['optimal']
                two, chi_t = ref['twice']
                for k in range(len(self.planes)):
                    self.rec.transitions += len(s)
                    a, o, t = X[s, k], opt[:, self.pos[k]], two[:, self.pos[k]]
                    bad, bad2 = ((np.abs(a - v) > [2e-4, 2e-4, 2e-8, 2e-8]) | ~np.isfinite(a) for v in (o, t))
                    if bad.any():
                        j = int(np.flatnonzero(bad.any(axis=1))[0])
                        key_ = 'C12:kalman' if bad2.any() else KNOWN_DOUBLE
                        self.rec.violation(key_, '%s: hits %r: state at plane %d is %r, expected %r' % (what, hits[rows[s[j]]].tolist(), k, a[j].tolist(), o[j].tolist()))
                        if key_ == 'C12:kalman':
                            return False
                c = g['track_chi2'][s]
                okay = [np.abs(c - v) <= 1e-4 * np.abs(v) + 1e-5 for v in (chi_o, chi_t)]
                if not okay[0].all():
                    j = int(np.flatnonzero(~okay[0])[0])
                    self.rec.violation(KNOWN_DOUBLE if okay[1].all() else 'C12:chi2', '%s: hits %r: chi2 is %r, expected %r' % (what, hits[rows[s[j]]].tolist(), c[j], chi_o[j]))
                    if not okay[1].all():
                        return False
                if ndof > 0 and not (np.allclose(g['track_chi_red'][s], c / ndof, rtol=1e-9) and np.allclose(g['track_chi_prob'][s], chi2_dist.sf(c, ndof), atol=1e-9)):
                    self.rec.violation('C12:chi2', '%s: reduced chi2 or probability of %d degrees of freedom are wrong: %r' % (what, ndof, g[['track_chi2', 'track_chi_red', 'track_chi_prob']][s][:3].tolist()))
                    return False
                self.rec.outcome(np.round(X[s], 3).tobytes())
        return True


def planes(g, n, material=1e-3, resolution=False):
    out = []
    for i, p in enumerate(GEO[g][:n]):
        out.append(dict(p, material_budget=material * (1 + i % 3)))
        if resolution and i % 2:
            out[-1]['intrinsic_resolution'] = (4. + i, 9. - i)
    return out


def hit_array(tel, line, dev):
    '''dev (N, planes, 2)'''
    base = np.array([tel.crossing(line, k) for k in range(len(tel.planes))])
    return base[None] + dev


def errors(N, n):
    i = np.arange(N * n * 2).reshape(N, n, 2)
    return np.array([5., 6., 9., 14.])[(i * 5 + i // 7) % 4]


def deviations(n, part, mod, stride):
    v = np.array([0., -20., 13.])
    k = [c for j, c in enumerate(itertools.product(range(3), repeat=2 * n)) if j % (mod * stride) == part * stride]
    return v[np.array(k)].reshape(-1, n, 2)


def cases(tier):
    T = tier == 'thorough'
    out = [['mixed', tier, g] for g in range(3)]
    out += [['order', tier, g, k] for g in range(6) for k in range(4)]
    out += [['dev', tier, g, k, 6] for g in range(6) for k in range(6)]
    out += [['missing', tier, g, n] for g in range(6) for n in (4, 5)]
    out += [['scatter', tier, g] for g in range(6)] + [['line', tier, g] for g in range(6)] + [['material', tier]]
    return out


def run_case(case, rec):
    kind, tier = case[:2]
    T = tier == 'thorough'
    if kind == 'order':
        _, _, g, part = case
        P = planes(g, 4, resolution=g % 2 == 1)
        perms = list(itertools.permutations(range(4)))
        if not T and g not in (1, 4):
            perms = perms[g::4]
        for j, o in enumerate(perms):
            if j % 4 != part:
                continue
            tel = Telescope(rec, P, list(o))
            dev = deviations(4, j % 7, 7, 90)[:12]
            hits = np.concatenate([hit_array(tel, l, dev[:3 + j % 3]) for l in LINES])
            rec.state((g, o))
            if not tel.judge(hits, errors(len(hits), 4), [0, 1, 2, 3], ENERGY[j % 3], 'geometry %d' % g, cpus=1 + j % 2):
                return
            if not tel.judge(hits, errors(len(hits), 4), [3, 1, 2, 0], ENERGY[(j + 1) % 3], 'geometry %d' % g, excl=True):
                return
    elif kind == 'dev':
        _, _, g, part, mod = case
        tel = Telescope(rec, planes(g, 4))
        dev = deviations(4, part, mod, 1 if T else 6)
        line = LINES[(g + part) % 5]
        for e in range(len(dev)):
            rec.state((g, part, e))
        hits = hit_array(tel, line, dev)
        for energy in ENERGY:
            if not tel.judge(hits, errors(len(hits), 4), [0, 1, 2, 3], energy, 'geometry %d, displacements' % g, select=[part % 4], cpus=2):
                return
    elif kind == 'missing':
        _, _, g, n = case
        tel = Telescope(rec, planes(g, n, resolution=n == 4))
        patterns = [p for p in range(1 << n) if bin(p).count('1') >= 3]
        dev = deviations(n, g, 40, 50 if n == 5 else 6)
        hits = []
        for j, p in enumerate(patterns):
            h = hit_array(tel, LINES[j % 5], dev[(np.arange(3) * 5 + j) % len(dev)])
            h[:, [k for k in range(n) if not p >> k & 1]] = np.nan
            hits.append(h)
        hits = np.concatenate(hits)
        for S in [list(s) for k in range(3, n + 1) for s in itertools.combinations(range(n), k)]:
            rec.state((g, n, tuple(S)))
            j = len(S) + S[0]
            if not tel.judge(hits, errors(len(hits), n), S, ENERGY[1 + j % 2], 'geometry %d, missing hits' % g, select=[S[0], (S[-1] + 1) % n], cpus=1 + j % 3):
                return
            if len(S) > 3 and not tel.judge(hits, errors(len(hits), n), S, ENERGY[j % 2], 'geometry %d, missing hits' % g, excl=True, select=[S[1], S[-1]]):
                return
    elif kind == 'scatter':
        g = case[2]
        P = planes(g, 4)
        z = [p['translation_z'] for p in P]
        extras = [dict(translation_z=z[0] - 2e4, material_budget=0.01), dict(translation_z=(z[1] + z[2]) / 2., material_budget=0.02, rotation_beta=0.3, translation_x=50.), dict(translation_z=z[3] + 1e4, material_budget=0.01), dict(translation_z=(z[2] * 3 + z[3]) / 4., material_budget=0.005, rotation_alpha=-0.2)]
        for j, ex in enumerate([()] + list(itertools.permutations(extras, 1)) + list(itertools.permutations(extras, 2))):
            tel = Telescope(rec, P, [[0, 1, 2, 3], [2, 0, 3, 1]][j % 2], ex)
            hits = np.concatenate([hit_array(tel, l, deviations(4, j % 5, 60, 20)[:5]) for l in LINES[:3]])
            hits[::4, j % 4] = np.nan
            rec.state((g, 'scatter', j))
            if not tel.judge(hits, errors(len(hits), 4), [0, 1, 2, 3], ENERGY[1 + j % 2], 'geometry %d, scattering planes at %r' % (g, [e['translation_z'] for e in ex]), cpus=2):
                return
    elif kind == 'line':
        # collinear hits: both methods return the line
        g = case[2]
        for o in ([0, 1, 2, 3, 4], [4, 2, 0, 3, 1], [1, 0, 4, 3, 2]):
            tel = Telescope(rec, planes(g, 5), o)
            patterns = [p for p in range(32) if bin(p).count('1') >= 2]
            rows = [(l, p) for l in LINES + [(a, b, c, d) for a in (-300., 40.) for b, c, d in ((0., 1e-3, 0.), (77., 0., -8e-3), (1e3, 3e-2, 3e-2))] for p in patterns]
            true = np.array([[tel.crossing(l, k) for k in range(5)] for l, p in rows])
            hits = true.copy()
            for j, (l, p) in enumerate(rows):
                hits[j, [k for k in range(5) if not p >> k & 1]] = np.nan
            slope = np.array([[(lambda v: (v[0] / v[2], v[1] / v[2]))(rt(tel.planes[k])[0].T @ np.array([l[2], l[3], 1.])) for k in range(5)] for l, p in rows])
            for method, need, cpus in (('fit', 2, 1), ('fit', 2, 3), ('kalman', 3, 1), ('kalman', 3, 4)):
                track_analysis.cpu_count = lambda: cpus
                for energy in ENERGY if method == 'kalman' else (0,):
                    kw = dict(beam_energy=energy, particle_mass=MASS) if energy else {}
                    what = 'geometry %d, numbering %r, collinear hits, method %s %r' % (g, o, method, kw)
                    got = tel.run(hits, errors(len(hits), 5), what, method=method, min_track_hits=need, exclude_dut_hit=False, select_duts=[0, 3], chunk_size=(1000000, 70)[cpus % 2], **kw)
                    rec.state((what, cpus))
                    if got is None:
                        return
                    use = np.flatnonzero(np.isfinite(hits[:, :, 0]).sum(axis=1) >= need)
                    for i in (0, 3):
                        X = tel.states(got[i])
                        rec.transitions += X.size // 4
                        bad = ~(np.abs(X[:, :, :2] - true[use]) <= 2e-4).all(axis=(1, 2)) | ~(np.abs(X[:, :, 2:] - slope[use]) < 2e-8).all(axis=(1, 2)) if X.shape[0] == len(use) else np.array([True])
                        if bad.any():
                            j = int(np.flatnonzero(bad)[0])
                            rec.violation('C12:line', '%s: line %r seen by %s: %r, expected %r' % (what, rows[use[j]][0], bin(rows[use[j]][1]), X[j].tolist(), true[use[j]].tolist()))
                            return
                        if not (got[i]['track_chi2'] < 1e-6).all():
                            rec.violation('C12:line', '%s: chi2 of exact hits is %r' % (what, got[i]['track_chi2'].max()))
                            return
    elif kind == 'mixed':
        # a track does not depend on the tracks next to it
        g = case[2]
        tel = Telescope(rec, planes(g * 2, 4), [3, 0, 2, 1])
        dev = deviations(4, 1, 60, 2)
        hits = hit_array(tel, LINES[3], dev)
        for j in range(len(hits)):
            if j % 3:
                hits[j, j % 4] = np.nan
        err = errors(len(hits), 4)
        kw = dict(method='kalman', min_track_hits=3, exclude_dut_hit=False, select_duts=[1], beam_energy=1000., particle_mass=MASS)
        track_analysis.cpu_count = lambda: 1
        full = tel.run(hits, err, 'all', **kw)
        if full is None:
            return
        for j in range(0, len(hits), 2):
            for idx in ([j], [j, (j * 7 + 3) % len(hits)], [(j * 5 + 2) % len(hits), (j * 3 + 1) % len(hits), j]):
                for cpus in (1, 2, 4):
                    track_analysis.cpu_count = lambda: cpus
                    got = tel.run(hits[idx], err[idx], 'tracks %r' % idx, **kw)
                    rec.state((g, tuple(idx), cpus))
                    if got is None:
                        return
                    rec.transitions += len(idx)
                    for n in full[1].dtype.names:
                        if n != 'event_number' and full[1][n].dtype.kind == 'f' and not np.allclose(got[1][n], full[1][n][idx], rtol=1e-9, atol=1e-9, equal_nan=True):
                            rec.violation('C12:neighbour', 'tracks %r processed by %d processes: %s is %r, but %r together with the others' % (idx, cpus, n, got[1][n], full[1][n][idx]))
                            return
    else:
        # no material: rejected
        for k in range(3):
            P = planes(0, 4)
            P[k]['material_budget'] = 0.
            tel = Telescope(rec, P)
            p = os.path.join(tel.d, 'c.h5')
            common.write(p, TrackCandidates=tel.table(hit_array(tel, LINES[1], np.zeros((3, 4, 2))), errors(3, 4)))
            rec.transitions += 1
            try:
                track_analysis.fit_tracks(tel.conf, p, os.path.join(tel.d, 't.h5'), method='kalman', beam_energy=5000., particle_mass=MASS, plot=False)
            except ValueError:
                continue
            rec.violation('C12:material', 'plane %d without material was accepted' % k)
