'''C21: alignment (applied, calculated from tracks, calculated from correlations, complete alignment procedure).'''
import contextlib
import io
import itertools
import os

import numpy as np
import tables as tb

from mc import core
from checks import common
from checks.c10 import dtype, merged
from beam_telescope_analysis import dut_alignment, hit_analysis, result_analysis, track_analysis
from beam_telescope_analysis.telescope.telescope import Telescope
from beam_telescope_analysis.tools import analysis_utils, data_selection, plot_utils

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'applied alignment: all 125 rotations (5 angles per axis) of devices times 3 of 5 telescope orientations, both directions and back, tables of hits and of tracks (12 and 3 devices), chunk sizes 2..1000000; calculated transformation: all 729 misalignments in the 6 parameters around 2 of 4 device orientations each, all 63 selections of parameters, limits, outliers, unusable tracks, chunk sizes, all orders of the selected devices; beam alignment: 729 arrangements of three telescope planes; pre-alignment: all 81 shifts times both flips of a device; alignment: 64 misalignments of one or two devices in 5 planes, 2 device groupings',
    'thorough': 'as quick with 343 rotations of the devices, misalignments around 8 orientations and 2 sizes, 192 complete alignments',
}
RULE = 'states: distinct misalignments or tables; transitions: positions or parameters compared; traces: runs of the real alignment functions'
ASSUMPTIONS = ['exact hits (no resolution, no scattering), several tracks of different slope and position per chunk', 'misalignments within the range of convergence (up to 0.08 rad and 300 um)', 'an error of a position is rotated like a vector and given as absolute value', 'pre-alignment is judged to the bin width of the correlation histograms',
               'the Kalman alignment (sequential, statistical) is not judged']

ANGLES = (0., 0.3, -1.2, np.pi / 2, np.pi)


def warmup():
    common.quiet(dut_alignment, hit_analysis, result_analysis, track_analysis, data_selection, analysis_utils)
    for m in (track_analysis, result_analysis, hit_analysis):
        if hasattr(m, 'Pool'):
            m.Pool = common.FakePool
            m.cpu_count = lambda: 3
    common.fast_smc()
    # compile everything before the workers are started
    try:
        run_align(core.Rec(['warmup']), 'quick', 0, only=1)
    except Exception:
        pass  # reported by the cases


def R_of(dut):
    return common.rotation(*[dut.get('rotation_' + n, 0.) for n in ('alpha', 'beta', 'gamma')])


def T_of(dut):
    return np.array([dut.get('translation_' + n, 0.) for n in 'xyz'])


# ---------------------------------------------------------------- applied alignment

def hit_rows(n, rows, seed):
    r = np.random.RandomState(seed)
    ev = np.sort(r.randint(0, 5, rows)) * 7 + 2
    x = np.round(r.uniform(-9000, 9000, (rows, n)), 3)
    y = np.round(r.uniform(-9000, 9000, (rows, n)), 3)
    miss = r.randint(0, 4, (rows, n)) == 0
    x[miss] = y[miss] = np.nan
    return merged(ev, x, y, r.randint(1, 900, (rows, n)))


def track_rows(n, rows, seed, full):
    t = hit_rows(n, rows, seed)
    r = np.random.RandomState(seed + 1)
    names = [k + '_' + a for k in ('offset', 'slope') for a in 'xyz']
    if full:
        names += ['%s_%s_dut_%d' % (k, a, i) for k in ('offset', 'slope') for i in range(n) for a in 'xyz']
    out = np.zeros(rows, dtype=t.dtype.descr + [(m, 'f8') for m in names] + [('track_chi2', 'f8'), ('quality_flag', 'u4')])
    for m in t.dtype.names:
        out[m] = t[m]
    for m in names:
        if m.startswith('offset'):
            out[m] = 0. if '_z' in m else np.round(r.uniform(-8000, 8000, rows), 3)
        else:
            out[m] = 0.99 if '_z' in m else np.round(r.uniform(-.1, .1, rows), 4)
    out['track_chi2'] = r.uniform(0, 9, rows)
    out['quality_flag'] = r.randint(0, 2 ** n, rows)
    return out


def move(a, R, T, back):
    '''a: (rows, 3)'''
    return (a - T) @ R if back else a @ R.T + T


def run_apply(rec, tier, part):
    d = core.scratch()
    angles = ANGLES if tier == 'quick' else ANGLES + (-np.pi / 2, 3.)
    rots = list(itertools.product(angles, repeat=3))[part::8]
    tels = [(0., 0., 0., 0., 0., 0.), (0., 0., 0., 0.002, -0.003, 0.), (100., -50., 20., 0.01, 0., 0.3), (0., 0., 1e4, np.pi, 0., 0.), (3., 4., 5., 0.4, 0.5, 0.6)]
    groups = [rots[k:k + 3] for k in range(0, len(rots), 3)] + ([rots[k:k + 12] for k in range(0, len(rots), 12)])
    for g, group in enumerate(groups):
        n = len(group)
        duts = [common.pixel(translation_x=1000. * i - 700., translation_y=-333.25 * i, translation_z=1e5 * ((i * 5 + g) % 7), rotation_alpha=a, rotation_beta=b, rotation_gamma=c) for i, (a, b, c) in enumerate(group)]
        conf = os.path.join(d, 'tel.yaml')
        for k, tel in enumerate(tels):
            if k not in (0, 4) and (n > 3 or (tier == 'quick' and g % 3 != k - 1)):
                continue
            t = common.telescope(conf, duts)
            for name, v in zip(('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma'), tel):
                setattr(t, name, v)
            t.save_configuration(conf)
            telR, telT = common.rotation(*tel[3:]), np.array(tel[:3])
            tabs = {'MergedClusters': hit_rows(n, 9, g)}
            if k in (0, 4):
                tabs = {'Tracks_DUT%d' % i: track_rows(n, 5 + i, 13 * g + i, k == 4) for i in ([0, 1, 2] if n == 3 else [0, n - 1] + [1] * (n > 2))if i < n}
            path = common.write(os.path.join(d, 'in.h5'), **tabs)
            recorded = (g + k) % 2 == 0
            if recorded:
                # what a decorated analysis step adds to its file
                from beam_telescope_analysis.tools.storage_utils import save_configuration_dict
                save_configuration_dict(output_file=path, table_name='merge_cluster_data', dictionary={'a': 1}, group_name='arguments', date_created=1.)
            before = common.content(path)
            for beam in (False, True):
                for chunk in ((10 ** 6,), (2,), (3, 10 ** 6))[(g + k + beam) % 3]:
                    if chunk == 2 or chunk == 3:
                        chunk = max(chunk, max(np.unique(tabs[m]['event_number'], return_counts=True)[1].max() for m in tabs) + 1)
                    what = 'device orientations %r, telescope %r, align_to_beam %r, chunk size %r, tables %r%s' % (group, tel, beam, chunk, sorted(tabs), ', recorded arguments' if recorded else '')
                    out, back = os.path.join(d, 'g.h5'), os.path.join(d, 'l.h5')
                    res = []
                    try:
                        res.append(dut_alignment.apply_alignment(conf, path, out, local_to_global=True, align_to_beam=beam, chunk_size=chunk))
                        res.append(dut_alignment.apply_alignment(conf, out, back, local_to_global=False, align_to_beam=beam, chunk_size=chunk))
                    except Exception as e:
                        rec.violation('C21:apply', '%s: %s %s of a valid file' % (what, 'converting' if not res else 'converting back', type(e).__name__ + ': ' + str(e)[:200]))
                        return
                    rec.traces += 2
                    if res != [out, back]:
                        rec.violation('C21:apply', '%s: returned %r' % (what, res))
                        return
                    for m, a in tabs.items():
                        if not check_applied(rec, what + ', ' + m, a, common.read(out, m), duts, telR, telT, beam, m, False):
                            return
                        if not check_applied(rec, what + ', back, ' + m, common.read(out, m), common.read(back, m), duts, telR, telT, beam, m, True):
                            return
                        b = common.read(back, m)
                        for f in a.dtype.names:
                            if '_err_' in f:
                                continue
                            if not np.allclose(b[f].astype(float), a[f].astype(float), rtol=1e-9, atol=1e-6, equal_nan=True):
                                rec.violation('C21:apply-inverse', '%s: %s of %s is %r after converting to global and back, was %r' % (what, f, m, b[f].tolist(), a[f].tolist()))
                                return
                    if common.content(path) != before:
                        rec.violation('C21:input', '%s: input file changed' % what)
                        return
                    rec.state(what)


def check_applied(rec, what, a, b, duts, telR, telT, beam, table, back):
    if a.dtype != b.dtype or len(a) != len(b):
        rec.violation('C21:apply', '%s: %d rows %r, expected %d rows %r' % (what, len(b), b.dtype.names, len(a), a.dtype.names))
        return False
    done = set()
    own = int(table[10:]) if table.startswith('Tracks_DUT') else None
    for i, dut in enumerate(duts):
        R, T = R_of(dut), T_of(dut)
        sets = [('%s_dut_{}'.format(i), True, False), ('%s_err_dut_{}'.format(i), False, True)]
        sets += [(k + '_%s_dut_{}'.format(i), k == 'offset', False) for k in ('offset', 'slope')]
        if i == own:
            sets += [(k + '_%s', k == 'offset', False) for k in ('offset', 'slope')]
        for f, shift, absolute in sets:
            names = [f % c for c in 'xyz']
            if names[0] not in a.dtype.names:
                continue
            done |= set(names)
            p = np.column_stack([a[m].astype(float) for m in names])
            q = np.column_stack([b[m].astype(float) for m in names])
            Z = np.zeros(3)
            steps = [(R, T)] + ([(telR, telT)] if beam else [])
            for r, t in steps[::-1] if back else steps:
                p = move(p, r, t if shift else Z, back)
                if absolute:
                    p = np.abs(p)
            rec.transitions += len(p)
            if absolute and own is None and all(common.same(a[m], b[m]) for m in names):
                continue  # the errors of merged hits stay as they are
            if not np.allclose(p, q, rtol=1e-9 if not absolute else 1e-6, atol=1e-6 if not absolute else 1e-5 * max(1., np.nanmax(np.abs(p)) if np.isfinite(p).any() else 1.), equal_nan=True):
                rec.violation('C21:apply-position', '%s: columns %r are %r, expected %r' % (what, names, q.tolist(), p.tolist()))
                return False
    for m in a.dtype.names:
        if m not in done and not common.same(a[m], b[m]):
            rec.violation('C21:apply-other', '%s: column %s changed from %r to %r' % (what, m, a[m].tolist(), b[m].tolist()))
            return False
    return True


# ---------------------------------------------------------------- transformation calculated from tracks

PARAMS = ('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma')
BASES = [(0., 0., 0.), (0.2, -0.1, 0.), (np.pi, 0., 0.05), (0., 0.4, 1.3), (-0.3, 0.3, np.pi / 2), (0., np.pi - 0.2, 0.), (0.1, 0.1, -2.5), (0.5, 0., 0.)]


def euler(R):
    return dict(rotation_alpha=np.arctan2(R[2, 1], R[2, 2]), rotation_beta=-np.arcsin(max(-1., min(1., R[2, 0]))), rotation_gamma=np.arctan2(R[1, 0], R[0, 0]))


def axis_rotation(w):
    '''Rotation by the vector w (Rodrigues).'''
    w = np.asarray(w, dtype=float)
    a = np.sqrt(w @ w)
    K = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    if a < 1e-15:
        return np.eye(3)
    return np.eye(3) + np.sin(a) / a * K + (1 - np.cos(a)) / a ** 2 * K @ K


def lines(n, seed, spread=0.05):
    r = np.random.RandomState(seed)
    u = np.column_stack([r.uniform(-spread, spread, n), r.uniform(-spread, spread, n), np.ones(n)])
    return np.column_stack([r.uniform(-5000, 5000, n), r.uniform(-5000, 5000, n), np.zeros(n)]), u / np.sqrt((u ** 2).sum(axis=1))[:, None]


def cross(o, u, R, T):
    '''Intersections with the device plane in its local frame.'''
    nrm = R[:, 2]
    return (o + u * (((T - o) @ nrm) / (u @ nrm))[:, None] - T) @ R


def track_table(i, truth, assumed, o, u, event=None):
    '''Table of tracks of device i with exact hits.'''
    n = len(o)
    t = np.zeros(n, dtype=[('event_number', 'i8')] + [('%s_dut_%d' % (a, i), 'f8') for a in 'xyz'] + [('%s_%s' % (k, a), 'f8') for k in ('offset', 'slope') for a in 'xyz'] + [('track_chi2', 'f8')])
    t['event_number'] = np.arange(n) if event is None else event
    hit, off, slope = cross(o, u, *truth), cross(o, u, *assumed), u @ assumed[0]
    for k, a in enumerate('xyz'):
        t['%s_dut_%d' % (a, i)] = hit[:, k] if k < 2 else 0.
        t['offset_' + a] = off[:, k] if k < 2 else 0.
        t['slope_' + a] = slope[:, k]
    t['track_chi2'] = 1.
    return t


def compare(rec, key, what, dut, truth, tol_t=0.02, tol_r=1e-4):
    R = common.rotation(dut.rotation_alpha, dut.rotation_beta, dut.rotation_gamma)
    T = np.array([dut.translation_x, dut.translation_y, dut.translation_z])
    rec.transitions += 6
    if not (np.abs(T - truth[1]).max() < tol_t and np.abs(R - truth[0]).max() < tol_r):
        rec.violation(key, '%s: device %s is placed at %r with rotation matrix %r, expected %r and %r' % (what, dut.name, T.tolist(), R.tolist(), truth[1].tolist(), truth[0].tolist()))
        return False
    return True


def settings(t):
    return [{a: getattr(d, a) for a in d.dut_attributes if a not in PARAMS} for d in t] + [{a: getattr(t, a) for a in t.telescope_attributes}]


def run_transformation(rec, tier, base, part):
    d = core.scratch()
    conf = os.path.join(d, 'tel.yaml')
    grid = list(itertools.product((-1, 0, 1), repeat=6))[part::9]
    size = 9
    step = (120., 250., 300., 0.03, 0.05, 0.08)
    B = common.rotation(*BASES[base])
    for g in range(0, len(grid), size):
        group = grid[g:g + size]
        truths, duts, tabs = [], [], {}
        for i, m in enumerate(group):
            assumed = (B, np.array([10. * i, -500. + 77. * i, 1e5 * (i % 4)]))
            s = [a * b for a, b in zip(m, step)]
            truth = (axis_rotation(s[3:]) @ B, assumed[1] + s[:3])
            truths.append(truth)
            duts.append(common.pixel(translation_x=assumed[1][0], translation_y=assumed[1][1], translation_z=assumed[1][2], **euler(B)))
            o, u = lines(40, 100 * base + i + g)
            tabs['Tracks_DUT%d' % i] = track_table(i, truth, assumed, o, u)
        path = common.write(os.path.join(d, 'tracks.h5'), **tabs)
        before = common.content(path)
        for chunk, order in ((10 ** 6, list(range(len(group)))), ((14, 21, 40, 41)[(g // size) % 4], list(range(len(group)))[::-1])):
            t = common.telescope(conf, duts)
            keep = settings(Telescope(conf))
            what = 'device orientation %r, misalignments %r (unit %r), chunk size %r' % (BASES[base], group, step, chunk)
            dut_alignment.calculate_transformation(conf, path, order, chunk_size=chunk)
            rec.traces += 1
            t = Telescope(conf)
            for i in range(len(group)):
                rec.state((base, group[i], chunk))
                if not compare(rec, 'C21:transformation', what, t[i], truths[i]):
                    return
            if settings(t) != keep:
                rec.violation('C21:settings', '%s: other settings of the telescope changed from %r to %r' % (what, keep, settings(t)))
                return
        if common.content(path) != before:
            rec.violation('C21:input', 'tracks file changed by calculate_transformation')
            return


def run_parameters(rec, tier, base):
    '''Only the selected parameters are changed, and they are recovered.'''
    d = core.scratch()
    conf = os.path.join(d, 'tel.yaml')
    B = common.rotation(*BASES[base])
    step = (60., -90., 200., 0.01, -0.01, 0.01)
    subsets = [s for n in range(1, 7) for s in itertools.combinations(range(6), n)]
    for g in range(0, len(subsets), 7):
        group = subsets[g:g + 7]
        truths, duts, tabs = [], [], {}
        for i, m in enumerate(group):
            assumed = (B, np.array([10. * i, -500. + 77. * i, 1e5 * (i % 4)]))
            s = [step[k] if k in m else 0. for k in range(6)]
            truths.append((axis_rotation(s[3:]) @ B, assumed[1] + s[:3]))
            duts.append(common.pixel(translation_x=assumed[1][0], translation_y=assumed[1][1], translation_z=assumed[1][2], **euler(B)))
            o, u = lines(40, 100 * base + i + g)
            tabs['Tracks_DUT%d' % i] = track_table(i, truths[-1], assumed, o, u)
        path = common.write(os.path.join(d, 'tracks.h5'), **tabs)
        for order in (list(range(7)), [3, 0, 6], [5]):
            t = common.telescope(conf, duts)
            old = [Telescope(conf)[i] for i in range(7)]
            select = [[PARAMS[k] for k in group[i]][::(1, -1)[i % 2]] for i in order]
            if len(order) == 3:
                select = [None if len(s) == 6 else s for s in select]
            what = 'device orientation %r, misaligned and selected parameters %r, devices %r' % (BASES[base], [group[i] for i in order], order)
            dut_alignment.calculate_transformation(conf, path, order, select_alignment_parameters=select)
            rec.traces += 1
            t = Telescope(conf)
            for i in range(7):
                rec.state((base, group[i], tuple(order)))
                two = sum(k > 2 for k in group[i]) == 2
                if i not in order:
                    if [getattr(t[i], p) for p in PARAMS] != [getattr(old[i], p) for p in PARAMS]:
                        rec.violation('C21:not-selected', '%s: placement of device %d changed' % (what, i))
                        return
                    continue
                if not compare(rec, 'C21:parameters', what, t[i], truths[i], tol_t=0.5 if two else 0.02, tol_r=5e-4 if two else 1e-4):
                    return
                for k in range(3):
                    if k not in group[i] and getattr(t[i], PARAMS[k]) != getattr(old[i], PARAMS[k]):
                        rec.violation('C21:fixed-parameter', '%s: %s of device %d changed from %r to %r' % (what, PARAMS[k], i, getattr(old[i], PARAMS[k]), getattr(t[i], PARAMS[k])))
                        return


def run_selection(rec, tier):
    '''Limits, tracks without hit or fit, tracks of different chunks.'''
    d = core.scratch()
    conf = os.path.join(d, 'tel.yaml')
    inf = np.inf
    for base in range(len(BASES)):
        B = common.rotation(*BASES[base])
        assumed = (B, np.array([100., -200., 3e4]))
        truth = (axis_rotation((0.01, -0.02, 0.03)) @ B, assumed[1] + (40., -50., 60.))
        place = dict(translation_x=assumed[1][0], translation_y=assumed[1][1], translation_z=assumed[1][2], **euler(B))
        for xl, yl in itertools.product((None, (-3000., 2500.), (-inf, 1000.), (-2000., inf)), (None, (-3500., 3000.), (-inf, inf), (-1500., inf))):
            o, u = lines(60, base)
            t = track_table(0, truth, assumed, o, u)
            x, y = t['x_dut_0'], t['y_dut_0']
            bad = np.zeros(len(t), dtype=bool)
            for v, l in ((x, xl), (y, yl)):
                if l is not None:
                    bad |= (v < l[0]) | (v > l[1])
            kind = np.arange(len(t)) % 5
            # outside the limits the tracks do not fit
            t['offset_x'][bad] += 700.
            t['offset_y'][bad & (kind > 2)] -= 900.
            # no hit or no fit
            t['x_dut_0'][kind == 0], t['y_dut_0'][kind == 0], t['z_dut_0'][kind == 0] = np.nan, np.nan, np.nan
            t['track_chi2'][kind == 3] = np.nan
            t['offset_y'][kind == 3] += 5555.
            path = common.write(os.path.join(d, 'tracks.h5'), Tracks_DUT0=t)
            for use in (True, False):
                if not use and bad.any():
                    continue
                for chunk in (10 ** 6, 30):
                    common.telescope(conf, [common.pixel(x_limit=xl, y_limit=yl, **place)])
                    what = 'device orientation %r, limits %r %r, use_limits %r, chunk size %d' % (BASES[base], xl, yl, use, chunk)
                    dut_alignment.calculate_transformation(conf, path, [0], use_limits=use, chunk_size=chunk)
                    rec.traces += 1
                    rec.state(what)
                    if not compare(rec, 'C21:selection', what, Telescope(conf)[0], truth):
                        return
        # chunks that ask for different placements: mean weighted with the number of tracks
        for n1, n2, n3 in ((40, 40, 0), (20, 40, 40), (40, 10, 25), (40, 40, 40), (30, 40, 10)):
            parts, exp_t, exp_w, tot = [], np.zeros(3), np.zeros(3), n1 + n2 + n3
            for k, n in enumerate((n1, n2, n3)):
                if not n:
                    continue
                w, s = np.array([(0.002, 0., -0.001), (-0.001, 0.003, 0.002), (0.001, 0.001, 0.002)][k]), np.array([(30., 0., 10.), (-20., 45., 0.), (8., -9., -50.)][k])
                o, u = lines(40, base + 7 * k)
                t = track_table(0, (axis_rotation(w) @ B, assumed[1] + s), assumed, o, u)
                t['track_chi2'][n:] = np.nan
                parts.append(t)
                exp_t += s * n / tot
                exp_w += w * n / tot
            path = common.write(os.path.join(d, 'tracks.h5'), Tracks_DUT0=np.concatenate(parts))
            common.telescope(conf, [common.pixel(**place)])
            dut_alignment.calculate_transformation(conf, path, [0], chunk_size=40)
            rec.traces += 1
            rec.state((base, n1, n2, n3))
            if not compare(rec, 'C21:chunk-average', 'device orientation %r, three chunks of %r tracks with different placements' % (BASES[base], (n1, n2, n3)), Telescope(conf)[0], (axis_rotation(exp_w) @ B, assumed[1] + exp_t)):
                return


# ---------------------------------------------------------------- beam alignment

def run_beam(rec, tier, part):
    '''Shear of the telescope: reference device at 0, the line through the selected devices is parallel to z, the beam stays the beam.'''
    d = core.scratch()
    conf = os.path.join(d, 'tel.yaml')
    step = (150., -120., 200., 300., -250., 180.)
    orders = ((0., 2e4, 5e4), (5e4, 0., 2e4), (-3e4, 4e4, 1e4))
    tels = ((0., 0., 0.), (0.005, -0.01, 0.), (0., 0.004, 0.2))
    for k, m in enumerate(itertools.product((-1, 0, 1), repeat=6)):
        if k % 8 != part:
            continue
        z = orders[k // 8 % 3]
        tel = tels[k // 24 % 3]
        rot = [(0., 0., 0.), (0.2, 0., 0.3), (0., -0.3, 0.), (np.pi, 0.1, 0.)]
        duts = [dict(translation_x=10. + step[i] * m[i], translation_y=-20. + step[3 + i] * m[3 + i], translation_z=z[i], **euler(common.rotation(*rot[(i + k) % 4]))) for i in range(3)]
        duts.append(dict(translation_x=444., translation_y=-55., translation_z=3e4, **euler(common.rotation(*rot[k % 4]))))
        select = ([0, 1, 2], [2, 0, 1], [0, 2])[k % 3 if k % 5 else 2]
        ref = None if k % 4 else 3 if k % 8 else 1
        t = common.telescope(conf, [common.pixel(x_limit=(-10., 20.), **p) for p in duts])
        t.rotation_alpha, t.rotation_beta, t.rotation_gamma = tel
        t.save_configuration(conf)
        kinds = settings(Telescope(conf))
        what = 'positions %r, telescope rotation %r, selected devices %r, reference %r' % ([T_of(p).tolist() for p in duts], tel, select, ref)
        dut_alignment.align_telescope(conf, select, **({} if ref is None else dict(reference_dut=ref)))
        rec.traces += 1
        rec.state((m, z, tel, tuple(select), ref))
        t = Telescope(conf)
        pos = np.array([T_of(duts[i]) for i in select])
        c = pos.mean(axis=0)
        val, vec = np.linalg.eigh((pos - c).T @ (pos - c))
        u = vec[:, 2] / vec[2, 2]
        if ref is None:
            ref = min(select, key=lambda i: T_of(duts[i])[2])
        hit = [cross(c[None], u[None], R_of(p), T_of(p))[0] @ R_of(p).T + T_of(p) for p in duts]
        for i, p in enumerate(duts):
            exp = T_of(p) - (hit[i] - hit[ref]) - T_of(duts[ref])
            exp[2] = T_of(p)[2]
            new = np.array([t[i].translation_x, t[i].translation_y, t[i].translation_z])
            rec.transitions += 1
            if not np.allclose(new, exp, rtol=0, atol=1e-4) or not np.allclose(common.rotation(t[i].rotation_alpha, t[i].rotation_beta, t[i].rotation_gamma), R_of(p), atol=1e-9):
                rec.violation('C21:beam-position', '%s: device %d is placed at %r, expected %r' % (what, i, new.tolist(), exp.tolist()))
                return
        s = np.abs(u[:2]).max() + max(abs(tel[0]), abs(tel[1]))
        b = common.rotation(*tel).T @ [0., 0., 1.]
        b = b / b[2] - [u[0], u[1], 0.]
        b = common.rotation(t.rotation_alpha, t.rotation_beta, t.rotation_gamma) @ b
        # rotations around two axes are added: second order in case of a rotation around z
        tol = 4 * s ** 3 + (1.5 * abs(tel[2]) * s if tel[2] else 0.) + 1e-9
        if not np.abs(b[:2]).max() < tol:
            rec.violation('C21:beam-rotation', '%s: beam direction in the frame of the beam is %r' % (what, b.tolist()))
            return
        keep = settings(t)
        for o in (keep, kinds):
            for n in ('rotation_alpha', 'rotation_beta'):
                o[-1].pop(n)
        if keep != kinds:
            rec.violation('C21:settings', '%s: other settings of the telescope changed from %r to %r' % (what, kinds, keep))
            return


# ---------------------------------------------------------------- pre-alignment

FLIPS = [(0., 0., 0.), (np.pi, 0., 0.), (0., np.pi, 0.), (0., 0., np.pi)]


def run_prealign(rec, tier, part):
    d = core.scratch()
    conf, out = os.path.join(d, 'tel.yaml'), os.path.join(d, 'pre.yaml')
    pitch, cols, rows, n = 100., 80, 50, 500
    W, H = cols * pitch / 2, rows * pitch / 2
    all_cases = list(itertools.product((-730., 0., 540.), (-310., 0., 420.), range(4), (0., np.pi)))
    all_cases = [c for k, c in enumerate(all_cases) if k % 8 == part]
    for g in range(0, len(all_cases), 3):
        group = all_cases[g:g + 3]
        r = np.random.RandomState(part * 10 + g)
        o = np.column_stack([r.uniform(-W, W, n), r.uniform(-H, H, n), np.zeros(n)])
        u = np.tile([0., 0., 1.], (n, 1))
        ref = g % 2 * len(group)  # the reference is the first or the last device
        assumed = [dict(translation_z=1e5 * (i + 1), translation_x=[0., 200.][i % 2], rotation_gamma=c[3]) for i, c in enumerate(group)]
        truth = [dict(translation_x=c[0], translation_y=c[1], translation_z=1e5 * (i + 1), **euler(common.rotation(*FLIPS[c[2]]) @ common.rotation(0., 0., c[3]))) for i, c in enumerate(group)]
        assumed.insert(ref, dict(translation_z=-1e4))
        truth.insert(ref, dict(translation_z=-1e4))
        common.telescope(conf, [common.pixel(cols, rows, pitch, pitch, **p) for p in assumed])
        limits = {}
        if g % 6 == 3:
            t = Telescope(conf)
            other = [i for i in range(len(t)) if i != ref][0]
            t[other].x_limit, t[other].y_limit = limits[other] = ((-500., 600.), (-400., 300.))
            t.save_configuration(conf)
        files = []
        for i, p in enumerate(truth):
            l = cross(o, u, R_of(p), T_of(p))
            ok = (np.abs(l[:, 0]) < W) & (np.abs(l[:, 1]) < H)
            h = np.zeros(ok.sum(), dtype=[('event_number', 'i8'), ('frame', 'u2'), ('column', 'u2'), ('row', 'u2'), ('charge', 'f4')])
            h['event_number'], h['column'], h['row'] = np.arange(n)[ok], np.floor((l[ok, 0] + W) / pitch) + 1, np.floor((l[ok, 1] + H) / pitch) + 1
            files.append(common.write(os.path.join(d, 'h%d.h5' % i), Hits=h))
        corr = os.path.join(d, 'corr.h5')
        reduce = bool((part + g) % 2)
        what = 'devices displaced and turned %r, reduce_background %r, reference %d' % (group, reduce, ref)
        hit_analysis.correlate(conf, files, corr, resolution=(pitch, pitch), select_reference_duts=ref, plot=False)
        before, before_conf = common.content(corr), common.content(conf)
        only = None if g % 4 else [i for i in range(len(truth)) if i != 1]
        res = dut_alignment.prealign(conf, corr, out, select_duts=only, select_reference_dut=ref, reduce_background=reduce, plot=False)
        rec.traces += 1
        if res != out or common.content(corr) != before or common.content(conf) != before_conf:
            rec.violation('C21:input', '%s: returned %r, input files changed: %r' % (what, res, (common.content(corr) != before, common.content(conf) != before_conf)))
            return
        t, old = Telescope(out), Telescope(conf)
        os.remove(out)
        for i, p in enumerate(truth):
            rec.state((part, g, i))
            rec.transitions += 1
            if i == ref or (only is not None and i not in only):
                if [getattr(t[i], m) for m in t[i].dut_attributes] != [getattr(old[i], m) for m in t[i].dut_attributes]:
                    rec.violation('C21:not-selected', '%s: settings of device %d (not selected or reference) changed' % (what, i))
                    return
                continue
            R = common.rotation(t[i].rotation_alpha, t[i].rotation_beta, t[i].rotation_gamma)
            T = np.array([t[i].translation_x, t[i].translation_y, t[i].translation_z])
            if not (np.allclose(R, R_of(p), atol=1e-6) and np.abs(T - T_of(p)).max() <= pitch + 1e-6 and T[2] == p['translation_z']):
                rec.violation('C21:prealign', '%s: device %d is placed at %r with rotation matrix %r, expected %r and %r' % (what, i, T.tolist(), R.tolist(), T_of(p).tolist(), R_of(p).tolist()))
                return
            c = R_of(p).T @ (-T_of(p))  # center of the reference
            for lim, size, w, q in ((t[i].x_limit, W, limits.get(i, (None, None))[0], c[0]), (t[i].y_limit, H, limits.get(i, (None, None))[1], c[1])):
                if not (-size <= lim[0] < lim[1] <= size) or (w is not None and not (w[0] <= lim[0] and lim[1] <= w[1])):
                    rec.violation('C21:prealign-limit', '%s: limits of device %d are %r and %r (before: %r)' % (what, i, t[i].x_limit, t[i].y_limit, limits.get(i)))
                    return


# ---------------------------------------------------------------- complete alignment

ORIENT = [(0., 0., 0.), (0.1, 0., 0.), (0., 0.15, 0.3), (np.pi, 0., 0.), (0., 0., -0.2)]
PLANES_Z = (0., 1e5, 1.7e5, 2.5e5, 4e5)


def set_up(d, mis, n, per, spread, seed):
    truth, ass = [], []
    for i in range(5):
        R, T = common.rotation(*ORIENT[i]), np.array([120. * i, -60. * i, PLANES_Z[i]])
        m = np.array(mis.get(i, (0.,) * 6))
        truth.append((R, T))
        ass.append((axis_rotation(m[3:]).T @ R, T - m[:3]))
    duts = [common.pixel(400, 400, 50., 50., material_budget=0.001, translation_x=T[0], translation_y=T[1], translation_z=T[2], **euler(R)) for R, T in ass]
    o, u = lines(n, seed, spread)
    loc = [cross(o, u, *t) for t in truth]
    t = merged(np.arange(n) // per, np.column_stack([l[:, 0] for l in loc]), np.column_stack([l[:, 1] for l in loc]), np.ones((n, 5), dtype=int))
    for i in range(5):
        t['cluster_shape_dut_%d' % i] = 1
        t['x_err_dut_%d' % i] = t['y_err_dut_%d' % i] = 14.
        t['z_err_dut_%d' % i] = 0
    conf = os.path.join(d, 'tel.yaml')
    common.telescope(conf, duts)
    return conf, common.write(os.path.join(d, 'merged.h5'), MergedClusters=t), truth, loc


def deviation(tel, loc, planes):
    '''Largest distance of a hit to the straight line through the hits of the planes.'''
    p = np.stack([loc[i] @ common.rotation(tel[i].rotation_alpha, tel[i].rotation_beta, tel[i].rotation_gamma).T + [tel[i].translation_x, tel[i].translation_y, tel[i].translation_z] for i in planes])
    worst = 0.
    for k in range(p.shape[1]):
        A = np.column_stack([p[:, k, 2], np.ones(len(planes))])
        for a in (0, 1):
            worst = max(worst, np.abs(A @ np.linalg.lstsq(A, p[:, k, a], rcond=None)[0] - p[:, k, a]).max())
    return float(worst)


def run_align(rec, tier, part, only=None):
    M = (40., -30., 100., .003, -.002, .004)
    N = (-25., 50., -80., -.002, .003, -.003)
    for k, signs in enumerate(itertools.product((1, -1), repeat=6)):
        if k % 8 != part or (only is not None and k >= 8 * only):
            continue
        d = core.scratch()
        m, m2 = [a * s for a, s in zip(M, signs)], [a * s for a, s in zip(N, signs[::-1])]
        kind = (k // 8 + part) % 8
        kw = dict(select_telescope_duts=[0, 1, 3, 4], select_fit_duts=[0, 1, 3, 4], select_hit_duts=[0, 1, 2, 3, 4], select_duts=[[2]], quality_distances=None, isolation_distances=None)
        mis, per, exact, n, spread, tol = {2: m}, 1, [2], 80, 1e-3, (0.02, 1e-4)
        straight = None
        two = dict(select_telescope_duts=[0, 1, 4], select_fit_duts=[0, 1, 4])
        if kind == 1:
            per, n = 2, 120
            kw.update(quality_distances=(300., 300.), isolation_distances=(60., 60.))
        elif kind == 2:
            mis, exact = {2: m, 3: m2}, [2, 3]
            kw.update(two, select_duts=[[2], [3]])
        elif kind == 3:
            mis, exact = {2: m, 3: m2}, [2, 3]
            kw.update(two, select_duts=[2, 3], alignment_parameters=[[None, None]])
        elif kind == 4:
            m = m[:2] + [0., 0., 0.] + m[5:]
            mis = {2: m}
            kw.update(alignment_parameters=[[['translation_x', 'translation_y', 'rotation_gamma']]])
        elif kind == 5:
            m[2] = 0.  # slopes of the filtered states are pulled to its start value by 0.1 %
            kw.update(fit_method='kalman', beam_energy=1e5, particle_mass=0.511, alignment_parameters=[[[a for a in PARAMS if a != 'translation_z']]])
            n = 60
            tol = (0.5, 5e-4)
        elif kind == 6:
            mis, exact = {i: (signs[0] * 10. * (i - 2), -8. * signs[1] * (i - 1), 0., 0., 0., signs[2] * 0.001 * i) for i in (1, 2, 3)}, []
            kw.update(select_duts=None, max_iterations=4, select_telescope_duts=[0, 1, 2, 3, 4], select_fit_duts=[0, 1, 2, 3, 4])
            straight = (range(5), 0.3)
        elif kind == 7:
            mis, exact = {1: (signs[3] * 40., -30., 0., 0., 0., signs[4] * .004), 2: m, 3: (0., signs[5] * 20., 0., 0., 0., 0.003)}, []
            kw.update(select_duts=[[0, 1, 3, 4], [2]], select_fit_duts=[0, 1, 3, 4], max_iterations=[5, 3], quality_distances=[None, (400., 400.), None, (400., 400.), None])
            straight = (range(5), 0.3)
        conf, mer, truth, loc = set_up(d, mis, n, per, spread, k)
        out = os.path.join(d, 'out.yaml')
        what = 'misalignments %r, %r' % (mis, kw)
        previous = None
        if kind in (0, 2) and k % 2:
            # results of a previous alignment are kept for the other devices
            t = Telescope(conf)
            other = 0 if kind else 3
            previous = (other, 123.)
            t.save_configuration(out)
            t = Telescope(out)
            t[2].translation_x = 7777.
            t[1].x_limit = (-9000., 9000.)
            t.save_configuration(out)
        before = common.content(mer), common.content(conf)
        start = deviation(Telescope(conf), loc, range(5))
        res = dut_alignment.align(conf, mer, out, plot=False, **kw)
        rec.traces += 1
        rec.state((kind, k))
        if res != out or (common.content(mer), common.content(conf)) != before:
            rec.violation('C21:input', '%s: returned %r or changed its input files' % (what, res))
            return
        if sorted(os.listdir(d)) != ['merged.h5', 'out.yaml', 'tel.yaml']:
            rec.violation('C21:temporary-files', '%s: files left %r' % (what, sorted(os.listdir(d))))
            return
        t, old = Telescope(out), Telescope(conf)
        for i in range(5):
            if i in exact:
                if not compare(rec, 'C21:align', what, t[i], truth[i], *tol):
                    return
            elif straight is None and [getattr(t[i], p) for p in PARAMS] != [getattr(old[i], p) for p in PARAMS]:
                rec.violation('C21:not-selected', '%s: placement of device %d changed' % (what, i))
                return
        if previous is not None and tuple(t[1].x_limit) != (-9000., 9000.):
            rec.violation('C21:previous', '%s: settings of a device that is not selected in an existing output file were not kept' % what)
            return
        if straight is not None:
            rest = deviation(t, loc, straight[0])
            rec.transitions += len(loc[0])
            if not rest < straight[1]:
                rec.violation('C21:align-telescope', '%s: hits deviate from straight lines by %f um after the alignment, %f um before' % (what, rest, start))
                return


def cases(tier):
    out = []
    out += [[k, tier, p] for k in ('align', 'prealign') for p in range(8)]
    out += [['transformation', tier, b, p] for b in range(4 if tier == 'quick' else 8) for p in range(9) if tier != 'quick' or b == 0 or (p + b) % 3 == 0]
    out += [['parameters', tier, b] for b in range(4 if tier == 'quick' else 8)]
    out += [['selection', tier]]
    out += [[k, tier, p] for k in ('apply', 'beam') for p in range(8)]
    return out


def run_case(case, rec):
    if case[0] in ('beam', 'prealign', 'align'):
        dict(beam=run_beam, prealign=run_prealign, align=run_align)[case[0]](rec, *case[1:])
    elif case[0] == 'apply':
        run_apply(rec, *case[1:])
    elif case[0] == 'transformation':
        run_transformation(rec, *case[1:])
    elif case[0] == 'parameters':
        run_parameters(rec, *case[1:])
    elif case[0] == 'selection':
        run_selection(rec, *case[1:])
