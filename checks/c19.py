'''C19: residuals and track angles.'''
import itertools
import os

import numpy as np
import tables as tb

from mc import core
from checks import common
from beam_telescope_analysis import result_analysis
from beam_telescope_analysis.tools import analysis_utils, plot_utils

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'residuals: all sequences of 3 tracks over 7 kinds (hit within limits, on the limits, beyond the x, y limit, far residual, no hit, no fit) between 2 and 3 given tracks, chunk sizes 3..5 and 1000, up to 5 tracks without hit at first, with and without limits, 3 binnings, 1-2 tracks per event, selections and orders of 3 devices of different pixel sizes; 7 shapes of limits; angles: all sequences of up to 3 tracks over 5 directions, chunk sizes 3..5 and 1000, device rotations and selections, 3 binnings',
    'thorough': 'as quick with sequences of 4 tracks (angles too) and all binnings for each sequence',
}
RULE = 'states: distinct (track sequence, chunk size, settings); transitions: histogram bins compared; traces: runs of the real step'
ASSUMPTIONS = ['the binning is the stored one (the first chunk of tracks with hits defines it): tracks beyond it do not count', 'an event fits into a chunk', 'the first chunk with hits has tracks within the limits and at two positions at least', 'track slopes in beam direction']

DUTS = [common.pixel(8, 8, 50., 50., x_limit=(-112.5, 137.5), y_limit=(-162.5, 87.5)),
        common.pixel(8, 4, 50., 100., translation_z=1000., translation_x=40., rotation_alpha=0.2, rotation_gamma=0.1, x_limit=(-112.5, 137.5), y_limit=(-162.5, 87.5)),
        common.pixel(4, 16, 250., 50., translation_z=2000., rotation_beta=-0.3, x_limit=(-112.5, 137.5), y_limit=(-162.5, 87.5))]
KINDS = ['in', 'edge', 'outx', 'outy', 'far', 'nohit', 'nofit']
BINNINGS = [(None, None), (5, 2), (20, 1), (3, None), (None, 3)]


def dtype(n):
    d = [('event_number', 'i8')]
    for i in range(n):
        d += [('x_dut_%d' % i, 'f8'), ('y_dut_%d' % i, 'f8'), ('z_dut_%d' % i, 'f8'), ('charge_dut_%d' % i, 'f4')]
    return d + [('offset_x', 'f8'), ('offset_y', 'f8'), ('offset_z', 'f8'), ('slope_x', 'f8'), ('slope_y', 'f8'), ('slope_z', 'f8'), ('track_chi2', 'f8'), ('track_chi2_red', 'f8')]


def table(dut, n, seq, ev, salt=0):
    '''The tracks of one device; hits of other devices and all numbers differ.'''
    t = np.zeros(len(seq), dtype=dtype(n))
    t['event_number'] = ev
    t['slope_z'] = 1.
    for i, k in enumerate(seq):
        j = i + 11 * salt
        x, y = -90.3 + 37.1 * (j % 6) - 0.77 * j, -140.9 + 31.7 * ((2 * j + salt) % 7) + 0.31 * j  # within the limits
        if k == 'edge':
            x, y = ((-112.5, y), (137.5, y), (x, -162.5), (x, 87.5))[(i + salt) % 4]
        elif k == 'outx':
            x = -113.1 - j % 3 if i % 2 else 138.3 + j % 5
        elif k == 'outy':
            y = -163.7 - j % 3 if i % 2 else 88.1 + j % 5
        dx, dy = 3.3 + 7.7 * (j % 4) - 1.3 * (j % 3), -11.9 + 5.1 * (j % 5) - 0.2 * j
        if k == 'far':
            dx, dy = ((1400.3, dy), (dx, -1200.7))[i % 2]
        for m in range(n):
            t['x_dut_%d' % m][i] = x if m == dut else -17. * m - 3. * i
            t['y_dut_%d' % m][i] = y if m == dut else 23. * m + 2. * i
        if k == 'nohit':
            for c in 'xyz':
                t['%s_dut_%d' % (c, dut)][i] = np.nan
        t['offset_x'][i], t['offset_y'][i] = x - dx, y - dy
        t['track_chi2'][i] = t['track_chi2_red'][i] = np.nan if k == 'nofit' else 1. + i
        if k == 'nofit' and i % 2:  # candidates without a fit have no parameters
            for c in ('offset_x', 'offset_y', 'offset_z', 'slope_x', 'slope_y', 'slope_z'):
                t[c][i] = np.nan
    return t


def bins(values, edges):
    '''Bin of each value, -1 if beyond; upper edge belongs to the last bin.'''
    i = np.searchsorted(edges, values, side='right') - 1
    i[values == edges[-1]] = len(edges) - 2
    i[(i < 0) | (i > len(edges) - 2)] = -1
    return i


def count(edges, *values):
    h = np.zeros([len(e) - 1 for e in edges])
    for c in zip(*[bins(v, e) for v, e in zip(values, edges)]):
        if min(c) >= 0:
            h[c] += 1
    return h


plots = {}


def watch():
    '''The maps are only plotted.'''
    def recorder(name, func):
        def plot(*args, **kwargs):
            if 'title' in kwargs and 'hist2d' in kwargs:
                plots[kwargs['title']] = np.ma.filled(np.ma.asarray(kwargs['hist2d']).astype(float), 0.)
            return None
        return plot
    for name in ('plot_2d_map', 'plot_residuals', 'plot_residuals_vs_position'):
        if hasattr(plot_utils, name):
            setattr(plot_utils, name, recorder(name, getattr(plot_utils, name)))


def residuals(rec, d, what, seqs, ev, select, chunk, limits, binning, duts=None, order=None):
    duts = duts or DUTS
    what = '%s: tracks %r, events %r, devices %r, chunk size %d, limits %r, binning %r' % (what, seqs, list(ev), select, chunk, limits, binning)
    rec.state(what)
    tc, tracks, out = (os.path.join(d, f) for f in ('t.yaml', 'tracks.h5', 'r.h5'))
    common.telescope(tc, duts)
    data = {i: table(i, len(duts), seqs[i % len(seqs)], ev, salt=i) for i in range(len(duts))}
    common.write(tracks, **{'Tracks_DUT%d' % i: t for i, t in data.items()})
    before, before_t = common.content(tracks), common.content(tc)
    plots.clear()
    try:
        got = result_analysis.calculate_residuals(tc, tracks, select, output_residuals_file=out, nbins_per_pixel=binning[0], npixels_per_bin=binning[1], use_limits=limits, plot=False, chunk_size=chunk)
    except Exception as e:
        import traceback
        rec.traces += 1
        last = traceback.extract_tb(e.__traceback__)[-1]
        rec.violation('C19:error', '%s: %s: %s (%s:%d)' % (what, type(e).__name__, e, os.path.basename(last.filename), last.lineno))
        return False
    rec.traces += 1
    names = ['local_x_residuals', 'local_y_residuals', 'local_x_residuals_x_pos', 'local_y_residuals_y_pos', 'local_y_residuals_x_pos', 'local_x_residuals_y_pos']
    if got != out or sorted(set(common.nodes(out)) - {'arguments'}) != sorted('%s_DUT%d' % (n, i) for n in names for i in select):
        rec.violation('C19:nodes', '%s: returned %r with %r' % (what, got, common.nodes(out)))
        return False
    ok = True
    with tb.open_file(out, 'r') as f:
        for i in select:
            t, dut = data[i], duts[i]
            t = t[~np.isnan(t['x_dut_%d' % i]) & ~np.isnan(t['track_chi2'])]
            hx, hy = t['x_dut_%d' % i], t['y_dut_%d' % i]
            pos = {'x': t['offset_x'], 'y': t['offset_y']}
            res = {'x': hx - t['offset_x'], 'y': hy - t['offset_y']}
            lim = {'x': dut.get('x_limit'), 'y': dut.get('y_limit')} if limits else {'x': None, 'y': None}
            sel = {c: np.array([lim[c] is None or lim[c][0] <= v <= lim[c][1] for v in h], dtype=bool) for c, h in (('x', hx), ('y', hy))}
            for name in names:
                node = f.get_node('/%s_DUT%d' % (name, i))
                got = node[:]
                a = name[6]
                if name.endswith('_pos'):
                    p = name[-5]
                    s = sel['y' if p == 'x' else 'x']
                    edges = [np.asarray(node.attrs.xedges), np.asarray(node.attrs.yedges)]
                    exp = count(edges, pos[p][s], res[a][s])
                else:
                    s = sel['x'] & sel['y']
                    edges = [np.asarray(node.attrs[a + 'edges'])]
                    exp = count(edges, res[a][s])
                rec.transitions += exp.size
                if got.shape != exp.shape or not np.array_equal(got, exp):
                    ok = False
                    rec.violation('C19:' + name, '%s: %s of device %d: bins %r, expected %r' % (what, name, i, [(j, got[tuple(j)]) for j in np.argwhere(got).tolist()], [(j, exp[tuple(j)]) for j in np.argwhere(exp).tolist()]))
                    continue
                if exp.sum() == 0:
                    rec.outcome('empty')
                    continue
                width = min(np.diff(e).min() for e in edges)
                ok &= rec.expect(width > 0 and np.all(np.diff(edges[0]) > 0), 'C19:edges', '%s: %s of device %d: edges %r' % (what, name, i, edges))
                # the fits describe the same data
                fit = np.asarray(node.attrs.fit_coeff, dtype=float)
                try:
                    if name.endswith('_pos'):
                        n = count(edges[:1], pos[p][s])
                        ref = analysis_utils.fit_residuals_vs_position(hist=exp, xedges=edges[0], yedges=edges[1], mean=None, count=n, limit=lim[p])[0]
                    elif dut['column_size' if a == 'x' else 'row_size'] < 80.:
                        ref = analysis_utils.fit_residuals_gauss(hist=exp.astype(int), edges=edges[0])[0]
                    else:  # box fit: not stable for few tracks
                        continue
                except (AttributeError, TypeError):  # renamed
                    rec.extra['no reference fit'] += 1
                    continue
                if not np.allclose(fit, np.asarray(ref, dtype=float), rtol=1e-4, atol=1e-4, equal_nan=True):
                    ok = False
                    rec.violation('C19:fit', '%s: fit of %s of device %d is %r, of the data %r' % (what, name, i, fit.tolist(), np.asarray(ref).tolist()))
                rec.outcome(exp.tobytes())
            # maps
            ext = [np.linspace(-n * s / 2., n * s / 2., n + 1) for n, s in ((dut['n_columns'], dut['column_size']), (dut['n_rows'], dut['row_size']))]
            n = count(ext, pos['x'], pos['y'])
            tot = np.zeros(n.shape)
            bx, by = bins(pos['x'], ext[0]), bins(pos['y'], ext[1])
            for j in range(len(t)):
                if bx[j] >= 0 and by[j] >= 0:
                    tot[bx[j], by[j]] += np.hypot(res['x'][j], res['y'][j])
            mean = np.where(n > 0, tot / np.maximum(n, 1), 0)
            for title, exp in (('2D average residuals for DUT%d', mean), ('2D occupancy for DUT%d', n)):
                if title % i in plots:
                    rec.transitions += exp.size
                    got = plots[title % i]
                    ok &= rec.expect(got.shape == exp.T.shape and np.allclose(got, exp.T), 'C19:map', '%s: map %r is %r, expected %r' % (what, title % i, got.tolist(), exp.T.tolist()))
                else:
                    rec.extra['maps not seen'] += 1
    ok &= rec.expect(common.content(tracks) == before and common.content(tc) == before_t, 'C19:input', what + ': input changed')
    return ok


SLOPES = [(0., 0., 1.), (0.1, 0., 1.), (0.02, -0.3, 1.), (-0.2, 0.07, 2.), None]


def angles(rec, d, what, seqs, ev, select, chunk, n_bins):
    what = '%s: directions %r, events %r, devices %r, chunk size %d, bins %r' % (what, seqs, list(ev), select, chunk, n_bins)
    rec.state(what)
    tc, tracks, out = (os.path.join(d, f) for f in ('t.yaml', 'tracks.h5', 'r.h5'))
    common.telescope(tc, DUTS)
    data = {}
    for i in range(len(DUTS)):
        t = np.zeros(len(ev), dtype=dtype(len(DUTS)))
        t['event_number'] = ev
        for j, k in enumerate(seqs[i % len(seqs)]):
            s = (np.nan,) * 3 if SLOPES[k] is None else np.array(SLOPES[k]) + (0.003 * i + 0.0013 * j, 0.001 * j + 0.0002 * j * j, 0.)
            t['slope_x'][j], t['slope_y'][j], t['slope_z'][j] = s
        data[i] = t
    common.write(tracks, **{'Tracks_DUT%d' % i: t for i, t in data.items()})
    before = common.content(tracks)
    first = [data[i]['slope_x'][:max(1, chunk - 1)] for i in select]
    try:
        got = result_analysis.histogram_track_angle(tc, tracks, select, output_track_angle_file=out, n_bins=n_bins, plot=False, chunk_size=chunk)
    except Exception as e:
        rec.traces += 1
        if any(np.all(np.isnan(f)) for f in first):
            rec.outcome('first chunk without tracks')
            return True
        rec.violation('C19:angle-error', '%s: %s: %s' % (what, type(e).__name__, e))
        return False
    rec.traces += 1
    base = ['%s_%s_track_angle_%s' % (f, a, h) for f in ('Global',) for a in ('total', 'alpha', 'beta') for h in ('hist', 'edges')]
    exp_nodes = base + [n.replace('Global', f) + '_DUT%d' % i for n in base for f in ('Global', 'Local') for i in select]
    if got != out or sorted(set(common.nodes(out)) - {'arguments'}) != sorted(exp_nodes):
        rec.violation('C19:angle-nodes', '%s: returned %r with %r' % (what, got, common.nodes(out)))
        return False
    ok = True
    zmin = min(select, key=lambda i: DUTS[i].get('translation_z', 0.))
    for i in list(select) + [None]:
        dut = DUTS[zmin if i is None else i]
        t = data[zmin if i is None else i]
        s = np.column_stack([t['slope_x'], t['slope_y'], t['slope_z']])
        s = s[~np.isnan(s[:, 0])]
        R = common.rotation(*[dut.get('rotation_' + n, 0.) for n in ('alpha', 'beta', 'gamma')])
        for frame in ('Global', 'Local'):
            if i is None and frame == 'Local':
                continue
            v = s if frame == 'Local' else s.dot(R.T)
            a = {'total': np.arctan2(np.hypot(v[:, 0], v[:, 1]), v[:, 2]), 'alpha': np.arctan2(v[:, 1], v[:, 2]), 'beta': -np.arctan2(v[:, 0], v[:, 2])}
            for name, values in a.items():
                n = '%s_%s_track_angle_%%s%s' % (frame, name, '' if i is None else '_DUT%d' % i)
                hist, edges = common.read(out, n % 'hist'), common.read(out, n % 'edges')
                rec.transitions += len(hist)
                lo, hi = count([edges], values + 1e-9), count([edges], values - 1e-9)
                if edges[-1] - edges[0] < 1e-7:  # equal angles
                    rec.extra['ties'] += 1
                    good = hist.sum() <= len(values)
                elif not np.array_equal(lo, hi):  # too close to a bin edge for an exact comparison
                    rec.extra['ties'] += 1
                    good = hist.shape == lo.shape and np.all(np.abs(np.cumsum(hist - lo)) <= np.abs(np.cumsum(hi - lo)).max() + len(values))
                    good = good and abs(hist.sum() - lo.sum()) <= abs(hi.sum() - lo.sum())
                else:
                    good = np.array_equal(hist, lo)
                    rec.outcome(lo.tobytes())
                if not good:
                    ok = False
                    rec.violation('C19:angle', '%s: %s is %r with edges %r, angles %r' % (what, n % 'hist', hist.tolist(), edges.tolist(), values.tolist()))
    return ok & rec.expect(common.content(tracks) == before, 'C19:input', what + ': input changed')


def cases(tier):
    T = tier == 'thorough'
    out = [['select', tier], ['limits', tier], ['late', tier], ['angsel', tier]]
    out += [['res', tier, 5 if T else 4, k, 32] for k in range(32)]
    out += [['ang', tier, 4 if T else 3, k, 8] for k in range(8)]
    return out


def run_case(case, rec):
    kind, tier = case[:2]
    T = tier == 'thorough'
    d = core.scratch()
    common.quiet(result_analysis)
    watch()
    chunks = [3, 4, 5, 1000]
    tail = ['in', 'edge', 'in']
    if kind == 'res':
        j = 0
        for n, seq in enumerate(itertools.product(KINDS, repeat=case[2] - 1)):
            if n % case[4] != case[3]:
                continue
            seq = ['in', 'in'] + list(seq) + tail
            ev = [0, 0, 1, 3, 4, 4, 7, 8] if n % 2 else range(5, 5 + len(seq))
            ev = list(ev)[:len(seq)] + list((range(9, 9 + max(0, len(seq) - 8))))
            for k, b in enumerate(BINNINGS[:3]):
                if not T and k != j % 3:
                    continue
                chunk = chunks[(j // 3) % 4]
                if n % 2:
                    chunk = max(chunk, 4)
                if not residuals(rec, d, 'sequence', [seq], ev, [(j // 2) % 3] if j % 5 else [0, 2], chunk, bool(j % 4), b):
                    return
            j += 1
    elif kind == 'select':
        seqs = [['in', 'in', 'nohit', 'outx', 'far', 'in'], ['in', 'in', 'edge', 'outy', 'nofit', 'nohit'], ['in', 'in', 'nofit', 'edge', 'outx', 'outy']]
        for select in [list(p) for r in (1, 2, 3) for p in itertools.permutations(range(3), r)]:
            for chunk in (3, 1000):
                for b in BINNINGS:
                    residuals(rec, d, 'selection', seqs, [1, 1, 2, 4, 4, 6], select, chunk, True, b)
    elif kind == 'limits':
        seq = ['in', 'edge', 'outx', 'outy', 'edge', 'far', 'edge', 'in', 'edge', 'outx', 'outy']
        inf = np.inf
        for xl in (None, (-112.5, 137.5), (-inf, 137.5), (-112.5, inf), (-inf, inf), (-112.5, 100.), (137.5, -112.5)):
            for yl in (None, (-162.5, 87.5), (-162.5, inf)):
                duts = [dict(DUTS[0]), dict(DUTS[1])]
                for t in duts:
                    t.pop('x_limit')
                    t.pop('y_limit')
                    if xl is not None:
                        t['x_limit'] = tuple(sorted(xl))
                    if yl is not None:
                        t['y_limit'] = tuple(sorted(yl))
                for chunk in (3, 1000):
                    for b in BINNINGS[:2]:
                        residuals(rec, d, 'limits', [seq], range(len(seq)), [0, 1], chunk, True, b, duts=duts)
    elif kind == 'late':  # the device has no hits for some time
        for n in range(0, 6):
            for k in ('nohit', 'nofit'):
                for chunk in (2, 3, 4, 1000):
                    for b in ((None, None), (5, None)):
                        seq = [k] * n + ['in', 'in', 'edge', 'outx', 'in']
                        residuals(rec, d, 'no hits at first', [seq], range(len(seq)), [0, 1], chunk, True, b)
    elif kind == 'ang':
        j = 0
        for length in range(1, case[2] + 1):
            for n, seq in enumerate(itertools.product(range(len(SLOPES)), repeat=length)):
                if n % case[4] != case[3] or all(SLOPES[k] is None for k in seq):
                    continue
                j += 1
                if not angles(rec, d, 'sequence', [seq], range(length), [j % 3], chunks[(j // 3) % 4], (100, 7, 4)[(j // 2) % 3]):
                    return
    else:
        seqs = [(0, 1, 2, 3, 1, 4, 2), (1, 4, 3, 3, 0, 1, 2), (2, 1, 0, 2, 3, 0, 4)]
        for select in [list(p) for r in (1, 2, 3) for p in itertools.permutations(range(3), r)]:
            for chunk in (3, 4, 1000):
                for nb in (100, 9):
                    angles(rec, d, 'selection', seqs, [0, 0, 1, 2, 2, 5, 6], select, chunk, nb)
