'''C20: efficiency and purity.'''
import itertools
import math
import os
import traceback

import numpy as np
import tables as tb

from mc import core
from checks import common
from beam_telescope_analysis import result_analysis
from beam_telescope_analysis.tools import analysis_utils

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'efficiency: all sequences of 3 tracks over 8 kinds of hits and places (near hit, no hit, too far in x, y or both, in the corner of the cut, beyond the sensor with and without hit) behind 0-2 given tracks, chunk sizes 3..5 and 1000, 1-2 tracks per event, several cuts, regions and masks; grid of all positions in and around the sensor times 14 hit distances, for all combinations of 6 cuts, 5 resolutions, 4 extended areas, 3 chunk sizes; all masks of a 3 x 2 pixel device; all pairs of 16 regions, in-pixel resolutions; cluster files: all sequences of 3 tracks with clusters of 1-3 hits; purity: all sequences of 4 tracks over 6 kinds, bin sizes, minimum densities, chunk sizes',
    'thorough': 'as quick with sequences of 4 (5) tracks',
}
RULE = 'states: distinct (track table, settings, chunk size); transitions: histogram bins compared; traces: runs of the real step'
ASSUMPTIONS = ['all tracks have been fitted', 'hits not closer than 1e-6 um to the allowed distance, tracks not closer than 1e-6 um to a bin or pixel border', 'an event fits into a chunk', 'the confidence interval of the total efficiency is not judged', 'the histogrammed area is the sensor size rounded up to the resolution and centred at the sensor']

SHAPES = (1, 3, 5, 13, 14, 7, 11, 15)
nan = np.nan


def dtype(i):
    return [('event_number', 'i8'), ('x_dut_%d' % i, 'f8'), ('y_dut_%d' % i, 'f8'), ('charge_dut_%d' % i, 'f4'), ('frame_dut_%d' % i, 'u1'), ('n_hits_dut_%d' % i, 'u4'), ('cluster_ID_dut_%d' % i, 'i4'), ('cluster_shape_dut_%d' % i, 'i8'),
            ('offset_x', 'f8'), ('offset_y', 'f8'), ('offset_z', 'f8'), ('slope_x', 'f8'), ('slope_y', 'f8'), ('slope_z', 'f8'), ('track_chi2', 'f8')]


def table(i, rows):
    '''Rows: event, track x, y, hit x, y (and number of hits).'''
    t = np.zeros(len(rows), dtype=dtype(i))
    for j, r in enumerate(rows):
        e = t[j]
        e['event_number'], e['offset_x'], e['offset_y'], e['x_dut_%d' % i], e['y_dut_%d' % i] = r[:5]
        e['charge_dut_%d' % i] = 1 + (3 * j) % 11
        e['frame_dut_%d' % i] = (5 * j) % 7
        e['n_hits_dut_%d' % i] = r[5] if len(r) > 5 else 1 + j % 5
        e['cluster_ID_dut_%d' % i] = sum(1 for k in rows[:j] if k[0] == r[0])
        e['cluster_shape_dut_%d' % i] = (1, 3, 6, 5, 13, -1, 14, 7, 9, 11, 15, 2 ** 13)[j % 12]
        e['slope_x'], e['slope_y'], e['slope_z'] = 0.01 * (j % 4) - 0.004, 0.003 * (j % 5), 1.
        e['track_chi2'] = 1. + j
    return t


def bins(values, edges):
    i = np.searchsorted(edges, values, side='right') - 1
    i[values == edges[-1]] = len(edges) - 2
    i[(i < 0) | (i > len(edges) - 2)] = -1
    return i


def count(edges, *values, weights=None):
    h = np.zeros([len(e) - 1 for e in edges])
    for n, c in enumerate(zip(*[bins(np.asarray(v, dtype=float), e) for v, e in zip(values, edges)])):
        if min(c) >= 0:
            h[c] += 1 if weights is None else weights[n]
    return h


def hist1d(values):
    return np.bincount(np.asarray(values).astype(int)) if len(values) else np.zeros(0, dtype=int)


def same1d(a, b):
    n = max(len(a), len(b))
    return np.array_equal(np.pad(a, (0, n - len(a))), np.pad(b, (0, n - len(b))))


totals = []


def watch():
    def mean_efficiency(array_pass, array_total, *args, **kwargs):  # confidence interval is slow
        totals.append((float(np.sum(array_pass)), float(np.sum(array_total))))
        return np.sum(array_pass) / np.sum(array_total), 0., 0.
    real = getattr(analysis_utils.get_mean_efficiency, 'real', analysis_utils.get_mean_efficiency)
    analysis_utils.get_mean_efficiency = mean_efficiency
    mean_efficiency.real = real
    return real


class Expected(object):
    def __init__(self, dut, i, t, cut, mask):
        self.nc, self.nr, self.px, self.py = (dut[k] for k in ('n_columns', 'n_rows', 'column_size', 'row_size'))
        self.X, self.Y = self.nc * self.px / 2., self.nr * self.py / 2.
        x, y = t['offset_x'], t['offset_y']
        col, row = np.floor((x + self.X) / self.px).astype(int), np.floor((y + self.Y) / self.py).astype(int)
        inside = (col >= 0) & (col < self.nc) & (row >= 0) & (row < self.nr)
        pix = np.where(inside, col * self.nr + row, -1)
        if mask is not None:
            on = np.array([p >= 0 and not mask[p // self.nr, p % self.nr] for p in pix], dtype=bool)
            t, x, y, pix = t[on], x[on], y[on], pix[on]
        self.t, self.x, self.y, self.pix = t, x, y, pix
        self.hx, self.hy = t['x_dut_%d' % i], t['y_dut_%d' % i]
        dx, dy = self.hx - x, self.hy - y
        cx, cy = cut or (np.inf, np.inf)
        if cx >= 2.5 * self.px and cy >= 2.5 * self.py:
            near = dx ** 2 / cx ** 2 + dy ** 2 / cy ** 2 <= 1
        else:
            near = (np.abs(dx) <= cx) & (np.abs(dy) <= cy)
        self.valid = ~np.isnan(self.hx) & near
        sx, sy, sz = t['slope_x'], t['slope_y'], t['slope_z']
        self.values = {'x_residuals': dx, 'y_residuals': dy, 'residuals': np.hypot(dx, dy), 'charge': t['charge_dut_%d' % i].astype(float), 'frame': t['frame_dut_%d' % i].astype(float), 'cluster_size': t['n_hits_dut_%d' % i].astype(float),
                       'total_angle': np.arctan2(np.hypot(sx, sy), sz), 'alpha_angle': np.arctan2(sy, sz), 'beta_angle': -np.arctan2(sx, sz)}
        self.shape = t['cluster_shape_dut_%d' % i]

    def pixels(self, sel):
        return np.bincount(self.pix[sel & (self.pix >= 0)], minlength=self.nc * self.nr)


def angle_hist(rec, hist, edges, values):
    lo, hi = count([edges], values + 1e-9), count([edges], values - 1e-9)
    if not np.array_equal(lo, hi) or edges[-1] - edges[0] < 1e-7:
        rec.extra['ties'] += 1
        return hist.sum() <= len(values)
    return np.array_equal(hist, lo)


def efficiency(rec, d, what, dut, rows, cut=(250., 250.), chunk=1000, resolution=None, in_pixel=None, extend=None, regions=None, mask=None, density=1, index=0, n_duts=1, clusters=None, other=None):
    what = '%s: device %d of %dx%d pixels, chunk size %d, cut %r, resolution %r, in-pixel %r, extension %r, regions %r, mask %r, density %d, tracks (event, track x, y, hit x, y) %r%s' % (what, index, dut['n_columns'], dut['n_rows'], chunk, cut, resolution, in_pixel, extend, regions, None if mask is None else mask.astype(int).tolist(), density, rows if len(rows) < 20 else len(rows), '' if clusters is None else ', cluster hits %r' % clusters)
    rec.state(what)
    tc, tracks, out, cl = (os.path.join(d, f) for f in ('t.yaml', 'tracks.h5', 'e.h5', 'c.h5'))
    duts = [common.pixel(3, 2, 60., 70., translation_z=1000. * k) for k in range(n_duts)]
    duts[index] = dut
    common.telescope(tc, duts)
    t = table(index, rows)
    data = {'Tracks_DUT%d' % index: t}
    for k, r in (other or {}).items():
        data['Tracks_DUT%d' % k] = table(k, r)
    common.write(tracks, **data)
    kwargs = {}
    if clusters is not None:
        c = np.zeros(len(clusters), dtype=[('event_number', 'i8'), ('frame', 'u1'), ('column', 'u2'), ('row', 'u2'), ('charge', 'f4'), ('cluster_ID', 'i4'), ('is_seed', 'u1'), ('cluster_size', 'u4'), ('n_cluster', 'u4')])
        for j, h in enumerate(clusters):
            c['event_number'][j], c['cluster_ID'][j], c['column'][j], c['row'][j] = h
        common.write(cl, ClusterHits=c)
        kwargs['input_cluster_files'] = [cl]
    select = [index] + sorted(other or {})
    one = (lambda v: [v] + [None] * (len(select) - 1)) if other else (lambda v: [v])
    exp = Expected(dut, index, t, cut, mask)
    before, before_t = common.content(tracks), common.content(tc)
    res = resolution or (dut['column_size'], dut['row_size'])
    edges = []
    for n, size, r, e in ((dut['n_columns'], dut['column_size'], res[0], extend and extend[0]), (dut['n_rows'], dut['row_size'], res[1], extend and extend[1])):
        w = math.ceil(round(n * size / r, 9)) * r + (2. * math.ceil(round(e / r, 9)) * r if e else 0.)
        edges.append(np.linspace(-w / 2., w / 2., int(round(w / r)) + 1))
    n_all, n_hit = count(edges, exp.x, exp.y), count(edges, exp.x[exp.valid], exp.y[exp.valid])
    reg = [(exp.x > min(r[0])) & (exp.x < max(r[0])) & (exp.y > min(r[1])) & (exp.y < max(r[1])) for r in regions or []]
    del totals[:]
    try:
        result_analysis.calculate_efficiency(tc, tracks, select, resolutions=one(resolution), in_pixel_resolutions=one(in_pixel), extend_areas=one(extend), n_bins_track_angle=4, efficiency_regions=one(regions), output_efficiency_file=out, minimum_track_density=density, cut_distances=one(cut), disabled_pixel_masks=one(mask), plot=False, chunk_size=chunk, **kwargs)
    except Exception as e:
        rec.traces += 1
        if n_hit[n_all >= density].sum() == 0 or any(not s.any() for s in reg):
            rec.outcome('no tracks')
            return True
        last = [f for f in traceback.extract_tb(e.__traceback__) if 'beam_telescope' in f.filename][-1]
        rec.violation('C20:error', '%s: %s: %s (%s:%d)' % (what, type(e).__name__, e, os.path.basename(last.filename), last.lineno))
        return False
    rec.traces += 1
    ok = True
    bad = []

    def check(name, good, got=None, expected=None):
        if not good:
            bad.append((name, got, expected))

    def equal(name, got, expected):
        got = np.asarray(got)
        rec.transitions += np.size(expected)
        check(name, got.shape == np.shape(expected) and np.allclose(got, expected), got, expected)

    def means(prefix, get, ed, x, y, sel, names):
        n = count(ed, x[sel], y[sel])
        for k in names:
            got, tot = get(prefix % k), count(ed, x[sel], y[sel], weights=exp.values[k][sel])
            rec.transitions += n.size
            s = n > 0
            check(prefix % k, got.shape == n.shape and np.allclose(got[s], tot[s] / n[s], rtol=1e-6, atol=1e-6), got, np.where(s, tot / np.maximum(n, 1), 0))

    with tb.open_file(out, 'r') as f:
        g = f.get_node('/DUT%d' % index)

        def get(name):
            return f.get_node(g, name)[:]

        if get('count_tracks_2d_hist').shape != n_all.shape:
            rec.violation('C20:binning', '%s: histogram of %r bins, expected %r' % (what, get('count_tracks_2d_hist').shape, n_all.shape))
            return False
        equal('hist_2d_x_edges', get('hist_2d_x_edges'), edges[0])
        equal('hist_2d_y_edges', get('hist_2d_y_edges'), edges[1])
        equal('count_tracks_2d_hist', get('count_tracks_2d_hist'), n_all)
        equal('count_tracks_with_hit_2d_hist', get('count_tracks_with_hit_2d_hist'), n_hit)
        equal('count_hits_2d_hist', get('count_hits_2d_hist'), count(edges, exp.hx[exp.valid], exp.hy[exp.valid]))
        eff = get('stat_2d_efficiency_hist')
        equal('stat_2d_efficiency_hist', eff[n_all > 0], 100. * n_hit[n_all > 0] / n_all[n_all > 0])
        equal('stat_2d_efficiency_hist_mask', get('stat_2d_efficiency_hist_mask'), n_all < density)
        means('stat_2d_%s_hist', get, edges, exp.x, exp.y, exp.valid, sorted(exp.values))
        p, ph = exp.pixels(np.ones(len(exp.x), dtype=bool)), exp.pixels(exp.valid)
        got = get('stat_pixel_efficiency_hist')
        check('stat_pixel_efficiency_hist', got.shape == p.shape and np.allclose(got[p > 0], 100. * ph[p > 0] / p[p > 0]) and np.all(np.isnan(got[p == 0])), got, ph / np.maximum(p, 1))
        for k in ('charge', 'frame'):
            check('count_1d_%s_hist' % k, same1d(get('count_1d_%s_hist' % k), hist1d(exp.values[k][exp.valid])), get('count_1d_%s_hist' % k), hist1d(exp.values[k][exp.valid]))
        for k in ('total_angle', 'alpha_angle', 'beta_angle'):
            check('count_1d_%s_hist' % k, angle_hist(rec, get('count_1d_%s_hist' % k), get('count_1d_%s_hist_edges' % k), exp.values[k][exp.valid]), get('count_1d_%s_hist' % k))
        if totals and not other:
            check('total efficiency', totals[-1] == (n_hit.sum(), n_all.sum()), totals[-1], (n_hit.sum(), n_all.sum()))
            parts = totals[:-1]
            check('efficiency per chunk', sum(c[0] for c in parts) == n_hit.sum(), parts, n_hit.sum())
        if clusters is not None:
            got = get('count_pixel_hits_2d_hist')
            sx, sy = (int(math.ceil(1000. / s)) for s in (exp.px, exp.py))
            sx, sy = sx + (1 if sx % 2 == 0 else 2), sy + (1 if sy % 2 == 0 else 2)
            want = np.zeros((len(edges[0]) - 1, len(edges[1]) - 1, sx, sy), dtype=int)
            bx, by = bins(exp.x, edges[0]), bins(exp.y, edges[1])
            for j in range(len(exp.x)):
                if not exp.valid[j] or bx[j] < 0 or by[j] < 0:
                    continue
                c = [(edges[n][b] + edges[n][b + 1]) / 2. for n, b in enumerate((bx[j], by[j]))]
                col = min(max(int(math.floor((c[0] + exp.X) / exp.px)), 0), exp.nc - 1)
                row = min(max(int(math.floor((c[1] + exp.Y) / exp.py)), 0), exp.nr - 1)
                for e, i, hc, hr in clusters:
                    if e == exp.t['event_number'][j] and i == exp.t['cluster_ID_dut_%d' % index][j]:
                        want[bx[j], by[j], hc - 1 - col + sx // 2, hr - 1 - row + sy // 2] += 1
            rec.transitions += want.size
            check('count_pixel_hits_2d_hist', got.shape == want.shape and np.array_equal(got, want), np.argwhere(got), np.argwhere(want))
        for n, s in enumerate(reg):
            h = f.get_node(g, 'Region_%d' % n)
            v = s & exp.valid

            def rget(name):
                return f.get_node(h, name)[:]
            e = h._v_attrs.efficiency_regions_efficiencies
            check('efficiency of region %d' % n, abs(e - v.sum() / s.sum()) < 1e-9, e, v.sum() / s.sum())
            for k in ('charge', 'frame', 'cluster_size'):
                k2 = 'efficiency_regions_count_1d_%s_hist' % k
                check(k2, same1d(rget(k2), hist1d(exp.values[k][v])), rget(k2), hist1d(exp.values[k][v]))
            for k in ('total_angle', 'alpha_angle', 'beta_angle'):
                k2 = 'efficiency_regions_count_1d_%s_hist' % k
                check(k2, angle_hist(rec, rget(k2), rget(k2 + '_edges'), exp.values[k][v]), rget(k2), len(exp.values[k][v]))
            shapes = exp.shape[v]
            got = rget('efficiency_regions_count_1d_cluster_shape_hist')
            want = hist1d(shapes[shapes >= 0])
            rec.transitions += len(got)
            check('efficiency_regions_count_1d_cluster_shape_hist', same1d(got, want), np.flatnonzero(got), shapes)
            p, ph = exp.pixels(s), exp.pixels(v)
            got = rget('efficiency_regions_stat_pixel_efficiency_hist')
            check('efficiency_regions_stat_pixel_efficiency_hist', got.shape == p.shape and np.allclose(got[p > 0], 100. * ph[p > 0] / p[p > 0]) and np.all(np.isnan(got[p == 0])), got, ph / np.maximum(p, 1))
            # in-pixel
            r = in_pixel or (min(res[0], exp.px / 10.), min(res[1], exp.py / 10.))
            ied = [np.linspace(0., k * q, k + 1) for k, q in ((int(math.ceil(round(z / q, 9))), q) for z, q in zip((exp.px, exp.py), r))]
            ix, iy = np.mod(exp.x + exp.X, exp.px), np.mod(exp.y + exp.Y, exp.py)
            ia, ih = count(ied, ix[s], iy[s]), count(ied, ix[v], iy[v])
            if rget('count_in_pixel_tracks_2d_hists').shape != ia.shape:
                rec.violation('C20:binning', '%s: in-pixel histogram of %r bins, expected %r' % (what, rget('count_in_pixel_tracks_2d_hists').shape, ia.shape))
                return False
            equal('count_in_pixel_tracks_2d_hists', rget('count_in_pixel_tracks_2d_hists'), ia)
            equal('count_in_pixel_tracks_with_hit_2d_hists', rget('count_in_pixel_tracks_with_hit_2d_hists'), ih)
            equal('count_in_pixel_hits_2d_hists', rget('count_in_pixel_hits_2d_hists'), count(ied, np.mod(exp.hx[v] + exp.X, exp.px), np.mod(exp.hy[v] + exp.Y, exp.py)))
            got = rget('efficiency_regions_stat_in_pixel_efficiency_2d_hist')
            equal('efficiency_regions_stat_in_pixel_efficiency_2d_hist', got[ia > 0], 100. * ih[ia > 0] / ia[ia > 0])
            means('stat_in_pixel_%s_2d_hists', rget, ied, ix, iy, v, ['x_residuals', 'y_residuals', 'residuals', 'charge', 'frame', 'cluster_size'])
            want = np.stack([count(ied, ix[v & (exp.shape == k)], iy[v & (exp.shape == k)]) for k in SHAPES], axis=2)
            equal('count_in_pixel_cluster_shape_2d_hists', rget('count_in_pixel_cluster_shape_2d_hists'), want)
        rec.outcome(n_hit.tobytes() + n_all.tobytes())
    for name, got, expected in bad:
        ok = False
        rec.violation('C20:' + name.replace(' ', '-'), ('%s: %s is %r, expected %r' % (what, name, np.asarray(got).tolist(), np.asarray(expected).tolist()))[:3000])
    ok &= rec.expect(common.content(tracks) == before and common.content(tc) == before_t, 'C20:input', what + ': input changed')
    return ok


DUT = dict(n_columns=4, n_rows=3, column_size=50., row_size=100.)


def device(**kwargs):
    a = dict(DUT, **kwargs)
    return common.pixel(a.pop('n_columns'), a.pop('n_rows'), a.pop('column_size'), a.pop('row_size'), **a)


# kinds for cut (30, 60) on 50 x 100 um pixels
PLACES = [(-61.3, -103.7), (12.9, 31.1), (77.7, 121.9), (-13.7, 88.3), (31.3, -71.9), (-88.1, 11.3), (41.7, -133.3), (8.3, 3.9)]
KINDS = [(3.3, -7.1, 0), (nan, nan, 0), (30.7, 10.1, 0), (-4.1, 60.9, 0), (-29.3, 59.1, 0), (-31.9, -61.3, 0), (2.1, -8.3, 1), (nan, nan, 1)]


def rows_of(seq, ev, outside=(111.3, -155.9)):
    rows = []
    for j, (k, e) in enumerate(zip(seq, ev)):
        dx, dy, out = KINDS[k]
        x, y = PLACES[j % len(PLACES)]
        x, y = x + 0.37 * (j // len(PLACES)), y - 0.59 * (j // len(PLACES))
        if out:
            x, y = (outside[0], y) if j % 2 else (x, outside[1])
        rows.append((e, x, y, x + dx, y + dy))
    return rows


def grid():
    xs = [-133.1, -107.3] + [-87.9 + 25.3 * k for k in range(8)] + [104.7, 131.9]
    ys = [-207.9, -161.7] + [-137.3 + 39.7 * k for k in range(8)] + [157.1, 209.3]
    dist = [(0.3, -0.9), (24.3, 0.7), (-25.9, 0.1), (-0.3, 49.1), (0.7, -50.7), (24.1, -48.9), (124.7, 1.3), (-125.7, 2.3), (2.7, 249.3), (1.3, -250.9), (90.1, 180.3), (87.9, 175.1), (500.3, 600.9), (nan, nan)]
    rows = []
    for k, (x, y) in enumerate(itertools.product(xs, ys)):
        for j, (dx, dy) in enumerate(dist):
            u, v = x + 0.173 * j, y + 0.213 * j
            rows.append((len(rows) // 2, u, v, u + dx, v + dy))
    return rows


CUTS = [None, (25., 50.), (125., 250.), (124.9, 250.), (25., 250.), (1000., 50.)]


def purity(rec, d, what, rows, chunk, bin_size, density, cut, select=(0,), sizes=None):
    duts = [device(), common.pixel(6, 2, 30., 200., translation_z=1000., translation_x=80., rotation_alpha=0.1)]
    what = '%s: devices %r, chunk size %d, bin size %r, density %d, cut %r, tracks %r' % (what, select, chunk, bin_size, density, cut, rows)
    rec.state(what)
    tc, tracks, out = (os.path.join(d, f) for f in ('t.yaml', 'tracks.h5', 'p.h5'))
    common.telescope(tc, duts)
    data = {}
    for i in range(2):
        t = table(i, [r[:5] for r in rows[i:] + rows[:i]])
        t['event_number'] = [r[0] for r in rows]
        t['track_chi2'] = [r[5] for r in rows[i:] + rows[:i]]
        data[i] = t
    common.write(tracks, **{'Tracks_DUT%d' % i: t for i, t in data.items()})
    exp = []
    for n, i in enumerate(select):
        t, dut = data[i], duts[i]
        b = bin_size[n if len(bin_size) > 1 else 0]
        ed = []
        for k, s, q in ((dut['n_columns'], dut['column_size'], b[0]), (dut['n_rows'], dut['row_size'], b[1])):
            ed.append(np.linspace(-k * s / 2., k * s / 2., int(k * s / q) + 1))
        h = ~np.isnan(t['x_dut_%d' % i])
        x, y = t['x_dut_%d' % i], t['y_dut_%d' % i]
        p = h & ~np.isnan(t['track_chi2']) & (np.hypot(x - t['offset_x'], y - t['offset_y']) < cut)
        exp.append((count(ed, x[h], y[h]), count(ed, x[p], y[p])))
    before = common.content(tracks)
    try:
        got = result_analysis.calculate_purity(tc, tracks, list(select), bin_size, output_purity_file=out, minimum_hit_density=density, cut_distance=cut, plot=False, chunk_size=chunk)
    except Exception as e:
        rec.traces += 1
        if any(not np.any(p[n >= density]) for n, p in exp):
            rec.outcome('no pure hits')
            return True
        last = [f for f in traceback.extract_tb(e.__traceback__) if 'beam_telescope' in f.filename][-1]
        rec.violation('C20:purity-error', '%s: %s: %s (%s:%d)' % (what, type(e).__name__, e, os.path.basename(last.filename), last.lineno))
        return False
    rec.traces += 1
    ok = rec.expect([float(v) for v in got[1]] == [p.sum() for n, p in exp] and [float(v) for v in got[2]] == [n.sum() for n, p in exp], 'C20:purity-counts', '%s: returned %r pure of %r hits, expected %r of %r' % (what, got[1], got[2], [p.sum() for n, p in exp], [n.sum() for n, p in exp]))
    for k, (i, (n, p)) in enumerate(zip(select, exp)):
        for name, want in (('Total_hits', n), ('Pure_hits', p), ('Purity', 100. * p / np.maximum(n, 1)), ('Purity_mask', n < density)):
            a = common.read(out, 'DUT%d/%s' % (i, name))
            rec.transitions += want.size
            ok &= rec.expect(a.shape == want.T.shape and np.allclose(a, want.T), 'C20:' + name, '%s: %s of device %d is %r, expected %r' % (what, name, i, a.tolist(), want.T.tolist()))
        s = n >= density
        pur = 100. * p[s] / np.maximum(n[s], 1)
        want = (pur.mean(), np.repeat(pur, n[s].astype(int)).mean() if n[s].sum() else nan)
        ok &= rec.expect(np.allclose((got[0][k], got[3][k]), want), 'C20:purity-mean', '%s: mean purities of device %d %r, expected %r' % (what, i, (got[0][k], got[3][k]), want))
        with tb.open_file(out, 'r') as f:
            a = f.get_node('/DUT%d/Purity' % i).attrs.purity_average
        ok &= rec.expect(abs(a - 100. * p.sum() / n.sum()) < 1e-9, 'C20:purity-average', '%s: average purity of device %d is %r, expected %r' % (what, i, a, 100. * p.sum() / n.sum()))
        rec.outcome(n.tobytes() + p.tobytes())
    return ok & rec.expect(common.content(tracks) == before, 'C20:input', what + ': input changed')


def cases(tier):
    T = tier == 'thorough'
    out = [['interval', tier, k] for k in range(8)]
    out += [['seq', tier, 4 if T else 3, k, 32 if T else 16] for k in range(32 if T else 16)]
    out += [['grid', tier, k, 16] for k in range(16)]
    out += [['mask', tier, k, 4] for k in range(4)] + [['regions', tier, k, 8] for k in range(8)]
    out += [['clusters', tier, 4 if T else 3, k, 8] for k in range(8)]
    out += [['purity', tier, 5 if T else 4, k, 8] for k in range(8)] + [['devices', tier]]
    return out


def run_case(case, rec):
    kind, tier = case[:2]
    T = tier == 'thorough'
    d = core.scratch()
    common.quiet(result_analysis)
    real = watch()
    chunks = [3, 4, 5, 1000]
    if kind == 'seq':
        regions = [None, [((-60., 60.), (-120., 95.))], [((60., -95.), (-5., 200.)), ((-300., 20.), (-300., 300.))]]
        m = np.zeros((4, 3), dtype=bool)
        m[0, 0] = m[2, 1] = True
        for n, seq in enumerate(itertools.product(range(len(KINDS)), repeat=case[2])):
            if n % case[4] != case[3]:
                continue
            j = n // case[4]
            k = n % 3  # given tracks
            for c in range(4) if T else [j % 4, (j + 1 + (n // 64) % 3) % 4]:
                s = list((1, 0)[:k]) + list(seq) + [0, 1, 0]
                ev = list(range(3, 3 + len(s))) if n % 2 else [0, 0, 1, 3, 3, 5, 8, 9, 9][:len(s)]
                if not efficiency(rec, d, 'sequence', device(), rows_of(s, ev), cut=(30., 60.), chunk=chunks[c], regions=regions[(j + c) % 3], mask=m if (j // 2) % 5 == c else None, extend=(60., 110.) if j % 2 else None, density=1 + (n // 5) % 2):
                    return
    elif kind == 'grid':
        rows = grid()
        j = 0
        for cut in CUTS:
            for resolution in (None, (25., 25.), (30., 70.), (200., 300.), (7.3, 110.)):
                for extend in (None, (60., 110.), (33., 7.), (1000., 1000.)):
                    j += 1
                    if j % case[3] != case[2]:
                        continue
                    for chunk in ((500, 1117, 10 ** 6) if T else ((500, 1117, 10 ** 6)[(j // case[3]) % 3],)):
                        if not efficiency(rec, d, 'grid', device(rotation_gamma=0.1, translation_x=50.), rows, cut=cut, chunk=chunk, resolution=resolution, extend=extend, density=(1, 13)[j % 2]):
                            return
    elif kind == 'mask':
        pixels = [(-35., -60.), (5., 55.), (41., -21.)]
        dut = device(n_columns=3, n_rows=2, column_size=40., row_size=110.)
        rows = []
        for c in range(-1, 4):
            for r in range(-1, 3):
                for k in range(3):
                    x, y = -60. + 40. * c + (3.3, 20.7, 37.9)[k], -110. + 110. * r + (1.7, 60.3, 107.9)[(k + c) % 3]
                    dx, dy = ((2.3, 9.1), (nan, nan), (-40.7, 1.3))[(k + c + r) % 3]
                    rows.append((len(rows) // 2, x, y, x + dx, y + dy))
        for b in range(case[2], 64, case[3]):
            m = np.array([b >> k & 1 for k in range(6)], dtype=bool).reshape(3, 2)
            for chunk in ((4, 13, 1000) if T else (4, 1000)):
                for regions in (None, [((-55., 70.), (-100., 30.))]):
                    if not efficiency(rec, d, 'mask', dut, rows, cut=(20., 50.), chunk=chunk, mask=m, regions=regions):
                        return
    elif kind == 'regions':
        xl = [(-100., 100.), (-60., 10.), (-20., -70.), (40., 140.)]
        yl = [(-150., 150.), (-35., 40.), (120., -300.), (60., 80.)]
        regions = list(itertools.product(xl, yl))
        rows = [r for k, r in enumerate(grid()) if k % 14 in (0, 3, 5, 13)]
        j = 0
        for a, b in itertools.combinations_with_replacement(range(len(regions)), 2):
            j += 1
            if j % case[3] != case[2]:
                continue
            efficiency(rec, d, 'regions', device(), rows, cut=(25., 50.), chunk=(50, 99, 10 ** 6)[(j // 8) % 3], regions=[regions[a], regions[b]], in_pixel=(None, (12.5, 10.), (7., 30.), (60., 120.))[(j // 3) % 4], resolution=(None, (2., 200.), (60., 5.))[j % 3], density=(1, 5)[j % 2])
    elif kind == 'clusters':
        # seeds and clusters of a track: number of hits
        choices = list(itertools.product((0, 1, 4, 6), (1, 2, 3)))
        for n, seq in enumerate(itertools.product(range(len(choices)), repeat=case[2])):
            if n % case[4] != case[3] or (not T and n // case[4] % 3 != (n // 24) % 3):
                continue
            j = n // case[4]
            kinds = [choices[k][0] for k in seq] + [0]
            size = [choices[k][1] for k in seq] + [2]
            ev = [1, 1, 4, 5, 6][:len(kinds)] if j % 2 else [2, 3, 3, 7, 7][:len(kinds)]
            rows = [r + (s,) for r, s in zip(rows_of(kinds, ev), size)]
            ids, clusters = {}, []
            for i, r in enumerate(rows):
                k = ids[r[0]] = ids.get(r[0], -1) + 1
                col, row = int((r[1] + 100.) // 50) + 1, int((r[2] + 150.) // 100.) + 1
                for h in range(r[5]):
                    clusters.append((r[0], k, min(max(col + (0, 1, 0)[h], 1), 4), min(max(row + (0, 0, 1)[h], 1), 3)))
            extra = [(e, 7, 2, 2) for e in (0, 1, 3, 5, 9)]  # other clusters
            clusters = sorted(clusters + extra, key=lambda h: h[0]) if j % 3 else clusters
            m = None
            if j % 5 == 1:
                m = np.zeros((4, 3), dtype=bool)
                m[0, 0] = m[3, 2] = True
            if not efficiency(rec, d, 'clusters', device(), rows, cut=(30., 60.), chunk=(6, 7, 8, 1000)[j % 4] if max(collect(clusters)) <= 5 else 1000, clusters=clusters, resolution=(None, (20., 40.), (60., 150.))[(j // 4) % 3], mask=m):
                return
    elif kind == 'purity':
        pk = [(3., 4.5, 1.), (nan, nan, 1.), (0., 29.7, 2.), (24.3, 18.3, 1.), (3., 2., nan), (None, None, 1.)]
        for n, seq in enumerate(itertools.product(range(len(pk)), repeat=case[2])):
            if n % case[4] != case[3]:
                continue
            j = n // case[4]
            rows = []
            ev = [0, 0, 1, 4, 4, 9, 9, 9][:len(seq)] if j % 2 else range(len(seq))
            for i, (k, e) in enumerate(zip(seq, ev)):
                dx, dy, chi = pk[k]
                x, y = PLACES[i % 5 if j % 3 else i % 2]
                if dx is None:  # pure hit in the center
                    rows.append((e, 0.5, -0.5, 0., 0., chi))
                else:
                    rows.append((e, x - dx, y - dy, x if dx == dx else nan, y if dx == dx else nan, chi))
            if not purity(rec, d, 'purity', rows, chunks[(j // 2) % 4], [[(50., 100.)], [(25., 150.)], [(100., 300.), (30., 200.)]][(j // 3) % 3] if j % 4 else [(100., 300.)], (1, 2)[(j // 5) % 2], 30., select=((0,), (0, 1))[j % 7 == 0] if (j // 3) % 3 < 2 or not j % 4 else (0, 1)):
                return
    elif kind == 'interval':
        for N in range(1, 5 if not T else 8):
            for k in range(0, N + 1):
                if (N * N + k) % 8 != case[2]:
                    continue
                total, passed = np.zeros((2, 2)), np.zeros((2, 2))
                total[0, 0], total[1, 1], passed[0, 0], passed[1, 1] = N - N // 2, N // 2, k - k // 2 if k - k // 2 <= N - N // 2 else 0, 0
                passed[1, 1] = k - passed[0, 0]
                rec.state('%d of %d' % (k, N))
                if k == 0:
                    continue
                e, lo, hi = real(passed, total)
                rec.traces += 1
                rec.expect(e == k / N and lo <= 0 <= hi and 0 <= e + lo and e + hi <= 1 + 1e-9, 'C20:interval', 'efficiency of %d of %d is %r %r %r' % (k, N, e, lo, hi))
    elif kind == 'devices':
        rows = rows_of([0, 1, 2, 3, 4, 6, 0], range(7))
        o = [(k, 3.3 * k, -5.1 * k, 3.3 * k + 1., -5.1 * k if k % 2 else nan) for k in range(5)]
        for index in range(3):
            for chunk in (3, 1000):
                efficiency(rec, d, 'several devices', device(), rows, cut=(30., 60.), chunk=chunk, index=index, n_duts=3, other={(index + 1) % 3: [(e, x, y, x + 1. if y == y else nan, y) for e, x, y, _, _ in o]})


def collect(clusters):
    n = {}
    for c in clusters:
        n[c[0]] = n.get(c[0], 0) + 1
    return n.values()
