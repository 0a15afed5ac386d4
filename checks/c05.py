'''C05: clustering of hits.'''
import itertools
import math
import os

import numpy as np
import tables as tb

from mc import core
from checks import common
from beam_telescope_analysis import hit_analysis
from beam_telescope_analysis.telescope import dut as dm
from beam_telescope_analysis.tools import analysis_utils

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all 4096 hit patterns of 3x4 pixels with all distances 0..2; all 4096 assignments of 3 frames and of 3 charges to 2x3 pixels with all frame distances 0..2, charge limits, weighting and corrections; all 64x8+8x64 noisy/disabled masks of 2x3 pixels times all hit patterns; all hit orders of up to 4 hits; all pairs and one third of the triples of 9x9 pixels (cluster shapes); all 512 patterns of 3x3 pixels as positions (converted or given, with or without indices); 3 chunk sizes each',
    'thorough': 'as quick with all 8192 patterns of 3x4 pixels and a far one, all 64x64 masks, all triples of 9x9 pixels and 8 chunk sizes',
}
RULE = 'states: distinct (hit pattern of an event, parameters); transitions: hits whose cluster assignment was compared; traces: runs of the real clustering'
ASSUMPTIONS = ['a pixel has at most one hit per event and frame', 'at least one cluster in the file (an empty result is reported as error)', 'total weight of a cluster is not zero', 'an event fits into a chunk',
               'the worker functions run in the process of the check (the parallel machinery is explored by C01), one case uses the real process pool']

COLS, ROWS = 12, 11


def warmup():
    common.fast_smc()
    dut = device()
    d = core.scratch()
    p = common.write(os.path.join(d, 'h.h5'), Hits=hit_table([[(1, 1, 0, 1.)]]))
    for pos in (False, True):
        hit_analysis.cluster_hits(dut, p, os.path.join(d, 'c.h5'), use_positions=pos, plot=False)
    hit_analysis.cluster_hits(dut, p, os.path.join(d, 'c.h5'), min_hit_charge=0., max_hit_charge=9., charge_correction=1., plot=False)


def device(px=250., py=50.):
    return dm.RectangularPixelDut(name='DUT', translation_x=10., translation_y=20., translation_z=1e4, rotation_alpha=0.1, rotation_beta=-0.1, rotation_gamma=0.4, **common.pixel(COLS, ROWS, px, py))


def hit_table(events, gaps=(1, 1, 4), dtype=None):
    '''events: list of lists of (column, row, frame, charge)'''
    rows, ev = [], 3
    for i, e in enumerate(events):
        rows += [(ev,) + h for h in e]
        ev += gaps[i % len(gaps)]
    t = np.zeros(len(rows), dtype=dtype or hit_analysis.default_hits_dtype)
    if rows:
        a = np.array(rows, dtype=np.float64)
        for k, n in enumerate(('event_number', 'column', 'row', 'frame', 'charge')):
            t[n] = a[:, k]
    return t


def morton(x, y):
    d = 0
    for b in range(3):
        d |= ((x >> b) & 1) << (2 * b) | ((y >> b) & 1) << (2 * b + 1)
    return d


def model_event(hits, p):
    '''hits: (x, y, frame, charge, column, row) -> (assignment of each hit or -1, list of clusters as index lists)'''
    n = len(hits)
    ok = []
    for x, y, f, q, c, r in hits:
        good = (p.get('min') is None or q >= p['min']) and (p.get('max') is None or q <= p['max']) and (c, r) not in p.get('disabled', ())
        ok.append(good)
    eps = 1e-6
    cl = [-1] * n
    out = []
    for i in range(n):
        if not ok[i] or cl[i] >= 0:
            continue
        members = [i]
        cl[i] = len(out)
        for j in members:
            for k in range(n):
                if ok[k] and cl[k] < 0 and abs(hits[j][0] - hits[k][0]) <= p['cd'] + eps and abs(hits[j][1] - hits[k][1]) <= p['rd'] + eps and abs(hits[j][2] - hits[k][2]) <= p['fd']:
                    cl[k] = len(out)
                    members.append(k)
        out.append(sorted(members))
    keep = [m for m in out if not (len(m) == 1 and hits[m[0]][4:] in p.get('noisy', ()))]
    assign = [-1] * n
    for m in keep:
        for k in m:
            assign[k] = m[0]
    return assign, keep


def check_file(rec, what, path, src, p, positions, dut, has_indices):
    '''Compares the cluster file with the clusters of the hits src (x, y, frame, charge, column, row per hit).'''
    ch, cl = common.read(path, 'ClusterHits'), common.read(path, 'Clusters')
    X, Y = ('x', 'y') if positions else ('column', 'row')
    ev, H = src
    if len(ch) != len(H) or not np.array_equal(ch['event_number'], ev):
        rec.violation('C05:hits', '%s: %d cluster hits for %d hits' % (what, len(ch), len(H)))
        return False
    for k, (n, tol) in enumerate(((X, 1e-6), (Y, 1e-6), ('frame', 0), ('charge', 1e-5))):
        if len(H) and np.abs(ch[n] - np.array([h[k] for h in H])).max() > tol:
            rec.violation('C05:hits', '%s: %s of the hits changed' % (what, n))
            return False
    if positions and has_indices and not (np.array_equal(ch['column'], [h[4] for h in H]) and np.array_equal(ch['row'], [h[5] for h in H])):
        rec.violation('C05:hits', '%s: indices of the hits changed' % what)
        return False
    rec.transitions += len(H)
    bounds = np.r_[np.nonzero(np.r_[True, ev[1:] != ev[:-1]])[0], len(ev)] if len(ev) else [0]
    cev = cl['event_number']
    if np.any(cev[1:] < cev[:-1]):
        rec.violation('C05:order', '%s: clusters are not sorted by event' % what)
        return False
    starts = {}
    for i, e in enumerate(cev.tolist()):
        starts.setdefault(e, []).append(i)
    if set(starts) - set(ev.tolist()):
        rec.violation('C05:event', '%s: clusters of events that do not exist: %r' % (what, sorted(set(starts) - set(ev.tolist()))[:5]))
        return False
    size_hist, shape_hist = {}, {}
    ID, seed, csize, ncl = (ch[n].tolist() for n in ('cluster_ID', 'is_seed', 'cluster_size', 'n_cluster'))
    C = {n: cl[n].tolist() for n in cl.dtype.names}
    ns = ('seed_x', 'seed_y', 'mean_x', 'mean_y', 'err_x', 'err_y') if positions else ('seed_column', 'seed_row', 'mean_column', 'mean_row', 'err_column', 'err_row')
    s12 = math.sqrt(12)
    err = (dut.column_size / s12, dut.row_size / s12) if positions else (1 / s12, 1 / s12)
    for a, b in zip(bounds[:-1], bounds[1:]):
        hits = H[a:b]
        e = int(ev[a])
        msg = '%s: event %d with hits (x, y, frame, charge, column, row) %r' % (what, e, hits)
        assign, groups = model_event(hits, p)
        rows = starts.get(e, [])
        if len(rows) != len(groups) or [C['cluster_ID'][r] for r in rows] != list(range(len(groups))):
            rec.violation('C05:number', '%s has clusters %r, expected %d' % (msg, [C['cluster_ID'][r] for r in rows], len(groups)))
            return False
        got = ID[a:b]
        lead = {}
        for k in range(b - a):
            if got[k] >= 0:
                lead.setdefault(got[k], k)
        if [lead[g] if g >= 0 else -1 for g in got] != assign:
            rec.violation('C05:partition', '%s: cluster IDs %r, expected groups %r' % (msg, got, groups))
            return False
        if any(n != len(groups) for n in ncl[a:b]):
            rec.violation('C05:n-cluster', '%s: number of clusters of the hits %r, expected %d' % (msg, ncl[a:b], len(groups)))
            return False
        for k in range(b - a):
            if assign[k] < 0 and (seed[a + k] or csize[a + k]):
                rec.violation('C05:rejected', '%s: rejected hit %d is seed or has a cluster size' % (msg, k))
                return False
        for g in groups:
            r = rows[got[g[0]]]
            m = [hits[k] for k in g]
            q = [h[3] for h in m]
            w = [x + p.get('corr', 0) if p.get('weighted') else 1. for x in q]
            exp = (sum(h[0] * x for h, x in zip(m, w)) / sum(w), sum(h[1] * x for h, x in zip(m, w)) / sum(w))
            c0, r0 = min(h[4] for h in m), min(h[5] for h in m)
            dc, dr = max(h[4] for h in m) - c0, max(h[5] for h in m) - r0
            shape = -1
            if not positions and dc < 8 and dr < 8 and not any(h[4] - c0 == 7 and h[5] - r0 == 7 for h in m):
                shape = sum(1 << d for d in {morton(h[4] - c0, h[5] - r0) for h in m})
            seeds = [k for k in g if seed[a + k]]
            problems = []
            if C['n_hits'][r] != len(g) or any(csize[a + k] != len(g) for k in g):
                problems.append('number of hits')
            if abs(C['charge'][r] - sum(q)) > 1e-4:
                problems.append('charge')
            if C['frame'][r] != min(h[2] for h in m):
                problems.append('frame')
            if C['n_cluster'][r] != len(groups):
                problems.append('n_cluster')
            if abs(C[ns[2]][r] - exp[0]) > 1e-4 or abs(C[ns[3]][r] - exp[1]) > 1e-4:
                problems.append('mean position (expected %r)' % (exp,))
            if len(seeds) != 1 or hits[seeds[0]][3] != max(q):
                problems.append('seed of the hits')
            elif abs(C[ns[0]][r] - hits[seeds[0]][0]) > 1e-6 or abs(C[ns[1]][r] - hits[seeds[0]][1]) > 1e-6:
                problems.append('seed position')
            if C['cluster_shape'][r] != shape:
                problems.append('shape (expected %d)' % shape)
            if abs(C[ns[4]][r] - err[0]) > 1e-4 or abs(C[ns[5]][r] - err[1]) > 1e-4:
                problems.append('position error (expected %r)' % (err,))
            if problems:
                rec.violation('C05:cluster', '%s: wrong %s of cluster %r of hits %r' % (msg, ', '.join(problems), cl[r], g))
                return False
            size_hist[len(g)] = size_hist.get(len(g), 0) + 1
            shape_hist[shape] = shape_hist.get(shape, 0) + 1
    hs = common.read(path, 'HistClusterSize')
    if {int(k): int(hs[k]) for k in np.nonzero(hs)[0]} != size_hist:
        rec.violation('C05:size-histogram', '%s: cluster size histogram %r, expected %r' % (what, hs.tolist(), size_hist))
        return False
    hs = common.read(path, 'HistClusterShape')
    exp = {k: v for k, v in shape_hist.items() if 0 <= k < 2 ** 16}
    if {int(k): int(hs[k]) for k in np.nonzero(hs)[0]} != exp:
        got = {int(k): int(hs[k]) for k in np.nonzero(hs)[0]}
        rec.violation('C05:shape-histogram', '%s: cluster shape histogram differs: (shape, number, expected) %r' % (what, [(k, got.get(k), exp.get(k)) for k in sorted(set(got) | set(exp)) if got.get(k) != exp.get(k)][:5]))
        return False
    return True


def run_events(rec, tag, events, p, chunks, mode='index', masks=None, dut=None, dtype=None):
    '''p: parameters of the model (distances in the units of the mode).'''
    d = core.scratch()
    dut = dut or device()
    t = hit_table(events, dtype=dtype)
    pos = [((c - (COLS + 1) / 2.) * dut.column_size, (r - (ROWS + 1) / 2.) * dut.row_size) for c, r in zip(t['column'].tolist(), t['row'].tolist())]
    positions = mode != 'index'
    extra = ((0.21, -0.13), (-0.3, 0.4))
    if mode in ('local', 'local_first', 'both', 'both_first'):
        pos = [(x + extra[k % 2][0], y + extra[k % 2][1]) for k, (x, y) in enumerate(pos)]
        keep = [(n, f) for n, f in t.dtype.descr if mode.startswith('both') or n not in ('column', 'row')]
        xy = [('x', '<f8'), ('y', '<f8')]
        u = np.zeros(len(t), dtype=xy + keep if mode.endswith('first') else keep + xy)
        for n, _ in keep:
            u[n] = t[n]
        u['x'], u['y'] = [x for x, _ in pos], [y for _, y in pos]
    else:
        u = t
    fr, q, co, ro = t['frame'].tolist(), t['charge'].tolist(), t['column'].tolist(), t['row'].tolist()
    if positions:
        H = [pos[k] + (fr[k], q[k], co[k], ro[k]) for k in range(len(t))]
    else:
        H = [(co[k], ro[k], fr[k], q[k], co[k], ro[k]) for k in range(len(t))]
    src = (t['event_number'], H)
    path = os.path.join(d, 'hits.h5')
    kw = dict(column_cluster_distance=p['cd'], row_cluster_distance=p['rd'], frame_cluster_distance=p['fd'], plot=False)
    for a, b in (('min', 'min_hit_charge'), ('max', 'max_hit_charge'), ('corr', 'charge_correction'), ('weighted', 'charge_weighted_clustering')):
        if a in p:
            kw[b] = p[a]
    if mode == 'converted':
        kw['use_positions'] = True
    if masks:
        mf = os.path.join(d, 'mask.h5')
        with tb.open_file(mf, 'w') as f:
            for name, pix in masks.items():
                m = np.zeros((COLS, ROWS), dtype=bool)
                for c, r in pix:
                    m[c - 1, r - 1] = True
                f.create_carray(f.root, name, obj=m)
        kw['input_mask_file'] = mf
    all_hits, full = u, (src, t)
    for chunk in chunks:
        out = os.path.join(d, 'c.h5')
        n = len(full[1])
        if chunk < 60 and n > 1000:  # part of the events for the many small chunks
            n = int(np.nonzero(full[1]['event_number'] == full[1]['event_number'][1000])[0][0])
        src = (full[1]['event_number'][:n], H[:n])
        common.write(path, Hits=all_hits[:n])
        before = common.content(path)
        what = '%s, %s, parameters %r, chunk size %r' % (tag, mode, p, chunk)
        r = hit_analysis.cluster_hits(dut, path, out, chunk_size=chunk, **kw)
        rec.traces += 1
        if r != out:
            rec.violation('C05:name', '%s: returned %r' % (what, r))
            return False
        if not check_file(rec, what, out, src, p, positions, dut, mode.startswith('both')):
            return False
        if masks:
            with tb.open_file(out) as f, tb.open_file(kw['input_mask_file']) as g:
                for name in ('DisabledPixelMask', 'NoisyPixelMask'):
                    if (name in f.root) != (name in g.root) or (name in f.root and not np.array_equal(f.get_node('/' + name)[:], g.get_node('/' + name)[:])):
                        rec.violation('C05:mask-copy', '%s: %s of the mask file is not in the cluster file' % (what, name))
        if common.content(path) != before:
            rec.violation('C05:input', '%s: input file changed' % what)
        rec.outcome((what, common.read(out, 'Clusters').tobytes()))
    for e in events:
        rec.state((e, sorted(p.items(), key=str), mode, masks and sorted(masks.items())))
    return True


def patterns(cols, rows, base=(2, 3), values=None):
    '''All assignments of "no hit" or one of the values (frame, charge) to the pixels.'''
    pix = [(base[0] + c, base[1] + r) for c in range(cols) for r in range(rows)]
    out = []
    for n, v in enumerate(itertools.product(range(len(values) + 1), repeat=len(pix))):
        e = [pix[k] + values[x - 1] for k, x in enumerate(v) if x]
        if e:
            out.append(e[::-1] if n % 3 == 1 else e[n % len(e):] + e[:n % len(e)] if n % 3 == 2 else e)
    return out


def cases(tier):
    out = []
    for cd, rd in itertools.product(range(3), repeat=2):
        out.append(['pattern', tier, cd, rd])
    out += [['frame', tier, fd, cd] for fd in range(3) for cd in (0, 1)]
    for lo, hi in [(0., 5.), (1., 100.), (1., 5.), (3., 5.), (5., 5.5), (3., 7.)]:
        out += [['charge', tier, lo, hi, w, corr] for w, corr in ((False, 2.), (True, 1.), (True, 0.25))]
    out += [['charge', tier, None, None, w, None] for w in (False, True)]
    out += [['mask', tier, k] for k in range(16)]
    out += [['order', tier]]
    out += [['shape', tier, k, 9] for k in range(9)]
    out += [['position', tier, m, k] for m in ('converted', 'local', 'local_first', 'both', 'both_first') for k in range(4)]
    out += [['wrapper', tier], ['pool', tier]]
    return out[::-1]


def run_case(case, rec):
    kind, tier = case[:2]
    many = tier == 'thorough'
    if kind == 'pattern':
        ev = patterns(3, 4, values=[(0, 2.)])
        if many:
            ev += [e + [(9, 9, 0, 2.)] for e in ev]
        run_events(rec, 'pattern', ev, dict(cd=case[2], rd=case[3], fd=0), (14, 55, 10 ** 6) if not many else (14, 15, 16, 20, 55, 1000, 10 ** 6))
    elif kind == 'frame':
        ev = patterns(2, 3, values=[(0, 1.), (1, 1.), (3, 1.)])
        # the same pixel in several frames
        ev += [[(3, 3, f, 1.) for f in fs] + [(4, 3, g, 2.)] for n in (1, 2, 3) for fs in itertools.combinations((0, 4, 8, 65535), n) for g in (0, 1, 2, 5)]
        run_events(rec, 'frame', ev, dict(cd=case[3], rd=1, fd=case[2]), (8, 100, 10 ** 6))
    elif kind == 'charge':
        p = dict(cd=1, rd=1, fd=0, min=case[2], max=case[3], weighted=case[4])
        if case[5] is not None:
            p['corr'] = case[5]
        run_events(rec, 'charge', patterns(2, 3, values=[(0, .5), (0, 3.), (0, 7.)] if case[2] in (None, 3.) else [(0, 1.), (0, 5.), (0, 5.25)]), p, (7, 200, 10 ** 6))
    elif kind == 'mask':
        pix = [(2 + c, 3 + r) for c in range(2) for r in range(3)]
        ev = patterns(2, 3, values=[(0, 2.)])
        subs = [c for n in range(7) for c in itertools.combinations(pix, n)]
        some = [(), (pix[0],), (pix[5],), (pix[1], pix[4]), tuple(pix), (pix[0], pix[1], pix[2]), ((1, 1), (COLS, ROWS)), (pix[3], (COLS, ROWS))]
        combos = [(a, b) for a in subs for b in subs] if many else [(a, b) for a in subs for b in some] + [(b, a) for a in subs for b in some]
        for k, (dis, noi) in enumerate(combos[case[2]::16]):
            masks = {'DisabledPixelMask': dis, 'NoisyPixelMask': noi}
            if k % 8 == 1:
                del masks['NoisyPixelMask']
                noi = ()
            elif k % 8 == 2:
                del masks['DisabledPixelMask']
                dis = ()
            # one cluster that is never masked
            if not run_events(rec, 'mask', ev + [[(9, 9, 0, 1.)]], dict(cd=1, rd=1, fd=0, disabled=dis, noisy=noi), (8,) if k % 5 else (10 ** 6,), masks=masks):
                return
    elif kind == 'order':
        pix = [(2 + c, 3 + r) for c in range(2) for r in range(3)] + [(6, 3)]
        ev = [list(o) for n in range(1, 5) for s in itertools.combinations([p + (0, 1. + i) for i, p in enumerate(pix)], n) for o in itertools.permutations(s)]
        for w in (False, True):
            run_events(rec, 'order', ev, dict(cd=1, rd=1, fd=0, weighted=w), (5, 10 ** 6))
    elif kind == 'shape':
        pix = [(1 + c, 1 + r) for c in range(9) for r in range(9)]
        ev = [[a + (0, 1.), b + (0, 1.)] for a, b in itertools.combinations(pix, 2)][case[2]::case[3]]
        tri = list(itertools.combinations(pix, 3))[case[2]::case[3] * (1 if many else 3)]
        ev += [[x + (0, 1.) for x in t] for t in tri]
        if case[2] == 0:
            for w, h in itertools.product(range(1, 10), repeat=2):
                ev.append([(2 + c, 1 + r, 0, 1.) for c in range(w) for r in range(h)])
                ev.append([(2 + c, 1 + r, 0, 1.) for c in range(w) for r in range(h)][::-1])
        run_events(rec, 'shape', ev, dict(cd=9, rd=9, fd=0), (10 ** 6,))
    elif kind == 'position':
        px, py = ((250., 50.), (50., 50.), (18.4, 20.7), (250., 50.))[case[3]]
        cd, rd = ((250.8, 50.8), (50.8, 101.), (37.6, 0.9), (0., 0.))[case[3]]
        run_events(rec, 'position %dx%d' % (px, py), patterns(3, 3, values=[(0, 2.)]) + [[(1, 1, 0, 1.), (COLS, ROWS, 0, 1.), (1, ROWS, 1, 2.)]], dict(cd=cd, rd=rd, fd=0, weighted=case[3] == 1), (10, 60, 10 ** 6), mode=case[2], dut=device(px, py))
        run_events(rec, 'position, frames', patterns(1, 3, values=[(0, 2.), (1, 1.), (2, 5.)]), dict(cd=cd, rd=rd, fd=1), (10, 60), mode=case[2], dut=device(px, py))
    elif kind == 'pool':
        import multiprocessing
        import threading
        import importlib
        from beam_telescope_analysis.tools import smc
        importlib.reload(smc)
        assert smc.Pool == multiprocessing.Pool and smc.Event is threading.Event
        run_events(rec, 'real process pool', patterns(2, 3, values=[(0, 2.)]) * 2, dict(cd=1, rd=1, fd=0), (60, 10 ** 6))
        common.fast_smc()
    elif kind == 'wrapper':
        run_wrapper(rec)


def run_wrapper(rec):
    d = core.scratch()
    conf = os.path.join(d, 'tel.yaml')
    t = common.telescope(conf, [common.pixel(COLS, ROWS, 50. + i, 60.) for i in range(3)])
    ev = patterns(2, 3, values=[(0, 1.), (1, 3.)])
    files, srcs = [], []
    for i in range(3):
        h = hit_table(ev[i * 7:])
        files.append(common.write(os.path.join(d, 'hits%d.h5' % i), Hits=h))
        srcs.append((h['event_number'], [tuple(r) for r in zip(h['column'].tolist(), h['row'].tolist(), h['frame'].tolist(), h['charge'].tolist(), h['column'].tolist(), h['row'].tolist())]))
    for sel in [None] + [list(s) for n in (1, 2, 3) for s in itertools.permutations(range(3), n)]:
        order = list(range(3)) if sel is None else sel
        n = len(order)
        P = [dict(cd=(1, 2, 0)[i], rd=(1, 1, 2)[i], fd=(0, 1, 0)[i], min=(None, 2., None)[i], max=(2., None, None)[i], weighted=(False, True, True)[i], corr=(0., 1., 0.5)[i]) for i in order]
        for lists in (True, False):
            if not lists:
                P = [P[0]] * n
            v = (lambda k: [p[k] for p in P]) if lists else (lambda k: P[0][k])
            outs = [os.path.join(d, 'c%d.h5' % i) for i in order] if lists else None
            r = hit_analysis.cluster(conf, [files[i] for i in order], output_cluster_files=outs, select_duts=sel, min_hit_charges=v('min'), max_hit_charges=v('max'), charge_corrections=v('corr'), charge_weighted_clustering=v('weighted'),
                                     column_cluster_distances=v('cd'), row_cluster_distances=v('rd'), frame_cluster_distances=v('fd'), plot=False)
            rec.traces += 1
            rec.state((repr(sel), lists))
            exp = outs or [files[i][:-3] + '_clustered.h5' for i in order]
            if r != exp:
                rec.violation('C05:name', 'selection %r: returned %r, expected %r' % (sel, r, exp))
                return
            for i, p, f in zip(order, P, r):
                if not check_file(rec, 'selection %r DUT%d' % (sel, i), f, srcs[i], p, False, t[i], False):
                    return
    for kw in (dict(select_duts=[3]), dict(select_duts=[-1]), dict(select_duts=[0, 1]), dict(input_mask_files=[]), dict(output_cluster_files=[]), dict(min_hit_charges=[1, 2]), dict(column_cluster_distances=[1, 1]), dict(use_positions=[True, True])):
        rec.transitions += 1
        try:
            hit_analysis.cluster(conf, files[:1], plot=False, **dict(dict(select_duts=[0]), **kw))
        except ValueError:
            continue
        rec.violation('C05:invalid', 'invalid arguments %r were accepted' % kw)
    m = os.path.join(d, 'mask.h5')
    with tb.open_file(m, 'w') as f:
        f.create_carray(f.root, 'NoisyPixelMask', obj=np.zeros((COLS, ROWS), dtype=bool))
    try:
        hit_analysis.cluster(conf, files[:1], input_mask_files=[m], select_duts=[0], use_positions=True, plot=False)
        rec.violation('C05:invalid', 'mask with positions was accepted')
    except ValueError:
        pass
    for n in range(0, 2 ** 16, 1 if False else 7):
        a = analysis_utils.calculate_cluster_array(n)
        rec.transitions += 1
        if sum(1 << morton(int(x), int(y)) for x, y in zip(*np.nonzero(a))) != n or analysis_utils.calculate_cluster_shape(a) != n:
            rec.violation('C05:shape-code', 'shape code %d <-> array is wrong' % n)
            return
