'''C24: conversion of hit files between index and local coordinates.'''
import itertools
import os

import numpy as np
import tables as tb

from mc import core
from beam_telescope_analysis import hit_analysis
from beam_telescope_analysis.telescope import dut as dm
from beam_telescope_analysis.telescope.telescope import Telescope

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all hits (every pixel, charges, frames) of 8 device types/sizes, all event groupings of a pattern set (single hits .. 5 hits per event, gaps), chunk sizes 5..8, 17, 1000, hit table layouts with extra fields in any order, index->local->index; wrapper: all non-empty selections/orders of 3 devices, with and without output names, invalid selections',
    'thorough': 'as quick with all chunk sizes 3..20 and all pixels of all chip types',
}
RULE = 'states: distinct (device, layout, event history, chunk size); transitions: rows compared; traces: complete file conversions (there and back) of the real functions'
ASSUMPTIONS = ['event numbers are sorted', 'an event fits into a chunk']

LAYOUTS = [[('event_number', '<i8'), ('frame', '<u2'), ('column', '<u2'), ('row', '<u2'), ('charge', '<f4')],
           [('row', '<u2'), ('charge', '<u2'), ('extra', '<f8'), ('event_number', '<i8'), ('column', '<u2'), ('flag', '<u1')],
           [('event_number', '<i8'), ('column', '<u2'), ('row', '<u2')],
           [('event_number', '<u8'), ('column', '<i4'), ('row', '<u4'), ('vec', '<f4')]]
POSE = dict(translation_x=100., translation_y=-7., translation_z=5e4, rotation_alpha=0.1, rotation_beta=0.2, rotation_gamma=-0.3)


def devices(tier):
    rect = [('RectangularPixelDut', dict(column_size=px, row_size=py, n_columns=c, n_rows=r)) for c, r, px, py in ((3, 4, 250., 50.), (4, 3, 18.4, 18.4), (7, 5, 1. / 3, 0.1), (1, 1, 50., 50.), (33, 21, 18.4, 20.7))]
    chips = ['PSI46', 'DepfetH5z55', 'Mimosa26'] if tier == 'quick' else ['PSI46', 'DepfetH5z55', 'DepfetH5z85', 'Timepix3', 'FEI4', 'RD53A', 'ITkPix', 'TJMonopix1', 'Mimosa26']
    return rect + [(c, {}) for c in chips]


def cases(tier):
    out = [['file', tier, d, l] for d in range(len(devices(tier))) for l in range(len(LAYOUTS))]
    out += [['wrap', tier, i, 0] for i in range(4)]
    return out


def make_dut(tier, i):
    name, kw = devices(tier)[i]
    return getattr(dm, name)(name='D%d' % i, **dict(POSE, **kw))


def events(pattern, n):
    '''n sorted event numbers following a repeated pattern of (hits per event, gap).'''
    ev, e = [], pattern[0]
    k = 0
    while len(ev) < n:
        m, gap = pattern[1][k % len(pattern[1])]
        ev += [e] * m
        e += gap
        k += 1
    return np.array(ev[:n])


PATTERNS = [(0, [(1, 1)]), (5, [(2, 1), (1, 3)]), (0, [(4, 2), (3, 1), (1, 1)]), (2 ** 40, [(1, 1), (4, 1), (2, 100)])]


def hits_of(dut, layout, pattern, pixels):
    c, r = pixels
    hits = np.zeros(len(c), dtype=np.dtype([tuple(f) for f in layout]))
    hits['event_number'] = events(pattern, len(c))
    hits['column'], hits['row'] = c, r
    for i, n in enumerate(hits.dtype.names):
        if n not in ('event_number', 'column', 'row'):
            v = (np.arange(len(c)) * (3 + i)) % 251
            hits[n] = v if hits[n].ndim == 1 else v[:, None] + np.arange(3)
    return hits


def write(path, hits):
    with tb.open_file(path, 'w') as f:
        t = f.create_table(f.root, 'Hits', description=hits.dtype, title='My hits')
        t.append(hits)


def read(path):
    with tb.open_file(path, 'r') as f:
        return f.root.Hits[:], f.root.Hits.title, sorted(n._v_name for n in f.list_nodes('/'))


def check_local(rec, what, dut, hits, path):
    loc, title, nodes = read(path)
    names = tuple({'column': 'x', 'row': 'y'}.get(n, n) for n in hits.dtype.names)
    if loc.dtype.names != names or len(loc) != len(hits) or title != 'My hits':
        rec.violation('C24:table', '%s: columns %r, %d rows (expected %d)' % (what, loc.dtype.names, len(loc), len(hits)))
        return False
    for n in hits.dtype.names:
        rec.transitions += len(hits)
        if n == 'column':
            ok = np.allclose(loc['x'], (hits[n] - (dut.n_columns + 1) / 2.) * dut.column_size, rtol=0, atol=1e-7)
        elif n == 'row':
            ok = np.allclose(loc['y'], (hits[n] - (dut.n_rows + 1) / 2.) * dut.row_size, rtol=0, atol=1e-7)
        else:
            ok = loc.dtype[n] == hits.dtype[n] and np.array_equal(loc[n], hits[n])
        if not ok:
            rec.violation('C24:content', '%s: field %s is wrong after index to local conversion' % (what, n))
            return False
    return True


def check_back(rec, what, hits, path):
    back, title, nodes = read(path)
    if back.dtype.names != hits.dtype.names or len(back) != len(hits):
        rec.violation('C24:table-back', '%s: columns %r, %d rows (expected %d)' % (what, back.dtype.names, len(back), len(hits)))
        return False
    for n in hits.dtype.names:
        rec.transitions += len(hits)
        if not np.array_equal(back[n], hits[n]):
            k = int(np.argmax((back[n] != hits[n]).reshape(len(hits), -1).any(axis=1)))
            rec.violation('C24:round-trip', '%s: field %s of row %d is %r after index -> local -> index, was %r' % (what, n, k, back[n][k], hits[n][k]))
            return False
    return True


def run_file(tier, di, li, rec):
    dut = make_dut(tier, di)
    d = core.scratch()
    big = dut.n_columns * dut.n_rows > 5000
    c, r = np.meshgrid(np.arange(1, dut.n_columns + 1), np.arange(1, dut.n_rows + 1), indexing='ij')
    pixels = c.ravel(), r.ravel()
    if big:
        chunks = [100003, 10 ** 6]
        patterns = PATTERNS[2:3]
    else:
        chunks = ([5, 6, 7, 8, 17, 1000] if tier == 'quick' else list(range(5, 21)) + [1000])
        patterns = PATTERNS
    if len(pixels[0]) > 300 and not big:
        chunks = chunks[::3] + [1000]
    for pi, pattern in enumerate(patterns):
        for sub in ((len(pixels[0]),) if len(pixels[0]) > 40 else range(0, len(pixels[0]) + 1)):
            hits = hits_of(dut, LAYOUTS[li], pattern, (pixels[0][:sub], pixels[1][:sub]))
            src = os.path.join(d, 'hits.h5')
            write(src, hits)
            before = open(src, 'rb').read()
            for ci, chunk in enumerate(chunks):
                what = '%s %dx%d, layout %d, pattern %r, %d hits, chunk size %d' % (type(dut).__name__, dut.n_columns, dut.n_rows, li, pattern, sub, chunk)
                rec.state((tier, di, li, pi, sub, chunk))
                rec.traces += 1
                if ci % 2:
                    out = hit_analysis.convert_coordinates(dut, src, chunk_size=chunk)
                    expected = os.path.join(d, 'hits_local_coordinates.h5')
                else:
                    expected = os.path.join(d, 'out.h5')
                    out = hit_analysis.convert_coordinates(dut=dut, input_hit_file=src, output_hit_file=expected, index_to_local=True, chunk_size=chunk)
                if out != expected:
                    rec.violation('C24:name', '%s: returned %r, expected %r' % (what, out, expected))
                    return
                if not check_local(rec, what, dut, hits, out):
                    return
                back = hit_analysis.convert_coordinates(dut, out, index_to_local=False, chunk_size=chunk)
                if not check_back(rec, what, hits, back):
                    return
                rec.outcome((di, li, sub))
            if open(src, 'rb').read() != before:
                rec.violation('C24:input', 'input file was changed')
    # clusters of sub-pixel positions: index of the pixel that contains the position
    if li == 0 and not big:
        n = 0
        for fx, fy in itertools.product((-0.49, -0.2, 0.0, 0.3, 0.49), repeat=2):
            hits = hits_of(dut, LAYOUTS[0], PATTERNS[0], pixels)
            loc = np.zeros(len(hits), dtype=[('event_number', '<i8'), ('frame', '<u2'), ('x', '<f8'), ('y', '<f8'), ('z', '<f8'), ('charge', '<f4')])
            for f in ('event_number', 'frame', 'charge'):
                loc[f] = hits[f]
            loc['x'] = (pixels[0] + fx - (dut.n_columns + 1) / 2.) * dut.column_size
            loc['y'] = (pixels[1] + fy - (dut.n_rows + 1) / 2.) * dut.row_size
            write(os.path.join(d, 'p.h5'), loc)
            out = hit_analysis.convert_coordinates(dut, os.path.join(d, 'p.h5'), os.path.join(d, 'pi.h5'), False, chunk_size=1000)
            rec.state((tier, di, 'sub', fx, fy))
            rec.traces += 1
            check_back(rec, '%s position offset %r' % (type(dut).__name__, (fx, fy)), hits, out)
    rec.sample({'dut': type(dut).__name__, 'layout': LAYOUTS[li]})


def run_wrap(tier, which, rec):
    d = core.scratch()
    t = Telescope()
    specs = [(3, 4, 250., 50.), (4, 3, 18.4, 20.), (2, 6, 55., 30.)]
    for i, (c, r, px, py) in enumerate(specs):
        t.add_dut('RectangularPixelDut', i, **dict(POSE, column_size=px, row_size=py, n_columns=c, n_rows=r))
    conf = os.path.join(d, 'tel.yaml')
    t.save_configuration(conf)
    files, hits = [], []
    for i in range(3):
        dut = t[i]
        c, r = np.meshgrid(np.arange(1, dut.n_columns + 1), np.arange(1, dut.n_rows + 1), indexing='ij')
        hits.append(hits_of(dut, LAYOUTS[which], PATTERNS[which], (c.ravel(), r.ravel())))
        files.append(os.path.join(d, 'dut%d.h5' % i))
        write(files[i], hits[i])
    sels = [None] + [list(s) for n in (1, 2, 3) for s in itertools.permutations(range(3), n)] + [(2, 0)]
    for sel in sels:
        order = range(3) if sel is None else sel
        ins = [files[i] for i in order]
        for named in (False, True):
            outs = [os.path.join(d, 'conv_%d.h5' % i) for i in order] if named else None
            res = hit_analysis.convert(conf, ins, output_hit_files=outs, select_duts=sel, chunk_size=7)
            rec.state((which, repr(sel), named))
            rec.traces += 1
            exp = outs or [os.path.splitext(f)[0] + '_local_coordinates.h5' for f in ins]
            if res != exp:
                rec.violation('C24:name', 'selection %r: returned %r, expected %r' % (sel, res, exp))
                continue
            for f, i in zip(res, order):
                check_local(rec, 'selection %r DUT%d' % (sel, i), t[i], hits[i], f)
            back = hit_analysis.convert(conf, res, [os.path.join(d, 'back_%d.h5' % i) for i in order], sel, False)
            for f, i in zip(back, order):
                check_back(rec, 'selection %r DUT%d' % (sel, i), hits[i], f)
    for sel, n in (([3], 1), ([0, 3], 2), ([-1], 1), ([0, 1], 1), ([0], 2), (0, 1)):
        rec.transitions += 1
        try:
            res = hit_analysis.convert(conf, files[:n], select_duts=sel)
        except ValueError:
            continue
        rec.violation('C24:invalid-selection', 'selection %r with %d files was accepted: %r' % (sel, n, res))


def run_case(case, rec):
    if case[0] == 'file':
        run_file(case[1], case[2], case[3], rec)
    else:
        run_wrap(case[1], case[2], rec)
