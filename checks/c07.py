'''C07: masking of noisy and disabled pixels.'''
import itertools
import math
import os

import numpy as np
import tables as tb

from mc import core
from checks import common
from beam_telescope_analysis import hit_analysis
from beam_telescope_analysis.telescope import dut as dm

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all 4096 occupancies of 2x3 pixels out of {0,1,5,30} with one of two thresholds each, all 6561 of 2x4 pixels out of {0,1,8}; a noisy pixel, pair or block at every place of a 7x6 matrix with 3 backgrounds, 6 filter sizes, 4 thresholds, 4 iteration limits; chunk sizes 4,7,10,100,1000; all 64 disable masks of 2x3 pixels for both mask types; hits outside of the matrix; wrapper with all device selections',
    'thorough': 'as quick with all 19683 occupancies of 3x3 pixels out of {0,1,8}, four thresholds and all chunk sizes for 2x3 pixels',
}
RULE = 'states: distinct (occupancy, parameters); transitions: pixels judged; traces: runs of the real masking'
ASSUMPTIONS = ['at least one hit', 'pixels within rounding errors of the threshold are not judged (counter "ties")', 'the worker functions run in the process of the check (the parallel machinery is explored by C01)']


def warmup():
    common.fast_smc()


def median(occ, size):
    sc, sr = (size, size) if isinstance(size, int) else size
    pad = np.zeros((occ.shape[0] + 2 * sc, occ.shape[1] + 2 * sr), dtype=np.int64)
    pad[sc:-sc, sr:-sr] = occ
    out = np.zeros_like(occ)
    for c, r in itertools.product(range(occ.shape[0]), range(occ.shape[1])):
        w = sorted(pad[c + sc - sc // 2:c + sc - sc // 2 + sc, r + sr - sr // 2:r + sr - sr // 2 + sr].ravel().tolist())
        out[c, r] = w[len(w) // 2]
    return out


def model(occ, threshold, size, iterations):
    '''Noisy pixels or None, if it depends on rounding errors.'''
    occ = occ.astype(np.int64)
    mask = np.zeros(occ.shape, dtype=bool)
    i = 0
    while True:
        i += 1
        blur = median(occ, size)
        hit = [(c, r) for c, r in np.ndindex(occ.shape) if occ[c, r]]
        new = []
        if hit:
            sig = [(int(occ[p]) - int(blur[p])) / math.sqrt(occ[p]) for p in hit]
            mean = math.fsum(sig) / len(sig)
            std = math.sqrt(math.fsum((x - mean) ** 2 for x in sig) / len(sig))
            for p in hit:
                diff, limit = int(occ[p]) - int(blur[p]), threshold * std * math.sqrt(occ[p])
                if diff > 0 and abs(diff - limit) < 1e-9 * diff:
                    return None
                if diff > limit and diff > 0:
                    if not mask[p]:
                        new.append(p)
        for p in new:
            mask[p] = True
        occ[mask] = blur[mask]
        if not new or (iterations and i >= iterations):
            return mask


def hits_of(occ, order=0):
    c, r = np.nonzero(occ)
    n = occ[c, r]
    c, r = np.repeat(c, n), np.repeat(r, n)
    if order:
        k = np.argsort((np.arange(len(c)) * 7919) % (len(c) + 1), kind='stable')
        c, r = c[k], r[k]
    t = np.zeros(len(c), dtype=hit_analysis.default_hits_dtype)
    t['event_number'] = np.arange(len(c)) // 3
    t['column'], t['row'] = c + 1, r + 1
    return t


def dut_of(shape):
    return dm.RectangularPixelDut(name='DUT', translation_x=0., translation_y=0., translation_z=0., rotation_alpha=0., rotation_beta=0., rotation_gamma=0., **common.pixel(shape[0], shape[1]))


def run_one(rec, d, occ, threshold, size=3, iterations=None, chunk=1000, name='NoisyPixelMask', disable=None, order=0):
    what = 'occupancy %r, threshold %r, filter %r, iterations %r, chunk size %d, %s, disabled %r' % (occ.tolist(), threshold, size, iterations, chunk, name, None if disable is None else disable.tolist())
    exp = model(occ, threshold, size, iterations)
    rec.state(what)
    if exp is None:
        rec.extra['ties'] += 1
        return True
    p, out = os.path.join(d, 'h.h5'), os.path.join(d, 'm.h5')
    common.write(p, Hits=hits_of(occ, order))
    before = common.content(p)
    given = None if disable is None else disable.copy()
    r = hit_analysis.mask_pixels(dut_of(occ.shape), p, pixel_mask_name=name, output_mask_file=out, iterations=iterations, threshold=threshold, filter_size=size, disable_mask=given, plot=False, chunk_size=chunk)
    rec.traces += 1
    if r != out:
        rec.violation('C07:name', '%s: returned %r' % (what, r))
        return False
    return judge(rec, what, out, occ, exp, name, disable) and rec.expect(common.content(p) == before, 'C07:input', what + ': input file changed') \
        and rec.expect(disable is None or np.array_equal(given, disable), 'C07:argument', what + ': disable mask of the caller changed')


def judge(rec, what, out, occ, exp, name, disable):
    rec.transitions += occ.size
    masks = {name: exp}
    if disable is not None:
        masks['DisabledPixelMask'] = disable | exp if name == 'DisabledPixelMask' else disable
    if sorted(set(common.nodes(out)) - {'arguments'}) != sorted(list(masks) + ['HistOcc']):
        rec.violation('C07:nodes', '%s: the file has %r' % (what, common.nodes(out)))
        return False
    h = common.read(out, 'HistOcc')
    if h.shape != occ.shape or not np.array_equal(h, occ):
        rec.violation('C07:occupancy', '%s: stored occupancy is %r' % (what, h.tolist()))
        return False
    for n, m in masks.items():
        got = common.read(out, n)
        if got.dtype != bool or got.shape != occ.shape or not np.array_equal(got, m):
            rec.violation('C07:mask', '%s: %s is %r, expected %r' % (what, n, got.astype(int).tolist(), m.astype(int).tolist()))
            return False
        rec.outcome(got.tobytes())
    return True


def cases(tier):
    out = [['small', tier, 2, 3, [0, 1, 5, 30], k, 12] for k in range(12)]
    out += [['small', tier, 2, 4, [0, 1, 8], k, 12] for k in range(12)]
    if tier == 'thorough':
        out += [['small', tier, 3, 3, [0, 1, 8], k, 48] for k in range(48)]
    out += [['blob', tier, b, s] for b in (0, 4, 9) for s in (1, 3, 5, [1, 3], [3, 1], [5, 3])]
    out += [['disable', tier, n] for n in (0, 1)]
    out += [['chunks', tier], ['outside', tier], ['wrapper', tier]]
    return out[::-1]


def run_case(case, rec):
    kind, tier = case[:2]
    d = core.scratch()
    if kind == 'small':
        shape = tuple(case[2:4])
        thr = (0.5, 1.1, 2.3, 10.) if tier == 'thorough' else (0.5, 1.1)
        for n, v in enumerate(itertools.product(case[4], repeat=shape[0] * shape[1])):
            if n % case[6] != case[5] or not any(v):
                continue
            occ = np.array(v).reshape(shape)
            for t in (thr if shape == (2, 3) and tier == 'thorough' else thr[n % 2:n % 2 + 1]):
                if not run_one(rec, d, occ, t, iterations=(None, None, 1, 2)[n % 4] if shape != (2, 3) else None, order=n % 2):
                    return
    elif kind == 'blob':
        size = tuple(case[3]) if isinstance(case[3], list) else case[3]
        for n, (c, r) in enumerate(itertools.product(range(7), range(6))):
            for k, (dc, dr, value) in enumerate([(1, 1, 60), (2, 1, 40), (1, 2, 40), (2, 2, 90), (3, 3, 300), (1, 1, 13)]):
                occ = np.full((7, 6), case[2])
                occ += (np.arange(42).reshape(7, 6) * 5) % 3 if case[2] else 0
                occ[c:c + dc, r:r + dr] = value
                occ[(c + 3) % 7, (r + 2) % 6] += 25
                if not run_one(rec, d, occ, (3., 5., 10., 1.5)[(n + k) % 4], size=size, iterations=(None, 1, 0, 2)[(n // 2 + k) % 4], chunk=(1000, 100)[n % 2]):
                    return
    elif kind == 'disable':
        for n in range(64):
            dis = np.array([(n >> i) & 1 for i in range(6)], dtype=bool).reshape(2, 3)
            for occ in ([[0, 1, 1], [0, 30, 1]], [[1, 1, 1], [1, 1, 1]], [[30, 0, 0], [0, 1, 5]]):
                run_one(rec, d, np.array(occ), 0.8, name=('NoisyPixelMask', 'DisabledPixelMask')[case[2]], disable=dis)
    elif kind == 'chunks':
        for n, v in enumerate(itertools.product((0, 1, 5), repeat=6)):
            if any(v) and (n % 7 == 0 or tier == 'thorough'):
                for chunk in ((4, 7, 10) if tier == 'quick' else (4, 5, 6, 7, 11, 29, 30)):
                    run_one(rec, d, np.array(v).reshape(3, 2), 0.9, chunk=chunk, order=1)
    elif kind == 'outside':
        occ = np.array([[0, 1, 1], [0, 7, 1]])
        for chunk in (3, 1000):
            for c, r in itertools.product((0, 1, 2, 3, 65535), (0, 1, 3, 4, 65535)):
                if 1 <= c <= 2 and 1 <= r <= 3:
                    continue
                for place in (0, 4, 10):
                    t = hits_of(occ)
                    bad = t[:1].copy()
                    bad['column'], bad['row'] = c, r
                    t = np.concatenate([t[:place], bad, t[place:]])
                    t['event_number'] = np.arange(len(t))
                    p = common.write(os.path.join(d, 'h.h5'), Hits=t)
                    rec.state((chunk, c, r, place))
                    rec.traces += 1
                    try:
                        hit_analysis.mask_pixels(dut_of(occ.shape), p, output_mask_file=os.path.join(d, 'm.h5'), plot=False, chunk_size=chunk)
                    except Exception as e:
                        rec.outcome(type(e).__name__)
                        continue
                    rec.violation('C07:outside', 'a hit at column %d, row %d of a 2x3 device was accepted' % (c, r))
        for kw in (dict(pixel_mask_name='PixelMask'), dict(pixel_mask_name=None)):
            try:
                hit_analysis.mask_pixels(dut_of(occ.shape), common.write(os.path.join(d, 'h.h5'), Hits=hits_of(occ)), plot=False, **kw)
                rec.violation('C07:invalid', '%r was accepted' % kw)
            except ValueError:
                pass
    else:
        run_wrapper(rec, d)


def run_wrapper(rec, d):
    shapes = [(2, 3), (3, 3), (4, 2)]
    conf = os.path.join(d, 'tel.yaml')
    common.telescope(conf, [common.pixel(*s) for s in shapes])
    occs = [np.array([[0, 1, 1], [0, 7, 1]]), np.array([[1, 1, 1], [1, 40, 1], [1, 9, 0]]), np.array([[1, 0], [0, 3], [20, 1], [1, 1]])]
    files = [common.write(os.path.join(d, 'h%d.h5' % i), Hits=hits_of(o)) for i, o in enumerate(occs)]
    for sel in [None] + [list(s) for n in (1, 2, 3) for s in itertools.permutations(range(3), n)]:
        order = list(range(3)) if sel is None else sel
        for lists in (True, False):
            thr = [(0.7, 1.2, 0.6)[i] if lists else 1.1 for i in order]
            size = [((3, 3), (1, 3), (3, 1))[i] if lists else 3 for i in order]
            it = [(1, None, 2)[i] if lists else None for i in order]
            name = [('NoisyPixelMask', 'DisabledPixelMask', 'NoisyPixelMask')[i] if lists else 'NoisyPixelMask' for i in order]
            dis = [[np.arange(6).reshape(2, 3) == 2, None, np.arange(8).reshape(4, 2) > 5][i] if lists else None for i in order]
            outs = [os.path.join(d, 'o%d.h5' % i) for i in order] if lists else None
            kw = dict(thresholds=thr, filter_sizes=size, iterations=it, pixel_mask_names=name, disable_masks=dis) if lists else dict(thresholds=1.1)
            r = hit_analysis.mask(conf, [files[i] for i in order], outs, sel, plot=False, **kw)
            rec.traces += 1
            rec.state((repr(sel), lists))
            if r != (outs or [files[i][:-3] + '_mask.h5' for i in order]):
                rec.violation('C07:name', 'selection %r: returned %r' % (sel, r))
                return
            for k, i in enumerate(order):
                exp = model(occs[i], thr[k], size[k], it[k])
                judge(rec, 'selection %r DUT%d' % (sel, i), r[k], occs[i], exp, name[k], dis[k])
    for kw in (dict(select_duts=[3]), dict(select_duts=[-1]), dict(select_duts=[0, 1]), dict(thresholds=[1, 2]), dict(output_mask_files=[]), dict(iterations=[1, 1]), dict(pixel_mask_names=['NoisyPixelMask'] * 2), dict(filter_sizes=[3, 3]), dict(disable_masks=[None, None])):
        rec.transitions += 1
        try:
            hit_analysis.mask(conf, files[:1], plot=False, **dict(dict(select_duts=[0]), **kw))
        except ValueError:
            continue
        rec.violation('C07:invalid', 'invalid arguments %r were accepted' % kw)
