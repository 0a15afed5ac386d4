'''C15: DUT geometry: index <-> local <-> global transformations of every pixel of every DUT type.'''
import itertools
import math

import numpy as np

from beam_telescope_analysis.telescope import dut as dm

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'generic DUTs of 1..4 x 1..4 pixels with 3 pitches and all 13 chip types (all pixels); poses: 5 translations x all rotation triples of {0, 90, 180, -90, 30, -0.01 deg..} (343); argument kinds: scalar, list, tuple, uint16, float32, float64, empty; 16 override subsets of pose parameters; all out-of-matrix neighbours',
    'thorough': 'as quick with up to 6 x 6 pixels and 9 angles per axis',
}
RULE = 'states: distinct (DUT type, size, pose, argument kind); transitions: transformation calls compared with the geometry; traces: complete round trips index -> local -> global -> local -> index'
ASSUMPTIONS = ['floating point agreement within 1e-6 um', 'the Diamond types map indices onto bump bonds by design: only their local <-> global transformations are covered']

# name -> (columns, rows, pitch x, pitch y, primitive cell in pixels)
CHIPS = {'FEI4': (80, 336, 250., 50., (2, 1)), 'RD53A': (400, 192, 50., 50., (1, 1)), 'RD53A_8x8': (400, 192, 50., 50., (8, 8)),
         'ITkPix': (400, 384, 50., 50., (1, 1)), 'ITkPix_8x8': (400, 384, 50., 50., (8, 8)), 'TJMonopix1': (112, 224, 40., 36., (1, 1)),
         'TJMonopix1_2x2': (112, 224, 40., 36., (2, 2)), 'PSI46': (52, 80, 150., 100., (2, 1)), 'Mimosa26': (1152, 576, 18.4, 18.4, (1, 1)),
         'DepfetH5z85': (64, 64, 50., 85., (1, 1)), 'DepfetH5z55': (64, 64, 50., 55., (1, 1)), 'Timepix3': (256, 256, 55., 55., (1, 1))}
POSE = ('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma')
TR = [(0., 0., 0.), (1., 0., 0.), (-2500.5, 7000., 29000.), (0., -3., 1e5), (0.25, 0.5, -100.)]


def ref_rot(a, b, c):
    sa, ca, sb, cb, sc, cc = math.sin(a), math.cos(a), math.sin(b), math.cos(b), math.sin(c), math.cos(c)
    return np.array([[cc * cb, cc * sb * sa - sc * ca, cc * sb * ca + sc * sa],
                     [sc * cb, sc * sb * sa + cc * ca, sc * sb * ca - cc * sa],
                     [-sb, cb * sa, cb * ca]])


def angs(tier):
    return [math.radians(a) for a in ((0, 90, 180, -90, 30, -0.5, 200) if tier == 'quick' else (0, 90, 180, -90, 30, -0.5, 200, -135, 0.01))]


def cases(tier):
    n = 4 if tier == 'quick' else 6
    out = [['chip', tier, name] for name in sorted(CHIPS, key=lambda k: -CHIPS[k][0])]
    out += [['generic', tier, [c, r]] for c in range(1, n + 1) for r in range(1, n + 1)]
    out += [['pose', tier, [i, k]] for i in range(len(TR)) for k in range(len(angs(tier)))]
    out += [['kinds', tier, i] for i in range(3)]
    out += [['override', tier, i] for i in range(2)]
    out += [['limits', tier, 0], ['diamond', tier, 0]]
    return out


def make(name, **kw):
    pose = dict(zip(POSE, kw.pop('pose', (0.,) * 6)))
    return getattr(dm, name)(name='D', **dict(pose, **kw))


def generic(cols, rows, px, py, pose=(0.,) * 6, cls='RectangularPixelDut'):
    return make(cls, pose=pose, column_size=px, row_size=py, n_columns=cols, n_rows=rows)


def check_grid(rec, d, cols, rows, px, py, what, pose=None, cell=None):
    '''Every pixel (centre, and off-centre cluster positions) of the device.'''
    pose = pose or (0.,) * 6
    if d.n_pixel != (cols, rows) or d.pixel_size != (px, py):
        rec.violation('C15:size', '%s: %r pixels of %r' % (what, d.n_pixel, d.pixel_size))
        return
    for off in ((0., 0.), (0.25, -0.5), (-0.375, 0.5)):
        c, r = np.meshgrid(np.arange(1, cols + 1), np.arange(1, rows + 1), indexing='ij')
        c, r = c.ravel() + off[0], r.ravel() + off[1]
        keep = c.copy(), r.copy()
        x, y, z = d.index_to_local_position(c, r)
        rec.transitions += 4
        rec.traces += len(c)
        ex, ey = (c - (cols + 1) / 2.) * px, (r - (rows + 1) / 2.) * py
        if not (np.allclose(x, ex, rtol=0, atol=1e-6) and np.allclose(y, ey, rtol=0, atol=1e-6) and np.all(z == 0) and np.shape(z) == np.shape(x)):
            k = int(np.argmax(np.abs(x - ex) + np.abs(y - ey)))
            rec.violation('C15:index-to-local', '%s: pixel (%r, %r) at (%r, %r, %r), expected (%r, %r)' % (what, c[k], r[k], x[k], y[k], np.ravel(z)[k:k + 1], ex[k], ey[k]))
            return
        bc, br = d.local_position_to_index(x, y, z)
        if not (np.allclose(bc, c, rtol=0, atol=1e-6) and np.allclose(br, r, rtol=0, atol=1e-6)):
            k = int(np.argmax(np.abs(bc - c) + np.abs(br - r)))
            rec.violation('C15:local-to-index', '%s: local (%r, %r) is index (%r, %r), expected (%r, %r)' % (what, x[k], y[k], bc[k], br[k], c[k], r[k]))
            return
        R = ref_rot(*pose[3:])
        g = d.local_to_global_position(x, y, z)
        eg = R.dot(np.array([ex, ey, np.zeros_like(ex)])) + np.array(pose[:3])[:, None]
        if not np.allclose(g, eg, rtol=0, atol=1e-6):
            rec.violation('C15:local-to-global', '%s pose %r: deviation %g um' % (what, pose, np.abs(np.array(g) - eg).max()))
            return
        g2 = d.index_to_global_position(c, r)
        if not np.allclose(g2, eg, rtol=0, atol=1e-6):
            rec.violation('C15:index-to-global', '%s pose %r: deviation %g um' % (what, pose, np.abs(np.array(g2) - eg).max()))
        bx, by, bz = d.global_to_local_position(*g)
        if not (np.allclose(bx, ex, rtol=0, atol=1e-6) and np.allclose(by, ey, rtol=0, atol=1e-6) and np.allclose(bz, 0, rtol=0, atol=1e-6)):
            rec.violation('C15:global-to-local', '%s pose %r: deviation %g um' % (what, pose, max(np.abs(bx - ex).max(), np.abs(by - ey).max(), np.abs(bz).max())))
        if abs(off[1]) != 0.5:
            bc, br = d.global_position_to_index(*g)
            if not (np.allclose(bc, c, rtol=0, atol=1e-6) and np.allclose(br, r, rtol=0, atol=1e-6)):
                rec.violation('C15:global-to-index', '%s pose %r' % (what, pose))
        if not ((keep[0] == c).all() and (keep[1] == r).all()):
            rec.violation('C15:input', '%s: input was changed' % what)
        if cell and off[1] != 0.5:
            mx, my = d.map_to_primitive_cell(x, y + (0.01 if off[1] else 0))
            fx = np.mod(c - 0.5, cell[0]) * px
            fy = np.mod(r - 0.5, cell[1]) * py + (0.01 if off[1] else 0)
            dx, dy = np.abs(mx - fx), np.abs(my - fy)
            if not (np.minimum(dx, cell[0] * px - dx).max() < 1e-6 and np.minimum(dy, cell[1] * py - dy).max() < 1e-6):
                rec.violation('C15:cell', '%s: position in the primitive cell' % what)
    rec.outcome((what, pose))
    # extents
    R = ref_rot(*pose[3:])
    corners = np.array([(sx * cols * px / 2., sy * rows * py / 2., 0.) for sx in (-1, 1) for sy in (-1, 1)])
    gc = corners.dot(R.T) + np.array(pose[:3])
    for glob, ref in ((False, corners), (True, gc)):
        ext = (d.x_extent(global_position=glob), d.y_extent(global_position=glob), d.z_extent(global_position=glob))
        rec.transitions += 3
        if not all(np.allclose(e, (ref[:, k].min(), ref[:, k].max()), rtol=0, atol=1e-6) for k, e in enumerate(ext)):
            rec.violation('C15:extent', '%s pose %r: extent %r, corners %r' % (what, pose, ext, ref.tolist()))


def expect_error(rec, key, msg, f, *a, **kw):
    rec.transitions += 1
    try:
        r = f(*a, **kw)
    except (ValueError, RuntimeError):
        return
    rec.violation(key, '%s: returned %r' % (msg, r))


def check_outside(rec, d, cols, rows, px, py, what):
    inside = ((cols + 1) / 2., (rows + 1) / 2.)
    for c, r in [(0.49, inside[1]), (cols + 0.51, inside[1]), (inside[0], 0.49), (inside[0], rows + 0.51), (0, inside[1]), (inside[0], 0), (-1, 1), (cols + 1, 1), (1, rows + 1)]:
        for n in (1, 3):
            for k in range(n):
                cc, rr = np.full(n, inside[0]), np.full(n, inside[1])
                cc[k], rr[k] = c, r
                expect_error(rec, 'C15:outside-index', '%s: index (%r, %r) is outside' % (what, c, r), d.index_to_local_position, cc, rr)
    for x, y in [(cols * px / 2. + 0.01 * px, 0), (-cols * px / 2. - 0.01 * px, 0), (0, rows * py / 2. + 0.01 * py), (0, -rows * py / 2. - 0.01 * py), (cols * px, rows * py)]:
        for n in (1, 3):
            for k in range(n):
                xx, yy = np.zeros(n), np.zeros(n)
                xx[k], yy[k] = x, y
                expect_error(rec, 'C15:outside-position', '%s: local position (%r, %r) is outside' % (what, x, y), d.local_position_to_index, xx, yy)
                rec.state((what, 'out', x, y, n, k))
    # border belongs to the device
    for c, r in itertools.product((0.5, cols + 0.5), (0.5, rows + 0.5)):
        x, y, _ = d.index_to_local_position(np.array([c]), np.array([r]))
        bc, br = d.local_position_to_index(x, y)
        rec.transitions += 2
        if abs(bc[0] - c) > 1e-6 or abs(br[0] - r) > 1e-6:
            rec.violation('C15:border', '%s: border (%r, %r) -> (%r, %r)' % (what, c, r, bc, br))


def run_case(case, rec):
    mode, tier, p = case
    if mode == 'chip':
        cols, rows, px, py, cell = CHIPS[p]
        poses = [(0.,) * 6, (100., -20., 3e4, 0.1, -0.2, 0.3), (0., 0., 1e5, math.pi, 0, math.pi / 2)]
        for pose in poses:
            d = make(p, pose=pose)
            rec.state((p, pose))
            check_grid(rec, d, cols, rows, px, py, p, pose, cell)
        check_outside(rec, make(p), cols, rows, px, py, p)
        rec.sample({'chip': p})
    elif mode == 'generic':
        cols, rows = p
        for px, py in ((250., 50.), (18.4, 18.4), (1., 7.3)):
            for cls in ('RectangularPixelDut', 'RectangularPixelDutWithDoubleColumns'):
                for pose in [(0.,) * 6] + [TR[2] + a for a in itertools.product((0., math.pi / 2, 0.3), repeat=3)]:
                    d = generic(cols, rows, px, py, pose, cls)
                    rec.state((cls, cols, rows, px, py, pose))
                    check_grid(rec, d, cols, rows, px, py, '%s %dx%d of %rx%r' % (cls, cols, rows, px, py), pose, (1, 1) if cls == 'RectangularPixelDut' else None)
            check_outside(rec, generic(cols, rows, px, py), cols, rows, px, py, '%dx%d of %rx%r' % (cols, rows, px, py))
        rec.sample({'columns': cols, 'rows': rows})
    elif mode == 'pose':
        d = generic(3, 4, 50., 20.)
        for b, c in itertools.product(angs(tier), repeat=2):
            pose = TR[p[0]] + (angs(tier)[p[1]], b, c)
            for n, v in zip(POSE, pose):  # moved after construction
                setattr(d, n, v)
            rec.state(pose)
            check_grid(rec, d, 3, 4, 50., 20., 'moved DUT', pose)
    elif mode == 'kinds':
        pose = [(0.,) * 6, TR[2] + (0.1, -0.2, 3.), TR[1] + (math.pi, 0., 0.)][p]
        d = generic(4, 3, 50., 20., pose)
        R = ref_rot(*pose[3:])
        pix = list(itertools.product((1, 2, 3, 4), (1, 2, 3)))
        for n in range(0, 4):
            for sel in itertools.product(pix if n < 3 else pix[::4], repeat=n):
                c, r = [s[0] for s in sel], [s[1] for s in sel]
                ex = np.array([((a - 2.5) * 50., (b - 2.) * 20., 0.) for a, b in sel]).reshape(-1, 3)
                eg = ex.dot(R.T) + np.array(pose[:3])
                kinds = [('list', c, r), ('tuple', tuple(c), tuple(r)), ('uint16', np.array(c, np.uint16), np.array(r, np.uint16)), ('float32', np.array(c, np.float32), np.array(r, np.float32)),
                         ('int64', np.array(c, np.int64), np.array(r, np.int64)), ('mixed', c, np.array(r, np.uint16))]
                if n == 1:
                    kinds.append(('scalar', c[0], r[0]))
                for kind, cc, rr in kinds:
                    rec.state((p, sel, kind))
                    rec.traces += 1
                    rec.transitions += 4
                    loc = np.array([np.atleast_1d(v) for v in d.index_to_local_position(cc, rr)]).T
                    if loc.shape != ex.shape or not np.allclose(loc, ex, rtol=0, atol=1e-5):
                        rec.violation('C15:kind-index-to-local', '%s %r: %r, expected %r' % (kind, sel, loc, ex))
                        continue
                    glo = np.array([np.atleast_1d(v) for v in d.index_to_global_position(cc, rr)]).T
                    if glo.shape != ex.shape or not np.allclose(glo, eg, rtol=0, atol=1e-2 if kind == 'float32' else 1e-6):
                        rec.violation('C15:kind-index-to-global', '%s %r: %r, expected %r' % (kind, sel, glo, eg))
                    conv = {'list': list, 'tuple': tuple, 'mixed': list}.get(kind, np.array)
                    if kind == 'scalar':
                        args = [float(v) for v in eg[0]]
                        largs = [float(v) for v in ex[0]]
                    else:
                        args = [conv(eg[:, k]) for k in range(3)]
                        largs = [conv(ex[:, k]) for k in range(3)]
                    loc = np.array([np.atleast_1d(v) for v in d.global_to_local_position(*args)]).T
                    if loc.shape != ex.shape or not np.allclose(loc, ex, rtol=0, atol=1e-6):
                        rec.violation('C15:kind-global-to-local', '%s %r: %r, expected %r' % (kind, sel, loc, ex))
                    for k in (2, 3):  # with and without z
                        glo = np.array([np.atleast_1d(v) for v in d.local_to_global_position(*largs[:k])]).T
                        idx = np.array([np.atleast_1d(v) for v in d.local_position_to_index(*largs[:k])]).T
                        if glo.shape != ex.shape or not np.allclose(glo, eg, rtol=0, atol=1e-6):
                            rec.violation('C15:kind-local-to-global', '%s %r: %r, expected %r' % (kind, sel, glo, eg))
                        if idx.shape != (n, 2) or not np.allclose(idx, np.array(sel).reshape(-1, 2), rtol=0, atol=1e-6):
                            rec.violation('C15:kind-local-to-index', '%s %r: %r' % (kind, sel, idx))
        # missing entries
        for n in (1, 2, 3):
            for miss in itertools.product((False, True), repeat=n):
                loc = np.array([((a - 2.5) * 50., (b - 2.) * 20., 0.) for a, b in pix[:n]])
                loc[np.array(miss)] = np.nan
                g = np.array(d.local_to_global_position(loc[:, 0], loc[:, 1], loc[:, 2])).T
                eg = np.where(np.array(miss)[:, None], np.nan, loc.dot(R.T) + np.array(pose[:3]))
                b = np.array(d.global_to_local_position(*eg.T)).T
                rec.state(('nan', p, miss))
                rec.transitions += 2
                if not np.allclose(g, eg, rtol=0, atol=1e-6, equal_nan=True) or not np.allclose(b, loc, rtol=0, atol=1e-6, equal_nan=True):
                    rec.violation('C15:missing', 'missing entries %r: global %r local %r' % (miss, g, b))
        # positions off the sensor plane
        for k in range(3):
            z = np.zeros(3)
            z[k] = 0.5
            expect_error(rec, 'C15:off-plane', 'local z=0.5', d.local_to_global_position, np.zeros(3), np.zeros(3), z)
            expect_error(rec, 'C15:off-plane', 'local z=0.5', d.local_position_to_index, np.zeros(3), np.zeros(3), z)
            g = np.array([[0., 0, 0], [1., 2, 0], [3., 4, 0]])
            g[k, 2] = 0.5
            g = g.dot(R.T) + np.array(pose[:3])
            expect_error(rec, 'C15:off-plane', 'global position off the plane', d.global_to_local_position, *g.T)
            expect_error(rec, 'C15:off-plane', 'global position off the plane', d.global_position_to_index, *g.T)
    elif mode == 'override':
        base = TR[2] + (0.1, -0.2, 3.)
        new = (7., -8., 9000., -0.3, 0.4, math.pi)
        zero = (0.,) * 6
        d = generic(4, 3, 50., 20., base)
        for mask in itertools.product((False, True), repeat=6):
            for over in (new, zero):
                kw = {n: (over[i] if p == 0 else np.float32(over[i]) if over is zero else over[i]) for i, n in enumerate(POSE) if mask[i]}
                pose = tuple(over[i] if mask[i] else base[i] for i in range(6))
                R = ref_rot(*pose[3:])
                loc = np.array([[75., 20., 0.], [-75., 0., 0.], [25., -20., 0.]])
                eg = loc.dot(R.T) + np.array(pose[:3])
                rec.state(('override', mask, over))
                rec.transitions += 4
                rec.traces += 1
                if not np.allclose(np.array(d.local_to_global_position(*loc.T, **kw)).T, eg, rtol=0, atol=1e-6):
                    rec.violation('C15:override', 'local to global with %r' % (kw,))
                if not np.allclose(np.array(d.global_to_local_position(*eg.T, **kw)).T, loc, rtol=0, atol=1e-6):
                    rec.violation('C15:override', 'global to local with %r' % (kw,))
                if not np.allclose(np.array(d.index_to_global_position([4, 1, 3], [3, 2, 1], **kw)).T, eg, rtol=0, atol=1e-6):
                    rec.violation('C15:override', 'index to global with %r' % (kw,))
                idx = np.array(d.global_position_to_index(*(eg.T), **kw)) if not mask[0] or True else None
                if not np.allclose(idx, [[4, 1, 3], [3, 2, 1]], rtol=0, atol=1e-6):
                    rec.violation('C15:override', 'global to index with %r' % (kw,))
                if tuple(getattr(d, n) for n in POSE) != base:
                    rec.violation('C15:override', 'the pose of the DUT was changed')
        for cls in ('FEI4', 'Mimosa26', 'ScatteringPlane'):
            d1 = make(cls, pose=base, x_limit=(-3, 4), material_budget=0.01)
            d2 = getattr(dm, cls).from_dut(d1, translation_z=5.)
            exp = {a: getattr(d1, a) for a in d1.dut_attributes}
            exp['translation_z'] = 5.
            rec.transitions += 1
            if {a: getattr(d2, a) for a in d2.dut_attributes} != exp or type(d2) is not type(d1):
                rec.violation('C15:from-dut', 'copy of %s' % cls)
    elif mode == 'limits':
        for lim, ref in ((None, None), ((3, -1), (-1., 3.)), ([0, 0], (0., 0.)), ((-5.5, 2), (-5.5, 2.)), (np.array([2, 1]), (1., 2.))):
            d = generic(2, 2, 50., 20.)
            d.x_limit = lim
            rec.transitions += 1
            if d.x_limit != ref or d.y_limit is not None:
                rec.violation('C15:limit', 'x limit %r -> %r' % (lim, d.x_limit))
            d.y_limit = lim
            if d.y_limit != ref or d.x_limit != ref:
                rec.violation('C15:limit', 'y limit %r -> %r' % (lim, d.y_limit))
    elif mode == 'diamond':
        for cls in ('Diamond3DpCVD', 'DiamondPseudo3DpCVD'):
            for pose in [t + a for t in TR for a in itertools.product((0., 0.3, math.pi), repeat=3)]:
                d = make(cls, pose=pose, sensor_position=(20, 100))
                R = ref_rot(*pose[3:])
                c, r = np.meshgrid(np.arange(1, 81), np.arange(1, 337), indexing='ij')
                x, y, z = d.index_to_local_position(c.ravel(), r.ravel())
                loc = np.array([x, y, z])
                g = np.array(d.index_to_global_position(c.ravel(), r.ravel()))
                rec.state((cls, pose))
                rec.transitions += 2
                if not np.isfinite(loc).all() or not np.allclose(g, R.dot(loc) + np.array(pose[:3])[:, None], rtol=0, atol=1e-6):
                    rec.violation('C15:diamond', '%s %r' % (cls, pose))
                if not np.allclose(np.array(d.global_to_local_position(*g)), loc, rtol=0, atol=1e-6):
                    rec.violation('C15:diamond', '%s %r' % (cls, pose))
