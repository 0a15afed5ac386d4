'''C16: rotations, coordinate conversions, line-plane intersections on full grids incl. degenerate cases.'''
import itertools
import math

import numpy as np

from beam_telescope_analysis.tools import geometry_utils as gu

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'rotation angles: all triples of multiples of 15 deg in [-180, 180] plus +-1e-9, +-1e-4 rad, +-90 deg -+1e-8 (per axis); directions: all of {0, +-1, +-1e-12, +-2.5, +-1e6}^3; lines x planes: all integer origins/directions of {-1,0,1}^3/{..} with planes of 26 normals, batches mixing parallel and crossing lines; transformations: 7^3 translations x 13^3 rotations',
    'thorough': 'as quick with multiples of 5 deg and components from a larger alphabet',
}
RULE = 'states: distinct inputs (angle triple, direction, line/plane batch); transitions: single function evaluations compared with the definition; traces: round trips / batches executed on the real functions'
ASSUMPTIONS = ['floating point: agreement within 1e-9 of the size of the quantities (1e-6 for matrices within 1e-7 rad of the gimbal lock)']
DIRS = [d for d in itertools.product((-1, 0, 1), repeat=3) if d != (0, 0, 0)]


def angles(tier):
    step = 5 if tier == 'thorough' else 15
    a = [math.radians(d) for d in range(-180, 181, step)]
    return a + [1e-9, -1e-9, 1e-4, -1e-4]


def beta_angles(tier):
    return angles(tier) + [math.pi / 2 - 1e-8, math.pi / 2 + 1e-8, -math.pi / 2 + 1e-8, -math.pi / 2 - 1e-8, math.pi / 2 - 1e-3, -math.pi / 2 + 1e-3]


def cases(tier):
    out = [['rot', tier, i] for i in range(len(angles(tier)))]
    out += [['sph', tier, i] for i in range(3)]
    out += [['plane', tier, i] for i in range(26)]
    out += [['trans', tier, i] for i in range(7)]
    out += [['dut', tier, i] for i in range(9)]
    out += [['skew', tier, 0]]
    return out


def ref_rot(a, b, c):
    '''x, then y, then z: columns are the images of the unit vectors, composed by hand.'''
    def rx(v):
        x, y, z = v
        return (x, y * math.cos(a) - z * math.sin(a), y * math.sin(a) + z * math.cos(a))

    def ry(v):
        x, y, z = v
        return (x * math.cos(b) + z * math.sin(b), y, -x * math.sin(b) + z * math.cos(b))

    def rz(v):
        x, y, z = v
        return (x * math.cos(c) - y * math.sin(c), x * math.sin(c) + y * math.cos(c), z)
    return np.array([rz(ry(rx(e))) for e in ((1., 0, 0), (0, 1., 0), (0, 0, 1.))]).T


def run_rot(tier, i, rec):
    a = angles(tier)[i]
    for b in beta_angles(tier):
        for c in angles(tier):
            rec.state((a, b, c))
            rec.transitions += 4
            rec.traces += 1
            R = gu.rotation_matrix(a, b, c)
            ref = ref_rot(a, b, c)
            if R.shape != (3, 3) or not np.allclose(R, ref, rtol=0, atol=1e-12):
                rec.violation('C16:rotation', 'rotation_matrix(%r, %r, %r) = %r, expected %r' % (a, b, c, R, ref))
                continue
            if not np.allclose(gu.rotation_matrix_z(c).dot(gu.rotation_matrix_y(b)).dot(gu.rotation_matrix_x(a)), ref, rtol=0, atol=1e-12):
                rec.violation('C16:axis-rotation', 'product of axis rotations is wrong for %r' % ((a, b, c),))
            keep = R.copy()
            e = gu.euler_angles(R)
            if (keep != R).any():
                rec.violation('C16:euler-input', 'euler_angles changes its input')
            if not np.all(np.isfinite(e)):
                rec.violation('C16:euler', 'euler_angles of rotation_matrix(%r, %r, %r) = %r' % (a, b, c, e))
                continue
            R2 = ref_rot(*[float(v) for v in e])
            tol = 1e-6 if abs(abs(R[2, 0]) - 1) < 1e-12 else 1e-7 if abs(abs(R[2, 0]) - 1) < 1e-5 else 1e-9
            if not np.allclose(R2, R, rtol=0, atol=tol):
                rec.violation('C16:euler', 'euler_angles of rotation_matrix(%r, %r, %r) = %r give a different rotation, deviation %g' % (a, b, c, e, abs(R2 - R).max()))
            rec.outcome(tuple(np.round(R, 6).ravel() + 0.0))
    rec.sample({'alpha': a, 'beta': b, 'gamma': c})


def run_sph(tier, i, rec):
    vals = [0.0, 1.0, -1.0, 1e-12, -1e-12, 2.5, -2.5, 1e6, -1e6]
    if tier == 'thorough':
        vals += [1e-3, -1e-3, 7.0, -7.0, 1e-150, -1e-150, -0.0]
    pts = np.array(list(itertools.product(vals, repeat=3)))
    # all at once, one by one, pairs in different order: element-wise functions
    groups = [pts] if i == 0 else [pts[k:k + 1] for k in range(len(pts))] if i == 1 else [pts[::-1][k:k + 7] for k in range(0, len(pts), 7)]
    for g in groups:
        x, y, z = g[:, 0].copy(), g[:, 1].copy(), g[:, 2].copy()
        phi, theta, r = gu.cartesian_to_spherical(x, y, z)
        rec.traces += 1
        rec.transitions += len(g)
        if (x != g[:, 0]).any() or (y != g[:, 1]).any() or (z != g[:, 2]).any():
            rec.violation('C16:spherical-input', 'input changed')
        if not ((phi >= 0) & (phi < 2 * math.pi) & (theta >= 0) & (theta <= math.pi) & (r >= 0)).all():
            k = int(np.argmin((phi >= 0) & (phi < 2 * math.pi) & (theta >= 0) & (theta <= math.pi)))
            rec.violation('C16:spherical-range', 'cartesian_to_spherical%r = %r' % (tuple(g[k]), (phi[k], theta[k], r[k])))
            continue
        o = (g == 0).all(axis=1)
        if (phi[o] != 0).any() or (theta[o] != 0).any() or (r[o] != 0).any():
            rec.violation('C16:spherical-origin', 'origin is not mapped to zeros')
        try:
            b = np.column_stack(gu.spherical_to_cartesian(phi, theta, r))
        except RuntimeError as e:
            rec.violation('C16:spherical', 'spherical_to_cartesian rejects the result of cartesian_to_spherical: %s for %r' % (e, g[:5].tolist()))
            continue
        bad = np.abs(b - g).max(axis=1) > 1e-9 * np.maximum(np.abs(g).max(axis=1), 1e-9) + 1e-13 * np.abs(g).max(axis=1)
        # tiny components next to huge ones are only reproduced relative to the radius
        bad &= np.abs(b - g).max(axis=1) > 1e-7 * np.sqrt((g ** 2).sum(axis=1))
        if bad.any():
            k = int(np.argmax(bad))
            rec.violation('C16:spherical', 'cartesian -> spherical -> cartesian: %r -> %r -> %r' % (tuple(g[k]), (phi[k], theta[k], r[k]), tuple(b[k])))
        for row in g:
            rec.state(('sph', i, tuple(row)))
        rec.outcome(np.round(phi, 9).tobytes())
    # rejected input
    if i == 0:
        n = 24 if tier == 'quick' else 72
        for ip, it in itertools.product(range(n), range(n // 2 + 1)):
            p, t = 2 * math.pi * ip / n, math.pi * it / (n // 2)
            for r in (0.5, 3.0):
                rec.state(('back', ip, it, r))
                rec.transitions += 1
                rec.traces += 1
                x, y, z = gu.spherical_to_cartesian(np.array([p]), np.array([t]), np.array([r]))
                ref = (r * math.sin(t) * math.cos(p), r * math.sin(t) * math.sin(p), r * math.cos(t))
                if not np.allclose([x[0], y[0], z[0]], ref, rtol=0, atol=1e-12):
                    rec.violation('C16:to-cartesian', 'spherical_to_cartesian(%r, %r, %r) = %r' % (p, t, r, (x, y, z)))
        for p, t, r in ((0.1, 0.1, -1.), (0.1, -0.1, 1.), (0.1, 3.2, 1.), (-0.1, 0.1, 1.), (2 * math.pi, 0.1, 1.), (7., 0.1, 1.)):
            for n in (1, 3):
                for k in range(n):
                    pp, tt, rr = np.full(n, 0.2), np.full(n, 0.2), np.full(n, 1.)
                    pp[k], tt[k], rr[k] = p, t, r
                    rec.transitions += 1
                    try:
                        gu.spherical_to_cartesian(pp, tt, rr)
                    except RuntimeError:
                        continue
                    rec.violation('C16:spherical-reject', 'spherical_to_cartesian(%r, %r, %r) is accepted' % (pp, tt, rr))


def check_intersections(rec, key, o, d, pos, nrm, res):
    scale = 1 + np.abs(o).max() + np.abs(pos).max()
    if res.shape != o.shape:
        rec.violation(key, 'result shape %r for %d lines' % (res.shape, len(o)))
        return
    for k in range(len(o)):
        dd = sum(float(a) * float(b) for a, b in zip(nrm, d[k]))
        if abs(dd) < 1e-12:
            if not np.isnan(res[k]).any() and abs(dd) == 0:
                rec.violation(key, 'line %r + t %r parallel to the plane %r at %r intersects at %r' % (o[k], d[k], nrm, pos, res[k]))
            continue
        t = sum((float(p) - float(a)) * float(n) for p, a, n in zip(pos, o[k], nrm)) / dd
        ref = [float(a) + t * float(b) for a, b in zip(o[k], d[k])]
        if not np.allclose(res[k], ref, rtol=1e-9, atol=1e-9 * scale):
            rec.violation(key, 'line %r + t %r and plane %r at %r: %r, expected %r' % (o[k], d[k], nrm, pos, res[k], ref))


def run_plane(tier, i, rec):
    nrm = np.array(DIRS[i], dtype=np.float64)
    dirs = np.array(DIRS, dtype=np.float64)
    origins = list(itertools.product((-2, 0, 3), repeat=3))
    positions = list(itertools.product((-5, 0, 4), repeat=3)) if tier == 'thorough' else [(0, 0, 0), (-5, 4, 0), (4, 0, -5), (0, 0, 7), (1, -2, 3)]
    with np.errstate(all='ignore'):
        for pos in positions:
            pos = np.array(pos, dtype=np.float64)
            for sc in (1.0, -0.3):
                # all directions (parallel ones too) in one batch, for every origin
                for org in origins:
                    o = np.tile(np.array(org, dtype=np.float64), (len(dirs), 1))
                    res = gu.get_line_intersections_with_plane(o.copy(), dirs.copy(), pos.copy(), nrm * sc)
                    check_intersections(rec, 'C16:plane', o, dirs, pos, nrm * sc, res)
                    rec.state(('plane', i, tuple(pos), sc, org))
                    rec.traces += 1
                    rec.transitions += len(o)
                # every line of the batch has another origin, in several orders
                for k in range(1, 8):
                    o = np.array([origins[(j * k + k) % len(origins)] for j in range(len(dirs))], dtype=np.float64)
                    d = np.roll(dirs, 3 * k, axis=0)
                    res = gu.get_line_intersections_with_plane(o.copy(), d.copy(), pos.copy(), nrm * sc)
                    check_intersections(rec, 'C16:plane', o, d, pos, nrm * sc, res)
                    rec.traces += 1
                    rec.transitions += len(o)
                # single lines
                for d in dirs:
                    o = np.array([[1.5, -2, 0.25]])
                    res = gu.get_line_intersections_with_plane(o, d[None], pos, nrm * sc)
                    check_intersections(rec, 'C16:plane', o, d[None], pos, nrm * sc, res)
                    rec.traces += 1
                    rec.transitions += 1
                # nan lines stay alone
                o = np.zeros((3, 3))
                d = np.tile(nrm, (3, 1))
                o[1] = np.nan
                res = gu.get_line_intersections_with_plane(o, d, pos, nrm * sc)
                check_intersections(rec, 'C16:plane-nan', o[::2], d[::2], pos, nrm * sc, res[::2])
                if not np.isnan(res[1]).all():
                    rec.violation('C16:plane-nan', 'missing line gives %r' % (res[1],))
    rec.sample({'normal': nrm.tolist()})


def run_dut(tier, i, rec):
    angs = [math.radians(d) for d in (-180, -90, -60, -30, 0, 20, 45, 90, 180)]
    a = angs[i]
    dirs = np.array([d for d in DIRS if d[2] >= 0] + [(0.01, -0.02, 1), (1e-4, 2e-4, 1), (-3, 0.5, 0.1)], dtype=np.float64)
    with np.errstate(all='ignore'):
        for b, c in itertools.product(angs, repeat=2):
            R = ref_rot(a, b, c)
            for pos in ((0, 0, 0), (10, -200, 3000.)):
                o = np.tile(np.array([[5., -3., -7.]]), (len(dirs), 1))
                res = gu.get_line_intersections_with_dut(o.copy(), dirs.copy(), pos[0], pos[1], pos[2], a, b, c)
                rec.state(('dut', a, b, c, pos))
                rec.traces += 1
                rec.transitions += len(o)
                nrm = R.dot([0, 0, 1.])
                use = np.abs(dirs.dot(nrm)) > 1e-9
                check_intersections(rec, 'C16:dut-plane', o[use], dirs[use], np.array(pos, dtype=np.float64), nrm, res[use])
                o = o + np.arange(3 * len(dirs)).reshape(-1, 3) * 7 % 11
                res = gu.get_line_intersections_with_dut(o.copy(), dirs.copy(), pos[0], pos[1], pos[2], a, b, c)
                check_intersections(rec, 'C16:dut-plane', o[use], dirs[use], np.array(pos, dtype=np.float64), nrm, res[use])


def run_trans(tier, i, rec):
    step = 15 if tier == 'thorough' else 30
    angs = [math.radians(d) for d in range(-180, 181, step)]
    tv = (0.0, 1.0, -1.0, 2500.5, -30000.0, 1e-3, -1e6)
    tx = tv[i]
    pts = np.array([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (-12.5, 7000., 0), (3, -2, 1e5), (np.nan, 1, 2)], dtype=np.float64)
    for ty, tz in ([(0.0, 0.0), (5.0, -7.0), (-2000., 1e5)] if tier == 'quick' else list(itertools.product(tv, repeat=2))):
        T = gu.translation_matrix(tx, ty, tz)
        if T.shape != (4, 4) or not np.array_equal(T.dot([1., 2., 3., 1.]), [1. + tx, 2. + ty, 3. + tz, 1.]):
            rec.violation('C16:translation', 'translation_matrix(%r, %r, %r) = %r' % (tx, ty, tz, T))
        for a, b, c in itertools.product(angs, repeat=3):
            R = ref_rot(a, b, c)
            t = np.array([tx, ty, tz])
            rec.state((tx, ty, tz, a, b, c))
            rec.transitions += 2
            rec.traces += 1
            L = gu.local_to_global_transformation_matrix(tx, ty, tz, a, b, c)
            G = gu.global_to_local_transformation_matrix(tx, ty, tz, a, b, c)
            scale = 1e-9 * (1 + 1e5 + np.abs(t).max())
            ref_g = np.array([R.dot(p) + t for p in pts])
            ref_l = np.array([R.T.dot(p - t) for p in pts])
            got_g = np.column_stack(gu.apply_transformation_matrix(pts[:, 0], pts[:, 1], pts[:, 2], L))
            got_l = np.column_stack(gu.apply_transformation_matrix(pts[:, 0], pts[:, 1], pts[:, 2], G))
            if not np.allclose(got_g[:-1], ref_g[:-1], rtol=0, atol=scale):
                rec.violation('C16:local-to-global', 'local to global with %r: %r, expected %r' % ((tx, ty, tz, a, b, c), got_g, ref_g))
            if not np.allclose(got_l[:-1], ref_l[:-1], rtol=0, atol=scale):
                rec.violation('C16:global-to-local', 'global to local with %r: %r, expected %r' % ((tx, ty, tz, a, b, c), got_l, ref_l))
            if not np.allclose(G.dot(L), np.eye(4), rtol=0, atol=scale):
                rec.violation('C16:inverse', 'the transformations with %r are not inverse to each other' % ((tx, ty, tz, a, b, c),))
        rot = np.column_stack(gu.apply_rotation_matrix(pts[:, 0], pts[:, 1], pts[:, 2], R))
        if not np.allclose(rot[:-1], [R.dot(p) for p in pts[:-1]], rtol=0, atol=1e-4):
            rec.violation('C16:apply-rotation', 'apply_rotation_matrix %r' % (rot,))


def run_skew(tier, i, rec):
    vals = (-2., 0., 1., 3.5)
    vecs = np.array(list(itertools.product(vals, repeat=3)))
    for v in vecs:
        S = gu.skew(v)
        rec.state(('skew', tuple(v)))
        rec.transitions += 1
        rec.traces += 1
        for u in ((1., 0, 0), (0, 1., 0), (0, 0, 1.), (1., 2., 3.)):
            if not np.allclose(S.dot(u), np.cross(v, u)):
                rec.violation('C16:skew', 'skew(%r) . %r = %r' % (v, u, S.dot(u)))
        for u in vecs:
            n = gu.get_plane_normal(v, u)
            rec.transitions += 1
            if abs(np.dot(n, u)) > 1e-9 or abs(np.dot(n, v)) > 1e-9 or not np.allclose(n, np.cross(v, u)):
                rec.violation('C16:normal', 'normal of %r %r = %r' % (v, u, n))
    for n in (1, 2, len(vecs)):
        S = gu.skew(vecs[:n])
        if S.shape != (n, 3, 3) or any(not np.allclose(S[k].dot([1., 2., 3.]), np.cross(vecs[k], [1., 2., 3.])) for k in range(n)):
            rec.violation('C16:skew', 'skew of %d vectors' % n)


def run_case(case, rec):
    {'rot': run_rot, 'sph': run_sph, 'plane': run_plane, 'dut': run_dut, 'trans': run_trans, 'skew': run_skew}[case[0]](case[1], case[2], rec)
