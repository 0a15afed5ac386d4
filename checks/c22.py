'''C22: simulated data (deterministic beams against an own ray tracing and diffusion model; random beams by consistency of the devices).'''
import collections
import itertools
import math
import os

import numpy as np
import tables as tb

from mc import core
from checks import common
from beam_telescope_analysis.tools import simulate_data

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'positions: pencil beams on a grid of 15 x 15 positions across pixels, edges and corners of three devices, 4 beam angles, 3 rotations of the devices; charge sharing: the grid with 6 settings of diffusion (bias, temperature, thickness, pixel size, correction factor); histories: 0..4 tracks per event, 1..9 events, all chunk sizes 1..10, 1..8 devices; random beams: 6 seeds, 5 efficiencies, thresholds, noise, shuffling, scattering',
    'thorough': 'as quick with 41 x 41 positions, 12 events and 40 seeds',
}
RULE = 'states: distinct settings of the simulation; transitions: hits compared; traces: simulations'
ASSUMPTIONS = ['position discretization is switched on', 'beams are not parallel to a device', 'sizes of the charge cloud for which 5 pixels per particle suffice on average (otherwise the simulation raises an error)',
               'the distributions of random beams are judged with a margin of 5 standard deviations', 'the values of the scattering angle and of the deposited charge are not judged']
K_B = 8.6173324e-5


def warmup():
    common.quiet(simulate_data)
    d = core.scratch()
    try:
        for sharing in (False, True):
            s = simulator([{}, {}], digitization_charge_sharing=sharing, tracks_per_event=2, beam_position=(-2000., -2000.))
            simulate(s, d, 3)
    except Exception:
        pass  # reported by the cases


def simulator(duts, seed=0, **settings):
    '''Simulation with all random processes switched off. duts: changes of the settings of the devices.'''
    s = simulate_data.SimulateData(seed)
    s.n_duts = len(duts)
    s.beam_position, s.beam_position_sigma, s.beam_angle, s.beam_angle_sigma, s.beam_direction = (0., 0.), (0, 0), 0., 0, (0., 0.)
    s.tracks_per_event, s.tracks_per_event_sigma = 1, 0
    s.digitization_charge_sharing = False
    full = [dict(dict(z=1e4 * i, offset=(-200., -150.), rotation=(0., 0., 0.), bias=50., thickness=100., threshold=0., noise=0., size=(50., 40.), n=(8, 7), eff=1., budget=0.), **d) for i, d in enumerate(duts)]
    for name, attr in dict(z='z_positions', offset='offsets', rotation='rotations', bias='dut_bias', thickness='dut_thickness', threshold='dut_threshold', noise='dut_noise', size='dut_pixel_size', n='dut_n_pixel', eff='dut_efficiencies', budget='dut_material_budget').items():
        setattr(s, attr, [f[name] for f in full])
    for name, value in settings.items():
        if not hasattr(s, name):
            raise AttributeError(name)
        setattr(s, name, value)
    s.full = full
    return s


def simulate(s, d, n, chunk=None):
    base = os.path.join(d, 'sim')
    s.create_data_and_store(base, n, **({} if chunk is None else dict(chunk_size=chunk)))
    return [common.read(base + '_DUT%d.h5' % i, 'Hits') for i in range(s.n_duts)]


def valid(rec, what, s, hits, n):
    '''Positions in the device, sorted events.'''
    for i, h in enumerate(hits):
        cols, rows = s.full[i]['n']
        e = h['event_number']
        rec.transitions += len(h)
        if len(h) and not (h['column'].min() >= 1 and h['column'].max() <= cols and h['row'].min() >= 1 and h['row'].max() <= rows):
            rec.violation('C22:position', '%s: device %d of %d x %d pixels has hits at columns %r and rows %r' % (what, i, cols, rows, np.unique(h['column']).tolist(), np.unique(h['row']).tolist()))
            return False
        if (np.diff(e) < 0).any() or (len(e) and (e[0] < 0 or e[-1] >= n)):
            rec.violation('C22:events', '%s: event numbers of device %d are %r, expected increasing in [0, %d)' % (what, i, e.tolist(), n))
            return False
    return True


def crossing(dut, pos, theta, phi):
    '''Local position (from the corner of the pixel matrix) where the particle crosses the device.'''
    R = common.rotation(*dut['rotation'])
    T = np.array([dut['offset'][0], dut['offset'][1], dut['z']])
    u = np.array([np.cos(phi) * np.sin(theta), np.sin(phi) * np.sin(theta), np.cos(theta)])
    o = np.array([pos[0], pos[1], 0.])
    o = o + u * ((T - o) @ R[:, 2]) / (u @ R[:, 2])
    return ((o - T) @ R)[:2]


def pixel_of(dut, local):
    return tuple(int(math.floor(p / s)) + 1 for p, s in zip(local, dut['size']))


def at_border(dut, local):
    return any(abs(p / s - round(p / s)) < 1e-7 for p, s in zip(local, dut['size']))


TILTS = [((0., 0., 0.),) * 3, ((0.3, 0., 0.), (0., -0.4, 0.), (0., 0., 0.5)), ((0.2, 0.3, -1.1), (math.pi, 0., 0.05), (0., 0.7, math.pi / 2))]
BEAMS = [(0., 0.), (3., 0.), (2., 2.5), (10., 4.4)]


def positions(tier, dut, step=None):
    '''Grid with positions near to all borders of some pixels.'''
    n = 15 if tier == 'quick' else 41
    w, h = [a * b for a, b in zip(dut['size'], dut['n'])]
    # denser than the pixels and beyond the device
    return [(dut['offset'][0] - 0.13 * w + 1.26 * w * i / (n - 1) + .01, dut['offset'][1] - 0.15 * h + 1.3 * h * j / (n - 1) + .02) for i in range(n) for j in range(n)]


def run_positions(rec, tier, tilt, beam):
    d = core.scratch()
    theta, phi = BEAMS[beam]
    duts = [dict(rotation=r) for r in TILTS[tilt]]
    duts[1].update(n=(20, 3), size=(20., 110.), offset=(-180., -160.), z=3e3)
    duts[2].update(n=(1, 5), size=(350., 70.), z=9e3)
    for pos in positions(tier, simulator([{}]).full[0]):
        s = simulator(duts, beam_position=pos, beam_angle=theta, beam_direction=(phi, phi))
        what = 'particle at %r with angles %r, devices %r' % (pos, (theta, phi), s.full)
        hits = simulate(s, d, 2)
        rec.traces += 1
        rec.state((tilt, beam, pos))
        if not valid(rec, what, s, hits, 2):
            return
        for i, h in enumerate(hits):
            local = crossing(s.full[i], pos, theta / 1e3, phi)
            if at_border(s.full[i], local):
                continue
            p = pixel_of(s.full[i], local)
            exp = [(e,) + p for e in (0, 1)] if all(1 <= a <= b for a, b in zip(p, s.full[i]['n'])) else []
            got = [(int(a['event_number']), int(a['column']), int(a['row'])) for a in h]
            if got != exp:
                rec.violation('C22:pixel', '%s: device %d was crossed at %r, hits (event, column, row) are %r, expected %r' % (what, i, local.tolist(), got, exp))
                return


def cdf(v, sigma):
    return 0.5 * (1 + math.erf(v / (math.sqrt(2) * sigma)))


def fractions(dut, s, local, margin=0):
    '''Share of the charge of each pixel of the device (and of a margin around it).'''
    sigma = dut['thickness'] / 2. * math.sqrt(2 * s.temperature / dut['bias'] * K_B) * s.digitization_sigma_cc
    f = [[cdf(b - p, sigma) - cdf(a - p, sigma) for a, b in ((k * w, (k + 1) * w) for k in range(-margin, n + margin))] for p, w, n in zip(local, dut['size'], dut['n'])]
    return {(i + 1 - margin, j + 1 - margin): a * b for i, a in enumerate(f[0]) for j, b in enumerate(f[1])}


SHARING = [dict(), dict(bias=5.), dict(thickness=300.), dict(size=(10., 9.), n=(12, 11), offset=(-60., -50.)), dict(size=(15., 300.), n=(9, 2), thickness=200.), dict(size=(200., 12.), n=(2, 10), bias=20.)]


def run_sharing(rec, tier, kind, mode):
    d = core.scratch()
    extra = [dict(), dict(temperature=200., digitization_sigma_cc=1.), dict(digitization_sigma_cc=2.)][mode]
    for pos in positions(tier, simulator([SHARING[kind]]).full[0]):
        # tracks_per_event: the space for additional hits is for five pixels per particle
        s = simulator([SHARING[kind]], beam_position=pos, digitization_charge_sharing=True, tracks_per_event=2, **extra)
        dut = s.full[0]
        local = crossing(dut, pos, 0., 0.)
        if at_border(dut, local):
            continue
        f = fractions(dut, s, local)
        what = 'particle at %r of device %r with charge sharing, temperature %r, charge cloud correction %r' % (local.tolist(), dut, s.temperature, s.digitization_sigma_cc)
        try:
            h = simulate(s, d, 1)[0]
        except RuntimeError as e:
            tb.file._open_files.close_all()
            if sum(v >= 0.01 for v in fractions(dut, s, local, 5).values()) <= 5:
                rec.violation('C22:sharing', '%s: RuntimeError: %s' % (what, e))
                return
            rec.extra['particles with more pixels than foreseen'] += 1
            continue
        rec.traces += 1
        rec.state((kind, mode, pos))
        if not valid(rec, what, s, [h], 1):
            return
        seed = pixel_of(dut, local)
        # the hits of the two particles follow each other; both have the same pixels
        if len(h) % 2:
            rec.violation('C22:sharing', '%s: two equal particles created %d hits' % (what, len(h)))
            return
        parts = [h[:len(h) // 2], h[len(h) // 2:]]
        got = [[(int(a['column']), int(a['row'])) for a in p] for p in parts]
        if got[0] != got[1] or len(set(got[0])) != len(got[0]):
            rec.violation('C22:sharing', '%s: two equal particles created hits %r' % (what, got))
            return
        missing = sum(v for k, v in f.items() if k not in got[0] and v >= 0.01)
        inside = all(1 <= a <= b for a, b in zip(seed, dut['n']))
        if any(f[k] < 0.01 - 1e-9 for k in got[0]) or missing > 0.01 + 1e-9 or (inside and seed not in got[0] and f[seed] > 0.01 + 1e-9):
            rec.violation('C22:sharing', '%s: hits %r, share of charge of all pixels with more than 1%%: %r' % (what, got[0], {k: round(v, 4) for k, v in f.items() if v >= 0.01}))
            return
        for p in parts:
            total = [float(a['charge']) / f[k] for a, k in zip(p, got[0])]
            if total and (max(total) - min(total)) > 1e-4 * abs(max(total)) + 1e-9:
                rec.violation('C22:charge', '%s: charges %r of pixels %r do not share a charge by %r' % (what, p['charge'].tolist(), got[0], [f[k] for k in got[0]]))
                return


def run_events(rec, tier, n_duts):
    '''Number of events and tracks, chunks, reproducibility.'''
    d = core.scratch()
    top = 10 if tier == 'quick' else 13
    for tracks, n in itertools.product(range(5), range(1, top)):
        for chunk in list(range(1, top + 1)) + [None]:
            what = '%d events, %d tracks per event, chunk size %r, %d devices' % (n, tracks, chunk, n_duts)
            s = simulator([{}] * n_duts, tracks_per_event=tracks, beam_position=(13., 7.))
            hits = simulate(s, d, n, chunk)
            rec.traces += 1
            rec.state((tracks, n, chunk, n_duts))
            if len(hits) != n_duts or not valid(rec, what, s, hits, n):
                return
            exp = np.repeat(np.arange(n), tracks)
            for i, h in enumerate(hits):
                if not np.array_equal(h['event_number'], exp):
                    rec.violation('C22:events', '%s: event numbers of device %d are %r, expected %r' % (what, i, h['event_number'].tolist(), exp.tolist()))
                    return
                if set(zip(h['column'].tolist(), h['row'].tolist())) - {pixel_of(s.full[i], crossing(s.full[i], (13., 7.), 0., 0.))}:
                    rec.violation('C22:pixel', '%s: device %d has hits at %r' % (what, i, set(zip(h['column'].tolist(), h['row'].tolist()))))
                    return
            if sorted(os.listdir(d)) != sorted('sim_DUT%d.h5' % i for i in range(n_duts)):
                rec.violation('C22:events', '%s: files %r created' % (what, sorted(os.listdir(d))))
                return
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
    # the standard settings are valid for any number of devices
    for order in ([n_duts], [n_duts, 8], [8, n_duts], [2, 7, n_duts]):
        s = simulate_data.SimulateData(1)
        for k in order:
            s.n_duts = k
        what = 'standard settings, numbers of devices set: %r' % (order,)
        try:
            s.create_data_and_store(os.path.join(d, 'sim'), 3)
        except Exception as e:
            rec.violation('C22:standard-settings', '%s: %s: %s' % (what, type(e).__name__, str(e)[:200]))
            return
        rec.traces += 1
        rec.state(what)
        if sorted(os.listdir(d)) != sorted('sim_DUT%d.h5' % i for i in range(order[-1])):
            rec.violation('C22:events', '%s: files %r created' % (what, sorted(os.listdir(d))))
            return
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))


def by_event(h, n, charge=False):
    out = [[] for _ in range(n)]
    for a in h:
        out[int(a['event_number'])].append((int(a['column']), int(a['row'])))
    return [sorted(o) for o in out]


def run_random(rec, tier, seed):
    d = core.scratch()
    n = 300
    big = dict(n=(400, 500), size=(50., 40.), offset=(-1e4, -1e4))
    random = dict(beam_position=(311., -187.), beam_position_sigma=(700., 250.), tracks_per_event=3, tracks_per_event_sigma=1)

    def sim(duts, **kw):
        s = simulator([dict(big, **x) for x in duts], seed=seed, **dict(random, **kw))
        what = 'seed %d, devices %r, %r' % (seed, duts, kw)
        rec.state(what)
        return s, what

    def run(s, what, n=n, chunk=None):
        hits = simulate(s, d, n, chunk)
        rec.traces += 1
        return hits if valid(rec, what, s, hits, n) else None

    # reproducible, also after other random numbers were drawn
    for chunk in (None, 70, 299):
        for kw in (dict(), dict(digitization_charge_sharing=True, beam_angle_sigma=2., beam_direction=(0., 2 * np.pi))):
            s, what = sim([dict(noise=20., eff=.8, budget=.01), dict(threshold=500.), {}], **kw)
            first = run(s, what, chunk=chunk)
            np.random.seed(99)
            np.random.uniform(size=7)
            s, what = sim([dict(noise=20., eff=.8, budget=.01), dict(threshold=500.), {}], **kw)
            second = run(s, what, chunk=chunk)
            if first is None or second is None:
                return
            s.set_random_seed(seed)
            third = run(s, what, chunk=chunk)
            for other in (second, third):
                if not all(common.same(a, b) for a, b in zip(first, other)):
                    rec.violation('C22:reproducible', '%s, chunk size %r: two simulations with the same seed differ' % (what, chunk))
                    return
            s.set_random_seed(seed + 1)
            other = run(s, what, chunk=chunk)
            if all(len(a) == len(b) and np.array_equal(a['column'], b['column']) for a, b in zip(first, other)):
                rec.violation('C22:reproducible', '%s, chunk size %r: simulations with different seed do not differ' % (what, chunk))
                return
    # parallel beam: each device sees the same particles, in any order
    for shuffle in (True, False):
        s, what = sim([{}, {}, {}], digitization_shuffle_hits=shuffle)
        hits = run(s, what)
        if hits is None:
            return
        ref = by_event(hits[0], n)
        for i in (1, 2):
            if by_event(hits[i], n) != ref:
                rec.violation('C22:particles', '%s: the devices do not see the same particles of a parallel beam' % what)
                return
        ordered = [np.array_equal(hits[0]['column'], hits[i]['column']) for i in (1, 2)]
        if all(ordered) if shuffle else not all(ordered):
            rec.violation('C22:shuffle', '%s: same order of hits in all devices: %r' % (what, ordered))
            return
        counts = np.array([len(e) for e in ref])
        for axis, (name, size, off) in enumerate((('column', 50., -1e4), ('row', 40., -1e4))):
            x = (hits[0][name] - 0.5) * size + off
            mean, sigma = random['beam_position'][axis], random['beam_position_sigma'][axis]
            m = len(x)
            if not (abs(x.mean() - mean) < 5 * sigma / math.sqrt(m) + 1 and abs(x.std() / sigma - 1) < 5 / math.sqrt(2 * m) + 0.01):
                rec.violation('C22:beam', '%s: beam in %s has mean %f and sigma %f, expected %f and %f' % (what, name, x.mean(), x.std(), mean, sigma))
                return
        if counts.min() < 0 or abs(counts.mean() - 2.5) > 0.7 or counts.std() < 0.6:
            rec.violation('C22:beam', '%s: %r tracks per event on average' % (what, counts.mean()))
            return
    # tracks with different angles are straight: two devices predict the third
    for kw in (dict(beam_angle=2., beam_direction=(0., 2 * np.pi - 1e-9)), dict(beam_angle_sigma=3., beam_direction=(0., 2 * np.pi - 1e-9)), dict(beam_angle=4., beam_angle_sigma=1., beam_direction=(1., 2.))):
        s, what = sim([dict(z=0.), dict(z=2e4), dict(z=6e4)], **dict(kw, tracks_per_event=1, tracks_per_event_sigma=0))
        hits = run(s, what)
        if hits is None:
            return
        if any(len(h) != n for h in hits):
            rec.violation('C22:particles', '%s: %r hits of %d particles' % (what, [len(h) for h in hits], n))
            return
        x = [np.column_stack([(h['column'] - 0.5) * 50. - 1e4, (h['row'] - 0.5) * 40. - 1e4]) for h in hits]
        miss = np.abs(x[0] + (x[1] - x[0]) * 3 - x[2]) / (50., 40.)
        slope = (x[2] - x[0]) / 6e4
        theta = np.hypot(*slope.T)
        lo, hi = max(0, kw.get('beam_angle', 0.) - 5 * kw.get('beam_angle_sigma', 0.)), kw.get('beam_angle', 0.) + 5 * kw.get('beam_angle_sigma', 0.)
        if miss.max() > 3.01 or theta.min() < lo / 1e3 - 2e-3 or theta.max() > hi / 1e3 + 2e-3:
            rec.violation('C22:straight', '%s: hits are up to %f pixels from straight lines, angles %f to %f' % (what, miss.max(), theta.min(), theta.max()))
            return
        if kw['beam_direction'][0] > 0:
            phi = np.arctan2(slope[:, 1], slope[:, 0])[theta > 3e-3]
            if not (len(phi) and phi.min() > 0.5 and phi.max() < 2.5):
                rec.violation('C22:beam', '%s: directions %f to %f' % (what, phi.min(), phi.max()))
                return
    # efficiency, noise and threshold remove particles of their device only
    for eff in (0., 0.25, 0.5, 0.9, 1.):
        s, what = sim([{}, dict(eff=eff), {}])
        hits = run(s, what)
        if hits is None:
            return
        ref, some = by_event(hits[0], n), by_event(hits[1], n)
        lost = len(hits[0]) - len(hits[1])
        if by_event(hits[2], n) != ref or any(collections.Counter(b) - collections.Counter(a) for a, b in zip(ref, some)) or abs(lost - (1 - eff) * len(hits[0])) > 1:
            rec.violation('C22:efficiency', '%s: %d of %d hits were removed, or a hit of no particle was added, or another device was changed' % (what, lost, len(hits[0])))
            return
    s, what = sim([{}, {}])
    plain = run(s, what)
    for thr in (100., 700., 1500., 1e5):
        s, what = sim([dict(threshold=thr), {}])
        hits = run(s, what)
        if plain is None or hits is None:
            return
        keep = plain[0]['charge'] * 10. >= thr
        if (hits[0]['charge'] * 10. < thr * (1 - 1e-6)).any() or abs(len(hits[0]) - keep.sum()) > 0.2 * len(keep) or by_event(hits[1], n) != by_event(plain[1], n) or any(collections.Counter(b) - collections.Counter(a) for a, b in zip(by_event(plain[0], n), by_event(hits[0], n))):
            rec.violation('C22:threshold', '%s: hits have charges of at least %r electrons, %d of %d hits left (%d expected)' % (what, hits[0]['charge'].min() * 10. if len(hits[0]) else None, len(hits[0]), len(keep), keep.sum()))
            return
    s, what = sim([dict(noise=50.), {}])
    hits = run(s, what)
    if hits is None:
        return
    if by_event(hits[0], n) != by_event(hits[1], n):
        rec.violation('C22:noise', '%s: noise of the charge changed hits' % what)
        return
    # scattering starts behind the device
    pencil = dict(beam_momentum=150., beam_position_sigma=(0, 0), tracks_per_event=1, tracks_per_event_sigma=0)
    for budget in ((0., .01, 0., 0.), (.02, 0., 0., 0.), (0., 0., .01, 0.), (0., 0., 0., 1.)):
        s, what = sim([dict(budget=b) for b in budget], **pencil)
        hits = run(s, what)
        if hits is None:
            return
        first = [i for i, b in enumerate(budget) if b][0]
        theta = 13.6 / s.beam_momentum * math.sqrt(budget[first]) * (1 + 0.038 * math.log(budget[first]))
        for i, h in enumerate(hits):
            k = set(zip(h['column'].tolist(), h['row'].tolist()))
            straight = pixel_of(s.full[i], crossing(s.full[i], random['beam_position'], 0., 0.))
            if len(h) != n or (i <= first and k != {straight}) or (i > first and len(k) < 2):
                rec.violation('C22:scattering', '%s: device %d has %d hits of %d particles at %d positions, first scattering device %d' % (what, i, len(h), n, len(k), first))
                return
            far = max(max(abs(c - straight[0]) * 50., abs(r - straight[1]) * 40.) for c, r in k)
            if i > first and not far < 6 * theta * (i - first) * 1e4 + 50.:
                rec.violation('C22:scattering', '%s: device %d has hits %f um away' % (what, i, far))
                return


def cases(tier):
    out = [['random', tier, s] for s in range(6 if tier == 'quick' else 40)]
    out += [['sharing', tier, k, m] for k in range(len(SHARING)) for m in range(3)]
    out += [['positions', tier, t, b] for t in range(len(TILTS)) for b in range(len(BEAMS))]
    out += [['events', tier, n] for n in (1, 2, 3, 6, 8)]
    return out


def run_case(case, rec):
    globals()['run_' + case[0]](rec, *case[1:])
