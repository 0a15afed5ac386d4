'''C25: every single failing file operation of every analysis step.'''
import os
import shutil
import signal
import threading

import numpy as np
import tables as tb

from mc import core
from checks import common
from checks.c21 import cross, euler, lines
from beam_telescope_analysis import dut_alignment, hit_analysis, result_analysis, track_analysis
from beam_telescope_analysis.telescope import telescope as telescope_module
from beam_telescope_analysis.telescope.telescope import Telescope
from beam_telescope_analysis.tools import analysis_utils, data_selection, smc

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'each of 21 analysis steps on a telescope of 4 devices, 120 particles, several chunks; every open, read, create, append, assignment, flush, rename, remove and close operation on a data file and every opening of a configuration file fails once (operating system error); afterwards the step is repeated',
    'thorough': 'as quick, also with failures of the HDF5 library, and with every pair of failing operations of the same file in the short steps',
}
RULE = 'states: distinct failing operations (step, operation, file, node, number); transitions: operations observed; traces: runs of a step'
ASSUMPTIONS = ['an operation fails as a whole (as reported by the library)', 'one failure per run (quick)', 'failures while plotting are not injected', 'worker functions run in this process (the process pool is explored by C01)']

N = 4
TEMPLATE = None
TEMPLATE_ERROR = None
LIMIT = 100  # seconds until a run counts as hanging


# ---------------------------------------------------------------- fault injection

class Injected(OSError):
    pass


class InjectedHDF5(tb.HDF5ExtError):
    pass


class Plan(object):
    def __init__(self):
        self.lock = threading.RLock()
        self.local = threading.local()
        self.clear()

    def clear(self, targets=(), error=Injected):
        self.seen = {}
        self.order = []
        self.targets = set(targets)
        self.hit = []
        self.error = error
        self.active = False

    def operation(self, op, path, node):
        '''Returns if this operation has to fail.'''
        with self.lock:
            base = (op, os.path.basename(path), node)
            k = self.seen.get(base, 0)
            self.seen[base] = k + 1
            ident = base + (k,)
            self.order.append(ident)
            if ident in self.targets:
                self.hit.append(ident)
                return True
            return False


PLAN = Plan()


def wrap(owner, name, where, after=False):
    original = getattr(owner, name)

    def wrapped(*args, **kwargs):
        if not PLAN.active or getattr(PLAN.local, 'depth', 0):
            return original(*args, **kwargs)
        path, node = where(*args, **kwargs)
        fail = PLAN.operation(name, path, node)
        if fail and not after:
            raise PLAN.error('injected failure of %s' % name)
        PLAN.local.depth = 1
        try:
            ret = original(*args, **kwargs)
        finally:
            PLAN.local.depth = 0
        if fail:
            raise PLAN.error('injected failure of %s' % name)
        return ret

    wrapped.__name__ = name
    wrapped.__doc__ = original.__doc__
    setattr(owner, name, wrapped)


def of_leaf(self, *args, **kwargs):
    return self._v_file.filename, self._v_pathname


def of_file(self, *args, **kwargs):
    return self.filename, ''


def of_create(self, where=None, name=None, *args, **kwargs):
    return self.filename, str(name)


def install():
    wrap(tb, 'open_file', lambda filename=None, mode='r', *a, **k: (filename, mode))
    for n in ('create_table', 'create_carray', 'create_earray', 'create_array', 'create_group', 'rename_node', 'remove_node'):
        wrap(tb.File, n, of_create)
    wrap(tb.File, 'close', of_file, after=True)
    wrap(tb.Leaf, 'flush', of_leaf, after=True)
    for cls, names in ((tb.Table, ('flush', 'append', 'read', '__getitem__', 'read_where')), (tb.Array, ('read', '__getitem__', '__setitem__')), (tb.EArray, ('append',))):
        for n in names:
            if n in cls.__dict__:
                wrap(cls, n, of_leaf, after=n == 'flush')

    def open_text(path, mode='r', *args, **kwargs):
        if PLAN.active and PLAN.operation('open', path, mode):
            raise PLAN.error('injected failure of open')
        return open(path, mode, *args, **kwargs)

    telescope_module.open = open_text


class Hang(Exception):
    pass


def alarm(*args):
    raise Hang('does not end')


# ---------------------------------------------------------------- the steps

def build(d):
    '''All files of an analysis of exact tracks.'''
    conf = os.path.join(d, 'tel.yaml')
    ori = [(0., 0., 0.), (0.1, 0., 0.), (0., 0.1, 0.2), (np.pi, 0., 0.)]
    duts = [common.pixel(20, 20, 500., 500., material_budget=0.001, translation_x=30. * i, translation_y=-20. * i, translation_z=4e4 * i, **euler(common.rotation(*ori[i]))) for i in range(N)]
    common.telescope(conf, duts)
    n = 120
    o, u = lines(n, 3, 1e-3)
    o[:, :2] *= 0.8
    rng = np.random.RandomState(4)
    for i, p in enumerate(duts):
        l = cross(o, u, common.rotation(*ori[i]), np.array([p['translation_' + a] for a in 'xyz']))
        ok = (np.abs(l) < 4990).all(axis=1)
        h = np.zeros(ok.sum(), dtype=[('event_number', 'i8'), ('frame', 'u2'), ('column', 'u2'), ('row', 'u2'), ('charge', 'f4')])
        h['event_number'], h['column'], h['row'], h['charge'] = np.arange(n)[ok] // 2, np.floor((l[ok, 0] + 5000) / 500) + 1, np.floor((l[ok, 1] + 5000) / 500) + 1, rng.randint(5, 60, ok.sum())
        common.write(os.path.join(d, 'hit%d.h5' % i), Hits=h)
    p = lambda name: os.path.join(d, name)
    for i in range(N):
        dut = Telescope(conf)[i]
        with tb.open_file(p('mask%d.h5' % i), 'w') as f:
            f.create_carray(f.root, 'NoisyPixelMask', obj=(np.indices((20, 20)).sum(axis=0) % 13 == 7).astype('u1'))
        hit_analysis.cluster_hits(dut, p('hit%d.h5' % i), output_cluster_file=p('clu%d.h5' % i), input_mask_file=p('mask%d.h5' % i), plot=False)
    clusters = [p('clu%d.h5' % i) for i in range(N)]
    hit_analysis.correlate(conf, clusters, p('corr.h5'), resolution=(200., 200.), plot=False)
    hit_analysis.merge_cluster_data(conf, clusters, p('merged.h5'))
    track_analysis.find_tracks(conf, p('merged.h5'), p('cand.h5'))
    track_analysis.fit_tracks(conf, p('cand.h5'), p('tracks.h5'), select_duts=list(range(N)), select_fit_duts=list(range(N)), select_hit_duts=list(range(N)), exclude_dut_hit=False, quality_distances=None, isolation_distances=None, plot=False)


def merged_names(d):
    return [os.path.join(d, 'clu%d.h5' % i) for i in range(N)]


def steps():
    ha, ta, ra, da, ds = hit_analysis, track_analysis, result_analysis, dut_alignment, data_selection
    p = os.path.join
    all_duts = list(range(N))
    C = 37  # several chunks
    fit = dict(select_duts=[1, 2], select_fit_duts=all_duts, select_hit_duts=all_duts, exclude_dut_hit=False, quality_distances=(400., 400.), isolation_distances=(10., 10.), plot=False, chunk_size=C)
    return [
        ('convert', ['tel.yaml', 'hit1.h5', 'hit2.h5'], lambda d: ha.convert(p(d, 'tel.yaml'), [p(d, 'hit1.h5'), p(d, 'hit2.h5')], [p(d, 'o1.h5'), p(d, 'o2.h5')], select_duts=[1, 2], chunk_size=C)),
        ('check', ['tel.yaml', 'hit1.h5', 'hit2.h5'], lambda d: ha.check(p(d, 'tel.yaml'), [p(d, 'hit1.h5'), p(d, 'hit2.h5')], [p(d, 'o1.h5'), p(d, 'o2.h5')], select_duts=[1, 2], plot=False, chunk_size=C)),
        ('mask', ['tel.yaml', 'hit1.h5', 'hit2.h5'], lambda d: ha.mask(p(d, 'tel.yaml'), [p(d, 'hit1.h5'), p(d, 'hit2.h5')], [p(d, 'o1.h5'), p(d, 'o2.h5')], select_duts=[1, 2], thresholds=5., plot=False, chunk_size=C)),
        ('cluster', ['tel.yaml', 'hit1.h5', 'mask1.h5'], lambda d: ha.cluster(p(d, 'tel.yaml'), [p(d, 'hit1.h5')], [p(d, 'mask1.h5')], [p(d, 'o1.h5')], select_duts=[1], plot=False, chunk_size=C)),
        ('cluster-no-mask', ['tel.yaml', 'hit1.h5'], lambda d: ha.cluster(p(d, 'tel.yaml'), [p(d, 'hit1.h5')], None, [p(d, 'o1.h5')], select_duts=[1], plot=False, chunk_size=C)),
        ('correlate', ['tel.yaml'] + ['clu%d.h5' % i for i in range(N)], lambda d: ha.correlate(p(d, 'tel.yaml'), merged_names(d), p(d, 'o.h5'), resolution=(200., 200.), plot=False, chunk_size=C)),
        ('merge', ['tel.yaml'] + ['clu%d.h5' % i for i in range(N)], lambda d: ha.merge_cluster_data(p(d, 'tel.yaml'), merged_names(d), p(d, 'o.h5'), chunk_size=C)),
        ('find', ['tel.yaml', 'merged.h5'], lambda d: ta.find_tracks(p(d, 'tel.yaml'), p(d, 'merged.h5'), p(d, 'o.h5'), chunk_size=C)),
        ('fit', ['tel.yaml', 'cand.h5'], lambda d: ta.fit_tracks(p(d, 'tel.yaml'), p(d, 'cand.h5'), p(d, 'o.h5'), **fit)),
        ('fit-kalman', ['tel.yaml', 'cand.h5'], lambda d: ta.fit_tracks(p(d, 'tel.yaml'), p(d, 'cand.h5'), p(d, 'o.h5'), method='kalman', beam_energy=5e3, particle_mass=0.511, **fit)),
        ('select', ['tel.yaml', 'tracks.h5'], lambda d: ds.select_tracks(p(d, 'tel.yaml'), p(d, 'tracks.h5'), [1, 2], p(d, 'o.h5'), query='(track_chi_red < 1000)', select_hit_duts=all_duts, chunk_size=C)),
        ('reduce', ['hit1.h5'], lambda d: ds.reduce_events(p(d, 'hit1.h5'), 20, p(d, 'o.h5'), chunk_size=C)),
        ('combine', ['hit1.h5', 'hit2.h5'], lambda d: ds.combine_files([p(d, 'hit1.h5'), p(d, 'hit2.h5')], p(d, 'o.h5'), names='Hits', event_number_offsets=[0, 1000], chunk_size=C)),
        ('residuals', ['tel.yaml', 'tracks.h5'], lambda d: ra.calculate_residuals(p(d, 'tel.yaml'), p(d, 'tracks.h5'), [1, 2], p(d, 'o.h5'), plot=False, chunk_size=C)),
        ('angles', ['tel.yaml', 'tracks.h5'], lambda d: ra.histogram_track_angle(p(d, 'tel.yaml'), p(d, 'tracks.h5'), [1, 2], p(d, 'o.h5'), plot=False, chunk_size=C)),
        ('efficiency', ['tel.yaml', 'tracks.h5'], lambda d: ra.calculate_efficiency(p(d, 'tel.yaml'), p(d, 'tracks.h5'), [1, 2], resolutions=(1000., 1000.), output_efficiency_file=p(d, 'o.h5'), plot=False, chunk_size=C)),
        ('purity', ['tel.yaml', 'tracks.h5'], lambda d: ra.calculate_purity(p(d, 'tel.yaml'), p(d, 'tracks.h5'), [1, 2], bin_size=[(2000., 2000.)] * 2, output_purity_file=p(d, 'o.h5'), minimum_hit_density=1, cut_distance=500, plot=False, chunk_size=C)),
        ('apply', ['tel.yaml', 'tracks.h5'], lambda d: da.apply_alignment(p(d, 'tel.yaml'), p(d, 'tracks.h5'), p(d, 'o.h5'), chunk_size=C)),
        ('transformation', ['tracks.h5', '*tel.yaml'], lambda d: da.calculate_transformation(p(d, 'tel.yaml'), p(d, 'tracks.h5'), [1, 2], chunk_size=C)),
        ('prealign', ['tel.yaml', 'corr.h5'], lambda d: da.prealign(p(d, 'tel.yaml'), p(d, 'corr.h5'), p(d, 'o.yaml'), select_duts=[1], plot=False)),
        ('align', ['tel.yaml', 'merged.h5'], lambda d: da.align(p(d, 'tel.yaml'), p(d, 'merged.h5'), p(d, 'o.yaml'), select_duts=[[2]], select_telescope_duts=[0, 1, 3], select_fit_duts=[0, 1, 3], select_hit_duts=all_duts, max_iterations=2, quality_distances=None, isolation_distances=None, track_chi2=1e4, plot=False, chunk_size=C)),
    ]


def tree(path):
    '''Contents of a file without the times of creation.'''
    if not path.endswith('.h5'):
        return common.content(path)
    out = {}
    with tb.open_file(path, 'r') as f:
        for node in f.walk_nodes('/'):
            if isinstance(node, tb.Leaf) and not node._v_pathname.startswith('/arguments'):
                a = node[:]
                out[node._v_pathname] = (str(a.dtype), a.shape, a.tobytes())
    return out


def results(d, inputs):
    return {n: tree(os.path.join(d, n)) for n in sorted(os.listdir(d)) if n not in inputs}


def call(func, d):
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT)
    PLAN.active = True
    try:
        return None, func(d)
    except Exception as e:
        return e, None
    finally:
        PLAN.active = False
        signal.alarm(0)


def close_all():
    left = opened()
    tb.file._open_files.close_all()
    return left


def opened():
    return sorted((os.path.basename(f.filename), f.mode) for f in list(tb.file._open_files.handlers))


def memoized(func):
    '''Slow statistics of numbers (no file is used), the same in each run.'''
    known = {}

    def wrapped(*args, **kwargs):
        key = str([(str(np.asarray(a).dtype), np.asarray(a).shape, np.asarray(a).tobytes()) for a in args]) + str(sorted(kwargs.items()))
        if key not in known:
            known[key] = func(*args, **kwargs)
        return known[key]
    return wrapped


def warmup():
    global TEMPLATE, TEMPLATE_ERROR
    common.quiet(dut_alignment, hit_analysis, result_analysis, track_analysis, data_selection, analysis_utils)
    for m in (track_analysis, result_analysis, hit_analysis):
        if hasattr(m, 'Pool'):
            m.Pool = common.FakePool
        if hasattr(m, 'cpu_count'):
            m.cpu_count = lambda: 3
    common.fast_smc()
    analysis_utils.get_mean_efficiency = memoized(analysis_utils.get_mean_efficiency)
    TEMPLATE = core.scratch()
    install()
    try:
        build(TEMPLATE)
        for name, inputs, func in steps():
            func(fresh(inputs))
    except Exception as e:
        TEMPLATE_ERROR = e
    close_all()


def fresh(inputs):
    d = core.scratch()
    for n in inputs:
        n = n.lstrip('*')
        shutil.copyfile(os.path.join(TEMPLATE, n), os.path.join(d, n))
    return d


def remove(d):
    for n in os.listdir(d):
        os.remove(os.path.join(d, n))
    os.rmdir(d)


def run_step(rec, tier, name, part, parts):
    if TEMPLATE_ERROR is not None:
        raise TEMPLATE_ERROR
    inputs, func = [s[1:] for s in steps() if s[0] == name][0]
    changed = [n[1:] for n in inputs if n[0] == '*']  # are meant to be changed
    fixed = [n for n in inputs if n[0] != '*']
    # without failures
    PLAN.clear()
    d = fresh(inputs)
    before = {n: common.content(os.path.join(d, n)) for n in fixed}
    error, value = call(func, d)
    if error is not None:
        rec.violation('C25:valid-input', '%s fails for valid files: %s: %s' % (name, type(error).__name__, error))
        return
    operations = list(PLAN.order)
    expected = results(d, fixed)
    if {n: common.content(os.path.join(d, n)) for n in fixed} != before:
        rec.violation('C25:input', '%s changed its input files' % name)
        return
    left = close_all()
    if left:
        rec.violation('C25:open-files', '%s: files %r are still open after its end' % (name, left))
        return
    remove(d)
    PLAN.clear()
    d = fresh(inputs)
    error, _ = call(func, d)
    if error is not None or sorted(PLAN.order) != sorted(operations) or results(d, fixed) != expected:
        rec.violation('C25:deterministic', '%s differs when it is done again' % name)
        return
    remove(d)
    targets = sorted(set(operations))
    rec.transitions += len(operations)
    jobs = [((t,), e) for t in targets for e in ((Injected,) if tier == 'quick' else (Injected, InjectedHDF5))]
    if tier != 'quick' and len(targets) < 60:
        jobs += [((a, b), Injected) for i, a in enumerate(targets) for b in targets[:i] if a[1] == b[1]]
    for target, kind in jobs[part::parts]:
        d = fresh(inputs)
        PLAN.clear(target, kind)
        error, value = call(func, d)
        rec.traces += 1
        rec.transitions += len(PLAN.order)
        rec.state((name, target, kind.__name__))
        what = '%s with failing operation %s' % (name, ' and '.join('%s (%s %s, number %d)' % (t[0], t[1], t[2], t[3]) for t in target))
        if not PLAN.hit:
            rec.violation('C25:deterministic', '%s: operation is not done when repeated' % what)
            return
        if isinstance(error, Hang):
            rec.violation('C25:hang', '%s: no end within %d s' % (what, LIMIT))
            return
        left = opened()
        rec.outcome((name, type(error).__name__, bool(left)))
        if any(mode != 'r' for _, mode in left):
            rec.violation('C25:open-files', '%s: output files %r stay open' % (what, left))
            return
        if error is None and results(d, fixed) != expected:
            rec.violation('C25:failure-unnoticed', '%s: no error, but other results than without failure' % what)
            return
        if {n: common.content(os.path.join(d, n)) for n in fixed} != before:
            rec.violation('C25:input', '%s: input files changed' % what)
            return
        rec.extra['input files left open by a failed step'] += bool(left)
        if error is None:
            rec.extra['failures without consequence'] += 1
        # the step can be done again by the same process
        if not changed:
            PLAN.clear()
            error, value = call(func, d)
            rec.traces += 1
            if error is not None or {n: r for n, r in results(d, fixed).items() if n in expected} != expected:
                rec.violation('C25:repeat', '%s: repeating the step %s' % (what, 'gives other results' if error is None else 'fails with %s: %s' % (type(error).__name__, error)))
                return
            if len(opened()) > len(left):
                rec.violation('C25:open-files', '%s: files %r are still open after the step was repeated' % (what, opened()))
                return
        close_all()
        remove(d)


PARTS = dict(align=6, prealign=4, correlate=2, efficiency=6, cluster=2, fit=2, find=2, merge=2)


def cases(tier):
    out = []
    for name in ('efficiency', 'cluster', 'cluster-no-mask', 'merge', 'align', 'prealign', 'fit', 'fit-kalman', 'find', 'correlate', 'convert', 'check', 'mask', 'select', 'reduce', 'combine', 'residuals', 'angles', 'purity', 'apply', 'transformation'):
        parts = PARTS.get(name, 1) * (1 if tier == 'quick' else 4)
        out += [['step', tier, name, k, parts] for k in range(parts)]
    return out


def run_case(case, rec):
    run_step(rec, *case[1:])
