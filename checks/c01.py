'''C01: split-map-combine under every schedule.'''
import hashlib
import os
import shutil

import numpy as np
import tables as tb

from beam_telescope_analysis.tools import smc
from mc import core, sched

LEVEL = 'model_checking'
RULE = 'states: distinct fingerprints (frames and locals of all threads, shared objects, tasks, written data) at choice points; transitions: scheduling steps; traces: complete executions of the real code compared with sequential processing'
BOUNDS = {
    'quick': 'small tables (1-3 chunks), 1-2 workers: all interleavings without preemption bound (state caching) or, where stated in counters, up to 2 preemptions; every single failing operation',
    'thorough': '1-5 chunks, 1-3 workers; all interleavings; faults with up to 3 preemptions',
}
ASSUMPTIONS = ['operations of deque/Event/Thread/pool results are atomic (as they are under the GIL); memory-level thread safety of HDF5 is not modelled',
               'a timed wait may return at any time; polling rounds that see no change of shared state repeat themselves']
DT = np.dtype([('event_number', np.int64), ('value', np.int32)])
PKG = os.path.dirname(os.path.dirname(os.path.abspath(smc.__file__)))


def f_table(data, scale=2):
    out = np.zeros(data.shape[0], dtype=[('event_number', np.int64), ('value', np.int32), ('new', np.float64)])
    out['event_number'] = data['event_number']
    out['value'] = data['value'] * scale
    out['new'] = data['event_number'] + 0.5
    return out


def f_same(data):
    out = data.copy()
    out['value'] += 100
    return out


def f_hist(data):
    return np.bincount(data['value'] % 7)


def f_hist2(data):
    h = np.zeros((3, 4), dtype=np.uint32)
    np.add.at(h, (data['event_number'] % 3, data['value'] % 4), 1)
    return h


def f_grow2(data):
    h = np.zeros((1 + data['event_number'].max() % 5, 1 + data['value'].max() % 4), dtype=np.uint32)
    np.add.at(h, (data['event_number'] % 5 % h.shape[0], data['value'] % h.shape[1]), 1)
    return h


def f_both(data):
    return f_table(data), f_hist(data)


def f_filter(data):
    return f_table(data[data['event_number'] % 2 == 1])


def f_raise(data, at=0):
    if (data['event_number'] == at).any():
        raise ValueError('worker function fails')
    return f_table(data)


def f_notarray(data, at=0):
    if (data['event_number'] == at).any():
        return 'no array'
    return f_table(data)


def f_count(data):
    return f_table(data), f_hist(data), f_hist(data)


FUNCS = dict(table=f_table, same=f_same, hist=f_hist, hist2=f_hist2, both=f_both, filter=f_filter, raise_=f_raise, notarray=f_notarray, count=f_count, grow2=f_grow2)
NODES = dict(table=[{'name': 'Out'}], same=[{'name': 'In'}], hist=[{'name': 'Hist'}], hist2=[{'name': 'Hist'}], both=[{'name': 'Out'}, {'name': 'Hist'}],
             filter=[{'name': 'Out'}], raise_=[{'name': 'Out'}], notarray=[{'name': 'Out'}], count=[{'name': 'Out'}, {'name': 'Hist'}], grow2=[{'name': 'Hist'}])
CAP = 20000
FAULT_OPS = ('open_file', 'read', 'append', 'create_table', 'create_carray', 'rename_node')


def rows_of(events):
    d = np.zeros(len(events), dtype=DT)
    d['event_number'] = events
    d['value'] = np.arange(len(events)) * 3 + 1
    return d


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(**k):
        out.append(dict(dict(func='table', cores=1, chunk=2, events=[0], inplace=False, fault=None, kwargs={}, bound=None), **k))
    ev1, ev2, ev3 = [0, 1], [0, 1, 2], [0, 1, 1, 2, 4]
    # all interleavings of one and two chunks, preemption bounded ones of more chunks
    add(func='table', events=ev2, cores=2, bound=3 if T else 1)
    add(func='both', events=ev2, cores=1, bound=None if T else 2)
    add(func='both', events=ev2, cores=1, bound=0, reuse=True)
    add(func='same', events=ev2, cores=2, inplace=True, bound=2 if T else 1)
    add(func='table', events=[5], cores=2, chunk=100, kwargs={'scale': 5})
    add(func='both', events=[5], cores=1, chunk=100)
    add(func='same', events=[5], cores=2, chunk=100, inplace=True)
    add(func='hist', events=ev1, cores=1)
    add(func='table', events=ev1, cores=2, bound=None if T else 2)
    for cores in (1, 2):
        add(func='hist', events=ev2, cores=cores, bound=2 if T else 1)
        add(func='filter', events=ev3, cores=cores, chunk=3, bound=2 if T else 2 - cores)
        add(func='both', events=ev2, cores=cores, inplace=True, bound=2 if T else 1)
        add(func='hist', events=ev1, cores=cores, inplace=True, bound=2)
    add(func='table', events=[0, 1, 2, 3], cores=2, chunk=2, bound=1 if T else 0)
    add(func='both', events=ev3, cores=3, chunk=4, bound=1)
    add(func='hist2', events=ev3, cores=2, chunk=3, bound=0)
    add(func='grow2', events=ev3, cores=1, chunk=3, bound=0)
    for n, c in ((5, 1), (5, 2), (6 if T else 4, 3)):
        add(func='both', events=list(range(n)), cores=c, chunk=2, bound=0)
    # every table of up to 4 rows with every chunk size on the default schedule and all forced switches
    for n in (1, 2, 3, 4):
        for pattern in range(2 ** (n - 1)):
            ev = [0]
            for i in range(n - 1):
                ev.append(ev[-1] + (pattern >> i & 1) * 2)
            biggest = max(ev.count(e) for e in ev)
            for ch in range(biggest + 1, n + 2):
                add(func='both', events=ev, cores=1, chunk=ch, bound=0)
                add(func='same', events=ev, cores=1, chunk=ch, bound=0, inplace=True)
    # failures of the worker function, bad results, unreadable data
    for cores in (1, 2):
        for at in (0, 1, 2):
            add(func='raise_', events=ev2, cores=cores, kwargs={'at': at}, expect='error', bound=2 if T else 2 - cores)
        add(func='raise_', events=[5], cores=cores, kwargs={'at': 5}, expect='error')
        add(func='notarray', events=ev1, cores=cores, kwargs={'at': 1}, expect='error', bound=2 if T else 1)
        add(func='count', events=ev1, cores=cores, expect='error', bound=2 if T else 1)
        add(func='table', events=[0, 1, 1, 1, 2], cores=cores, chunk=2, expect='error', bound=2 if T else 1)
        add(func='table', events=ev1, cores=cores, badout=True, expect='error', bound=2 if T else 1)
        add(func='raise_', events=ev1, cores=cores, kwargs={'at': 1}, expect='error', inplace=True, bound=2 if T else 1)
        for op in FAULT_OPS:
            for k in range(1, 6):
                add(func='both', events=ev1, cores=cores, fault=op, k=k, expect='error', bound=2 if T else 1 if cores == 1 else 0)
                add(func='both', events=ev1, cores=cores, fault=op, k=k, expect='error', inplace=True, bound=2 if T else 0)
    # more chunks than the pipeline can hold, the first one fails
    add(func='raise_', events=list(range(8)), cores=2, kwargs={'at': 0}, expect='error', bound=0)
    add(func='raise_', events=list(range(8)), cores=1, kwargs={'at': 0}, expect='error', bound=0)
    add(func='table', events=[], cores=1, bound=1, expect='empty')
    # the unmodified primitives
    add(func='table', events=ev2, cores=0, real=True)
    add(func='both', events=ev3, cores=2, real=True, chunk=3)
    add(func='same', events=ev3, cores=2, real=True, chunk=3, inplace=True)
    add(func='hist', events=ev2, cores=2, real=True, repeat=True)
    add(func='raise_', events=ev2, cores=2, kwargs={'at': 1}, expect='error', real=True)
    if T:
        for n, c, ch in ((5, 2, 2), (4, 3, 2), (6, 3, 2), (6, 1, 2), (6, 2, 3), (5, 3, 2)):
            for func in ('table', 'both', 'hist'):
                add(func=func, events=list(range(n)), cores=c, chunk=ch, bound=2 if c == 1 else 1)
        for n in (4, 5):
            add(func='same', events=list(range(n)), cores=2, inplace=True, bound=1)
            for at in range(n):
                add(func='raise_', events=list(range(n)), cores=2, kwargs={'at': at}, expect='error', bound=1)
    return out


def expected(case):
    '''Sequential reference: nodes -> content.'''
    data = rows_of(case['events'])
    if case['func'] == 'grow2':
        h = np.zeros((1 + max(e % 5 for e in case['events']), 4), dtype=np.uint32)
        # the function is not linear in its shape: sum of what it gives for each chunk, padded
        return None
    res = FUNCS[case['func']](data, **case['kwargs'])
    if not isinstance(res, tuple):
        res = (res,)
    return {n['name']: r for n, r in zip(NODES[case['func']], res)}


def read_all(path):
    with tb.open_file(path, 'r') as h5:
        return {n._v_name: n[:] for n in h5.list_nodes('/')}


class Faults(object):
    '''Makes the k-th call of one PyTables operation fail; records appended data.'''

    def __init__(self, op=None, k=None):
        self.op, self.k = op, k
        self.counts = dict.fromkeys(FAULT_OPS, 0)
        self.digest = b''
        self.hit = False

    def __enter__(self):
        self.saved = []

        def wrap(owner, name, record=False):
            orig = getattr(owner, name)

            def f(*a, **kw):
                self.counts[name] += 1
                if name == self.op and self.counts[name] == self.k:
                    self.hit = True
                    raise OSError('injected failure of %s' % name)
                if record:
                    self.digest = hashlib.blake2b(self.digest + np.ascontiguousarray(a[1]).tobytes(), digest_size=8).digest()
                return orig(*a, **kw)
            self.saved.append((owner, name, orig))
            setattr(owner, name, f)
        wrap(tb, 'open_file')
        wrap(tb.Table, 'read')
        wrap(tb.Table, 'append', True)
        wrap(tb.File, 'create_table')
        wrap(tb.File, 'create_carray')
        wrap(tb.File, 'rename_node')
        return self

    def __exit__(self, *a):
        for owner, name, orig in self.saved:
            setattr(owner, name, orig)


def run_case(case, rec):
    d = core.scratch()
    src = os.path.join(d, 'in.h5')
    extra = np.arange(6).reshape(2, 3)
    with tb.open_file(src, 'w') as h5:
        t = h5.create_table(h5.root, 'In', description=DT, title='input')
        t.append(rows_of(case['events']))
        if case['inplace']:
            h5.create_array(h5.root, 'Other', extra)
    out = os.path.join(d, 'out.h5')
    if case.get('badout'):
        out = os.path.join(d, 'missing', 'out.h5')
    exp = expected(case) if case.get('expect') is None or case['fault'] else None
    if case['func'] == 'grow2':
        exp = grow2_expected(case)
    n_calls = {}
    shared_nodes = [dict(n) for n in NODES[case['func']]]  # given to several calls

    def one(prefix, visited, bound, k, real=False, written=None):
        for f in os.listdir(d):
            if f.startswith('out'):
                os.unlink(os.path.join(d, f))
        if case['inplace']:
            shutil.copyfile(src, out)
        nodes = shared_nodes if case.get('reuse') else [dict(n) for n in NODES[case['func']]]
        inp = out if case['inplace'] else src

        def call():
            smc.SMC(input_filename=inp, output_filename=out, func=FUNCS[case['func']], func_kwargs=dict(case['kwargs']), node_desc=nodes,
                    table='In', align_at='event_number', n_cores=case['cores'] or None, mode='r+' if case['inplace'] else 'w', chunk_size=case['chunk'])
            return 'ok'
        with Faults(case['fault'], k) as faults:
            if real:
                try:
                    call()
                    res = ('finished', 'ok', None)
                except Exception as e:
                    res = ('finished', None, e)
                s = None
            else:
                fp = sched.make_fingerprint(extra=lambda: (faults.digest, sorted(faults.counts.items()) if case['fault'] else None)) if visited is not None else None
                s = sched.execute(smc, call, prefix, visited, bound, fp, (PKG,), written)
                res = s.outcome
        tb.file._open_files.close_all()
        n_calls.update(faults.counts)
        status, ret, exc = res
        if status == 'pruned' or status.startswith('divergence'):
            return s
        rec.traces += 1
        rec.outcome((case['func'], status, type(exc).__name__, str(exc)[:40]))
        bad = None
        want_error = case.get('expect') == 'error' and (case['fault'] is None or faults.hit)
        if status in ('hang', 'horizon'):
            bad = ('hang', 'processing never ends (%s)' % status)
        elif exc is not None:
            if not want_error and case.get('expect') != 'empty':
                bad = ('spurious-error', 'raises %r' % exc)
        elif case.get('expect') == 'empty':
            if os.path.exists(out):
                bad = None if not [n for n in read_all(out) if n.endswith('_tmp')] else ('nodes', 'temporary nodes left')
        elif want_error:
            bad = ('failure-swallowed', 'returns normally although %s failed' % (case['fault'] or 'processing'))
        else:
            bad = compare(out, exp, extra if case['inplace'] else None, case)
        if bad:
            rec.violation('C01:' + bad[0], '%s\ncase %r\nschedule %s' % (bad[1], case, s.trace if s else 'free running'),
                          choices=s.choices if s else None, fault_call=k)
        return s

    if case.get('real'):
        for _ in range(3 if case.get('repeat') else 1):
            one([], None, None, None, real=True)
        return
    for k in [case.get('k')]:
        if case['fault']:
            one([], None, None, None)
            if k > n_calls[case['fault']]:
                rec.extra['fault_positions_beyond_last_call'] += 1
                return
        cap = CAP
        stats = {'steps': 0}

        def run_one(prefix, visited, written):
            s = one(prefix, visited, case['bound'], k, written=written)
            stats['steps'] += len(s.choices) - len(prefix)
            return s
        runs, complete, visited = sched.explore(run_one, case['bound'], cap)
        rec.transitions += stats['steps']
        rec.states |= set(core.h64((repr(case), k, v)) for v in visited)
        rec.extra['executions'] += runs
        rec.extra['exhaustive_bound_%s' % case['bound']] += 1
        if not complete:
            rec.extra['capped_explorations'] += 1
        # the same schedule gives the same observations
        s = one([], None, None, k)
        s2 = one([], None, None, k)
        if s.trace != s2.trace:
            rec.violation('C01:nondeterminism', 'the default schedule is not reproducible\n%s\n%s' % (s.trace, s2.trace))
        rec.sample({'case': case, 'fault_call': k, 'schedule': s.trace[:60]})
    shutil.rmtree(d, ignore_errors=True)


def grow2_expected(case):
    data = rows_of(case['events'])
    # all chunkings that do not split events are possible; here: the ones of the reader with this chunk size
    from beam_telescope_analysis.tools import analysis_utils
    with tb.open_file('g.h5', 'w', driver='H5FD_CORE', driver_core_backing_store=0) as h5:
        t = h5.create_table(h5.root, 'T', description=DT)
        t.append(data)
        t.flush()
        hs = [f_grow2(c) for c, _ in analysis_utils.data_aligned_at_events(t, chunk_size=case['chunk'])]
    shape = np.max([h.shape for h in hs], axis=0)
    tot = np.zeros(shape, dtype=np.uint32)
    for h in hs:
        tot[:h.shape[0], :h.shape[1]] += h
    return {'Hist': tot}


def compare(path, exp, extra, case):
    got = read_all(path)
    want = dict(exp)
    if extra is not None:
        want['Other'] = extra
        want.setdefault('In', rows_of(case['events']))
    if set(got) != set(want):
        return 'nodes', 'nodes %s, expected %s' % (sorted(got), sorted(want))
    for n in want:
        g, w = got[n], want[n]
        if g.dtype.names != w.dtype.names or g.shape != w.shape or not np.array_equal(g, w):
            return 'content', 'node %s is\n%s\nexpected\n%s' % (n, g, w)
    return None
