'''Recording, sharding, reporting.  A check is a module checks/<id>.py with

    LEVEL, ASSUMPTIONS
    cases(tier)            -> list of JSON-able case parameters
    run_case(params, rec)  -> executes the real code on every behaviour of that case

A case is the unit of sharding and of replay.
'''
import collections
import hashlib
import json
import os
import shutil
import tempfile
import time
import traceback
import concurrent.futures
import multiprocessing

MAX_VIOL_PER_CASE = 5
T0 = time.time()


def h64(obj):
    '''64 bit hash of a canonical (repr-able / bytes) object.'''
    if not isinstance(obj, (bytes, bytearray)):
        obj = repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'little')


class Rec(object):
    '''Measured coverage and violations of one case.'''

    def __init__(self, params=None):
        self.params = params
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.extra = collections.Counter()

    def state(self, obj):
        self.states.add(h64(obj))

    def outcome(self, obj):
        self.outcomes.add(h64(obj))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, key, msg, **data):
        if len(self.violations) < MAX_VIOL_PER_CASE:
            self.violations.append({'key': key, 'msg': str(msg)[:3000], 'data': data, 'case': self.params})

    def expect(self, cond, key, msg, **data):
        if not cond:
            self.violation(key, msg() if callable(msg) else msg, **data)
        return bool(cond)

    def pack(self):
        return dict(states=self.states, outcomes=self.outcomes, transitions=self.transitions, traces=self.traces,
                    samples=self.samples, violations=self.violations, extra=self.extra)


_MODULE = None
_SCRATCH = None


def scratch():
    '''Fresh scratch directory for the running case.'''
    return tempfile.mkdtemp(dir=_SCRATCH)


def _watch(params):
    '''For debugging of the checks: write the stacks of a slow case.'''
    import sys
    import threading

    def dump():
        with open('/tmp/stacks-%d' % os.getpid(), 'a') as f:
            f.write('%r\n' % (params,))
            for ident, frame in sys._current_frames().items():
                f.write('--- %s\n%s' % (ident, ''.join(traceback.format_stack(frame))))
    t = threading.Timer(float(os.environ['BTA_MC_STACKS']), dump)
    t.daemon = True
    t.start()


def _run_one(params):
    rec = Rec(params)
    t0 = time.time()
    if os.environ.get('BTA_MC_STACKS'):
        _watch(params)
    try:
        _MODULE.run_case(params, rec)
    except Exception as e:
        rec.violation('exception:%s' % type(e).__name__,
                      'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:]))
    if os.environ.get('BTA_MC_TIMES'):
        with open(os.environ['BTA_MC_TIMES'], 'a') as f:
            f.write('%.1f %.1f %s\n' % (time.time() - t0, time.time() - T0, json.dumps(params)[:200]))
    return rec.pack()


def run_module(module, tier, n_procs=None, only=None):
    '''Run all cases of the check module (or one, for replay).'''
    global _MODULE, _SCRATCH
    _MODULE = module
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    _SCRATCH = tempfile.mkdtemp(prefix='bta_mc_', dir=base)
    tot = Rec()
    try:
        cases = [only] if only is not None else module.cases(tier)
        if hasattr(module, 'warmup'):
            try:
                module.warmup()
            except Exception as e:
                tot.violation('exception:%s' % type(e).__name__, 'unexpected %s in warm-up: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:]))
        n_procs = n_procs or getattr(module, 'N_PROCS', None) or min(8, os.cpu_count() or 1)
        if n_procs == 1 or len(cases) == 1:
            for c in cases:
                _merge(tot, _run_one(c))
        else:
            ctx = multiprocessing.get_context('fork')
            ex = concurrent.futures.ProcessPoolExecutor(n_procs, mp_context=ctx)
            futs = [(c, ex.submit(_run_one, c)) for c in cases]
            for c, f in futs:
                try:
                    _merge(tot, f.result())
                except concurrent.futures.process.BrokenProcessPool:
                    tot.violations.append({'key': 'process-died', 'msg': 'a process running the code under test died (one of the cases from %r on)' % (c,), 'data': {}, 'case': c})
                    break
            ex.shutdown(wait=False, cancel_futures=True)
        tot.extra['cases'] = len(cases)
    finally:
        shutil.rmtree(_SCRATCH, ignore_errors=True)
    return tot


def _merge(tot, d):
    tot.states |= d['states']
    tot.outcomes |= d['outcomes']
    tot.transitions += d['transitions']
    tot.traces += d['traces']
    tot.extra.update(d['extra'])
    if len(tot.samples) < 4:
        tot.samples.extend(d['samples'][:1])
    tot.violations.extend(d['violations'])
