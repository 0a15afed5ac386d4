'''C03: operations on event number sorted arrays.'''
import itertools

import numpy as np

from beam_telescope_analysis.tools import analysis_utils as au

LEVEL = 'model_checking'
RULE = 'states: distinct argument tuples; transitions: result entries compared; traces: calls of the real functions compared with the definition'
BOUNDS = {'quick': 'all pairs of sorted arrays up to length 4 over {-3,0,1,2,5,2**40} (lists) and all range limits',
          'thorough': 'length up to 5 over 7 values'}
ASSUMPTIONS = ['arrays are sorted by event number (documented precondition)']
DT = np.dtype([('event_number', np.int64), ('x', np.float64), ('tag', np.int32)])


def arrays(alphabet, n):
    return list(itertools.combinations_with_replacement(alphabet, n))


def cases(tier):
    T = tier == 'thorough'
    alpha = (-3, -1, 0, 1, 2, 5, 2**40) if T else (-3, 0, 1, 2, 5, 2**40)
    small = (0, 1, 2, 3) if not T else (0, 1, 2, 3, 7)
    n_max = 5 if T else 4
    out = []
    lists = [a for n in range(n_max + 1) for a in arrays(alpha, n)]
    for i in range(0, len(lists), 30):
        out.append(['sets', alpha, n_max, lists[i:i + 30]])
    lists = [a for n in range(n_max + 1) for a in arrays(small, n)]
    for i in range(0, len(lists), 20):
        out.append(['rows', small, n_max, lists[i:i + 20]])
    for signed in ((0, 1, 2, 3, 5), (-2, 0, 1, 3)):
        lists = [a for n in range((7 if T else 6)) for a in arrays(signed, n)]
        for i in range(0, len(lists), 100):
            out.append(['range', signed, 0, lists[i:i + 100]])
    return out


def rows(events, off=0):
    r = np.zeros(len(events), dtype=DT)
    r['event_number'] = events
    r['x'] = np.arange(len(events)) + 0.25 + off
    r['tag'] = np.arange(len(events)) * 10 + 1 + off
    return r


def warmup():
    r = rows([1])
    m = np.zeros(1, dtype=DT)
    au.map_cluster(np.array([1]), r, m)
    au.merge_on_event_number(r, r)


def same(a, b):
    return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def run_case(case, rec):
    kind, alpha, n_max, lists = case
    {'sets': sets, 'rows': pairs, 'range': ranges}[kind](rec, alpha, n_max, lists)


def call(rec, key, f, *args, **kw):
    before = [a.tobytes() for a in args if isinstance(a, np.ndarray)]
    rec.traces += 1
    try:
        r = f(*args, **kw)
    except Exception as e:
        rec.violation('C03:%s:exception' % key, '%s(%s, %s) raises %r' % (key, args, kw, e))
        return None
    if before != [a.tobytes() for a in args if isinstance(a, np.ndarray)]:
        rec.violation('C03:%s:inputs-changed' % key, '%s changes its inputs %s' % (key, args))
    return r


def sets(rec, alpha, n_max, lists):
    others = [a for n in range(n_max + 1) for a in arrays(alpha, n)]
    for a in lists:
        for b in others:
            rec.state((tuple(a), b))
            A, B = np.array(a, dtype=np.int64), np.array(b, dtype=np.int64)
            sb = set(b)
            exp = np.array([v in sb for v in a], dtype=bool)
            r = call(rec, 'in1d', au.in1d_events, A, B)
            if r is not None and not np.array_equal(np.asarray(r), exp):
                rec.violation('C03:in1d', 'membership of %r in %r: %r, expected %r' % (a, b, r, exp))
            rec.outcome(exp.tobytes())
            exp = np.array(sorted(set(a) & sb), dtype=np.int64)
            r = call(rec, 'both', au.get_events_in_both_arrays, A, B)
            if r is not None and not np.array_equal(r, exp):
                rec.violation('C03:both', 'common events of %r and %r: %r, expected %r' % (a, b, r, exp))
            exp = np.array([v for v in sorted(set(a) | sb) for _ in range(max(a.count(v), b.count(v)))] if isinstance(a, tuple) else
                           [v for v in sorted(set(a) | sb) for _ in range(max(list(a).count(v), b.count(v)))], dtype=np.int64)
            r = call(rec, 'max', au.get_max_events_in_both_arrays, A, B)
            if r is not None and not np.array_equal(r, exp):
                rec.violation('C03:max', 'events of %r or %r: %r, expected %r' % (a, b, r, exp))
            rec.transitions += len(a) + len(exp)
        rec.sample({'a': a, 'b': others[-1]})
        # not contiguous memory
        A2 = np.array([[v, 7] for v in a], dtype=np.int64).reshape(len(a), 2)[:, 0]
        B = np.array(others[len(others) // 2], dtype=np.int64)
        r = call(rec, 'in1d', au.in1d_events, A2, B)
        if r is not None and not np.array_equal(r, np.isin(A2, B)):
            rec.violation('C03:in1d', 'membership of non-contiguous %r in %r: %r' % (a, B, r))


def pairs(rec, alpha, n_max, lists):
    others = [a for n in range(n_max + 1) for a in arrays(alpha, n)]
    for a in lists:
        ra = rows(a)
        ea = np.array(a, dtype=np.int64)
        for b in others:
            rb = rows(b, 1000)
            rec.state(('rows', tuple(a), b))
            # pairing
            idx = [(i, j) for i in range(len(a)) for j in range(len(b)) if a[i] == b[j]]
            r = call(rec, 'merge', au.merge_on_event_number, ra, rb)
            if r is not None:
                e1, e2 = ra[[i for i, _ in idx]], rb[[j for _, j in idx]]
                if not (same(r[0], e1) and same(r[1], e2)):
                    rec.violation('C03:merge', 'pairs of events %r and %r:\n%r\nexpected\n%r' % (a, b, r, (e1, e2)))
            rec.outcome(tuple(idx))
            # mapping
            exp = np.zeros(len(a), dtype=DT)
            exp['x'] = np.nan
            left = {}
            for j, v in enumerate(b):
                left.setdefault(v, []).append(j)
            for i, v in enumerate(a):
                if left.get(v):
                    exp[i] = rb[left[v].pop(0)]
            got = np.zeros(len(a), dtype=DT)
            got['x'] = np.nan
            rec.traces += 1
            au.map_cluster(ea, rb, got)
            if not same(got, exp):
                rec.violation('C03:map', 'clusters of events %r mapped on events %r:\n%r\nexpected\n%r' % (b, a, got, exp))
            rec.transitions += len(idx) + len(a)
        rec.sample({'rows': a})


def ranges(rec, alpha, n_max, lists):
    limits = [None] + list(range(min(alpha) - 1, max(alpha) + 3))
    for a in lists:
        ra = rows(a)
        ev = ra['event_number']
        for e0 in limits:
            for e1 in limits:
                if e0 is not None and e1 is not None and e1 < e0:
                    continue
                sel = np.ones(len(a), dtype=bool)
                if e0 is not None:
                    sel &= ev >= e0
                if e1 is not None:
                    sel &= ev < e1
                exp = ra[sel]
                rec.state(('range', tuple(a), e0, e1))
                rec.outcome(exp.tobytes())
                for srt in (True, False):
                    r = call(rec, 'range', au.get_data_in_event_range, ra, event_start=e0, event_stop=e1, assume_sorted=srt)
                    if r is not None and not same(r, exp):
                        rec.violation('C03:range', 'events %r in [%r, %r[ (sorted=%s): %r, expected %r' % (a, e0, e1, srt, r, exp))
                rec.transitions += len(exp)
                if len(a) > 1 and (e0 is None or e0 % 2 == 0):
                    perm = ra[::-1].copy()
                    r = call(rec, 'range', au.get_data_in_event_range, perm, event_start=e0, event_stop=e1, assume_sorted=False)
                    if r is not None and not same(r, perm[sel[::-1]]):
                        rec.violation('C03:range', 'not sorted events %r in [%r, %r[: %r' % (perm['event_number'], e0, e1, r))
    rec.sample({'events': lists[-1], 'limits': limits})
