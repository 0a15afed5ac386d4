'''C13: selection of tracks.'''
import itertools
import os

import numpy as np

from mc import core
from checks import common
from beam_telescope_analysis.tools import data_selection

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all 4096 combinations of hit/quality/isolated track/isolated hit flags of 3 devices times all 27*8*4*8 selections built from two criteria at a time plus all selections of 2 devices; device numbers up to 31; 19 query strings times flag selections; all event structures of up to 6 rows with all chunk sizes; all event limits 1..n+2; all argument shapes (None, flat list, list of lists), 14 invalid ones',
    'thorough': 'as quick, with all 27*8*8*8 selections of 3 devices, event structures of up to 8 rows',
}
RULE = 'states: distinct (selection, chunk size, event structure); transitions: tracks judged; traces: runs of the real select_tracks'
ASSUMPTIONS = ['event numbers are sorted', 'an event fits into a chunk', 'the isolated track flag of a device without hit is set (the documentation and the code disagree whether it is then evaluated)']

IDS = [(0, 1, 2), (0, 2, 5), (1, 7, 31), (15, 16, 30)]
KEYS = ('select_hit_duts', 'select_no_hit_duts', 'select_quality_duts', 'select_isolated_track_duts', 'select_isolated_hit_duts')
FLAGS = ('hit_flag', 'quality_flag', 'isolated_track_flag', 'isolated_hit_flag')
DTYPE = [('event_number', '<i8'), ('track_number', '<i8'), ('hit_flag', '<u4'), ('x_dut_0', '<f8'), ('x_err_dut_0', '<f4'), ('n_hits_dut_0', '<u2'), ('charge_dut_1', '<f4'),
         ('track_chi2', '<f8'), ('slope_x', '<f8'), ('quality_flag', '<u4'), ('isolated_track_flag', '<u4'), ('isolated_hit_flag', '<u4')]
QUERIES = [
    ('track_chi2 <= 5', lambda t: t['track_chi2'] <= 5),
    ('(track_chi2 > 1.5e0) & (track_chi2 < 1e1)', lambda t: (t['track_chi2'] > 1.5) & (t['track_chi2'] < 10)),
    ('(x_dut_0 >= -20.5) & (x_dut_0 <= 20)', lambda t: (t['x_dut_0'] >= -20.5) & (t['x_dut_0'] <= 20)),
    ('x_dut_0 != x_dut_0', lambda t: np.isnan(t['x_dut_0'])),
    ('~(x_dut_0 > 0)', lambda t: ~(t['x_dut_0'] > 0)),
    ('abs(slope_x) < 0.01', lambda t: np.abs(t['slope_x']) < 0.01),
    ('sqrt(x_err_dut_0) < 3', lambda t: np.sqrt(t['x_err_dut_0']) < 3),
    ('(n_hits_dut_0 == 1) | (n_hits_dut_0 == 3)', lambda t: (t['n_hits_dut_0'] == 1) | (t['n_hits_dut_0'] == 3)),
    ('hit_flag == 7', lambda t: t['hit_flag'] == 7),
    ('(event_number > 2) & (event_number < 400)', lambda t: (t['event_number'] > 2) & (t['event_number'] < 400)),
    ('x_dut_0**2 + (1000*slope_x)**2 < 900', lambda t: t['x_dut_0']**2 + (1000 * t['slope_x'])**2 < 900),
    ('track_chi2 < -1', lambda t: t['track_chi2'] < -1),
    ('track_chi2 > -1', lambda t: t['track_chi2'] > -1),
    ('track_chi2 >= 5.0', lambda t: t['track_chi2'] >= 5.0),
    ('charge_dut_1 > 1E-1', lambda t: t['charge_dut_1'] > 1E-1),
    ('charge_dut_1 / n_hits_dut_0 > 2', lambda t: t['charge_dut_1'] / t['n_hits_dut_0'] > 2),
    ('where(x_dut_0 > 0, track_chi2, 0) > 2', lambda t: np.where(t['x_dut_0'] > 0, t['track_chi2'], 0) > 2),
    ('(track_chi2 <= 5) & (quality_flag > 0)', lambda t: (t['track_chi2'] <= 5) & (t['quality_flag'] > 0)),
    ('track_number % 3 == 1', lambda t: t['track_number'] % 3 == 1),
]


def warmup():
    common.quiet(data_selection)


def subsets(ids):
    return [c for n in range(len(ids) + 1) for c in itertools.combinations(ids, n)]


def selections(ids, full):
    '''(hit, no hit, quality, isolated track, isolated hit)'''
    hits = [h for h in itertools.product((0, 1, 2), repeat=len(ids))]
    hits = [(tuple(i for i, s in zip(ids, h) if s == 1), tuple(i for i, s in zip(ids, h) if s == 2)) for h in hits]
    subs = subsets(ids)
    # isolated track selection only for devices with a required hit
    allsel = [(h, n, q, t, i) for h, n in hits for q in subs for t in subsets(h) for i in subs]
    if full:
        return allsel
    pairs = [s for s in allsel if sum(map(bool, (s[0] or s[1], s[2], s[3] and s[3] != s[0], s[4]))) <= 2]
    two = [s for s in allsel if not any(ids[1] in x for x in s)]
    return sorted(set(pairs) | set(two))


def flags_table(ids):
    n = 4096
    k = np.arange(n)
    t = np.zeros(n, dtype=DTYPE)
    t['event_number'] = k // 3
    t['track_number'] = k
    for j, name in enumerate(FLAGS):
        bits = (k >> (3 * j)) & 7
        for b, i in enumerate(ids):
            t[name] |= (((bits >> b) & 1) << i).astype('<u4')
    t['x_dut_0'] = (k % 101) - 50.
    t['x_dut_0'][k % 7 == 0] = np.nan
    t['x_err_dut_0'] = k % 13
    t['n_hits_dut_0'] = k % 5
    t['charge_dut_1'] = (k % 11) * 1.3
    t['charge_dut_1'][k % 9 == 1] = np.nan
    t['track_chi2'] = (k % 23) / 2.
    t['slope_x'] = ((k % 37) - 18) * 1e-3
    return t


def has(word, dut):
    return (word >> dut) & 1 == 1


def expected(t, sel, query=None):
    hit, no_hit, quality, iso_track, iso_hit = [s or () for s in sel]
    ok = np.ones(len(t), dtype=bool)
    for d in hit:
        ok &= has(t['hit_flag'], d)
    for d in no_hit:
        ok &= ~has(t['hit_flag'], d)
    for d in quality:
        ok &= has(t['quality_flag'], d) | ~has(t['hit_flag'], d)
    for d in iso_track:
        ok &= has(t['isolated_track_flag'], d)
    for d in iso_hit:
        ok &= has(t['isolated_hit_flag'], d) | ~has(t['hit_flag'], d)
    if query is not None:
        with np.errstate(all='ignore'):
            ok &= query(t)
    return ok


def cases(tier):
    out = []
    for v, ids in enumerate(IDS):
        n = len(selections(ids, tier == 'thorough'))
        step = -(-n // (6 if tier == 'quick' else 24))
        out += [['flags', tier, v, a, min(n, a + step)] for a in range(0, n, step) if tier == 'thorough' or v < 3]
    out += [['query', tier, k] for k in range(len(QUERIES))]
    out += [['events', tier, n, k, 1 if n < 5 else 16] for n in range(0, 7 if tier == 'quick' else 9) for k in range(1 if n < 5 else 16)]
    out += [['limits', tier, n, k, 1 if n < 5 else 16] for n in range(1, 7 if tier == 'quick' else 9) for k in range(1 if n < 5 else 16)]
    out += [['shapes', tier], ['invalid', tier]]
    return out[::-1]


def setup(d, ids, tables):
    conf = os.path.join(d, 'tel.yaml')
    common.telescope(conf, [(i, 'RectangularPixelDut', common.pixel()) for i in ids])
    src = common.write(os.path.join(d, 'tracks.h5'), **{'Tracks_DUT%d' % i: t for i, t in zip(ids, tables)})
    return conf, src


def run_select(rec, what, conf, src, ids, tables, exp, out=None, **kw):
    before = common.content(src)
    r = data_selection.select_tracks(conf, src, list(ids), output_tracks_file=out, **kw)
    rec.traces += 1
    if r != (out or os.path.splitext(src)[0] + '_selected.h5'):
        rec.violation('C13:name', '%s: returned %r' % (what, r))
        return None
    if common.content(src) != before:
        rec.violation('C13:input', '%s: the input file was changed' % what)
    if common.nodes(r) != sorted(['Tracks_DUT%d' % i for i in ids] + ['arguments']):
        rec.violation('C13:tables', '%s: output has %r' % (what, common.nodes(r)))
        return None
    for i, t, e in zip(ids, tables, exp):
        got = common.read(r, 'Tracks_DUT%d' % i)
        rec.transitions += len(t)
        if e is not None and not common.same(got, t[e]):
            a, b = set(got['track_number'].tolist()), set(t['track_number'][e].tolist())
            rec.violation('C13:tracks', '%s: DUT%d: %d of %d tracks selected, expected %d; wrong: %r missing: %r (flags of the first %r)' % (
                what, i, len(got), len(t), np.count_nonzero(e), sorted(a - b)[:5], sorted(b - a)[:5],
                [[int(t[f][np.nonzero(t['track_number'] == x)[0][0]]) for f in FLAGS] for x in sorted(a ^ b)[:1]]))
            return None
    return r


def run_case(case, rec):
    tier = case[1]
    d = core.scratch()
    if case[0] == 'flags':
        ids = IDS[case[2]]
        t = flags_table(ids)
        conf, src = setup(d, ids, [t] * 3)
        sels = selections(ids, tier == 'thorough')[case[3]:case[4]]
        for k in range(0, len(sels), 3):
            group = sels[k:k + 3]
            use = ids[:len(group)] if k % 2 else ids[::-1][:len(group)]
            tt = []
            for s in group:
                x = t.copy()
                tt.append(x)
            kw = {key: [list(s[j]) for s in group] for j, key in enumerate(KEYS)}
            for s in group:
                rec.state((ids, s))
            if run_select(rec, 'devices %r, selections %r' % (use, group), conf, src, use, tt, [expected(t, s) for s in group], chunk_size=(5000, 1000, 4096)[k % 3], **kw) is None:
                return
        rec.sample({'devices': ids, 'selection': dict(zip(KEYS, sels[0]))})
    elif case[0] == 'query':
        q, f = QUERIES[case[2]]
        for ids in IDS[:2]:
            t = flags_table(ids)
            conf, src = setup(d, ids, [t] * 3)
            base = [(), (), (), (), ()]
            for j, dut in itertools.product((None, 0, 1, 2, 4), ids):
                s = list(base)
                if j is not None:
                    s[j] = (dut,)
                kw = {key: [list(s[i]), []] for i, key in enumerate(KEYS)}
                rec.state((ids, q, j, dut))
                run_select(rec, 'query %r and selection %r' % (q, s), conf, src, ids[1:], [t] * 2, [expected(t, s, f), expected(t, base)], query=[q, ''], chunk_size=1500, **kw)
            run_select(rec, 'query %r for all' % q, conf, src, ids, [t] * 3, [expected(t, base, f)] * 3, query=q)
        rec.sample({'query': q})
    elif case[0] == 'events':
        n = case[2]
        for comp in list(common.compositions(n))[case[3]::case[4]]:
            gaps = (1, 1, 3, 1, 2, 1, 1, 50)
            t = flags_table((0, 1, 2))[[7 * 73 % 4096 * (i + 1) % 4096 for i in range(n)]] if n else flags_table((0, 1, 2))[:0]
            t = t.copy()
            ev, x = [], 0
            for m, g in zip(comp, gaps):
                ev += [x] * m
                x += g
            t['event_number'] = ev
            t['track_number'] = np.arange(n)
            for pat in range(1 << n) if n <= 4 else range(0, 1 << n, 3):
                t['hit_flag'] = [((pat >> i) & 1) << 1 | (i % 2) for i in range(n)]
                conf, src = setup(d, (0, 1, 2), [t] * 3)
                big = max(comp) if comp else 1
                for chunk in range(big + 1, n + 3):
                    if pat % 5 and chunk % 2 and n > 3:
                        continue
                    rec.state((comp, pat, chunk))
                    if run_select(rec, 'events of %r tracks, hit flags %r, chunk size %d' % (comp, t['hit_flag'].tolist(), chunk), conf, src, (1, 0), [t] * 2,
                                  [expected(t, [(1,), (), (), (), ()]), expected(t, [(), (1,), (), (), ()])], select_hit_duts=[[1], []], select_no_hit_duts=[None, [1]], chunk_size=chunk) is None:
                        return
    elif case[0] == 'limits':
        run_limits(case[2], case[3], case[4], d, rec)
    elif case[0] == 'shapes':
        run_shapes(d, rec)
    else:
        run_invalid(d, rec)


def run_limits(n, k, m, d, rec):
    for comp in list(common.compositions(n))[k::m]:
        t = flags_table((0, 1, 2))[:n].copy()
        t['event_number'] = np.repeat(np.arange(len(comp)) * 3, comp)
        conf, src = setup(d, (0, 1, 2), [t] * 3)
        for hits in (0, 1):
            t['hit_flag'] = 1 if not hits else np.arange(n) % 3
            conf, src = setup(d, (0, 1, 2), [t] * 3)
            sel = [(0,), (), (), (), ()]
            allowed = t[expected(t, sel)]
            n_ev = len(np.unique(allowed['event_number']))
            for limit in range(1, len(comp) + 3):
                for chunk in range(max(comp) + 1, n + 3):
                    what = 'events of %r tracks, hit flags %r, at most %d events, chunk size %d' % (comp, t['hit_flag'].tolist(), limit, chunk)
                    rec.state((comp, hits, limit, chunk))
                    r = run_select(rec, what, conf, src, (2,), [t], [None], select_hit_duts=[[0]], max_events=limit, chunk_size=chunk)
                    if r is None:
                        return
                    got = common.read(r, 'Tracks_DUT2')
                    ev = np.unique(got['event_number'])
                    if len(ev) > limit or (chunk > n and len(ev) != min(limit, n_ev)):
                        rec.violation('C13:limit', '%s: %d events selected of %d' % (what, len(ev), n_ev))
                        return
                    rec.outcome((comp, hits, limit, len(ev)))
                    if not common.same(got, allowed[np.isin(allowed['event_number'], ev)]):
                        rec.violation('C13:events', '%s: the selected events are not whole or changed' % what)
                        return


def run_shapes(d, rec):
    ids = (0, 1, 2)
    t = [flags_table(ids) for _ in ids]
    conf, src = setup(d, ids, t)
    forms = [None, (), (1,), (0, 2)]
    for j, key in enumerate(KEYS):
        if j == 3:
            t0 = [x.copy() for x in t]
            for x in t0:
                x['isolated_track_flag'] |= ~x['hit_flag'] & 7
            conf, src = setup(d, ids, t0)
        else:
            t0 = t
            conf, src = setup(d, ids, t0)
        for form in forms[1:]:
            for conv in (list, tuple):
                if not form:
                    continue
                sel = [()] * 5
                sel[j] = form
                rec.state((key, form, conv.__name__))
                run_select(rec, '%s = %r for all' % (key, conv(form)), conf, src, ids, t0, [expected(x, sel) for x in t0], **{key: conv(form)})
        for per in itertools.product(forms, repeat=3):
            if all(p is None for p in per):
                per = None
            exp = []
            for k in range(3):
                sel = [()] * 5
                sel[j] = per[k] if per else ()
                exp.append(expected(t0[k], sel))
            rec.state((key, per))
            value = None if per is None else [None if p is None else list(p) for p in per]
            run_select(rec, '%s = %r' % (key, value), conf, src, ids, t0, exp, out=os.path.join(d, 'o.h5'), **{key: value})
            if per and value != [None if p is None else list(p) for p in per]:
                rec.violation('C13:changed', 'argument %s was changed' % key)


def run_invalid(d, rec):
    ids = (0, 1, 2)
    t = flags_table(ids)[:50]
    conf, src = setup(d, ids, [t] * 3)
    bad = [dict(select_duts=[]), dict(select_duts=1), dict(select_duts=['0']), dict(query=['a > 1', 'b > 1']), dict(query=[1]), dict(query=['no_such_column > 1']),
           dict(select_hit_duts=[[0]], select_no_hit_duts=[[0]]), dict(select_hit_duts=[[0, 1], [0]]), dict(select_duts=[7])]
    bad += [{k: [[0], [1]]} for k in KEYS]
    bad += [{k: 1} for k in KEYS]
    for kw in bad:
        args = dict(select_duts=[1])
        args.update(kw)
        rec.state(repr(kw))
        rec.traces += 1
        try:
            data_selection.select_tracks(conf, src, **args)
        except Exception as e:
            rec.outcome(type(e).__name__)
            continue
        rec.violation('C13:invalid', 'invalid arguments %r were accepted' % kw)
