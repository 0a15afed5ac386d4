'''C14: reducing and combining files.'''
import itertools
import os

import numpy as np
import tables as tb

from mc import core
from checks import common
from beam_telescope_analysis.tools import data_selection

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'combine: all sequences of up to 3 files with up to 3 rows each (event numbers out of {0,1,4}, incl. empty ones) with all chunk sizes 1..4 for 2 files and one of them for 3; all given/automatic offset patterns; all sets of tables per file for 2 files (with and without event numbers) and table selections; reduce: all event structures of up to 7 rows, all limits 0..n+2, all chunk sizes, several tables of different length',
    'thorough': 'as quick with all chunk sizes for 3 files, sequences of 4 files with up to 2 rows, event structures of up to 9 rows',
}
RULE = 'states: distinct (file contents, arguments, chunk size); transitions: rows compared; traces: runs of the real combine_files/reduce_events'
ASSUMPTIONS = ['event numbers are sorted', 'an event fits into a chunk (reduce)', 'event number of the combined file fits into the column type']

DTYPE = [('event_number', '<i8'), ('x', '<f4'), ('charge', '<u2'), ('flags', '<u1')]
PLAIN = [('x', '<f8'), ('n', '<i4')]


def warmup():
    common.quiet(data_selection)


def histories(n, alphabet=(0, 1, 4)):
    return [h for k in range(n + 1) for h in itertools.combinations_with_replacement(alphabet, k)]


def table(ev, tag, dtype=DTYPE):
    t = np.zeros(len(ev), dtype=dtype)
    if 'event_number' in t.dtype.names:
        t['event_number'] = ev
    t['x'] = tag * 100 + np.arange(len(ev)) + 0.25
    if len(ev) > 1:
        t['x'][1] = np.nan
    t[t.dtype.names[2 if len(t.dtype) > 2 else 1]] = tag * 10 + np.arange(len(ev))
    return t


def cases(tier):
    out = []
    n = len(histories(3))
    out += [['three', tier, i] for i in range(n)]
    out += [['two', tier, i, 5] for i in range(5)]
    out += [['offsets', tier], ['tables', tier], ['names', tier]]
    if tier == 'thorough':
        out += [['four', tier, i] for i in range(len(histories(2)))]
    top = 7 if tier == 'quick' else 9
    out += [['reduce', tier, k, m, m2] for k in range(1, top + 1) for m2 in [1 if k < 5 else 8] for m in range(m2)]
    out += [['reduce_tables', tier]]
    return out[::-1]


def combine(rec, d, hists, chunk, offsets=None, what=''):
    files = []
    tabs = []
    for i, h in enumerate(hists):
        tabs.append(table(h, i + 1))
        p = os.path.join(d, 'f%d.h5' % i)
        common.write(p, Hits=tabs[-1])
        files.append(p)
    return check_combine(rec, d, files, [{'Hits': t} for t in tabs], chunk, offsets)


def check_combine(rec, d, files, tabs, chunk, offsets=None, names=None, out=None, order=None):
    what = 'files with %r, offsets %r, chunk size %d, names %r' % ([{n: t['event_number'].tolist() if 'event_number' in t.dtype.names else len(t) for n, t in x.items()} for x in tabs], offsets, chunk, names)
    before = [common.content(f) for f in files]
    kw = {}
    if offsets is not None:
        kw['event_number_offsets'] = list(offsets)
    if names is not None:
        kw['names'] = names
    given = out or os.path.join(d, 'out.h5')
    r, applied = data_selection.combine_files(list(files), given, chunk_size=chunk, **kw)
    rec.traces += 1
    if r != given:
        rec.violation('C14:name', '%s: returned %r' % (what, r))
        return False
    if [common.content(f) for f in files] != before:
        rec.violation('C14:input', '%s: input files changed' % what)
    wanted = sorted({n for x in tabs for n in x if names is None or n in ([names] if isinstance(names, str) else names)})
    if sorted(set(common.nodes(r)) - {'arguments'}) != wanted or sorted(applied) != wanted:
        rec.violation('C14:tables', '%s: tables %r, expected %r' % (what, common.nodes(r), wanted))
        return False
    for name in wanted:
        got = common.read(r, name)
        parts = [(k, x[name]) for k, x in enumerate(tabs) if name in x]
        exp = np.concatenate([t for _, t in parts])
        rec.transitions += len(exp)
        if got.dtype != exp.dtype or len(got) != len(exp):
            rec.violation('C14:rows', '%s: table %s has %d rows, expected %d' % (what, name, len(got), len(exp)))
            return False
        others = [n for n in exp.dtype.names if n != 'event_number']
        if not common.same(got[others].copy(), exp[others].copy()):
            rec.violation('C14:content', '%s: rows of table %s are changed or not in the order of the files' % (what, name))
            return False
        if 'event_number' not in exp.dtype.names:
            if applied[name] is not None:
                rec.violation('C14:offsets', '%s: offsets %r for a table without event numbers' % (what, applied[name]))
            continue
        if len(applied[name]) != len(parts):
            rec.violation('C14:offsets', '%s: %d offsets returned for %d files' % (what, len(applied[name]), len(parts)))
            return False
        start = 0
        last = -1
        for (k, t), off in zip(parts, applied[name]):
            ev = got['event_number'][start:start + len(t)]
            if not np.array_equal(ev, t['event_number'] + off):
                rec.violation('C14:order', '%s: event numbers of file %d are %r with offset %r, were %r' % (what, k, ev.tolist(), off, t['event_number'].tolist()))
                return False
            if offsets is not None and offsets[k] is not None:
                if off != offsets[k]:
                    rec.violation('C14:offset', '%s: offset %r applied to file %d' % (what, off, k))
                    return False
            elif len(ev) and ev[0] <= last:
                rec.violation('C14:shared', '%s: file %d starts with event %d, the file before ends with %d' % (what, k, ev[0], last))
                return False
            if len(ev):
                last = ev[-1]
            start += len(t)
    rec.outcome(what)
    return True


def run_case(case, rec):
    tier = case[1]
    d = core.scratch()
    H = histories(3)
    if case[0] in ('three', 'two', 'four'):
        if case[0] == 'three':
            seqs = [(H[case[2]], b, c) for b in H for c in H]
        elif case[0] == 'two':
            seqs = [(a,) for a in H] + list(itertools.product(H, H))
            seqs = seqs[case[2]::case[3]]
        else:
            H2 = histories(2)
            seqs = [(H2[case[2]],) + x for x in itertools.product(H2, repeat=3)]
        for i, s in enumerate(seqs):
            chunks = (1 + (i + case[2]) % 4,) if case[0] == 'four' or (case[0] == 'three' and tier == 'quick') else (1, 2, 3, 4, 1000)
            for chunk in chunks:
                rec.state((s, chunk))
                if not combine(rec, d, s, chunk):
                    return
        rec.sample({'event numbers of the files': seqs[-1]})
    elif case[0] == 'offsets':
        hs = [(), (0, 1), (2, 2, 7)]
        for s in itertools.product(hs, repeat=2):
            for offs in itertools.product((None, 0, 5, 100, 2 ** 40), repeat=2):
                rec.state((s, offs))
                if not combine(rec, d, s, 2, offs):
                    return
        for s in itertools.product(hs[:2], repeat=3):
            for offs in itertools.product((None, 3, 50), repeat=3):
                rec.state((s, offs))
                if not combine(rec, d, s, 2, offs):
                    return
    elif case[0] == 'tables':
        kinds = {'Tracks_DUT0': DTYPE, 'Tracks_DUT1': DTYPE, 'Plain': PLAIN}
        sets = [c for k in range(4) for c in itertools.combinations(sorted(kinds), k)]
        for a, b, n in itertools.product(sets, sets, (1, 2)):
            files, tabs = [], []
            for i, s in enumerate([a, b] + [a] * (n - 1)):
                tabs.append({name: table([(0, 1, 1), (3,), ()][(i + k) % 3], i + 10 * k, kinds[name]) for k, name in enumerate(s)})
                files.append(common.write(os.path.join(d, 'f%d.h5' % i), **tabs[-1]))
                with tb.open_file(files[-1], 'a') as f:
                    f.create_carray(f.root, 'HistSomething', obj=np.arange(3))
                    f.create_group(f.root, 'arguments_of_others')
            for names in (None, 'Tracks_DUT0', ['Tracks_DUT1'], ('Plain', 'Tracks_DUT1'), 'Tracks_DUT'):
                rec.state((a, b, n, names))
                if not check_combine(rec, d, files, tabs, 2, names=names):
                    return
    elif case[0] == 'names':
        for k, (names, exp) in enumerate([(('run_1.h5', 'run_2.h5'), 'run__combined.h5'), (('a.h5', 'a.h5'), 'a_combined.h5')]):
            files = [common.write(os.path.join(d, n), Hits=table((0, 1), 1)) for n in names]
            rec.state(names)
            rec.traces += 1
            r, offs = data_selection.combine_files(files)
            if r != os.path.join(d, exp) or offs != {'Hits': [0, 2]} or common.read(r, 'Hits')['event_number'].tolist() != [0, 1, 2, 3]:
                rec.violation('C14:name', 'combining %r gives %r, %r' % (names, r, offs))
            with tb.open_file(r) as f:
                if f.root.Hits.title != 'Title of Hits':
                    rec.violation('C14:title', 'title of the table is %r' % f.root.Hits.title)
    elif case[0] == 'reduce':
        n, k, m = case[2:]
        for comp in list(common.compositions(n))[k::m]:
            for pat, gaps in enumerate([(1,), (3, 1, 2)]):
                ev, x = [], pat * 4
                for j, c in enumerate(comp):
                    ev += [x] * c
                    x += gaps[j % len(gaps)]
                t = table(ev, 2)
                p = common.write(os.path.join(d, 'r.h5'), Hits=t)
                for limit in range(0, len(comp) + 3):
                    for chunk in list(range(max(comp) + 1, n + 2)) + [1000]:
                        rec.state((comp, pat, limit, chunk))
                        if not check_reduce(rec, p, {'Hits': t}, limit, chunk, out=None if (limit + chunk) % 2 else os.path.join(d, 'o.h5')):
                            return
        rec.sample({'events': comp})
    elif case[0] == 'reduce_tables':
        tabs = {'Tracks_DUT0': table((0, 0, 2, 3, 9, 9), 1), 'Tracks_DUT1': table((1,), 2), 'Tracks_DUT2': table((), 3)}
        for k in range(1, 4):
            for c in itertools.permutations(sorted(tabs), k):
                x = {n: tabs[n] for n in c}
                p = common.write(os.path.join(d, 'r.h5'), **x)
                with tb.open_file(p, 'a') as f:
                    f.create_group(f.root, 'arguments')
                for limit in range(0, 8):
                    for chunk in (3, 4, 6, 7, 1000):
                        rec.state((c, limit, chunk))
                        check_reduce(rec, p, x, limit, chunk)


def check_reduce(rec, p, tabs, limit, chunk, out=None):
    what = 'tables with events %r, at most %d events, chunk size %d' % ({n: t['event_number'].tolist() for n, t in tabs.items()}, limit, chunk)
    before = common.content(p)
    kw = {} if out is None else {'output_file': out}
    r = data_selection.reduce_events(p, limit, chunk_size=chunk, **kw)
    rec.traces += 1
    if r != (out or p[:-3] + '_reduced.h5'):
        rec.violation('C14:name', '%s: returned %r' % (what, r))
        return False
    if common.content(p) != before:
        rec.violation('C14:input', '%s: input file changed' % what)
    if sorted(set(common.nodes(r)) - {'arguments'}) != sorted(tabs):
        rec.violation('C14:tables', '%s: tables %r' % (what, common.nodes(r)))
        return False
    for name, t in tabs.items():
        got = common.read(r, name)
        rec.transitions += len(t)
        ev = np.unique(got['event_number'])
        if not common.same(got, t[np.isin(t['event_number'], ev)]):
            rec.violation('C14:events', '%s: the events kept, %r, are not whole or changed' % (what, got['event_number'].tolist()))
            return False
        n_ev = len(np.unique(t['event_number']))
        if len(ev) > limit:
            rec.violation('C14:limit', '%s: %d events kept' % (what, len(ev)))
            return False
        if chunk > len(t) and len(ev) != min(limit, n_ev):
            rec.violation('C14:lost', '%s: %d events kept, there are %d and one chunk' % (what, len(ev), n_ev))
            return False
        rec.outcome((name, len(t), limit, chunk, tuple(ev.tolist())))
    return True
