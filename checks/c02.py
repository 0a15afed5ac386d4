'''C02: event aligned chunked reading of an event table.'''
import itertools

import numpy as np
import tables as tb

from beam_telescope_analysis.tools import analysis_utils

LEVEL = 'model_checking'
DT = np.dtype([('event_number', np.int64), ('payload', np.int32)])
BOUNDS = {
    'quick': 'all non-decreasing event sequences of <=5 rows with gaps 0..2 (<=6 rows for full reads), every chunk size 1..rows+1, every start/stop event number, and for <=4 rows every start/stop row index x alignment flag x index speed-up',
    'thorough': 'as quick with one more row everywhere and gaps up to 3',
}
RULE = 'states: distinct (event sequence, parameters); transitions: chunks yielded and checked; traces: complete reads of a real PyTables table compared with the reference selection'
ASSUMPTIONS = ['event_number column is sorted (documented precondition)', 'PyTables returns the rows that were stored']


def sequences(n, gaps, starts=(0, 3)):
    for s in starts:
        for d in itertools.product(gaps, repeat=max(n - 1, 0)):
            yield tuple(np.cumsum((s,) + d).tolist()) if n else ()


def cases(tier):
    t = tier == 'thorough'
    gaps = (0, 1, 2, 3) if t else (0, 1, 2)
    out = []
    for n in range(0, (8 if t else 7)):
        seqs = list(sequences(n, (0, 1, 2), (0, 3)))
        seqs = sorted(set(seqs))
        for i in range(0, len(seqs), 60):
            out.append(['full', seqs[i:i + 60]])
    for n in range(0, (7 if t else 6)):
        seqs = sorted(set(sequences(n, gaps, (0, 3))))
        for i in range(0, len(seqs), 20):
            out.append(['range', seqs[i:i + 20]])
    for n in range(1, (6 if t else 5)):
        seqs = sorted(set(sequences(n, (0, 1, 2), (0, 2))))
        for i in range(0, len(seqs), 6):
            out.append(['index', seqs[i:i + 6]])
    return out[::-1]


def make_table(h5, seq, indexed):
    rows = np.zeros(len(seq), dtype=DT)
    rows['event_number'] = seq
    rows['payload'] = np.arange(len(seq))
    name = 't%d' % h5.root._v_nchildren
    t = h5.create_table(h5.root, name, description=DT)
    t.append(rows)
    t.flush()
    if indexed:
        t.cols.event_number.create_csindex()
    return t


def check_read(rec, table, seq, kw):
    '''One complete read against the reference.'''
    ev = np.array(seq, dtype=np.int64)
    i0 = kw.get('start_index') or 0
    i1 = len(seq) if kw.get('stop_index') is None else kw['stop_index']
    e0, e1 = kw.get('start_event_number'), kw.get('stop_event_number')
    chunk = kw['chunk_size']
    aligned = kw.get('first_event_aligned', True)
    fail = kw.get('fail_on_missing_events', True)
    idx = np.arange(i0, i1)
    # rows that can be returned at all
    sel = [i for i in idx if (e0 is None or ev[i] >= e0) and (e1 is None or ev[i] < e1)]
    if not aligned and i0 != 0 and len(idx) and not kw.get('try_speedup'):
        sel = [i for i in sel if ev[i] != ev[i0]]
    counts = {}
    for i in idx:
        counts[ev[i]] = counts.get(ev[i], 0) + 1
    fits = chunk > max(counts.values()) if counts else True
    missing = e0 is not None and len(idx) > 0 and (e0 not in counts or (not aligned and i0 != 0 and e0 == ev[i0]))
    # an event cut by the stop index may not be returned; a complete last one may be left out
    optional = set()
    if i1 < len(seq) and len(idx):
        optional = set(i for i in sel if ev[i] == ev[i1 - 1])
    cut = i1 < len(seq) and i1 > 0 and len(idx) and ev[i1] == ev[i1 - 1]
    got = []
    rec.state((seq, tuple(sorted(kw.items()))))
    rec.traces += 1
    try:
        n_chunks = 0
        for data, next_index in analysis_utils.data_aligned_at_events(table, **kw):
            n_chunks += 1
            rec.transitions += 1
            if n_chunks > len(seq) + 2:
                return 'endless', 'does not terminate'
            if data.dtype != DT:
                return 'dtype', 'chunk dtype %r' % (data.dtype,)
            if len(data) == 0:
                continue  # harmless: nothing selected
            if len(data) > chunk:
                return 'chunk-length', 'chunk of %d rows for chunk_size %d' % (len(data), chunk)
            rows = data['payload'].tolist()
            if (ev[rows] != data['event_number']).any():
                return 'content', 'rows changed'
            if got and ev[got[-1]] == ev[rows[0]]:
                return 'event-split', 'event %d is split over two chunks' % ev[rows[0]]
            got.extend(rows)
            if int(next_index) != rows[-1] + 1:
                return 'next-index', 'reported next index %d after row %d' % (next_index, rows[-1])
    except ValueError as e:
        rec.extra['value_errors'] += 1
        if fits and not (fail and missing):
            return 'spurious-error', 'ValueError(%s)' % e
        # what was delivered before the error has to be correct
        if got != sel[:len(got)]:
            return 'wrong-rows-before-error', 'rows %r, expected a prefix of %r' % (got, sel)
        rec.outcome(('err', str(e)[:20]))
        return None
    rec.outcome(tuple(got))
    mandatory = [i for i in sel if i not in optional]
    if e1 is not None and len(idx) and ev[i1 - 1] >= e1:
        mandatory = sel  # the end of the range was seen, nothing is ambiguous
    if got != sel and not (got == mandatory):
        return 'wrong-rows', 'rows %r, expected %r' % (got, sel)
    if got == sel and cut and optional and any(i in optional for i in got):
        return 'partial-event', 'event %d, cut by the stop index, is returned' % ev[i1 - 1]
    return None


def run_case(case, rec):
    mode, seqs = case
    with tb.open_file('c02.h5', 'w', driver='H5FD_CORE', driver_core_backing_store=0) as h5:
        for seq in seqs:
            seq = tuple(seq)
            table = make_table(h5, seq, indexed=(mode == 'index'))
            n = len(seq)
            top = (seq[-1] if seq else 0) + 2
            for kw in params(mode, n, top):
                bad = check_read(rec, table, seq, kw)
                if bad:
                    rec.violation('C02:' + bad[0], '%s\nevent numbers %r, arguments %r' % (bad[1], seq, kw), events=seq, kwargs=kw)
            rec.sample({'events': seq, 'mode': mode})


def params(mode, n, top):
    chunks = list(range(1, n + 2)) + [1000]
    if mode == 'full':
        for c in chunks:
            yield dict(chunk_size=c)
            yield dict(chunk_size=c, try_speedup=True)
    elif mode == 'range':
        evs = [None] + list(range(0, top + 1))
        for c in chunks:
            for e0 in evs:
                for e1 in evs:
                    if e0 is not None and e1 is not None and e1 < e0:
                        continue
                    for f in (True, False):
                        yield dict(chunk_size=c, start_event_number=e0, stop_event_number=e1, fail_on_missing_events=f)
    else:
        evs = [None] + list(range(0, top + 1))
        for c in chunks:
            for e0 in evs:
                for e1 in evs:
                    if e0 is not None and e1 is not None and e1 < e0:
                        continue
                    for f in (False, True):
                        yield dict(chunk_size=c, start_event_number=e0, stop_event_number=e1, fail_on_missing_events=f, try_speedup=True)
                    for i0 in range(0, n + 1):
                        for i1 in range(i0, n + 1):
                            if mode == 'index' and (e0 is not None or e1 is not None):
                                yield dict(chunk_size=c, start_event_number=e0, stop_event_number=e1, start_index=i0, stop_index=i1, fail_on_missing_events=False, try_speedup=True)
                            for a in (True, False):
                                for f in (True, False):
                                    yield dict(chunk_size=c, start_event_number=e0, stop_event_number=e1, start_index=i0, stop_index=i1, first_event_aligned=a, fail_on_missing_events=f)
                        # continuing at a row index, as the analysis steps do
                        yield dict(chunk_size=c, start_event_number=e0, stop_event_number=e1, start_index=i0, fail_on_missing_events=False)
