'''C18: recording of the arguments of analysis steps in their result files.'''
import copy
import itertools
import os
import time

import numpy as np
import tables as tb

from mc import core
from beam_telescope_analysis import __version__ as version
from beam_telescope_analysis import hit_analysis
from beam_telescope_analysis.tools import data_selection
from beam_telescope_analysis.tools.storage_utils import save_arguments, save_configuration_dict
from beam_telescope_analysis.telescope.telescope import Telescope

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all histories of up to 3 steps over 3 step functions x 2 files x outcomes (success, failure before/after writing), all call shapes of a 4-parameter step (16 positional/keyword splits with/without defaults), 14 value kinds, 16 return value shapes; the real steps convert, check, mask, cluster, merge, correlate, reduce_events, combine_files',
    'thorough': 'as quick with histories of 4 steps',
}
RULE = 'states: distinct (history / call shape / return shape); transitions: stored records compared; traces: executions of decorated steps on real HDF5 files'
ASSUMPTIONS = ['arguments whose text form is not longer than 32 kB', 'step functions have no *args / **kwargs (none has)']


def cases(tier):
    n = 3 if tier == 'quick' else 4
    return [['hist', n, i] for i in range(len(OPS))] + [['calls', 0, i] for i in range(len(VALUES))] + [['returns', 0, 0], ['conf', 0, 0], ['real', 0, 0]]


VALUES = [1, 0, -2.5, None, True, 'text', '', (1, 2), [1, [2, 'x']], {'a': 1}, u'pfad/\u00e4\u03b1', 'x' * 16000, np.float64(2.5), (0.1, None)]


def records(path):
    '''{name: ({parameter: text}, date, version, n rows)} of a file and the names of all other nodes.'''
    with tb.open_file(path, 'r') as f:
        rec = {}
        if '/arguments' in f:
            for n in f.root.arguments:
                rows = n[:]
                rec[n._v_name] = ([(r['name'].decode('utf-8'), r['value'].decode('utf-8')) for r in rows], n.attrs.date_created, str(n.attrs.bta_version))
        data = {n._v_name: n[:].tolist() for n in f.root if n._v_name != 'arguments'}
        return rec, data


def check_record(rec, what, path, name, exp, t0, t1):
    got, _ = records(path)
    rec.transitions += 1
    if name not in got:
        rec.violation('C18:missing', '%s: no record of %s, only %r' % (what, name, sorted(got)))
        return
    rows, date, ver = got[name]
    if sorted(rows) != sorted((k, str(v)) for k, v in exp.items()):
        rec.violation('C18:arguments', '%s: record of %s holds %.500r, expected %.500r' % (what, name, rows, exp))
    if ver != str(version):
        rec.violation('C18:version', '%s: version %r' % (what, ver))
    try:
        t = time.mktime(time.strptime(date))
    except (ValueError, TypeError):
        rec.violation('C18:date', '%s: date %r' % (what, date))
        return
    if not (int(t0) <= t <= t1):
        rec.violation('C18:date', '%s: date %r not within the call' % (what, date))


class Boom(Exception):
    pass


def write_node(path, name, value, mode):
    with tb.open_file(path, mode) as f:
        if '/' + name in f:
            f.remove_node('/', name)
        f.create_array(f.root, name, obj=np.array(value))


@save_arguments
def step_a(output_file, value, other=7, fail=None):
    '''Doc of a.'''
    if fail == 'before':
        raise Boom()
    write_node(output_file, 'A', [value], 'a')
    if fail == 'after':
        raise Boom()
    return output_file


@save_arguments
def step_b(output_file, value, option='x'):
    with tb.open_file(output_file, 'w') as f:
        f.create_array(f.root, 'B', obj=np.array([value, value + 1]))
    return output_file


@save_arguments
def step_two(output_file, second, value):
    write_node(output_file, 'T', [value], 'a')
    write_node(second, 'T', [value], 'a')
    return [output_file, second]


@save_arguments
def outer(output_file, value):
    return step_a(output_file, value + 100, other='inner')


OPS = [('a', 0, None), ('a', 1, None), ('a', 0, 'before'), ('a', 0, 'after'), ('b', 0, None), ('b', 1, None), ('two', 0, None), ('outer', 0, None), ('a-kw', 0, None)]


def run_hist(depth, first, rec):
    d = core.scratch()
    paths = [os.path.join(d, 'f0.h5'), os.path.join(d, 'f1.h5')]
    for tail in itertools.product(range(len(OPS)), repeat=depth - 1):
        hist = (first,) + tail
        for p in paths:
            if os.path.exists(p):
                os.unlink(p)
        model = {0: ({}, {}), 1: ({}, {})}  # records, data of each file
        for i, k in enumerate(hist):
            op, fi, fail = OPS[k]
            p = paths[fi]
            rec.traces += 1
            m = model[fi]
            try:
                if op == 'a':
                    if fail is None:
                        r = step_a(p, i)
                        m[0]['step_a'] = {'output_file': p, 'value': i}
                        m[1]['A'] = [i]
                    else:
                        if fail == 'after':
                            m[1]['A'] = [i]
                        r = step_a(p, i, fail=fail)
                        rec.violation('C18:failure-hidden', 'history %r: failing step returned %r' % (hist, r))
                elif op == 'a-kw':
                    r = step_a(other=[1, i], value=i, output_file=p)
                    m[0]['step_a'] = {'output_file': p, 'value': i, 'other': [1, i]}
                    m[1]['A'] = [i]
                elif op == 'b':
                    r = step_b(p, value=i)
                    model[fi] = ({'step_b': {'output_file': p, 'value': i}}, {'B': [i, i + 1]})
                elif op == 'two':
                    r = step_two(p, paths[1], i)
                    for x in model:
                        model[x][0]['step_two'] = {'output_file': p, 'second': paths[1], 'value': i}
                        model[x][1]['T'] = [i]
                    if r != [p, paths[1]]:
                        rec.violation('C18:return', 'history %r: returned %r' % (hist, r))
                    r = p
                else:
                    r = outer(p, i)
                    m[0]['step_a'] = {'output_file': p, 'value': i + 100, 'other': 'inner'}
                    m[0]['outer'] = {'output_file': p, 'value': i}
                    m[1]['A'] = [i + 100]
                if r != p:
                    rec.violation('C18:return', 'history %r: returned %r' % (hist, r))
            except Boom:
                if fail is None:
                    raise
        for x in model:
            rec.transitions += 1
            if not os.path.exists(paths[x]):
                if model[x][1]:
                    rec.violation('C18:data', 'history %r: file %d is missing' % (hist, x))
                continue
            got, data = records(paths[x])
            exp = {n: sorted((k, str(v)) for k, v in a.items()) for n, a in model[x][0].items()}
            if {n: sorted(g[0]) for n, g in got.items()} != exp:
                rec.violation('C18:history', 'history %r: file %d has records %r, expected %r' % ([OPS[k] for k in hist], x, {n: g[0] for n, g in got.items()}, exp))
                return
            if data != model[x][1]:
                rec.violation('C18:data', 'history %r: file %d holds %r, expected %r' % (hist, x, data, model[x][1]))
                return
        rec.state(hist)
        rec.outcome(repr([(m[0], m[1]) for m in model.values()]).replace(d, ''))
    rec.sample({'first': OPS[first]})


@save_arguments
def step4(output_file, a, b=2, c=None):
    write_node(output_file, 'D', [1, 2], 'a')
    return output_file


def run_calls(vi, rec):
    d = core.scratch()
    v = VALUES[vi]
    p = os.path.join(d, 'f.h5')
    for n_pos in range(0, 5):
        names = ('output_file', 'a', 'b', 'c')
        for omit in ((), ('b',), ('c',), ('b', 'c')):
            if any(names.index(o) < n_pos for o in omit):
                continue
            for w in (v, 5):
                full = dict(output_file=p, a=v, b=w, c=[v, w])
                kw = {k: full[k] for k in names[n_pos:] if k not in omit}
                args = [full[k] for k in names[:n_pos]]
                keep = copy.deepcopy((args, kw))
                t0 = time.time()
                r = step4(*args, **kw)
                rec.traces += 1
                rec.state((vi, n_pos, omit, repr(w)))
                if r != p:
                    rec.violation('C18:return', 'returned %r' % (r,))
                if keep != (args, kw):
                    rec.violation('C18:changed', 'arguments were changed')
                check_record(rec, 'call with %d positional arguments without %r' % (n_pos, omit), p, 'step4', {k: x for k, x in full.items() if k not in omit}, t0, time.time() + 1)
    if step4.__name__ != 'step4' or step_a.__doc__ != 'Doc of a.':
        rec.violation('C18:wrapper', 'name or documentation of the step is lost')


def run_returns(rec):
    d = core.scratch()
    f = [os.path.join(d, 'f%d.h5' % i) for i in range(3)]
    missing = os.path.join(d, 'missing.h5')
    obj = object()
    # (return value, files that hold the record)
    shapes = [(f[0], [0]), ([f[0]], [0]), ([f[0], f[1]], [0, 1]), ((f[0], f[1], f[2]), [0, 1, 2]), ((f[1], 5), [1]), ((f[1], obj, None), [1]), (([f[0], f[2]], {'a': 1}), [0, 2]),
              (((f[2],), 3), [2]), (None, []), (5, []), ([], []), ((), []), (missing, []), ([missing], []), ({'a': f[0]}, []), ((obj, f[0]), []), (([], f[0]), [])]
    for ret, where in shapes:
        for k in range(3):
            write_node(f[k], 'X', [k], 'w')

        def produce(x):
            return ret
        t0 = time.time()
        r = save_arguments(produce)(x=3)
        rec.traces += 1
        rec.state(repr(ret).replace(d, '').split(' at ')[0])
        if r is not ret:
            rec.violation('C18:return', 'return value %r became %r' % (ret, r))
        for k in range(3):
            got, data = records(f[k])
            rec.transitions += 1
            if data != {'X': [k]}:
                rec.violation('C18:data', 'data of the result file changed')
            if (k in where) != ('produce' in got):
                rec.violation('C18:where', 'return value %r: file %d %s' % (ret, k, 'holds a record' if got else 'has no record'))
            elif k in where:
                check_record(rec, 'return value %r' % (ret,), f[k], 'produce', {'x': 3}, t0, time.time() + 1)
        if os.path.exists(missing):
            rec.violation('C18:where', 'a file was created')


def run_conf(rec):
    d = core.scratch()
    p = os.path.join(d, 'c.h5')
    now = time.time()
    for k, (opened, date, group) in enumerate(itertools.product((False, True), (None, now - 1e6, time.localtime(now - 2e6)), ('configuration', 'arguments'))):
        dic = {'k%d' % k: k, 'text': 'abc', 'list': [1, 2]}
        if opened:
            with tb.open_file(p, 'a') as h5:
                save_configuration_dict(h5, 'table', dic, group_name=group, date_created=date)
                if not h5.isopen:
                    rec.violation('C18:closed', 'file of the caller was closed')
        else:
            save_configuration_dict(p, 'table', dic, group_name=group, date_created=date)
        rec.traces += 1
        rec.transitions += 1
        rec.state(('conf', opened, repr(date), group))
        with tb.open_file(p, 'r') as h5:
            t = h5.get_node('/' + group + '/table')
            if {r['name'].decode(): r['value'].decode() for r in t[:]} != {a: str(b) for a, b in dic.items()}:
                rec.violation('C18:conf', 'stored %r for %r' % (t[:], dic))
            stored = getattr(t.attrs, 'date_created', None)
            exp = date if isinstance(date, float) else time.mktime(date) if date is not None else None
            if stored is None or (exp is not None and time.asctime(time.localtime(exp)) != stored) or (exp is None and abs(time.mktime(time.strptime(stored)) - time.time()) > 60):
                rec.violation('C18:conf-date', 'date %r is stored as %r' % (date, stored))


def run_real(rec):
    '''The real steps record their arguments (the innermost and the wrapper).'''
    d = core.scratch()
    t = Telescope()
    for i in range(2):
        t.add_dut('RectangularPixelDut', i, translation_x=0, translation_y=0, translation_z=i * 1000, rotation_alpha=0, rotation_beta=0, rotation_gamma=0, column_size=50, row_size=50, n_columns=8, n_rows=8)
    conf = os.path.join(d, 'tel.yaml')
    t.save_configuration(conf)
    files = []
    for i in range(2):
        hits = np.zeros(20, dtype=hit_analysis.default_hits_dtype)
        hits['event_number'] = np.arange(20) // 2
        hits['column'] = 1 + (np.arange(20) * 3 + i) % 8
        hits['row'] = 1 + (np.arange(20) * 5) % 8
        hits['charge'] = 1
        files.append(os.path.join(d, 'dut%d.h5' % i))
        with tb.open_file(files[i], 'w') as f:
            f.create_table(f.root, 'Hits', description=hits.dtype).append(hits)

    def out(name, n=2):
        return [os.path.join(d, '%s_%d.h5' % (name, i)) for i in range(n)]
    steps = [
        ('convert', hit_analysis.convert, (conf, files), dict(output_hit_files=out('conv'), chunk_size=7)),
        ('check', hit_analysis.check, (conf,), dict(input_hit_files=files, output_check_files=out('check'), plot=False)),
        ('mask', hit_analysis.mask, (conf, files, out('mask')), dict(plot=False, thresholds=5.)),
        ('cluster', hit_analysis.cluster, (conf, files), dict(output_cluster_files=out('cluster'), plot=False, chunk_size=8)),
        ('merge_cluster_data', hit_analysis.merge_cluster_data, (conf, out('cluster')), dict(output_merged_file=out('merged', 1)[0])),
        ('correlate', hit_analysis.correlate, (conf, files, out('corr', 1)[0]), dict(resolution=(50., 50.), plot=False)),
        ('reduce_events', data_selection.reduce_events, (files[0], 5), dict(output_file=out('red', 1)[0])),
        ('combine_files', data_selection.combine_files, (files, out('comb', 1)[0]), {}),
    ]
    inner = {'convert': 'convert_coordinates', 'check': 'check_file', 'mask': 'mask_pixels', 'cluster': 'cluster_hits'}
    for name, f, args, kw in steps:
        names = f.__wrapped__.__code__.co_varnames if hasattr(f, '__wrapped__') else ()
        keep = copy.deepcopy((args, kw))
        t0 = time.time()
        r = f(*args, **kw)
        t1 = time.time() + 1
        rec.traces += 1
        rec.state(name)
        if keep != (args, kw):
            rec.violation('C18:changed', '%s changed its arguments' % name)
        exp = dict(zip(names, args), **kw)
        for p in (r if isinstance(r, list) else [r[0] if isinstance(r, tuple) else r]):
            check_record(rec, 'real step', p, name, exp, t0, t1)
            got, _ = records(p) if name not in ('reduce_events', 'combine_files') else ({}, 0)
            if name in inner and inner[name] not in got:
                rec.violation('C18:missing', 'no record of %s' % inner[name])


def run_case(case, rec):
    {'hist': lambda: run_hist(case[1], case[2], rec), 'calls': lambda: run_calls(case[2], rec), 'returns': lambda: run_returns(rec), 'conf': lambda: run_conf(rec), 'real': lambda: run_real(rec)}[case[0]]()
