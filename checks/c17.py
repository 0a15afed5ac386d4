'''C17: telescope configuration under all operation histories, against a plain dictionary model.'''
import copy
import itertools
import os

import yaml

from mc import core
from beam_telescope_analysis.telescope import dut as dm
from beam_telescope_analysis.telescope.telescope import Telescope

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all operation histories of depth 4 (states merged) over: add DUT (2 ids x 3 types), move, change limits/resolution/material, rename, save (2 files x keep others), load (2 files), new telescope from file, change telescope pose, invalid add/assignment/load; all 15 DUT types x parameter variants single round trips',
    'thorough': 'as quick with depth 6',
}
RULE = 'states: distinct (telescope content, file contents) reached; transitions: operations executed on the real classes and compared with the model; traces: operation histories (distinct paths followed from a stored state)'
ASSUMPTIONS = ['YAML library']

BASE = ('name', 'translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma', 'x_limit', 'y_limit', 'material_budget', 'intrinsic_resolution')
FIXED = ['FEI4', 'RD53A', 'RD53A_8x8', 'ITkPix', 'ITkPix_8x8', 'TJMonopix1', 'TJMonopix1_2x2', 'PSI46', 'Mimosa26', 'DepfetH5z85', 'DepfetH5z55', 'Timepix3', 'ScatteringPlane']
TEL = ('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma')


def norm(name, v):
    if name == 'name':
        return str(v)
    if name in ('x_limit', 'y_limit'):
        return None if v is None else (float(min(v)), float(max(v)))
    if name == 'intrinsic_resolution':
        return None if v is None else (float(v[0]), float(v[1]))
    if name == 'material_budget':
        return 0.0 if v is None else float(v)
    if name in ('n_columns', 'n_rows'):
        return int(v)
    if name == 'sensor_position':
        return (int(v[0]), int(v[1]))
    return float(v)


def attributes(dut_type):
    if dut_type.startswith('RectangularPixelDut'):
        return BASE + ('column_size', 'row_size', 'n_columns', 'n_rows')
    if dut_type.startswith('Diamond'):
        return BASE + ('sensor_position',)
    return BASE


def model_dut(dut_type, dut_id, kw):
    attrs = dict.fromkeys(('x_limit', 'y_limit', 'material_budget', 'intrinsic_resolution'))
    if dut_type == 'Mimosa26':
        attrs['intrinsic_resolution'] = (3.5, 3.5)
    attrs['name'] = 'DUT%d' % dut_id
    attrs.update(kw)
    return (dut_type, tuple((a, norm(a, attrs[a])) for a in attributes(dut_type)))


def observe(t):
    duts = tuple((i, type(d).__name__, tuple((a, getattr(d, a)) for a in attributes(type(d).__name__))) for i, d in sorted(t.dut.items()))
    return duts, tuple(getattr(t, a) for a in TEL)


def check_telescope(rec, t, model, tel, what):
    exp = tuple((i, m[0], m[1]) for i, m in sorted(model.items())), tuple(tel)
    got = observe(t)
    rec.transitions += 1
    if got != exp:
        rec.violation('C17:content', '%s: telescope is %r, expected %r' % (what, got, exp))
        return False
    types = [[type(v) for v in (val if isinstance(val, tuple) else (val,))] for d in got[0] for _, val in d[2]]
    if any(tp not in (float, int, str, type(None)) for tt in types for tp in tt):
        rec.violation('C17:types', '%s: value types %r' % (what, types))
    if len(t) != len(model) or [d.name for d in t] != [dict(m[1])['name'] for _, m in sorted(model.items())] or t.dut_names != [d.name for d in t]:
        rec.violation('C17:order', '%s: iteration order' % what)
    for i in model:
        if t[i] is not t.dut[i]:
            rec.violation('C17:order', '%s: item access' % what)
    return True


P1 = dict(translation_x=1, translation_y=-2.5, translation_z=0, rotation_alpha=0, rotation_beta=0.1, rotation_gamma='-3.25')
P2 = dict(name='other, "dut": 3', translation_x=0, translation_y=0, translation_z=29000, rotation_alpha=3.14159265358979, rotation_beta=0, rotation_gamma=1e-17,
          x_limit=(4, -3), y_limit=[-1e4, 2e4], material_budget=0.001, intrinsic_resolution=[1, 2.5])
OPS = [('add', 0, 'FEI4', P1), ('add', 10, 'Mimosa26', P2), ('add', 10, 'RectangularPixelDut', dict(P1, column_size=50, row_size=25.5, n_columns=3, n_rows=4)),
       ('add', 2, 'ScatteringPlane', P2), ('set', 0, 'translation_x', 7.25), ('set', 0, 'x_limit', (5, 1)), ('set', 10, 'intrinsic_resolution', (9, 8)), ('set', 10, 'material_budget', 0.25),
       ('set', 0, 'name', 12), ('set', 10, 'intrinsic_resolution', None),
       ('tel', 'rotation_gamma', 0.5), ('save', 'a', False), ('save', 'b', True), ('save', 'again', False), ('load', 'a'), ('load', 'b'), ('new', 'a'), ('bad',)]
OTHER = {'SOMETHING': {'x': [1, 2]}, 'TELESCOPE': {'note': 'kept'}}


def cases(tier):
    depth = 4 if tier == 'quick' else 6
    out = [['hist', depth, i] for i in range(len(OPS))]
    out += [['types', 0, name] for name in FIXED + ['RectangularPixelDut', 'RectangularPixelDutWithDoubleColumns', 'Diamond3DpCVD', 'DiamondPseudo3DpCVD']]
    out += [['many', 0, i] for i in range(4)]
    return out


def raises(f, *a, **kw):
    try:
        f(*a, **kw)
    except Exception:
        return True
    return False


class World(object):
    '''Real telescope + files (as text) + model of both.'''

    def __init__(self):
        self.t = Telescope()
        self.model, self.tel = {}, [0.0] * 6
        self.files = {}  # name -> (model, tel, other)
        self.texts = {}
        self.last = None

    def key(self):
        return (tuple(sorted(self.model.items())), tuple(self.tel), tuple(sorted((k, tuple(sorted(v[0].items())), tuple(v[1]), repr(v[2])) for k, v in self.files.items())), self.last)

    def clone(self):
        return copy.deepcopy(self)


def apply(w, op, d, rec, path):
    '''Apply op on the real world and the model; files are written to directory d.'''
    for n in ('a', 'b'):
        p = os.path.join(d, n + '.yaml')
        if n in w.texts:
            with open(p, 'w') as f:
                f.write(w.texts[n])
        elif os.path.exists(p):
            os.unlink(p)
    t = w.t
    what = 'after %r' % (path,)
    if op[0] == 'add':
        t.add_dut(dut_type=op[2] if op[1] != 0 else getattr(dm, op[2]), dut_id=op[1], **copy.deepcopy(op[3]))
        w.model[op[1]] = model_dut(op[2], op[1], op[3])
    elif op[0] == 'set':
        if op[1] not in w.model:
            return False
        setattr(t[op[1]], op[2], op[3])
        m = w.model[op[1]]
        w.model[op[1]] = (m[0], tuple((a, norm(a, op[3]) if a == op[2] else v) for a, v in m[1]))
    elif op[0] == 'tel':
        setattr(t, op[1], op[2])
        w.tel[TEL.index(op[1])] = float(op[2])
    elif op[0] == 'save':
        name = w.last if op[1] == 'again' else op[1]
        if name is None:
            if not raises(t.save_configuration):
                rec.violation('C17:save-nowhere', '%s: saving without a file name did not fail' % what)
            return False
        path_ = None if op[1] == 'again' else os.path.join(d, name + '.yaml')
        if path_ is None:
            t.configuration_file = os.path.join(d, name + '.yaml')
        if op[2] and name not in w.files:
            with open(os.path.join(d, name + '.yaml'), 'w') as f:
                yaml.safe_dump(OTHER, f)
        t.save_configuration(path_, keep_others=op[2])
        other = OTHER if op[2] and (name not in w.files or w.files[name][2]) else None
        w.files[name] = (dict(w.model), list(w.tel), other)
        w.last = name
        with open(os.path.join(d, name + '.yaml')) as f:
            w.texts[name] = f.read()
        content = yaml.safe_load(w.texts[name])
        if other is not None and (content.get('SOMETHING') != OTHER['SOMETHING'] or content['TELESCOPE'].get('note') != 'kept'):
            rec.violation('C17:keep-others', '%s: other content of the file is lost: %r' % (what, content))
        if other is None and set(content) != {'TELESCOPE'}:
            rec.violation('C17:file', '%s: file holds %r' % (what, sorted(content)))
        # a fresh telescope has exactly the saved content
        check_telescope(rec, Telescope(os.path.join(d, name + '.yaml')), w.model, w.tel, what + ' loaded again')
    elif op[0] in ('load', 'new'):
        p = os.path.join(d, op[1] + '.yaml')
        if op[1] not in w.files:
            if not raises(t.load_configuration if op[0] == 'load' else Telescope, p):
                rec.violation('C17:load-missing', '%s: loading a missing file did not fail' % what)
            if op[0] == 'load':
                w.last = None
                t.configuration_file = None
        else:
            m, tel, _ = w.files[op[1]]
            if op[0] == 'new':
                w.t = t = Telescope(p)
                w.model, w.tel = dict(m), list(tel)
            else:
                t.load_configuration(p)
                w.model = dict(w.model, **{})
                w.model.update(m)
                w.tel = list(tel)
            w.last = op[1]
    elif op[0] == 'bad':
        bad = [lambda: t.add_dut('NoSuchDut', 5, **P1), lambda: t.add_dut('FEI4', 'x', **P1), lambda: t.add_dut('FEI4', 1.0, **P1), lambda: t.add_dut('FEI4', 5),
               lambda: t.add_dut('FEI4', 0, **dict(P1, n_columns=3)), lambda: t.add_dut('FEI4', 0, **dict(P1, translation_x='abc')), lambda: t.add_dut(3, 5, **P1),
               lambda: t.__setitem__(5, 'no dut'), lambda: setattr(t, 'translation_x', 'abc')]
        for i, m in w.model.items():
            dut = t[i]
            bad += [lambda dut=dut: setattr(dut, 'no_such_attribute', 1), lambda dut=dut: setattr(dut, 'translation_y', 'abc'), lambda dut=dut: setattr(dut, 'translation_y', None),
                    lambda dut=dut: setattr(dut, 'x_limit', 3), lambda dut=dut: setattr(dut, 'intrinsic_resolution', (1,)), lambda dut=dut: setattr(dut, 'material_budget', 'x')]
            if m[0] != 'RectangularPixelDut':
                bad.append(lambda dut=dut: setattr(dut, 'n_columns', 3))
                bad.append(lambda dut=dut: setattr(dut, 'column_size', 3))
        for k, b in enumerate(bad):
            rec.transitions += 1
            if not raises(b):
                rec.violation('C17:invalid-accepted', '%s: invalid operation %d was accepted' % (what, k))
            if observe(t) != (tuple((i, m[0], m[1]) for i, m in sorted(w.model.items())), tuple(w.tel)):
                rec.violation('C17:invalid-changed', '%s: invalid operation %d changed the telescope' % (what, k))
    return check_telescope(rec, t, w.model, w.tel, what)


def run_hist(depth, first, rec):
    d = core.scratch()
    w = World()
    if not apply(w, OPS[first], d, rec, [OPS[first][:3]]):
        return
    seen = {w.key()}
    frontier = [(w, [OPS[first][:3]])]
    for level in range(depth - 1):
        nxt = []
        for w, path in frontier:
            for op in OPS:
                w2 = w.clone()
                p2 = path + [op[:3]]
                ok = apply(w2, op, d, rec, p2)
                rec.traces += 1
                if rec.violations:
                    return
                if not ok:
                    continue
                k = w2.key()
                if k in seen:
                    continue
                seen.add(k)
                rec.state(k)
                rec.outcome(k[0])
                nxt.append((w2, p2))
        frontier = nxt
        rec.extra['frontier_level_%d' % (level + 2)] += len(nxt)
    rec.sample({'first': repr(OPS[first])[:100], 'states': len(seen)})


def run_types(name, rec):
    d = core.scratch()
    extra = {}
    if name.startswith('Rect'):
        extra = dict(column_size=50, row_size=18.4, n_columns=3, n_rows=336)
    if name.startswith('Diamond'):
        extra = dict(sensor_position=(40, 50))
    tv = (0, -1.5, 1e6, 1. / 3)
    variants = [dict(P1), dict(P2), {k: v for k, v in P2.items() if k != 'intrinsic_resolution'}, dict(P2, intrinsic_resolution=None, material_budget=None, x_limit=None)]
    variants += [dict(P1, **dict(zip(TEL, p))) for p in itertools.product(tv, (0, -1. / 3), (2e5, -0.0), (0.1, -3.), (0, 1e-300), (1.,))]
    variants += [dict(P1, name=n) for n in ('', '12', 'null', 'a: b', u'\u00e4\u03b1', 'x' * 300, 'true', '- y', "o'c", '#', '1e3', ' lead', 'line\nbreak')]
    for k, kw in enumerate(variants):
        kw = dict(kw, **extra)
        f = os.path.join(d, 'x.yaml')
        for i, dut_type in ((3, name), (0, getattr(dm, name))):
            t = Telescope(translation_x=1, rotation_alpha=-0.25)
            t.add_dut(dut_type, i, **copy.deepcopy(kw))
            model = {i: model_dut(name, i, kw)}
            tel = [1., 0, 0, -0.25, 0, 0]
            rec.state((name, i, repr(kw)))
            rec.traces += 1
            if not check_telescope(rec, t, model, tel, '%s %r' % (name, kw)):
                return
            t.save_configuration(f)
            if not check_telescope(rec, t, model, tel, 'saving %s %r' % (name, kw)):
                return
            t2 = Telescope(f)
            if not check_telescope(rec, t2, model, tel, 'loaded %s %r' % (name, kw)):
                return
            t2.save_configuration()
            if not check_telescope(rec, Telescope(f), model, tel, 'loaded twice %s %r' % (name, kw)):
                return
            rec.outcome(model[i])


def run_many(which, rec):
    '''Order of the devices for all insertion orders, numbers with several digits.'''
    d = core.scratch()
    ids = [(0, 1, 2, 10), (2, 10, 1, 3), (100, 20, 3, 0), (9, 10, 11, 1)][which]
    f = os.path.join(d, 'x.yaml')
    for perm in itertools.permutations(ids):
        t = Telescope()
        model = {}
        for i in perm:
            kw = dict(P1, translation_z=i * 1000)
            t.add_dut('FEI4', i, **kw)
            model[i] = model_dut('FEI4', i, kw)
        t.save_configuration(f)
        t2 = Telescope(f)
        rec.state(perm)
        rec.traces += 1
        check_telescope(rec, t, model, [0.] * 6, 'added in order %r' % (perm,))
        check_telescope(rec, t2, model, [0.] * 6, 'loaded, added in order %r' % (perm,))
        # removed DUTs do not come back
        del t.dut[perm[0]]
        t.save_configuration(f, keep_others=True)
        del model[perm[0]]
        check_telescope(rec, Telescope(f), model, [0.] * 6, 'removed DUT %d' % perm[0])


def run_case(case, rec):
    if case[0] == 'hist':
        run_hist(case[1], case[2], rec)
    elif case[0] == 'types':
        run_types(case[2], rec)
    else:
        run_many(case[2], rec)
