'''Helpers of the checks of file based analysis steps.'''
import inspect
import math
import os
import pickle
import threading

import numpy as np
import tables as tb

from beam_telescope_analysis.telescope.telescope import Telescope


_getframeinfo = inspect.getframeinfo
_frames = {}


def getframeinfo(frame, context=1):
    '''The device classes look up the source lines of all their callers on each assignment: remember them (speed only).'''
    if not inspect.isframe(frame):
        return _getframeinfo(frame, context)
    key = (frame.f_code, frame.f_lasti, context)
    if key not in _frames:
        _frames[key] = _getframeinfo(frame, context)
    return _frames[key]


inspect.getframeinfo = getframeinfo


class NoBar(object):
    '''Stand-in for the progress bar (writes to the terminal only).'''

    def __init__(self, *args, **kwargs):
        pass

    def update(self, n=1):
        pass

    def close(self):
        pass


def quiet(*modules):
    for m in modules:
        if hasattr(m, 'tqdm'):
            m.tqdm = NoBar


def telescope(path, duts):
    '''duts: list of (id, type, kwargs) or kwargs of rectangular pixel devices'''
    t = Telescope()
    for i, d in enumerate(duts):
        kind = 'RectangularPixelDut'
        if isinstance(d, tuple):
            i, kind, d = d
        kw = dict(translation_x=0., translation_y=0., translation_z=0., rotation_alpha=0., rotation_beta=0., rotation_gamma=0.)
        kw.update(d)
        t.add_dut(kind, i, **kw)
    t.save_configuration(path)
    return t


def pixel(cols=8, rows=8, px=50., py=50., **kw):
    return dict(n_columns=cols, n_rows=rows, column_size=px, row_size=py, **kw)


def write(path, **tables):
    with tb.open_file(path, 'w') as f:
        for name, a in tables.items():
            t = f.create_table(f.root, name, description=a.dtype, title='Title of ' + name)
            t.append(a)
            t.flush()
    return path


def read(path, name):
    with tb.open_file(path, 'r') as f:
        return f.get_node(f.root, name)[:]


def nodes(path):
    with tb.open_file(path, 'r') as f:
        return sorted(n._v_name for n in f.list_nodes('/'))


def same(a, b):
    '''Identical records, NaN equal to NaN.'''
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.names is None:
        if a.dtype.kind == 'f':
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    return all(same(a[n], b[n]) for n in a.dtype.names)


def rotation(alpha, beta, gamma):
    '''Rotation around x, then y, then z.'''
    ca, sa, cb, sb, cg, sg = math.cos(alpha), math.sin(alpha), math.cos(beta), math.sin(beta), math.cos(gamma), math.sin(gamma)
    return np.array([[cg * cb, cg * sb * sa - sg * ca, cg * sb * ca + sg * sa],
                     [sg * cb, sg * sb * sa + cg * ca, sg * sb * ca - cg * sa],
                     [-sb, cb * sa, cb * ca]])


def to_global(dut, x, y, z=0.):
    '''Global position of local position(s); dut: dict of parameters.'''
    R = rotation(*[dut.get('rotation_' + n, 0.) for n in ('alpha', 'beta', 'gamma')])
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    return tuple(R[i, 0] * x + R[i, 1] * y + R[i, 2] * z + dut.get('translation_' + 'xyz'[i], 0.) for i in range(3))


def content(path):
    with open(path, 'rb') as f:
        return f.read()


def compositions(n, max_part=None):
    '''All ordered ways to split n rows into events.'''
    if n == 0:
        yield ()
        return
    for first in range(1, min(n, max_part or n) + 1):
        for rest in compositions(n - first, max_part):
            yield (first,) + rest


class Result(object):
    def __init__(self, func, data, kwargs):
        self.value = self.error = None
        try:
            self.value = pickle.loads(pickle.dumps(func(data, **kwargs)))  # as if sent by another process
        except Exception as e:
            self.error = e

    def get(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.value


class FakePool(object):
    def __init__(self, *args, **kwargs):
        pass

    def close(self):
        pass

    def terminate(self):
        pass

    def join(self):
        pass

    def apply_async(self, func, args=(), kwds={}):
        args, kwds = pickle.loads(pickle.dumps((args, kwds)))  # as if sent to another process
        return Result(lambda _, **k: func(*args, **k), None, kwds)


def fast_smc():
    '''The worker function runs in this process and waiting is short (speed only; the parallel machinery is explored by C01).'''
    from beam_telescope_analysis.tools import smc

    class Event(smc.Event if isinstance(smc.Event, type) else threading.Event().__class__):
        def wait(self, timeout=None):
            return super(Event, self).wait(None if timeout is None else timeout / 20.)

    smc.Event = Event
    smc.Pool = FakePool
    smc.apply_async = lambda pool, data, func, args=None, **kwargs: Result(func, data, kwargs.get('func_kwargs') or {})
