'''Controlled scheduler: runs threaded Python code under an explorer.

Threads of the program are real OS threads, but exactly one runs at a time and
control changes hands only at visible operations (thread start/join, events,
locks, queues/deques, sleeping, pool tasks).  Every choice is made by the
explorer, so an execution is determined by its choice list and can be replayed.

Polling.  A wait with a timeout may return at any time.  A thread that comes back to
a polling operation with the same local state (frames and locals) while the shared
state has not changed would only repeat itself; it is not scheduled again before the
shared state changes (stutter reduction).  If only such threads are left they get
extra rounds; if still nothing changes the execution is a hang (deadlock/livelock).
'''
import collections
import functools
import hashlib
import pickle
import queue as real_queue
import sys
import threading
import types

import numpy as np

EXTRA_ROUNDS = 3
MAX_STEPS = 5000


class Abort(BaseException):
    '''Unwinds the threads of an execution that is given up.'''


class Divergence(Exception):
    pass


class LThread(object):
    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.lock = threading.Lock()
        self.lock.acquire()
        self.done = False
        self.exc = None
        self.op = None          # (kind, object id)
        self.guard = None       # enabledness of the pending operation
        self.poll = False
        self.seen = (-1, ())    # shared version, local states at polling operations since it changed
        self.stutter = None     # shared version at which this thread only repeats itself
        self.real = None


class Scheduler(object):
    def __init__(self, prefix=(), visited=None, bound=None, fingerprint=None, code=(), written=None):
        self.code = tuple(code)
        # events that change in any execution explored so far; reading any other event commutes with everything
        self.written = written
        self.wrote = set()
        self.prefix = list(prefix)
        self.choices = []       # index chosen at every choice point
        self.points = []        # (n alternatives, cost so far, current still enabled, state hash)
        self.threads = []
        self.tasks = []
        self.pools = []
        self.version = 0
        self.current = None
        self.cost = 0
        self.bound = bound
        self.visited = visited
        self.fingerprint = fingerprint
        self.status = 'running'
        self.aborting = False
        self.objects = []
        self.trace = []
        self.stutter_rounds = 0
        self.stutter_version = 0
        self.new_states = 0
        self.steps = 0
        self.main_lock = threading.Lock()

    # -- registration
    def register(self, obj):
        self.objects.append(obj)
        return len(self.objects) - 1

    def new_thread(self, name):
        t = LThread(len(self.threads), name)
        self.threads.append(t)
        return t

    def changed(self):
        self.version += 1

    # -- visible operations
    def point(self, kind, obj=None, guard=None, poll=False):
        '''The running thread is about to do a visible operation.'''
        t = self.current
        if self.aborting:
            raise Abort()
        t.op, t.guard, t.poll = (kind, obj), guard, poll
        if poll:
            now = local_state(sys._getframe(1), self.code, t.tid == 0)
            if t.seen[0] != self.version:
                t.seen = (self.version, set())
            t.stutter = self.version if now in t.seen[1] else None
            t.seen[1].add(now)
        self._switch(t)
        if self.aborting:
            raise Abort()
        t.op = t.guard = None
        t.poll = False

    def _ready(self, t):
        if t.done or t.op is None:
            return False
        if t.poll and t.stutter == self.version:
            return False
        return t.guard is None or bool(t.guard())

    def _enabled(self):
        out = []
        cur = self.current
        if cur is not None and self._ready(cur):
            out.append(('t', cur.tid))
        for t in self.threads:
            if t is not cur and self._ready(t):
                out.append(('t', t.tid))
        for p in self.pools:
            for task in p.running():
                out.append(('task', task.index))
        return out

    def _pick(self):
        while True:
            enabled = self._enabled()
            if self.stutter_version != self.version:
                self.stutter_rounds, self.stutter_version = 0, self.version
            if enabled:
                # starting a thread or task commutes with everything other threads do
                for kind, i in enabled:
                    if kind == 't' and self.threads[i].op[0] in ('start', 'begin', 'apply_async'):
                        return (kind, i)
                t = self.current
                if (self.written is not None and t is not None and enabled[0] == ('t', t.tid) and t.op[0] in ('wait', 'is_set')
                        and t.op[1] not in self.written):
                    return enabled[0]
                break
            # only blocked and stuttering threads are left: give the latter some more (fair) rounds
            polling = [t for t in self.threads if not t.done and t.poll and (t.guard is None or t.guard())]
            if polling and self.stutter_rounds < EXTRA_ROUNDS * len(polling):
                t = polling[self.stutter_rounds % len(polling)]
                self.stutter_rounds += 1
                return ('t', t.tid)
            return None
        self.steps += 1
        if self.steps > MAX_STEPS:
            self.status = 'horizon'
            return None
        cur_enabled = self.current is not None and enabled[0] == ('t', self.current.tid)
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= len(enabled):
                raise Divergence('choice %d of %d at point %d' % (c, len(enabled), i))
        else:
            c = 0
            if self.visited is not None and self.fingerprint is not None:
                fp = (self.fingerprint(self), self.cost if self.bound is not None else 0)
                if fp in self.visited:
                    self.status = 'pruned'
                    return None
                self.visited.add(fp)
                self.new_states += 1
        if cur_enabled and c > 0:
            self.cost += 1
        self.points.append((len(enabled), self.cost, cur_enabled))
        self.choices.append(c)
        return enabled[c]

    def _switch(self, me):
        '''Decide who runs next; returns when `me` is to go on.'''
        while True:
            try:
                nxt = self._pick()
            except Divergence as e:
                self.status = 'divergence: %s' % e
                nxt = None
            if nxt is None:
                if self.status == 'running':
                    live = [t for t in self.threads if not t.done]
                    self.status = 'hang' if live else 'finished'
                self._abort(me)
                return
            if nxt[0] == 'task':
                self.trace.append('task%d' % nxt[1])
                self.tasks[nxt[1]].complete()
                continue
            t = self.threads[nxt[1]]
            self.trace.append('%s:%s' % (t.name, t.op[0]))
            self.current = t
            if t is me:
                return
            t.lock.release()
            if not me.done:
                me.lock.acquire()
            return

    def _abort(self, me):
        self.aborting = True
        for t in self.threads:
            if t is not me and not t.done:
                self.current = t
                t.lock.release()
                if t.real is not None:
                    t.real.join(20)
                else:
                    pass
        self.current = me

    # -- program
    def run(self, func):
        '''Runs func as logical thread 0; returns (status, result, exception).'''
        out = {}
        main = self.new_thread('main')

        def body():
            main.lock.acquire()
            try:
                out['result'] = func()
            except Abort:
                pass
            except BaseException as e:
                out['exc'] = e
            self._finish(main)

        main.real = threading.Thread(target=body, daemon=True)
        main.real.start()
        self.current = main
        main.lock.release()
        main.real.join()
        for t in self.threads:
            if t.real is not None:
                t.real.join(20)
        if self.status == 'running':
            self.status = 'finished'
        return self.status, out.get('result'), out.get('exc')

    def _finish(self, t):
        t.done = True
        self.changed()
        if self.aborting:
            return
        if t.tid == 0:
            self.main_done()
            return
        self._switch(t)

    def main_done(self):
        '''The call returned: what is left running is of no interest (daemon threads).'''
        self.status = 'finished'
        self.left_over = [t.name for t in self.threads if not t.done]
        self._abort(self.threads[0])


_S = None  # the scheduler of the execution in progress


class Thread(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.daemon = daemon
        self._t = None
        self.name = name or 'Thread'
        self._s = _S

    def setDaemon(self, d):
        self.daemon = d

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = self._s
        s.point('start')
        t = s.new_thread(self.name)
        self._t = t
        t.op = ('begin', None)

        def body():
            t.lock.acquire()
            try:
                if not s.aborting:
                    t.op = None
                    self.run()
            except Abort:
                pass
            except BaseException as e:
                t.exc = e
            s._finish(t)
        t.real = threading.Thread(target=body, daemon=True)
        t.real.start()
        s.changed()

    def join(self, timeout=None):
        t = self._t
        if timeout is None:
            self._s.point('join', t.tid, guard=lambda: t.done)
        else:
            self._s.point('join', t.tid, poll=True)

    def is_alive(self):
        self._s.point('is_alive', self._t.tid if self._t else None)
        return self._t is not None and not self._t.done

    isAlive = is_alive


class Event(object):
    def __init__(self):
        self._s = _S
        self._flag = False
        self._id = _S.register(self)

    def fingerprint(self):
        return ('E', self._flag)

    def is_set(self):
        self._s.point('is_set', self._id)
        return self._flag

    isSet = is_set

    def set(self):
        self._s.point('set', self._id)
        if not self._flag:
            self._flag = True
            self._s.wrote.add(self._id)
            self._s.changed()

    def clear(self):
        self._s.point('clear', self._id)
        if self._flag:
            self._flag = False
            self._s.wrote.add(self._id)
            self._s.changed()

    def wait(self, timeout=None):
        if timeout is None:
            self._s.point('wait', self._id, guard=lambda: self._flag)
        else:
            self._s.point('wait', self._id, poll=True)
        return self._flag


class Lock(object):
    def __init__(self):
        self._s = _S
        self._owner = None
        self._count = 0
        self._id = _S.register(self)

    def fingerprint(self):
        return ('L', self._owner, self._count)

    def acquire(self, blocking=True, timeout=-1):
        me = self._s.current
        if blocking and timeout == -1:
            self._s.point('acquire', self._id, guard=lambda: self._owner is None)
        else:
            self._s.point('acquire', self._id, poll=True)
            if self._owner is not None:
                return False
        self._owner = me.tid
        self._s.changed()
        return True

    def release(self):
        self._s.point('release', self._id)
        self._owner = None
        self._s.changed()

    def locked(self):
        self._s.point('locked', self._id)
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    def acquire(self, blocking=True, timeout=-1):
        me = self._s.current
        if self._owner == me.tid:
            self._count += 1
            return True
        r = Lock.acquire(self, blocking, timeout)
        if r:
            self._count = 1
        return r

    def release(self):
        self._count -= 1
        if self._count == 0:
            Lock.release(self)


class Deque(object):
    '''collections.deque whose single operations are atomic (as under the GIL).'''

    def __init__(self, iterable=(), maxlen=None):
        self._s = _S
        self._d = collections.deque(iterable, maxlen)
        self._id = _S.register(self)

    def fingerprint(self):
        return ('D', [digest(x) for x in self._d])

    def _op(name, changes):
        def f(self, *args):
            self._s.point(name, self._id)
            r = getattr(self._d, name)(*args)
            if changes:
                self._s.changed()
            return r
        return f

    append = _op('append', True)
    appendleft = _op('appendleft', True)
    pop = _op('pop', True)
    popleft = _op('popleft', True)
    extend = _op('extend', True)
    clear = _op('clear', True)
    __len__ = _op('__len__', False)
    __getitem__ = _op('__getitem__', False)
    count = _op('count', False)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        self._s.point('iter', self._id)
        return iter(list(self._d))


class Queue(object):
    def __init__(self, maxsize=0):
        self._s = _S
        self._d = collections.deque()
        self.maxsize = maxsize
        self._id = _S.register(self)

    def fingerprint(self):
        return ('Q', [digest(x) for x in self._d])

    def _full(self):
        return self.maxsize > 0 and len(self._d) >= self.maxsize

    def put(self, item, block=True, timeout=None):
        if block and timeout is None:
            self._s.point('put', self._id, guard=lambda: not self._full())
        else:
            self._s.point('put', self._id, poll=block)
            if self._full():
                raise real_queue.Full
        self._d.append(item)
        self._s.changed()

    def get(self, block=True, timeout=None):
        if block and timeout is None:
            self._s.point('get', self._id, guard=lambda: len(self._d) > 0)
        else:
            self._s.point('get', self._id, poll=block)
            if not self._d:
                raise real_queue.Empty
        self._s.changed()
        return self._d.popleft()

    def put_nowait(self, item):
        self.put(item, block=False)

    def get_nowait(self):
        return self.get(block=False)

    def qsize(self):
        self._s.point('qsize', self._id)
        return len(self._d)

    def empty(self):
        return self.qsize() == 0

    def full(self):
        self._s.point('full', self._id)
        return self._full()

    def task_done(self):
        pass


def sleep(seconds=0):
    _S.point('sleep', poll=True)


class Task(object):
    '''Result of apply_async of the pool.'''

    def __init__(self, pool, func, args, kwds, callback, error_callback):
        self._s = pool._s
        self.pool = pool
        self.index = len(self._s.tasks)
        self._s.tasks.append(self)
        self.payload = pickle.dumps((func, args, kwds))  # the arguments go to another process
        self.callback, self.error_callback = callback, error_callback
        self.done = False

    def fingerprint(self):
        return ('T', self.index, self.done)

    def complete(self):
        func, args, kwds = pickle.loads(self.payload)
        try:
            self.value = pickle.loads(pickle.dumps(func(*args, **kwds)))
            self.ok = True
        except Exception as e:
            self.value = e
            self.ok = False
        self.done = True
        self._s.changed()

    def get(self, timeout=None):
        if timeout is None:
            self._s.point('get', self.index, guard=lambda: self.done)
        else:
            self._s.point('get', self.index, poll=True)
            if not self.done:
                import multiprocessing
                raise multiprocessing.TimeoutError()
        if self.ok:
            return self.value
        raise self.value

    def wait(self, timeout=None):
        if timeout is None:
            self._s.point('get', self.index, guard=lambda: self.done)
        else:
            self._s.point('get', self.index, poll=True)

    def ready(self):
        self._s.point('ready', self.index, poll=False)
        return self.done

    def successful(self):
        return self.ok


class Pool(object):
    def __init__(self, processes=None, *args, **kwargs):
        self._s = _S
        self.processes = processes or 2
        self.queue = []
        self.terminated = False
        _S.pools.append(self)

    def running(self):
        if self.terminated:
            return []
        return [t for t in self.queue if not t.done][:self.processes]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._s.point('apply_async')
        t = Task(self, func, args, kwds, callback, error_callback)
        self.queue.append(t)
        self._s.changed()
        return t

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map(self, func, iterable, chunksize=None):
        return [r.get() for r in [self.apply_async(func, (x,)) for x in iterable]]

    def imap(self, func, iterable, chunksize=None):
        return iter(self.map(func, iterable))

    def close(self):
        self._s.point('pool.close')

    def terminate(self):
        self._s.point('pool.terminate')
        self.terminated = True
        self._s.changed()

    def join(self):
        self._s.point('pool.join', guard=lambda: not self.running())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


# -- state fingerprints

def digest(x, depth=0):
    '''Canonical content of a value a thread holds.'''
    if x is None or isinstance(x, (int, float, str, bytes, bool, np.generic)):
        return repr(x)
    if depth > 4:
        return type(x).__name__
    if isinstance(x, np.ndarray):
        return hashlib.blake2b(repr((x.shape, x.dtype.str, x.dtype.names)).encode() + (x.tobytes() if not x.dtype.hasobject else b''), digest_size=8).hexdigest()
    if isinstance(x, (list, tuple, collections.deque)):
        return [digest(y, depth + 1) for y in x]
    if isinstance(x, dict):
        return sorted((repr(k), digest(v, depth + 1)) for k, v in x.items() if isinstance(k, str))
    if hasattr(x, 'fingerprint'):
        return x.fingerprint()
    if isinstance(x, types.GeneratorType):
        f = x.gi_frame
        return ('gen', None) if f is None else ('gen', f.f_lasti, digest(dict(f.f_locals), depth + 1))
    if isinstance(x, types.FunctionType) and x.__closure__:
        return (x.__qualname__, [digest(c.cell_contents, depth + 1) for c in x.__closure__])
    if isinstance(x, BaseException):
        return repr(x)
    return type(x).__name__


OWN = __file__


def local_state(frame, code, with_self):
    '''Frames of the given source files: position and locals.'''
    st = []
    f = frame
    while f is not None:
        fn = f.f_code.co_filename
        if fn != OWN and fn.startswith(code):
            loc = f.f_locals
            st.append((f.f_code.co_name, f.f_lasti, sorted((k, repr(digest(v))) for k, v in loc.items() if k != 'self'),
                       sorted((k, repr(digest(v))) for k, v in vars(loc['self']).items()) if 'self' in loc and with_self else None))
        f = f.f_back
    return hashlib.blake2b(repr(st).encode(), digest_size=12).digest()


def make_fingerprint(extra=None):
    '''State = per thread stack of frames of the given source files + shared objects + tasks.'''

    def fp(s):
        frames = sys._current_frames()
        out = []
        for t in s.threads:
            if t.done:
                out.append((t.tid, 'done'))
                continue
            f = frames.get(t.real.ident)
            out.append((t.tid, t.op, t.poll, t.stutter == s.version, t.seen[0] == s.version and sorted(t.seen[1]),
                        local_state(f, s.code, t.tid == 0) if f is not None else None))
        cur = s.current.tid if s.current is not None else None
        obj = [o.fingerprint() for o in s.objects]
        tasks = [t.fingerprint() for t in s.tasks]
        return hashlib.blake2b(repr((cur, out, obj, tasks, extra() if extra else None)).encode(), digest_size=12).digest()
    return fp


# -- installing the replacements

def _proxy(module, repl):
    p = types.ModuleType(module.__name__)
    p.__dict__.update({k: v for k, v in module.__dict__.items()})
    p.__dict__.update(repl)
    return p


def install(module):
    '''Replaces the concurrency primitives that `module` refers to. Returns an undo function.'''
    import multiprocessing
    import multiprocessing.pool
    import time
    import concurrent.futures
    repl_by_obj = {
        id(threading.Thread): Thread, id(threading.Event): Event, id(threading.Lock): Lock, id(threading.RLock): RLock,
        id(collections.deque): Deque, id(real_queue.Queue): Queue, id(multiprocessing.Pool): Pool, id(time.sleep): sleep,
    }
    mods = {
        id(threading): _proxy(threading, dict(Thread=Thread, Event=Event, Lock=Lock, RLock=RLock)),
        id(multiprocessing): _proxy(multiprocessing, dict(Pool=Pool)),
        id(collections): _proxy(collections, dict(deque=Deque)),
        id(real_queue): _proxy(real_queue, dict(Queue=Queue)),
        id(time): _proxy(time, dict(sleep=sleep)),
    }
    saved = {}
    for k, v in list(vars(module).items()):
        new = repl_by_obj.get(id(v)) or mods.get(id(v))
        if new is None and getattr(v, '__func__', None) is not None and getattr(v, '__name__', '') == 'Pool' and 'multiprocessing' in type(getattr(v, '__self__', None)).__module__:
            new = Pool
        if new is not None:
            saved[k] = v
            setattr(module, k, new)

    def undo():
        for k, v in saved.items():
            setattr(module, k, v)
    return undo, sorted(saved)


def execute(module, func, prefix=(), visited=None, bound=None, fingerprint=None, code=(), written=None):
    global _S
    s = Scheduler(prefix, visited, bound, fingerprint, code, written)
    _S = s
    undo, names = install(module)
    try:
        s.outcome = s.run(func)
    finally:
        undo()
        _S = None
    s.replaced = names
    return s


def explore(run_one, bound=None, max_runs=None):
    '''Depth-first over all choice lists.  run_one(prefix, visited, written) -> finished Scheduler.

    Executions stop in states (set `visited`) that were explored before.  Reads of events
    that never change are no choice points; if one changes after all the exploration
    starts again without that assumption.  Returns (executions, complete, visited states).'''
    written = set()
    runs = 0
    while True:
        visited = set()
        stack = [[]]
        complete = True
        restart = False
        n = 0
        while stack:
            if max_runs is not None and n >= max_runs:
                complete = False
                break
            prefix = stack.pop()
            s = run_one(prefix, visited, frozenset(written))
            runs += 1
            n += 1
            if s.status.startswith('divergence'):
                raise RuntimeError('replaying a prefix diverged (uncontrolled nondeterminism): %s' % s.status)
            if not s.wrote <= written:
                written |= s.wrote
                restart = True
                break
            for i in range(len(s.points) - 1, len(prefix) - 1, -1):
                k, cost, cur_enabled = s.points[i]
                before = cost - (1 if (cur_enabled and s.choices[i] > 0) else 0)
                c = before + (1 if cur_enabled else 0)
                if bound is not None and c > bound:
                    continue
                for alt in range(k - 1, 0, -1):
                    stack.append(s.choices[:i] + [alt])
        if not restart:
            return runs, complete, visited
