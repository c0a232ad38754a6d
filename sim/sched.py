"""A scheduler that owns every thread switch.

Real threads, but only one of them runs at any moment.  Every line of the
library that is executed is a point where the scheduler may hand over to
another thread; when it does is written in a plan (a list of [gap, choice]),
so the plan determines the interleaving completely.  Locks the library
creates are replaced by cooperative ones, and the import system's module locks
are made to hand over instead of blocking.
"""
import sys
import threading
import zlib
import _thread

CURRENT = None          # the active scheduler, if any
_real_lock, _real_rlock = threading.Lock, threading.RLock


def _me():
    s = CURRENT
    return s.index.get(_thread.get_ident()) if s is not None else None


class SimLock(object):
    """what ``threading.Lock()`` and ``RLock()`` give to library code"""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner, self.count = None, 0
        self.inner = _real_rlock() if reentrant else _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = _me()
        if me is None:
            return self.inner.acquire(blocking, timeout)
        s = CURRENT
        s.counts['lock_acquire'] = s.counts.get('lock_acquire', 0) + 1
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                s.counts['lock_timeout'] = s.counts.get('lock_timeout', 0) + 1
                return False
            s.block(lambda: self.owner is None)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        me = _me()
        if me is None:
            return self.inner.release()
        if self.owner != me:
            raise RuntimeError('release of a lock that is not held')
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None or (not self.reentrant and self.inner.locked())

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def _from_library():
    f = sys._getframe(2)
    return '/pyopenapi/' in f.f_code.co_filename


def install():
    """to be called before the library is imported"""
    def lock():
        return SimLock(False) if _from_library() else _real_lock()

    def rlock():
        return SimLock(True) if _from_library() else _real_rlock()

    threading.Lock, threading.RLock = lock, rlock
    ml = sys.modules['_frozen_importlib']._ModuleLock
    if not hasattr(ml, '_sim'):
        ml._sim = True
        acquire = ml.acquire

        def acquire_(self):
            me = _me()
            if me is not None:
                ident = _thread.get_ident()
                while self.owner is not None and self.owner != ident:
                    CURRENT.block(lambda: self.owner is None)
            return acquire(self)

        ml.acquire = acquire_


class Deadlock(Exception):
    pass


IMPORT_FUNCS = {'_load_module_shim', '_exec', '_load'}


class Lines(object):
    """counts how often each line of the library is executed"""
    TOOL = 3

    def __init__(self):
        self.n = {}

    def line(self, code, line):
        f = code.co_filename
        if '/pyopenapi/' not in f or '/tests/' in f:
            return sys.monitoring.DISABLE
        self.n[f, line] = self.n.get((f, line), 0) + 1

    def __enter__(self):
        m = sys.monitoring
        if m.get_tool(self.TOOL) is None:
            m.use_tool_id(self.TOOL, 'pyoa-lines')
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)


class Sched(object):
    TOOL = 3

    def __init__(self, plan, fetches=(), density=1.0, salt=0, stops=None):
        # stops: the points are these only, {(file, line): [[hits left, choice], ...]}
        self.stops = stops
        self.density, self.salt = density, salt
        self.plan = [list(p) for p in plan]
        self.fetches = list(fetches)
        self.n = 0
        self.gap = 0
        self.pending = None
        self.off = 0
        self.index = {}         # thread ident -> number
        self.alive = set()
        self.waiting = {}       # number -> predicate
        self.cur = None
        self.trace = []         # (points so far, from, to)
        self.counts = {}
        self.dead = None
        self.code = {}
        self._next()

    def _next(self):
        if self.plan:
            self.gap, self.pending = self.plan.pop(0)
        else:
            self.gap, self.pending = 1 << 60, 0

    # -- points -------------------------------------------------------------
    def _lib(self, code):
        r = self.code.get(code)
        if r is None:
            f = code.co_filename
            r = self.code[code] = ('/pyopenapi/' in f and '/tests/' not in f) or \
                ('importlib._bootstrap' in f and 'external' not in f and code.co_name in IMPORT_FUNCS)
        return r

    def line(self, code, line):
        if not self._lib(code):
            return sys.monitoring.DISABLE
        if self.stops is not None:
            return self.stop(code, line)
        if self.density < 1 and zlib.crc32(b'%d/%d/%s' % (
                self.salt, line, code.co_name.encode())) > self.density * 4294967295:
            # not a point in this run
            return sys.monitoring.DISABLE
        if self.off or len(self.alive) < 2:
            return
        self.n += 1
        self.gap -= 1
        if self.gap <= 0:
            me = self.index.get(_thread.get_ident())
            choice = self.pending
            self._next()
            if me is not None:
                self.switch(me, choice)

    def stop(self, code, line):
        left = self.stops.get((code.co_filename, line))
        if not left:
            return sys.monitoring.DISABLE
        if self.off or len(self.alive) < 2:
            return
        self.n += 1
        left[0][0] -= 1
        if left[0][0] <= 0:
            choice = left.pop(0)[1]
            me = self.index.get(_thread.get_ident())
            if me is not None:
                self.switch(me, choice)

    def fetch(self):
        """a point at the arrival of data"""
        if self.off or not self.fetches:
            return
        c = self.fetches.pop(0)
        me = _me()
        if c and me is not None:
            self.switch(me, c)

    def runnable(self, me):
        out = []
        for t in sorted(self.alive):
            if t == me:
                continue
            w = self.waiting.get(t)
            if w is None or w():
                out.append(t)
        return out

    def switch(self, me, choice):
        others = self.runnable(me)
        if others:
            self.hand(me, others[choice % len(others)])

    def hand(self, me, to):
        self.trace.append((self.n, me, to))
        self.cur = to
        self.sems[to].release()
        self.sems[me].acquire()

    def block(self, free):
        """the thread cannot go on until ``free()``"""
        me = _me()
        self.counts['blocked'] = self.counts.get('blocked', 0) + 1
        self.waiting[me] = free
        try:
            while not free():
                others = self.runnable(me)
                if not others:
                    self.dead = 'every thread waits for another one'
                    self.main.release()
                    self.sems[me].acquire()     # for ever: the process ends
                self.hand(me, others[0])
        finally:
            self.waiting.pop(me, None)

    class _Quiet(object):
        def __init__(self, s):
            self.s = s

        def __enter__(self):
            self.s.off += 1

        def __exit__(self, *a):
            self.s.off -= 1

    def quiet(self):
        """nothing is a point inside (harness code that uses the library)"""
        return Sched._Quiet(self)

    # -- running --------------------------------------------------------------
    def run(self, bodies):
        global CURRENT
        n = len(bodies)
        self.sems = [_real_sem() for _ in range(n)]
        self.main = _real_sem()
        errors = [None] * n
        self.alive = set(range(n))

        def wrap(i, body):
            self.sems[i].acquire()
            self.index[_thread.get_ident()] = i
            try:
                body()
            except BaseException as e:
                errors[i] = e
            # (no library code below)
            self.alive.discard(i)
            self.index.pop(_thread.get_ident(), None)
            left = self.runnable(i)
            if left:
                to = left[(self.pending or 0) % len(left)]
                self.trace.append((self.n, i, to))
                self.cur = to
                self.sems[to].release()
            else:
                if self.alive:
                    self.dead = 'the threads that are left wait for ever'
                self.main.release()

        ts = [threading.Thread(target=wrap, args=(i, b), daemon=True) for i, b in enumerate(bodies)]
        CURRENT = self
        m = sys.monitoring
        if m.get_tool(self.TOOL) is None:
            m.use_tool_id(self.TOOL, 'pyoa-sched')
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        try:
            for t in ts:
                t.start()
            self.cur = 0
            self.sems[0].release()
            self.main.acquire()
            if not self.dead:
                for t in ts:
                    t.join()
        finally:
            m.set_events(self.TOOL, 0)
            m.free_tool_id(self.TOOL)
            CURRENT = None
        return errors


def _real_sem():
    # a semaphore made of a raw lock: held means "not yet"
    return _Gate()


class _Gate(object):
    def __init__(self):
        self.lock = _thread.allocate_lock()
        self.lock.acquire()

    def acquire(self):
        self.lock.acquire()

    def release(self):
        self.lock.release()
