"""Deterministic scheduling of caller threads and injection of asynchronous faults.

Caller threads are real threads, but exactly one holds the baton; the others
are parked on private locks.  Yield points are the source lines (optionally
byte-code instructions) of the code under test plus the simulator's storage
events.  Every decision "switch to thread t at step s" is recorded, so a run
is replayed from the list of its switches and minimised by removing switches.
"""
import ast, os, sys, threading, zlib, _thread
import numpy as np
from . import sim as S

_alloc = _thread.allocate_lock
_RealLock, _RealRLock = threading.Lock, threading.RLock


def under_test(filename):
    return '/pyqcstrc/' in filename


class Deadlock(BaseException):
    pass


class SimLock:
    """cooperative replacement for threading.Lock/RLock used by the code under test"""
    sched = None                       # class attribute: the active scheduler

    def __init__(self, re=False):
        self._owner = None
        self._n = 0
        self._re = re

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = SimLock.sched
        while True:
            if self._owner is None or (self._re and self._owner == me):
                self._owner = me
                self._n += 1
                return True
            if not blocking or s is None or not s.has(me):
                if not blocking or timeout >= 0:
                    return False
                raise Deadlock('lock held by nobody who can run')
            if timeout >= 0:
                s.forced_yield()
                if self._owner is not None:
                    return False
                continue
            s.block(self)

    def release(self):
        if self._n <= 0:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None
            if SimLock.sched:
                SimLock.sched.wake(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # threading.Condition support
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        n = self._n
        self._n = 0
        self._owner = None
        if SimLock.sched:
            SimLock.sched.wake(self)
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n


def _owner_frame():
    """the frame on whose behalf a lock is created (through Condition, Semaphore, Event, Barrier; not Thread)"""
    f = sys._getframe(2)
    while f.f_code.co_filename == threading.__file__ and f.f_code.co_name == '__init__' and f.f_back is not None \
            and not isinstance(f.f_locals.get('self'), threading.Thread):
        f = f.f_back
    return f


def install_locks():
    """before the code under test is imported: locks it creates become cooperative"""
    def lock():
        return SimLock() if under_test(_owner_frame().f_code.co_filename) else _RealLock()

    def rlock():
        return SimLock(True) if under_test(_owner_frame().f_code.co_filename) else _RealRLock()

    def waiter():
        f = sys._getframe(1)
        c = f.f_locals.get('self')
        return SimLock() if isinstance(c, threading.Condition) and isinstance(c._lock, SimLock) else _alloc()
    threading.Lock = lock
    threading.RLock = rlock
    threading._allocate_lock = waiter


class Sched:
    """run n callables under a seeded or recorded schedule"""

    def __init__(self, rng=None, gap=50, switches=None, opcodes=False, max_steps=4000000, start=None, hot=None, meet=None):
        self.rng = rng
        self.meet = frozenset(map(tuple, meet)) if meet and rng is not None else None   # lines where threads wait for each other
        self.hot = hot if rng is not None else None   # (salt, k): switch at about 1/k of the source lines, wherever they are
        self.hotmap = {}
        self.gap = gap
        self.opcodes = opcodes
        self.replay = None if switches is None else {int(s): t for s, t in switches}
        self.record = []
        self.step = 0
        self.next = 0
        self.max_steps = max_steps
        self.sites = set()            # (thread, previous thread, file, line) where switches happened
        self.nsw = 0
        self.overrun = False

    def has(self, ident):
        return ident in self.ident

    def run(self, fns):
        n = len(fns)
        self.n = n
        self.sem = [_alloc() for _ in range(n)]
        for l in self.sem:
            l.acquire()
        self.done = [False] * n
        self.blocked = [None] * n
        self.res = [None] * n
        self.cur = 0
        self.ident = {}
        self.fin = _alloc()
        self.fin.acquire()
        self._plan()
        SimLock.sched = self
        ths = []
        for i, fn in enumerate(fns):
            t = threading.Thread(target=self._main, args=(i, fn), daemon=True)
            ths.append(t)
            t.start()
        first = self._decide(0, list(range(n)))
        self.cur = first
        self.sem[first].release()
        self.fin.acquire()
        for t in ths:
            t.join()
        SimLock.sched = None
        return self.res

    def _plan(self):
        if self.rng is not None:
            self.next = self.step + 1 + int(self.rng.expovariate(1.0 / self.gap))
        else:
            later = [s for s in self.replay if s > self.step]
            self.next = min(later) if later else self.max_steps + 1

    def _decide(self, step, runnable):
        """who runs next at a forced decision (start, end of a thread, blocking)"""
        if self.rng is not None:
            t = runnable[self.rng.randrange(len(runnable))]
            self.record.append([step, t])
            return t
        t = self.replay.get(step)
        return t if t in runnable else runnable[0]

    def _main(self, i, fn):
        self.sem[i].acquire()
        self.ident[_thread.get_ident()] = i
        sys.settrace(self._trace)
        try:
            self.res[i] = S.outcome(fn)
        except BaseException as e:
            self.res[i] = ('harness', repr(e))
        finally:
            sys.settrace(None)
        self.done[i] = True
        self._leave(i)

    def _leave(self, i):
        self.step += 1
        r = [t for t in range(self.n) if not self.done[t] and self.blocked[t] is None]
        if r:
            t = self._decide(self.step, r)
            self._plan()
            self.cur = t
            self.sem[t].release()
        elif all(self.done):
            self.fin.release()
        else:
            # every remaining thread waits for a lock nobody will release
            for t in range(self.n):
                if not self.done[t]:
                    self.res[t] = ('exc', 'Deadlock')
                    self.done[t] = True
            self.dead = True
            self.fin.release()

    def _trace(self, frame, event, arg):
        if event != 'call' or not under_test(frame.f_code.co_filename):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.step += 1
            if self.meet is not None and (frame.f_code.co_name, frame.f_lineno) in self.meet and self.rng.random() < .6:
                self.next = self.step
            if self.hot is not None and self.step < self.next:
                key = (frame.f_code.co_name, frame.f_lineno)
                h = self.hotmap.get(key)
                if h is None:
                    h = self.hotmap[key] = zlib.crc32(repr((self.hot[0], key)).encode()) % self.hot[1] == 0
                if h and self.rng.random() < .5:
                    self.next = self.step
            if self.step >= self.next:
                self._switch(frame)
        return self._local

    def _switch(self, frame=None):
        me = self.cur
        if self.step > self.max_steps:
            self.overrun = True
            raise Deadlock('step budget exceeded')
        r = [t for t in range(self.n) if t != me and not self.done[t] and self.blocked[t] is None]
        if self.rng is not None:
            if not r:
                self.next = self.step + 1000
                return
            t = r[self.rng.randrange(len(r))]
            self.record.append([self.step, t])
        else:
            t = self.replay.get(self.step)
            if t is None or t not in r:
                self._plan()
                return
        self._plan()
        self.nsw += 1
        if frame is not None:
            self.sites.add((frame.f_code.co_name, frame.f_lineno))
        self._to(me, t)

    def _to(self, me, t):
        self.cur = t
        self.sem[t].release()
        tr = sys.gettrace()
        sys.settrace(None)
        self.sem[me].acquire()
        sys.settrace(tr)

    def hook(self):
        """yield point of the simulator's storage layer"""
        if self.ident.get(_thread.get_ident()) is None:
            return
        self.step += 1
        # storage events are likelier switch points than ordinary lines
        if self.rng is not None and self.rng.random() < 0.3:
            self.next = self.step
        if self.step >= self.next:
            self._switch(None)

    def forced_yield(self):
        self.step += 1
        self.next = self.step
        self._switch(None)

    def block(self, lock):
        me = self.ident[_thread.get_ident()]
        self.blocked[me] = lock
        self.step += 1
        r = [t for t in range(self.n) if not self.done[t] and self.blocked[t] is None]
        if not r:
            self.blocked[me] = None
            raise Deadlock('all threads wait for locks')
        t = self._decide(self.step, r)
        self._plan()
        self._to(me, t)

    def wake(self, lock):
        for t in range(self.n):
            if self.blocked[t] is lock:
                self.blocked[t] = None


AMBIENT = {'seterr', 'geterr', 'errstate', 'chdir', 'fchdir', 'getcwd', 'set_printoptions', 'printoptions', 'seed', 'setstate', 'set_state',
           'setlocale', 'umask', 'simplefilter', 'filterwarnings', 'catch_warnings', 'signal', 'setrecursionlimit', 'acquire',
           'release', 'environ', 'putenv', 'redirect_stdout'}
INPLACE = {'sort', 'resize', 'fill', 'put', 'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setflags', 'byteswap', 'copyto',
           'partition', 'itemset', 'shape', 'dtype'}
_PLAIN = (int, float, complex, str, bytes, bool, tuple, frozenset, type(None), type, type(os), type(lambda: 0), type(len), type(np.add))
_SHARED = None


def _base(n):
    while isinstance(n, (ast.Subscript, ast.Attribute, ast.Starred)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def shared_sites():
    """(function, line) where the code under test touches state that outlives a call: module-level containers and variables,
    mutable defaults, arguments changed in place, attributes, process-wide settings -- and the lines after them.  Only a
    bias for where the scheduler switches and interrupts; nothing is decided from it."""
    global _SHARED
    if _SHARED is not None:
        return _SHARED
    out = set()
    for name, m in sorted(sys.modules.items()):
        f = getattr(m, '__file__', '') or ''
        if not name.startswith('pyqcstrc.') or not under_test(f):
            continue
        try:
            with open(f, encoding='utf-8') as h:
                tree = ast.parse(h.read())
        except (OSError, SyntaxError, ValueError):
            continue
        g = vars(m)
        hot = {n for n, v in g.items() if not n.startswith('__') and (not isinstance(v, _PLAIN) or hasattr(v, 'cache_info'))
               and not type(v).__module__.startswith(('typing', '__future__'))}
        funcs = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.Lambda))]
        hot |= {n for fn in funcs for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        for fn in funcs:
            if isinstance(fn, ast.Lambda):
                continue
            a = fn.args
            params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            pos = [x.arg for x in a.posonlyargs + a.args]
            bad = {n for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if not isinstance(d, ast.Constant)}
            sub = [x for b in fn.body for x in ast.walk(b)]
            local = {x.id for x in sub if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            lines = sorted({x.lineno for x in sub if isinstance(x, ast.stmt)})
            own = params - local
            hits = set()
            for x in sub:
                ln = getattr(x, 'lineno', None)
                if isinstance(x, ast.Name) and x.id in hot and x.id not in params:
                    hits.add(ln)
                elif isinstance(x, ast.Name) and x.id in bad:
                    pass
                elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    b = _base(x)
                    if isinstance(x, ast.Attribute) or b in own or b in hot or b in bad:
                        hits.add(ln)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id in params:
                    hits.add(ln)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    if x.func.attr in AMBIENT or (x.func.attr in INPLACE and _base(x.func) in own | hot | bad):
                        hits.add(ln)
                    if any(k.arg == 'out' and _base(k.value) in own | hot for k in x.keywords):
                        hits.add(ln)
            for ln in hits:
                if ln is None:
                    continue
                st = [q for q in lines if q <= ln]
                if st:
                    ln = st[-1]
                out.add((fn.name, ln))
                nx = [q for q in lines if q > ln]
                if nx:
                    out.add((fn.name, nx[0]))
    _SHARED = out
    return out


_TRY = None


def try_sites():
    """(function, line) inside a try block with handlers or a finally clause"""
    global _TRY
    if _TRY is None:
        _TRY = set()
        for name, m in sorted(sys.modules.items()):
            f = getattr(m, '__file__', '') or ''
            if not name.startswith('pyqcstrc.') or not under_test(f):
                continue
            try:
                with open(f, encoding='utf-8') as h:
                    tree = ast.parse(h.read())
            except (OSError, SyntaxError, ValueError):
                continue
            for fn in ast.walk(tree):
                if isinstance(fn, ast.FunctionDef):
                    for t in ast.walk(fn):
                        if isinstance(t, (ast.Try, ast.With)):
                            _TRY |= {(fn.name, x.lineno) for b in t.body for x in ast.walk(b) if isinstance(x, ast.stmt)}
    return _TRY


def reaching(funcs):
    """names of the functions from which one of `funcs` can be reached (by name)"""
    calls = {}
    for name, m in sys.modules.items():
        if name.startswith('pyqcstrc.') and under_test(getattr(m, '__file__', '') or ''):
            for v in vars(m).values():
                if isinstance(v, type(shared_sites)) and v.__module__ == name:
                    todo, names = [v.__code__], calls.setdefault(v.__name__, set())
                    while todo:
                        c = todo.pop()
                        names |= set(c.co_names) | {c.co_name}
                        todo += [k for k in c.co_consts if isinstance(k, type(c))]
    out = set(funcs)
    while True:
        more = {n for n, k in calls.items() if n not in out and k & out}
        if not more:
            return out
        out |= more


class Interrupt:
    """raise exc at the k-th executed line of the code under test (k<0: only count)"""

    def __init__(self, k, exc, budget=None):
        self.k, self.exc, self.n, self.fired = k, exc, 0, None
        self.budget = budget
        self.sites = {} if k < 0 and exc is None and budget is None else None   # line -> [first, second, last] step

    def points(self):
        """steps at which the distinct lines were executed"""
        return [v for _, v in sorted(self.sites.items(), key=lambda x: x[1])]

    def lines(self):
        return [k for k, _ in sorted(self.sites.items(), key=lambda x: x[1])]

    def run(self, fn):
        me = self

        def local(frame, event, arg):
            if event == 'line':
                me.n += 1
                if me.sites is not None:
                    key = (frame.f_code.co_name, frame.f_lineno)
                    v = me.sites.get(key)
                    if v is None:
                        me.sites[key] = [me.n, me.n, me.n]
                    else:
                        if v[1] == v[0]:
                            v[1] = me.n
                        v[2] = me.n
                if me.n == me.k and me.fired is None:
                    me.fired = (frame.f_code.co_name, frame.f_lineno)
                    raise me.exc('injected')
                if me.budget and me.n > me.budget:
                    raise Deadlock('step budget exceeded')
            return local

        def glob(frame, event, arg):
            if event == 'call' and under_test(frame.f_code.co_filename):
                return local
            return None
        old = sys.gettrace()
        sys.settrace(glob)
        try:
            return S.outcome(fn)
        finally:
            sys.settrace(old)
