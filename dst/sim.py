"""The simulator's seams: storage, clock, randomness, console, process identity.

One Sim object owns every source of nondeterminism the code under test can
meet.  Files live in a real scratch directory (created and removed by the
run), but every open/read/write/close/mkdir/rename/... on a path below it goes
through this layer, which logs it and lets the fault plan decide its outcome.
The buffered and text layers above are CPython's own (real code).
"""
import atexit, builtins, datetime, errno, gc, hashlib, io, os, random, shutil, stat, sys, threading, time, timeit, tempfile, warnings
import numpy as np

_real = dict(open=io.open, os_open=os.open, os_write=os.write, os_close=os.close, os_read=os.read,
             fsync=os.fsync, fdatasync=os.fdatasync, mkdir=os.mkdir, rename=os.rename,
             replace=os.replace, remove=os.remove, unlink=os.unlink, rmdir=os.rmdir,
             truncate=os.truncate, ftruncate=os.ftruncate, stat=os.stat, lstat=os.lstat,
             fstat=os.fstat, getpid=os.getpid, urandom=os.urandom, link=os.link)
RealRandom = random.Random
ERR = {n: getattr(errno, n) for n in ('ENOSPC', 'EIO', 'EACCES', 'EDQUOT', 'EFBIG', 'EMFILE', 'EROFS',
                                      'ENOENT', 'EEXIST', 'EPERM', 'ESTALE', 'ENOTDIR', 'ENAMETOOLONG', 'ENFILE', 'ENOMEM',
                                      'EBUSY', 'EAGAIN', 'ETIMEDOUT', 'EPIPE', 'EISDIR', 'ELOOP', 'ETXTBSY', 'EINVAL', 'EBADF', 'ENXIO')}
_start, _join, _alive = threading.Thread.start, threading.Thread.join, threading.Thread.is_alive


class SimRaw(io.FileIO):
    """raw file below the real buffered/text layers"""

    def __init__(self, sim, file, mode, **kw):
        self._sim = None
        io.FileIO.__init__(self, file, mode, **kw)
        self._sim = sim
        self._w = self.writable()
        self._path = sim.fdpath.get(self.fileno()) if isinstance(file, int) else sim.rel(file)
        sim.fdw.discard(self.fileno())
        self._ino = _real['fstat'](self.fileno()).st_ino
        sim.live[id(self)] = self._path
        self._key = id(self)

    def write(self, b):
        sim = self._sim
        data = bytes(b)
        return sim.do_write(self._path, self._ino, data, lambda d: io.FileIO.write(self, d),
                            lambda: io.FileIO.tell(self) if not self._append() else _real['fstat'](self.fileno()).st_size)

    def _append(self):
        return 'a' in self.mode

    def readinto(self, b):
        f = self._sim.event('read', self._path)
        while f and f['kind'] == 'eintr':       # the interpreter repeats interrupted calls (PEP 475)
            f = self._sim.event('read', self._path)
        if f and f['kind'] == 'fail':
            raise OSError(ERR[f['errno']], os.strerror(ERR[f['errno']]), self._path)
        n = len(b)
        lim = self._sim.readmax
        if f and f['kind'] == 'short':
            lim = max(1, min(n, f.get('n', 1)))
        if lim and n > lim:
            m = memoryview(b)[:lim]
            return io.FileIO.readinto(self, m)
        return io.FileIO.readinto(self, b)

    def readall(self):
        out = []
        buf = bytearray(65536)
        while True:
            n = self.readinto(buf)
            if not n:
                return b''.join(out)
            out.append(bytes(buf[:n]))

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        k = self.readinto(buf)
        return bytes(buf[:k])

    def truncate(self, size=None):
        r = io.FileIO.truncate(self, size)
        if self._sim:
            self._sim.log.append(('truncate', self._path, self._ino, r))
        return r

    def close(self):
        sim = self._sim
        if self.closed or sim is None:
            return io.FileIO.close(self)
        self._sim = None
        sim.live.pop(self._key, None)
        if not self._w:
            sim.log.append(('close-r', self._path))
            return io.FileIO.close(self)
        try:
            fd = self.fileno()
        except ValueError:
            return io.FileIO.close(self)
        f = sim.event('close', self._path)
        sim.log.append(('close', self._path, self._ino))
        if f and f['kind'] == 'fail':
            # delayed write-back error: the last bytes never reach the disk
            size = _real['fstat'](fd).st_size
            _real['ftruncate'](fd, max(0, size - f.get('lose', 64)))
            io.FileIO.close(self)
            raise OSError(ERR[f['errno']], os.strerror(ERR[f['errno']]), self._path)
        return io.FileIO.close(self)


class Sim:
    def __init__(self, root, cfg=None):
        cfg = cfg or {}
        self.root = os.path.realpath(root)
        self.cfg = cfg
        self.log = []                 # storage events in order
        self.count = 0                # number of faultable events so far
        self.armed = False            # faults only fire while armed
        self.faults = {}              # event index -> fault
        self.sticky = None            # persistent fault currently active
        self.quota = None             # bytes that can still be written (disk full)
        self.fired = []               # faults that actually fired
        self.kinds = []               # kind of every faultable event
        self.live = {}                # unclosed raw files
        self.fdpath = {}
        self.fdw = set()
        self.parked = []              # threads started by the code under test that have not run yet
        self.held = []                # strong references (deferred finalisation)
        self.hold = bool(cfg.get('hold'))
        self.bufsize = cfg.get('buf')           # buffer size knob
        self.chunk = cfg.get('chunk')           # text layer chunk knob
        self.readmax = cfg.get('readmax')
        self.encoding = cfg.get('enc')          # simulated locale encoding
        self.clock = cfg.get('clock', 1.0e9)
        self.clockstep = cfg.get('clockstep', 0.0)
        self.coarse = cfg.get('coarse')         # coarse/frozen file timestamps
        self.pid = 4242
        self.yield_hook = None
        self.draws = None
        self.unraisable = []
        self._saved = []

    # ------------------------------------------------------------ helpers
    def inside(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        a = os.path.abspath(p)
        return a == self.root or a.startswith(self.root + os.sep)

    def rel(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.relpath(os.path.abspath(p), self.root)

    def event(self, kind, path, cls=None):
        """one faultable storage event; returns the fault to apply or None"""
        if self.yield_hook and kind not in ('write', 'read'):
            self.yield_hook()
        if not self.armed:
            return None
        i = self.count
        self.count += 1
        self.kinds.append(kind)
        f = self.faults.get(i)
        if f is None and self.sticky and kind in self.sticky['on']:
            f = self.sticky
        if f is None:
            return None
        if f['kind'] in ('short', 'eintr') and kind not in ('write', 'read'):
            return None
        if f.get('sticky') and self.sticky is None:
            self.sticky = dict(f, on=f.get('on', ['write', 'open', 'mkdir', 'close', 'fsync', 'rename']))
        self.fired.append((f['kind'] + (':' + f['errno'] if 'errno' in f else ''), kind))
        return f

    def fail(self, f, path):
        raise OSError(ERR[f['errno']], os.strerror(ERR[f['errno']]), path)

    def do_write(self, path, ino, data, raw_write, tell):
        f = self.event('write', path)
        while f and f['kind'] == 'eintr':       # the interpreter repeats interrupted calls (PEP 475)
            f = self.event('write', path)
        if f and f['kind'] == 'fail':
            k = f.get('part', 0)
            if k and len(data) > 1:
                k = min(k, len(data) - 1)
                off = tell()
                raw_write(data[:k])
                self.log.append(('write', path, ino, off, data[:k]))
            self.fail(f, path)
        n = len(data)
        if f and f['kind'] == 'short':
            n = max(1, min(n, f.get('n', 1)))
        if self.quota is not None and self.armed:
            if n and self.quota <= 0:
                self.fired.append(('fail:ENOSPC', 'write'))
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            n = min(n, self.quota)
            self.quota -= n
        off = tell()
        n = raw_write(data[:n])
        self.log.append(('write', path, ino, off, data[:n]))
        return n

    # ------------------------------------------------------------ open()
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        sim_fd = isinstance(file, int) and file in self.fdpath
        if not sim_fd and (isinstance(file, int) or not self.inside(file)):
            return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not isinstance(mode, str):
            raise TypeError("open() argument 'mode' must be str, not %s" % type(mode).__name__)
        binary = 'b' in mode
        upd = '+' in mode
        raw_mode = mode.replace('b', '').replace('t', '')
        if sum(c in raw_mode for c in 'rwax') != 1:
            raise ValueError('must have exactly one of create/read/write/append mode')
        if binary and (encoding is not None or errors is not None or newline is not None):
            raise ValueError("binary mode doesn't take an encoding argument")
        writing = upd or raw_mode[0] in 'wax'
        if not sim_fd:
            path = self.rel(file)
            f = self.event('open' if writing else 'open-r', path)
            if f and f['kind'] == 'fail':
                self.fail(f, path)
            existed = os.path.lexists(self.root + os.sep + path)
            self.log.append(('open', path, raw_mode))
        raw = SimRaw(self, file, raw_mode, closefd=closefd, opener=opener)
        if not sim_fd:
            if raw_mode[0] in 'wax' and not existed:
                self.log.append(('create', path, raw._ino))
            elif raw_mode[0] == 'w':
                self.log.append(('trunc', path, raw._ino))
        if buffering == 0:
            if not binary:
                raw.close()
                raise ValueError("can't have unbuffered text I/O")
            return raw
        bs = buffering if buffering > 1 else (self.bufsize or io.DEFAULT_BUFFER_SIZE)
        if upd:
            buf = io.BufferedRandom(raw, bs)
        elif writing:
            buf = io.BufferedWriter(raw, bs)
        else:
            buf = io.BufferedReader(raw, bs)
        if binary:
            if self.hold:
                self.held.append(buf)
            return buf
        if encoding is None or encoding == 'locale':
            encoding = self.encoding or 'utf-8'
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        if self.chunk:
            text._CHUNK_SIZE = self.chunk
        text.mode = mode
        if self.hold:
            self.held.append(text)
        return text

    # ------------------------------------------------------------ os.*
    def _mk_os(self):
        sim = self

        def path_op(name, kind):
            real = _real[name]

            def f(path, *a, **k):
                if a and name in ('rename', 'replace', 'link'):
                    ins = sim.inside(path) or sim.inside(a[0])
                else:
                    ins = not isinstance(path, int) and sim.inside(path)
                if not ins or k.get('dir_fd') is not None:
                    return real(path, *a, **k)
                fl = sim.event(kind, sim.rel(path))
                if fl and fl['kind'] == 'fail':
                    if name == 'mkdir' and fl['errno'] == 'EEXIST':
                        try:
                            real(path)          # somebody else was faster
                        except FileExistsError:
                            pass
                    else:
                        sim.fail(fl, sim.rel(path))
                r = real(path, *a, **k)
                if name in ('rename', 'replace', 'link'):
                    sim.log.append(('link' if name == 'link' else 'rename', sim.rel(path), sim.rel(a[0])))
                elif name == 'truncate':
                    sim.log.append(('truncate', sim.rel(path), _real['stat'](path).st_ino, a[0]))
                else:
                    sim.log.append(('unlink' if name == 'remove' else name, sim.rel(path)))
                return r
            f.__name__ = name
            return f

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            if dir_fd is not None or not sim.inside(path):
                return _real['os_open'](path, flags, mode, dir_fd=dir_fd)
            rel = sim.rel(path)
            isdir = os.path.isdir(os.path.abspath(path))
            wr = bool(flags & (os.O_WRONLY | os.O_RDWR))
            if not isdir:
                fl = sim.event('open' if wr else 'open-r', rel)
                if fl and fl['kind'] == 'fail':
                    sim.fail(fl, rel)
            existed = os.path.lexists(os.path.abspath(path))
            fd = _real['os_open'](path, flags, mode)
            sim.fdpath[fd] = rel
            if wr and not isdir:
                sim.fdw.add(fd)
            ino = _real['fstat'](fd).st_ino
            sim.log.append(('open', rel, 'os'))
            if not existed:
                sim.log.append(('create', rel, ino))
            elif flags & os.O_TRUNC and wr:
                sim.log.append(('trunc', rel, ino))
            return fd

        def os_write(fd, data):
            if fd not in sim.fdpath:
                return _real['os_write'](fd, data)
            ino = _real['fstat'](fd).st_ino
            return sim.do_write(sim.fdpath[fd], ino, bytes(data), lambda d: _real['os_write'](fd, d),
                                lambda: os.lseek(fd, 0, os.SEEK_CUR))

        def os_close(fd):
            rel = sim.fdpath.pop(fd, None)
            if rel is not None and fd in sim.fdw:
                sim.fdw.discard(fd)
                fl = sim.event('close', rel)
                if fl and fl['kind'] == 'fail':
                    size = _real['fstat'](fd).st_size
                    _real['ftruncate'](fd, max(0, size - fl.get('lose', 64)))
                    _real['os_close'](fd)
                    sim.fail(fl, rel)
            return _real['os_close'](fd)

        def mk_sync(name):
            real = _real[name]

            def f(fd):
                n = fd if isinstance(fd, int) else fd.fileno()
                st = _real['fstat'](n)
                if any(True for _ in ()) or True:
                    fl = sim.event('fsync', str(n) if False else 'fd')
                    if fl and fl['kind'] == 'fail':
                        sim.fail(fl, 'fd')
                    sim.log.append(('fsync', st.st_ino))
                return None
            return f

        def retime(st):
            if sim.coarse is None:
                return st
            t = sim.coarse
            vals = list(st)[:7] + [int(t)] * 3
            d = {'st_atime': float(t), 'st_mtime': float(t), 'st_ctime': float(t),
                 'st_atime_ns': int(t * 10 ** 9), 'st_mtime_ns': int(t * 10 ** 9), 'st_ctime_ns': int(t * 10 ** 9)}
            for k in ('st_blocks', 'st_blksize', 'st_rdev'):
                d[k] = getattr(st, k)
            return os.stat_result(vals, d)

        def mk_stat(name):
            real = _real[name]

            def f(p, *a, **k):
                if isinstance(p, int) or not sim.inside(p):
                    return retime(real(p, *a, **k)) if isinstance(p, int) and p in sim.fdpath else real(p, *a, **k)
                if sim.yield_hook:
                    sim.yield_hook()
                return retime(real(p, *a, **k))
            return f

        def mk_fstat():
            return lambda fd: retime(_real['fstat'](fd))

        d = {n: path_op(n, k) for n, k in (('mkdir', 'mkdir'), ('rename', 'rename'), ('replace', 'rename'),
                                           ('remove', 'unlink'), ('unlink', 'unlink'), ('rmdir', 'unlink'),
                                           ('truncate', 'write'), ('link', 'rename'))}
        d.update(open=os_open, write=os_write, close=os_close, fsync=mk_sync('fsync'),
                 fdatasync=mk_sync('fdatasync'), stat=mk_stat('stat'), lstat=mk_stat('lstat'),
                 fstat=mk_fstat(), getpid=lambda: sim.pid)
        return d

    # ------------------------------------------------------------ install
    def _set(self, obj, name, val):
        self._saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def __enter__(self):
        self._cwd = os.getcwd()
        os.chdir(self.root)
        op = self.open
        self._set(builtins, 'open', op)
        self._set(io, 'open', op)
        for n, f in self._mk_os().items():
            self._set(os, n, f)
        self._set(shutil, '_USE_CP_SENDFILE', False)
        # clock
        sim = self

        def now():
            sim.clock += sim.clockstep
            if sim.cfg.get('jump') and sim.draw_clock() < 0.2:
                sim.clock += sim.cfg['jump']
            return sim.clock
        self._ck = 0
        self._now = now
        self._set(time, 'time', now)
        self._set(time, 'time_ns', lambda: int(now() * 1e9))
        for n in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
            self._set(time, n, now)
            self._set(time, n + '_ns', lambda: int(now() * 1e9))
        self._set(timeit, 'default_timer', now)
        rl, rg, rc, ra, rs = time.localtime, time.gmtime, time.ctime, time.asctime, time.strftime
        self._set(time, 'localtime', lambda t=None: rl(now() if t is None else t))
        self._set(time, 'gmtime', lambda t=None: rg(now() if t is None else t))
        self._set(time, 'ctime', lambda t=None: rc(now() if t is None else t))
        self._set(time, 'asctime', lambda t=None: ra(rl(now()) if t is None else t))
        self._set(time, 'strftime', lambda f, t=None: rs(f, rl(now()) if t is None else t))
        DT, DD = datetime.datetime, datetime.date

        class SimDatetime(DT):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(now(), tz)

            @classmethod
            def utcnow(cls):
                return cls.utcfromtimestamp(now())

            @classmethod
            def today(cls):
                return cls.fromtimestamp(now())

        class SimDate(DD):
            @classmethod
            def today(cls):
                return cls.fromtimestamp(now())
        self._set(datetime, 'datetime', SimDatetime)
        self._set(datetime, 'date', SimDate)

        def sleep(s):
            sim.clock += s
            if sim.yield_hook:
                sim.yield_hook()
        self._set(time, 'sleep', sleep)
        # threads the code under test starts by itself run as late as possible: when somebody waits for them
        self._set(threading.Thread, 'start', self._tstart())
        self._set(threading.Thread, 'join', self._tjoin())
        # temp names are a pure function of the (simulated) process
        self._set(tempfile, '_name_sequence', _Names(self))
        # names the code under test imported from these modules
        swap = {id(v): (v, getattr(o, n)) for o, n, v in self._saved}
        for name, m in list(sys.modules.items()):
            if name.startswith('pyqcstrc.') and m is not None:
                for g, v in list(vars(m).items()):
                    if id(v) in swap and swap[id(v)][0] is v and not g.startswith('__'):
                        self._saved.append((m, g, v))
                        setattr(m, g, swap[id(v)][1])
        self._hook = sys.unraisablehook
        sys.unraisablehook = lambda u: self.unraisable.append(type(u.exc_value).__name__)
        self._stdout, self._stderr = sys.stdout, sys.stderr
        self.out = io.StringIO()
        sys.stdout = self.out
        sys.stderr = io.StringIO()
        warnings.simplefilter('ignore', ResourceWarning)
        return self

    def _tstart(self):
        sim = self

        def start(t):
            f = sys._getframe(1)
            while f is not None and not ('/pyqcstrc/' in f.f_code.co_filename or '/dst/' in f.f_code.co_filename):
                f = f.f_back
            if f is None or '/dst/' in f.f_code.co_filename:
                return _start(t)                   # a client thread of the simulator
            go = threading.Event()
            run = t.run

            def late():
                # released by join() or process exit; the time-out only serves code that waits in other ways
                go.wait(1.0)
                run()
            t.run = late
            t._sim_go = go
            sim.parked.append(t)
            return _start(t)
        return start

    def _tjoin(self):
        def join(t, timeout=None):
            go = getattr(t, '_sim_go', None)
            if go is not None:
                go.set()
            return _join(t, timeout)
        return join

    def process_exit(self):
        """what the end of the process does: waits for threads, runs exit handlers, drops every object"""
        for t in list(self.parked):
            t._sim_go.set()
            _join(t, 5.0)
        self.held = []
        for f in (getattr(threading, '_threading_atexits', None) or [])[:]:
            try:
                f()
            except BaseException:
                pass
        try:
            atexit._run_exitfuncs()
        except BaseException:
            pass
        gc.collect()

    def draw_clock(self):
        self._ck = (self._ck * 1103515245 + 12345) & 0x7fffffff
        return self._ck / 0x7fffffff

    def __exit__(self, *a):
        for o, n, v in reversed(self._saved):
            setattr(o, n, v)
        self._saved = []
        sys.stdout, sys.stderr = self._stdout, self._stderr
        sys.unraisablehook = self._hook
        os.chdir(self._cwd)
        return False

    # ------------------------------------------------------------ control
    def arm(self, faults=(), quota=None):
        self.count = 0
        self.kinds = []
        self.faults = {f['at']: f for f in faults}
        self.sticky = None
        self.quota = quota
        self.armed = True

    def disarm(self):
        self.armed = False
        self.sticky = None
        self.quota = None

    def tree(self):
        """real on-disk bytes below the scratch root, {relpath: bytes}; directories -> None"""
        out = {}
        for d, ds, fs in os.walk(self.root):
            for n in ds:
                out[os.path.relpath(os.path.join(d, n), self.root)] = None
            for n in fs:
                p = os.path.join(d, n)
                with _real['open'](p, 'rb') as f:
                    out[os.path.relpath(p, self.root)] = f.read()
        return out

    def read(self, rel):
        try:
            with _real['open'](os.path.join(self.root, rel), 'rb') as f:
                return f.read()
        except OSError:
            return None

    def put(self, rel, data):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with _real['open'](p, 'wb') as f:
            f.write(data)


class _Names:
    def __init__(self, sim):
        self.sim = sim
        self.n = {}

    def __iter__(self):
        return self

    def __next__(self):
        p = self.sim.pid
        self.n[p] = self.n.get(p, 0) + 1
        return 'sim%d_%d' % (p, self.n[p])


# ------------------------------------------------------------------ randomness
class DrawLimit(BaseException):
    pass


class Draws:
    """Owns the `random` module (and numpy's global generator) during a run.

    policy: 'seed'   - honest pseudo-random draws from the run's seed
            'first', 'last', 'rev', 'rot', 'zero', 'max', 'repeat' - legal but adversarial outcomes
    Adversarial policies go on for `fair` draws (None: for ever, up to `cap` draws of one call).
    """
    NAMES = ('random', 'uniform', 'randint', 'randrange', 'choice', 'choices', 'sample', 'shuffle',
             'gauss', 'normalvariate', 'getrandbits', 'betavariate', 'expovariate', 'triangular')

    def __init__(self, policy, seed, fair=400, cap=None):
        self.policy, self.fair, self.cap = policy, fair, cap
        self.rng = RealRandom(seed)
        self.seed = seed
        self.n = 0
        self.other = 0
        self.trace = []
        self._saved = []
        self._last = None

    def adv(self):
        self.n += 1
        if self.cap and self.n > self.cap:
            raise DrawLimit('%d draws' % self.n)
        return self.policy != 'seed' and (self.fair is None or self.n <= self.fair)

    def sample(self, population, k, *, counts=None):
        pop = list(population)
        if counts is not None or not self.adv():
            out = self.rng.sample(pop, k) if counts is None else self.rng.sample(pop, k, counts=counts)
        else:
            if k > len(pop) or k < 0:
                raise ValueError('Sample larger than population or is negative')
            p = self.policy
            if p in ('first', 'zero'):
                out = pop[:k]
            elif p in ('last', 'max'):
                out = pop[len(pop) - k:]
            elif p == 'rev':
                out = pop[::-1][:k]
            elif p == 'rot':
                s = self.n % max(1, len(pop))
                out = (pop[s:] + pop[:s])[:k]
            else:                                   # repeat one random choice
                if self._last is None or len(self._last) != k or any(i >= len(pop) for i in self._last):
                    self._last = self.rng.sample(range(len(pop)), k)
                out = [pop[i] for i in self._last]
        self.trace.append('s%d/%d' % (k, len(pop)))
        return out

    def random(self):
        if self.adv():
            return {'first': 0.0, 'zero': 0.0, 'last': 1 - 2 ** -53, 'max': 1 - 2 ** -53}.get(self.policy, 0.5)
        return self.rng.random()

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        if not len(r):
            raise ValueError('empty range for randrange()')
        if self.adv():
            return r[{'first': 0, 'zero': 0, 'last': -1, 'max': -1}.get(self.policy, self.n % len(r))]
        return r[self.rng.randrange(len(r))]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, seq):
        return seq[self.randrange(len(seq))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if weights is None and cum_weights is None:
            return [self.choice(population) for _ in range(k)]
        return self.rng.choices(population, weights, cum_weights=cum_weights, k=k)

    def shuffle(self, x):
        if self.adv():
            if self.policy in ('last', 'rev', 'max'):
                x.reverse()
            return None
        self.rng.shuffle(x)

    def getrandbits(self, k):
        if self.adv():
            return {'first': 0, 'zero': 0, 'last': (1 << k) - 1, 'max': (1 << k) - 1}.get(self.policy, (1 << k) >> 1)
        return self.rng.getrandbits(k)

    def __getattr__(self, n):
        return getattr(self.rng, n)

    def __enter__(self):
        for n in self.NAMES:
            self._saved.append((random, n, getattr(random, n)))
            setattr(random, n, getattr(self, n))
        d = self

        class SimRandom(RealRandom):
            """a private generator created by the code: unseeded ones draw from the simulator"""
            def __init__(s, x=None):
                d.other += x is None
                RealRandom.__init__(s, d.rng.getrandbits(64) if x is None else x)
                if x is None:
                    for n in ('random', 'uniform', 'randint', 'randrange', 'choice', 'choices', 'sample', 'shuffle'):
                        setattr(s, n, getattr(d, n))

        class SimSystemRandom(RealRandom):
            def __init__(s, x=None):
                d.other += 1
                RealRandom.__init__(s, d.rng.getrandbits(64))
        self._saved.append((random, 'Random', random.Random))
        random.Random = SimRandom
        self._saved.append((random, 'SystemRandom', random.SystemRandom))
        random.SystemRandom = SimSystemRandom
        self._saved.append((os, 'urandom', os.urandom))

        def urandom(n):
            d.other += 1
            return bytes(d.rng.getrandbits(8) for _ in range(n))
        os.urandom = urandom
        self._np = np.random.get_state()
        np.random.seed(self.rng.getrandbits(31))
        self._np0 = np.random.get_state()
        self._saved.append((np.random, 'default_rng', np.random.default_rng))
        rdr = np.random.default_rng

        def default_rng(s=None):
            d.other += s is None
            return rdr(d.rng.getrandbits(63) if s is None else s)
        np.random.default_rng = default_rng
        self._saved.append((np.random, 'RandomState', np.random.RandomState))
        rrs = np.random.RandomState

        def random_state(s=None):
            d.other += s is None
            return rrs(d.rng.getrandbits(31) if s is None else s)
        np.random.RandomState = random_state
        if self.policy != 'seed':
            for n, f in self.numpy_adversary().items():
                self._saved.append((np.random, n, getattr(np.random, n)))
                setattr(np.random, n, f)
        # names imported from these modules into the code under test
        swap = {id(v): getattr(o, n) for o, n, v in self._saved}
        for name, m in list(sys.modules.items()):
            if name.startswith('pyqcstrc.') and m is not None:
                for g, v in list(vars(m).items()):
                    if id(v) in swap and not g.startswith('__'):
                        self._saved.append((m, g, v))
                        setattr(m, g, swap[id(v)])
        return self

    def numpy_adversary(self):
        d, real = self, {n: getattr(np.random, n) for n in ('random', 'random_sample', 'rand', 'uniform', 'randint', 'permutation', 'shuffle', 'choice')}
        low = self.policy in ('first', 'zero')
        high = self.policy in ('last', 'max')
        unit = 0.0 if low else 1 - 2 ** -53 if high else 0.5

        def fill(v, size):
            return v if size is None else np.full(size, v)

        def random_(size=None):
            return fill(unit, size) if d.adv() else real['random'](size)

        def rand(*shape):
            return random_(shape or None)

        def uniform(a=0.0, b=1.0, size=None):
            return a + (b - a) * random_(size if size is not None else (np.broadcast(a, b).shape or None))

        def randint(a, b=None, size=None, dtype=int):
            if not d.adv() or np.ndim(a) or np.ndim(b):
                return real['randint'](a, b, size, dtype)
            a, b = (0, a) if b is None else (a, b)
            if b <= a:
                raise ValueError('low >= high')
            v = a if low else b - 1 if high else a + d.n % (b - a)
            return int(v) if size is None and dtype is int else np.full(() if size is None else size, v, dtype=dtype)[()]

        def permutation(x):
            if not d.adv():
                return real['permutation'](x)
            x = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
            return x if low else x[::-1].copy()

        def shuffle(x):
            if not d.adv():
                return real['shuffle'](x)
            if not low:
                x[:] = x[::-1].copy() if isinstance(x, np.ndarray) else x[::-1]

        def choice(a, size=None, replace=True, p=None):
            if not d.adv() or p is not None:
                return real['choice'](a, size, replace, p)
            a = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
            n = 1 if size is None else int(np.prod(size))
            if not len(a) or (n > len(a) and not replace):
                raise ValueError('cannot take a larger sample than population')
            i = np.arange(n) % len(a)
            out = a[i] if low else a[len(a) - 1 - i]
            return out[0] if size is None else out.reshape((size,) if np.ndim(size) == 0 else tuple(size) + a.shape[1:])
        return {'random': random_, 'random_sample': random_, 'rand': rand, 'uniform': uniform, 'randint': randint, 'permutation': permutation,
                'shuffle': shuffle, 'choice': choice}

    def used(self):
        """did the code draw anything, from whatever generator"""
        a, b = self._np0, np.random.get_state()
        return self.n > 0 or self.other > 0 or a[2] != b[2] or not np.array_equal(a[1], b[1])

    def __exit__(self, *a):
        for o, n, v in reversed(self._saved):
            setattr(o, n, v)
        self._saved = []
        np.random.set_state(self._np)
        return False


# ------------------------------------------------------------------ comparison
def canon(x, depth=0):
    """canonical, hashable, exactly comparable form of a result"""
    if x is None or isinstance(x, (bool, str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('ndo', x.shape, tuple(canon(y, depth + 1) for y in x.ravel()))
        return ('nd', x.shape, x.dtype.str, np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.generic):
        return ('np', x.dtype.str, x.tobytes())
    if isinstance(x, int):
        return ('int', x)
    if isinstance(x, float):
        return ('float', x.hex())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(y, depth + 1) for y in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, (canon(y) for y in x)))))
    if isinstance(x, dict):
        return ('dict', tuple(sorted((repr(k), canon(v)) for k, v in x.items())))
    return ('obj', type(x).__name__)


def outcome(fn, *a, **k):
    """('ok', canon) or ('exc', type name); never lets an ordinary exception out"""
    try:
        return ('ok', canon(fn(*a, **k)))
    except SystemExit as e:
        return ('exit', e.code if isinstance(e.code, (int, type(None))) else 1)
    except BaseException as e:
        if isinstance(e, HarnessError):
            raise
        return ('exc', type(e).__name__)


class HarnessError(BaseException):
    pass


def brief(o):
    """short human-readable form of an outcome"""
    if o[0] != 'ok':
        return '%s %s' % (o[0], o[1])
    c = o[1]
    if c[0] == 'nd':
        return 'array%s %s' % (c[1], hashlib.sha1(c[3]).hexdigest()[:8])
    s = repr(c)
    return s if len(s) < 60 else s[:40] + '..' + hashlib.sha1(s.encode()).hexdigest()[:8]


def ambient():
    """process-wide state a library call must leave alone"""
    import signal, locale, decimal, threading
    um = os.umask(0o22)
    os.umask(um)
    return {
        'cwd': os.getcwd(), 'umask': um, 'np.errstate': tuple(sorted(np.geterr().items())),
        'np.printoptions': repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        'warnings': tuple(map(repr, warnings.filters)), 'showwarning': id(warnings.showwarning), 'recursion': sys.getrecursionlimit(),
        'sigint': repr(signal.getsignal(signal.SIGINT)), 'sigalrm': repr(signal.getsignal(signal.SIGALRM)),
        'locale': locale.setlocale(locale.LC_ALL), 'environ': hash(frozenset(os.environ.items())),
        'decimal': str(decimal.getcontext().prec), 'gc': gc.isenabled(), 'gcthr': gc.get_threshold(),
        'threads': threading.active_count(), 'stdout': id(sys.stdout), 'stderr': id(sys.stderr),
        'open': id(builtins.open), 'syspath': tuple(sys.path), 'bufsize': np.getbufsize(),
        'switchinterval': sys.getswitchinterval(), 'excepthook': id(sys.excepthook),
        'cwdfd': None,
    }


def ambient_diff(a, b):
    return sorted(k for k in a if a[k] != b[k])
