"""Run context shared by all scenarios."""
import hashlib, json, os, pickle, sys, collections, signal
from . import sim as S


class Violation(BaseException):
    def __init__(self, kind, msg):
        BaseException.__init__(self, msg)
        self.kind, self.msg = kind, msg


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.counts = collections.Counter()
        self.sigs = set()
        self.h = hashlib.sha1()
        self.nlog = 0
        self.simtime = 0.0
        self.extra = {}

    def count(self, k, n=1):
        self.counts[k] += n

    def fault(self, fired):
        for kind, ev in fired:
            self.counts['fault %s@%s' % (kind, ev)] += 1

    def sig(self, *t):
        self.sigs.add(hashlib.sha1(repr(t).encode()).hexdigest()[:12])

    def log(self, *t):
        """event log (digest only); never draws randomness or reads a clock"""
        self.h.update(repr(t).encode())
        self.nlog += 1

    def check(self, cond, kind, msg):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def violate(self, kind, msg):
        raise Violation(kind, msg)

    def subdir(self, name):
        p = os.path.join(self.scratch, name)
        os.makedirs(p, exist_ok=True)
        return p


def in_fork(fn, cpu=120):
    """run fn() in a forked copy of this (pristine) process and return its value"""
    R = S._real
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            R['os_close'](r)
            try:
                out = ('v', fn())
            except Violation as v:
                out = ('viol', (v.kind, v.msg))
            except S.HarnessError as e:
                out = ('err', repr(e))
            except BaseException as e:
                import traceback
                out = ('err', traceback.format_exc())
            data = pickle.dumps(out)
            i = 0
            while i < len(data):
                i += R['os_write'](w, data[i:i + 65536])
            R['os_close'](w)
            code = 0
        finally:
            os._exit(code)
    R['os_close'](w)
    buf = []
    while True:
        b = R['os_read'](r, 1 << 16)
        if not b:
            break
        buf.append(b)
    R['os_close'](r)
    os.waitpid(pid, 0)
    data = b''.join(buf)
    if not data:
        raise S.HarnessError('forked child died')
    k, v = pickle.loads(data)
    if k == 'viol':
        raise Violation(*v)
    if k == 'err':
        raise S.HarnessError(v)
    return v


class Prop:
    """One property: scenario generator, executor, shrinker."""
    id = None
    runs = {'quick': 200, 'thorough': 4000}
    rule = ''
    real = ['pyqcstrc.ico2.*', 'pyqcstrc.dode2.*', 'numpy', 'scipy.spatial (Qhull)',
            'CPython text and buffered I/O layers']
    stub = []
    assumptions = []
    fixed = []                      # hand-written scenarios always run first

    def gen(self, r, i, tier):
        raise NotImplementedError

    def run(self, sc, ctx):
        raise NotImplementedError

    def shrink(self, sc):
        """candidates, simplest first: drop list elements of 'ops' / 'faults' / 'switches' ..."""
        for key in ('faults', 'switches', 'ops', 'clients', 'cuts'):
            L = sc.get(key)
            if isinstance(L, list) and len(L) > (1 if key in ('ops', 'clients') else 0):
                n = len(L)
                size = n
                while size >= 1:
                    if size < n or key not in ('ops', 'clients'):
                        for i in range(0, n, size):
                            yield dict(sc, **{key: L[:i] + L[i + size:]})
                    size //= 2
        # smaller domains
        for cand in shrink_specs(sc):
            yield cand


def shrink_specs(x):
    """same structure with one domain description made smaller"""
    def walk(v):
        if isinstance(v, dict):
            if v.get('$') == 'dom':
                if len(v['idx']) > 1:
                    h = len(v['idx']) // 2
                    yield dict(v, idx=v['idx'][:h])
                    yield dict(v, idx=v['idx'][h:])
                if v.get('lay'):
                    yield {k: y for k, y in v.items() if k != 'lay'}
                return
            for k in v:
                if k in ('record', 'switches'):
                    continue
                for y in walk(v[k]):
                    d = dict(v)
                    d[k] = y
                    yield d
        elif isinstance(v, list):
            for i in range(len(v)):
                for y in walk(v[i]):
                    yield v[:i] + [y] + v[i + 1:]
    return walk(x)
