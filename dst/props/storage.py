"""Properties about files: exports, imports, failures, crashes, concurrent clients."""
import errno, gc, json, os, random, shutil, sys
import numpy as np
from .. import sim as S, inputs as I, exports as X, model
from ..base import Prop, Violation, in_fork
from ..sched import Sched, Interrupt, shared_sites

STUB = ['disk: raw file writes, reads, opens, closes, mkdir, rename, unlink and fsync pass a fault-injecting layer '
        'above a scratch directory', 'console: sys.stdout/sys.stderr are in-memory, may fail',
        'clock, process id, temporary names, random: simulated']
ASSUME = ['files are written through Python-level open/os calls (C-level writers such as ndarray.tofile would bypass '
          'the fault layer, though their result on disk is still checked)']


def wipe(root):
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.remove(p)


def mkd(sim, rel):
    os.makedirs(os.path.join(sim.root, rel), exist_ok=True)


def keep(fn):
    """(outcome, exception kept alive with its traceback)"""
    try:
        return ('ok', S.canon(fn())), None
    except SystemExit as e:
        return ('exit', e.code if isinstance(e.code, (int, type(None))) else 1), e
    except S.HarnessError:
        raise
    except BaseException as e:
        return ('exc', type(e).__name__), e


def blobs(sim, c):
    return [sim.read(p) for p in X.files(c)]


def fault_free(root, c, cfg=None):
    """reference execution in a fresh process: outcome, bytes, events, number of lines, characters printed, distinct lines"""
    def go():
        with S.Sim(root, cfg) as sim:
            obj = I.build(c['obj'])
            if X.needs_dir(c):
                mkd(sim, c['path'])
            sim.arm()
            it = Interrupt(-1, None)
            out = it.run(lambda: X.perform(c, obj))
            sim.disarm()
            gc.collect()
            prints = len(sim.out.getvalue())
            return out, blobs(sim, c), list(sim.kinds), it.n, prints, it.lines()
    r = in_fork(go)
    wipe(root)
    return r


class FailingOut:
    """a console that breaks after n characters"""

    def __init__(self, n):
        self.n = n
        self.broken = 0
        self.encoding = 'utf-8'

    def write(self, s):
        self.n -= len(s)
        if self.n < 0:
            self.broken += 1
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        return len(s)

    def flush(self):
        pass


ERRNOS = ['ENOSPC', 'ENOSPC', 'EIO', 'EIO', 'EDQUOT', 'EACCES', 'EACCES', 'EROFS', 'EMFILE', 'EFBIG', 'ENFILE', 'EPERM', 'ESTALE', 'ENOMEM',
          'ENAMETOOLONG', 'ENOTDIR', 'ENOENT', 'EBUSY', 'ETIMEDOUT', 'ELOOP', 'EPIPE', 'ETXTBSY', 'EISDIR', 'EINVAL', 'ENXIO']


def gen_fault(r):
    """one failing condition; 'u' is a position as a fraction of the fault-free run"""
    m = r.random()
    if m < .62:
        f = {'t': 'io', 'u': r.random(), 'errno': r.choice(ERRNOS),
             'part': r.choice([0, 0, 1, 7, 100]), 'lose': r.choice([1, 64, 5000])}
        if r.random() < .35:
            f['sticky'] = True
        if r.random() < .45:
            f['on'] = r.choice(['open', 'mkdir', 'write', 'write', 'close', 'close'])
    elif m < .85:
        f = {'t': 'quota', 'u': r.random()}
    elif m < .92:
        f = {'t': 'console', 'u': r.random()}
    else:
        f = {'t': 'eexist'}
    return f


def apply_fault(sim, f, ref_kinds, ref_bytes, ref_prints):
    """arm the simulator; returns the failing console, if any"""
    n = len(ref_kinds)
    if f['t'] == 'io':
        cand = [i for i in range(n) if f.get('on') is None or ref_kinds[i] == f['on']] or list(range(n)) or [0]
        at = cand[int(f['u'] * len(cand))]
        ft = {'at': at, 'kind': 'fail', 'errno': f['errno'], 'part': f['part'], 'lose': f['lose']}
        if f.get('sticky'):
            ft['sticky'] = True
        sim.arm([ft])
    elif f['t'] == 'quota':
        sim.arm(quota=int(f['u'] * ref_bytes))
    elif f['t'] == 'eexist':
        at = [i for i in range(n) if ref_kinds[i] == 'mkdir'] or [0]
        sim.arm([{'at': at[0], 'kind': 'fail', 'errno': 'EEXIST'}] if ref_kinds[at[0]:at[0] + 1] == ['mkdir'] else [])
    else:
        sim.arm()
        fo = FailingOut(int(f['u'] * max(1, ref_prints)))
        sys.stdout = fo
        return fo
    return None


def knobs(r):
    return {'hold': r.random() < .5, 'buf': r.choice([None, None, 16, 64, 200, 512, 8192, 65536]),
            'chunk': r.choice([None, None, 1, 50, 300]), 'readmax': r.choice([None, None, 1, 13, 100, 4096]),
            'enc': r.choice([None, 'ascii', 'latin-1', 'cp932', 'euc_jp'])}


def benign(r):
    """interruptions a correct program never notices"""
    k = r.choice([0, 0, 1, 3, 8])
    return [{'at': a, 'kind': r.choice(['short', 'short', 'eintr']), 'n': r.choice([1, 2, 17, 300])}
            for a in sorted(r.sample(range(80), k))]


class C01(Prop):
    id = 'C01'
    level = 'exploration'
    runs = {'quick': 4200, 'thorough': 90000}
    rule = ('distinct (package, file kind, entry point, object size class, memory layout, buffer/chunk/hold knobs, short-write '
            'pattern) combinations whose files were compared byte for byte on return')
    stub = STUB
    assumptions = ASSUME

    def gen(self, r, i, tier):
        n = r.choice([1, 1, 1, 2, 3])
        same = r.random() < .5
        path, base = r.choice(X.PATHS), r.choice(X.BASES)
        ops = [X.gen(r, path=path, base=base if same else None) for _ in range(n)]
        if r.random() < .3:                    # a file of (nearly always) the same size is replaced
            c = json.loads(json.dumps(ops[0]))
            if c['k'] not in ('podatm', 'wpod'):
                c['obj']['tr'] = c['obj'].get('tr', []) + [r.choice([['rev', 0], ['roll', 1], ['vroll', 1], ['neg', 0], ['last', 1]])]
                ops.insert(1, c)
        if tier == 'thorough' and r.random() < .02:
            ops[0] = X.gen(r, kinds=('xyz', 'tri', 'vtx', 'edge'), n=r.choice([300, 360, 700, 1100, 2100]))
        elif i in (3, 300, 701, 1400):
            ops = [X.gen(r, pkg, ('xyz',) if k < 2 else ('vtx', 'edge'), n=nn, path=path, base=base) for pkg, k, nn in
                   [{3: ('ico2', 0, 1100), 300: ('dode2', 0, 1500), 701: ('ico2', 2, 2600), 1400: ('dode2', 2, 4200)}[i]]]
        elif r.random() < .03:
            ops[0] = X.gen(r, kinds=('xyz', 'tri', 'vtx', 'edge'), n=r.choice([100, 120, 251, 257, 360, 520]))
        return {'ops': ops, 'cfg': knobs(r), 'faults': benign(r), 'old': r.choice([0, 0, 1, 5000, 200000]), 'rd': benign(r)}

    def run(self, sc, ctx):
        root = ctx.subdir('r')
        refs = [fault_free(root, c) for c in sc['ops']]
        with S.Sim(root, sc['cfg']) as sim:
            live = {}
            for c, (rout, rblobs, rk, rn, rp, _) in zip(sc['ops'], refs):
                obj = I.build(c['obj'])
                before = S.canon(obj)
                if X.needs_dir(c):
                    mkd(sim, c['path'])
                if sc['old']:
                    for p in X.files(c):
                        if p not in live:
                            sim.put(p, b'7\nold contents\n' + b'Xx 1 2 3 # old\n' * (sc['old'] // 15))
                sim.arm(sc['faults'])
                out = S.outcome(X.perform, c, obj)
                sim.disarm()
                ctx.count('checks')
                ctx.log(c['k'], out[0], sim.kinds)
                must = c['k'] != 'podatm'
                if not X.success(out):
                    if must or X.success(rout):
                        ctx.violate('export-refused', 'exporting a valid %s object as %s did not succeed: %s'
                                    % (c['pkg'], c['k'], S.brief(out)))
                    ctx.count('refused')
                    continue
                got = blobs(sim, c)
                ctx.check(None not in got, 'missing', lambda: 'export reported success but %s does not exist' % X.files(c))
                w = X.content_ok(c, I.build(c['obj']), got)
                ctx.check(w is None, 'incomplete', lambda: '%s %s: %s (on return of the export)' % (c['pkg'], c['k'], w))
                ctx.check(got == rblobs, 'differs', lambda: '%s %s: bytes on return differ from an undisturbed export'
                          % (c['pkg'], c['k']))
                for p, b in zip(X.files(c), got):
                    live[p] = b
                if c['k'] in X.READABLE:
                    sim.arm(sc['rd'])
                    try:
                        back = S.outcome(X.do_read, c)
                    finally:
                        sim.disarm()
                    want = ('ok', S.canon(X.want_read(c)))
                    ctx.check(back == want, 'roundtrip', lambda: 'import of the exported %s %s object gives %s, not the '
                              'exported object (%s)' % (c['pkg'], c['k'], S.brief(back), S.brief(want)))
                    ctx.count('roundtrips')
                ctx.check(S.canon(obj) == before, 'input-changed', 'the exported object was modified')
                ctx.fault(sim.fired)
                sim.fired = []
                n = len(np.ravel(I.build(c['obj']))) // 18
                ctx.sig(c['pkg'], c['k'], c['o'].get('via'), min(n, 9) if n < 10 else len(str(n)), c['obj'].get('lay'),
                        sc['cfg'].get('hold'), sc['cfg'].get('buf'), sc['cfg'].get('chunk'), sc['cfg'].get('enc'),
                        len(sc['faults']), sc['old'])
            # late finalisation of whatever is still around and the end of the process must not touch the files
            sim.process_exit()
            for p, b in live.items():
                ctx.check(sim.read(p) == b, 'late-change', lambda: '%s changed after the export had returned' % p)


class C02(Prop):
    id = 'C02'
    level = 'exploration'
    runs = {'quick': 2600, 'thorough': 60000}
    rule = 'distinct (package, file kind, entry point, fault kind, failing operation, position decile, sticky, hold) combinations that fired'
    stub = STUB
    assumptions = ASSUME

    def gen(self, r, i, tier):
        return {'ops': [X.gen(r)], 'cfg': dict(knobs(r), readmax=None), 'old': r.random() < .4,
                'faults': [gen_fault(r) for _ in range(8)]}

    def run(self, sc, ctx):
        c = sc['ops'][0]
        root = ctx.subdir('r')
        cfg = sc['cfg']
        rout, rb, rk, rn, rp, _ = fault_free(root, c, cfg)
        if not X.success(rout):
            ctx.count('refused')
            return
        total = sum(len(b) for b in rb)
        for f in sc['faults']:
            wipe(root)
            with S.Sim(root, cfg) as sim:
                obj = I.build(c['obj'])
                if X.needs_dir(c):
                    mkd(sim, c['path'])
                if sc['old']:
                    for p in X.files(c):
                        sim.put(p, b'2\nold\n' * 3000)
                con = apply_fault(sim, f, rk, total, rp)
                out = S.outcome(X.perform, c, obj)
                sys.stdout = sim.out
                sim.disarm()
                fired = list(sim.fired) + ([('console', 'print')] if con and con.broken else [])
                ctx.fault(fired)
                ctx.count('checks')
                ctx.log(f, out[0], fired, sim.kinds)
                if fired:
                    ctx.sig(c['pkg'], c['k'], c['o'].get('via'), fired[0], int(f.get('u', 0) * 10), f.get('sticky'), cfg.get('hold'))
                if X.success(out):
                    got = blobs(sim, c)
                    ctx.check(got == rb, 'false-success', lambda: '%s %s export under %s (%s) reported success (%s) but %s' % (
                        c['pkg'], c['k'], f, fired, S.brief(out),
                        'the file is missing' if None in got else 'the bytes on disk are not the exported object'))
                    ctx.count('succeeded')
                else:
                    ctx.count('reported')
                    if not fired:
                        ctx.violate('spurious', '%s %s export failed (%s) although no fault fired' % (c['pkg'], c['k'], S.brief(out)))
                sim.held = []
                gc.collect()


class C03(Prop):
    id = 'C03'
    level = 'exploration'
    runs = {'quick': 2000, 'thorough': 45000}
    rule = 'distinct (package, file kind, failure kind, failing operation or interrupted line, exception held) combinations that failed and were retried'
    stub = STUB
    assumptions = ASSUME + ['interrupts are raised between source lines, not between the byte codes of one line']

    def gen(self, r, i, tier):
        c = X.gen(r)
        fs = []
        for _ in range(6):
            m = r.random()
            if m < .5:
                f = gen_fault(r)
            elif m < .8:
                f = {'t': 'int', 'u': r.random(), 'exc': r.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])}
            else:
                f = {'t': 'bad', 'how': r.choice(['none', 'format', 'ndim', 'text', 'short', 'nan', 'select', 'empty', 'apart', 'nones', 'ndim5'])}
            f['held'] = r.random() < .5
            fs.append(f)
        return {'ops': [c], 'cfg': dict(knobs(r), readmax=None, hold=False), 'faults': fs, 'old': r.random() < .7,
                'neigh': r.choice(['sub', 'near', 'near'])}

    def run(self, sc, ctx):
        c = sc['ops'][0]
        root = ctx.subdir('r')
        cfg = sc['cfg']
        rout, rb, rk, rn, rp, _ = fault_free(root, c, cfg)
        if not X.success(rout):
            ctx.count('refused')
            return
        total = sum(len(b) for b in rb)
        tg = X.files(c)
        d = os.path.dirname(tg[0])
        for f in sc['faults']:
            wipe(root)
            with S.Sim(root, cfg) as sim:
                obj = I.build(c['obj'])
                others = {}
                if X.needs_dir(c) or sc['old'] or sc['neigh'] == 'near':
                    mkd(sim, d)
                    for n in ('other.xyz', c['base'] + '2.xyz', 'tmp_other.vesta', c['base'] + '.txt', 'keep.bak', '.hidden',
                              c['base'] + '.xyz~', c['base'] + '.tmp', c['base'] + '.xyz.bak', 'tmp.xyz', 'tmp.pod'):
                        p = os.path.join(d, n)
                        if p not in tg:
                            others[p] = ('precious %s\n' % n).encode() * 20
                others['precious.xyz'] = b'1\nprecious\n'
                old = {}
                if sc['old']:
                    for p in tg:
                        old[p] = b'2\nold\n' * 300
                for p, b in list(others.items()) + list(old.items()):
                    sim.put(p, b)
                con = None
                bad = None
                if f['t'] == 'int':
                    it = Interrupt(1 + int(f['u'] * rn), {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[f['exc']],
                                   budget=rn * 50 + 100000)
                    hold_exc = []

                    def body():
                        try:
                            return X.perform(c, obj)
                        except BaseException as e:
                            hold_exc.append(e)
                            raise
                    out = it.run(body)
                    exc = hold_exc[0] if hold_exc else None
                    del hold_exc[:]
                    fired = [(f['exc'], 'line')] if it.fired else []
                    where = it.fired
                elif f['t'] == 'bad':
                    cc, ob = self.bad(c, obj, f['how'])
                    bad = f['how']
                    out, exc = keep(lambda: X.perform2(cc, ob))
                    fired = [('invalid', f['how'])]
                    where = f['how']
                    if X.success(out):           # the library accepts it: nothing to check here
                        continue
                else:
                    con = apply_fault(sim, f, rk, total, rp)
                    out, exc = keep(lambda: X.perform(c, obj))
                    sys.stdout = sim.out
                    sim.disarm()
                    fired = list(sim.fired) + ([('console', 'print')] if con and con.broken else [])
                    where = fired[:1]
                ctx.log(f, out[0], fired)
                if X.success(out):
                    ctx.count('survived')
                    continue
                ctx.fault(fired)
                ctx.count('checks')
                ctx.sig(c['pkg'], c['k'], c['o'].get('via'), where, f['held'])
                if not f['held']:
                    exc = None
                    gc.collect()
                    ctx.check(not sim.live, 'handle-leak', lambda: 'files left open after the failed export: %s' % sorted(sim.live.values()))
                self.residue(ctx, sim, c, others, old, tg, bad, out)
                # retry once the fault is gone
                if X.needs_dir(c):
                    mkd(sim, c['path'])
                sim.fired = []
                out2 = S.outcome(X.perform, c, I.build(c['obj']))
                ctx.check(out2 == rout, 'retry', lambda: 'after a failed export (%s, %s) the retry gives %s instead of %s'
                          % (f, fired, S.brief(out2), S.brief(rout)))
                exc = None
                gc.collect()
                ctx.check(blobs(sim, c) == rb, 'retry-bytes', lambda: 'after a failed export (%s, %s) the retried export left other bytes'
                          % (f, fired))
                self.residue(ctx, sim, c, others, {}, tg, None, out)
                ctx.check(not sim.live, 'handle-leak', lambda: 'files left open after the retry: %s' % sorted(sim.live.values()))

    def residue(self, ctx, sim, c, others, old, tg, bad, out):
        t = sim.tree()
        for p, b in others.items():
            ctx.check(t.get(p) == b, 'collateral', lambda: 'the failed %s export changed or removed %s' % (c['k'], p))
        for p, b in t.items():
            if b is None or p in tg or p in others:
                continue
            ctx.violate('stray', 'the failed %s export left a stray file %s' % (c['k'], p))
        if bad and out == ('ok', ('int', 1)):
            for p, b in old.items():
                ctx.check(t.get(p) == b, 'refused-but-changed',
                          lambda: 'a %s export refused as invalid (%s) changed the existing file %s' % (c['k'], bad, p))

    def bad(self, c, obj, how):
        c = dict(c, o=dict(c['o']))
        if how == 'none':
            return c, None
        if how == 'format':
            c['o']['format'] = 'pdf'
            return c, obj
        if how == 'select':
            c['o']['select'] = 'nonsense'
            return c, obj
        if how == 'ndim':
            return c, obj.reshape(-1)
        if how == 'text':
            return c, 'not an array'
        if how == 'empty':
            return c, obj[:0]
        if how == 'nones':
            return c, np.array([None])
        if how == 'ndim5':
            return c, np.ascontiguousarray(obj)[None]
        if how == 'apart':                    # cells without a common vertex
            o = np.ascontiguousarray(obj).astype(np.int64)
            far = o.copy()
            far[..., 0] += 7 * far[..., 2]
            return c, np.concatenate([o, far])
        if how == 'short':
            return c, np.ascontiguousarray(obj)[..., :2]
        return c, np.ascontiguousarray(obj).astype(float) * np.nan


class C04(Prop):
    id = 'C04'
    level = 'exploration'
    runs = {'quick': 2600, 'thorough': 60000}
    rule = 'distinct (package, file kind, damage kind, damage position class, outcome) combinations'
    stub = STUB
    assumptions = ASSUME + ['damage is what storage does to a file: truncation, torn tail, zeroed blocks, read errors; altered digits '
                            'cannot be detected by a format without check sums']

    def gen(self, r, i, tier):
        c = X.gen(r, kinds=X.READABLE)
        cuts = []
        for _ in range(12):
            m = r.random()
            if m < .45:
                f = {'t': 'cut', 'u': r.random()}
                if r.random() < .5:
                    f = {'t': 'cutend', 'n': r.randint(1, 60)}
                elif r.random() < .4:
                    f = {'t': 'cutrow', 'u': r.random(), 'n': r.randint(-3, 3)}
            elif m < .55:
                f = {'t': 'hole', 'u': r.random(), 'len': r.choice([1, 1, 2, 3, 64, 512, 4096]), 'al': r.choice([1, 1, 512])}
                if r.random() < .3:
                    f.update(u=0.0, len=r.choice([1, 1, 2, 3]), al=1)
            elif m < .63:
                f = {'t': 'zerotail', 'u': r.random()}
            elif m < .8:
                f = {'t': 'io', 'u': r.random(), 'errno': r.choice(['EIO', 'EIO', 'ESTALE', 'EACCES', 'EMFILE', 'ENOENT', 'ETIMEDOUT', 'EPERM', 'ENFILE', 'EISDIR', 'EINVAL', 'EBADF']), 'sticky': r.random() < .3}
            elif m < .85:
                f = {'t': 'benign', 'b': benign(r)}
            else:
                f = {'t': r.choice(['missing', 'nodir', 'empty', 'isdir', 'notdir', 'hdr', 'binary', 'nl', 'dangling'])}
            cuts.append(f)
        return {'ops': [c], 'cfg': dict(knobs(r), hold=r.random() < .3), 'cuts': cuts}

    def run(self, sc, ctx):
        c = sc['ops'][0]
        root = ctx.subdir('r')
        cfg = sc['cfg']
        rout, rb, *_ = fault_free(root, c)
        if not X.success(rout):
            ctx.violate('export-refused', 'a valid object could not be exported: %s' % S.brief(rout))
        doc = rb[0]
        want = ('ok', S.canon(X.want_read(c)))
        p = X.files(c)[0]
        with S.Sim(root, cfg) as sim:
            # events of an undisturbed import
            sim.put(p, doc)
            sim.arm()
            base = S.outcome(X.do_read, c)
            kinds = list(sim.kinds)
            sim.disarm()
            ctx.check(base == want, 'intact', lambda: 'import of an intact file gives %s, expected %s' % (S.brief(base), S.brief(want)))
            for f in sc['cuts']:
                wipe(root)
                t = f['t']
                data = doc
                nrow = doc.count(b'\n')
                if t == 'cut':
                    data = doc[:int(f['u'] * len(doc))]
                elif t == 'cutend':
                    data = doc[:max(0, len(doc) - f['n'])]
                elif t == 'cutrow':
                    k = int(f['u'] * nrow)
                    pos = 0
                    for _ in range(k):
                        pos = doc.index(b'\n', pos) + 1
                    data = doc[:max(0, min(len(doc), pos + f['n']))]
                elif t == 'hole':
                    a = int(f['u'] * len(doc)) // f['al'] * f['al']
                    if f['u'] == 0.0:
                        a = max(0, doc.index(b'\n') - f['len'])
                    b = min(len(doc), a + f['len'])
                    data = doc[:a] + b'\0' * (b - a) + doc[b:]
                elif t == 'zerotail':
                    a = int(f['u'] * len(doc))
                    data = doc[:a] + b'\0' * (len(doc) - a)
                elif t == 'empty':
                    data = b''
                elif t == 'hdr':
                    data = doc[:doc.index(b'\n') + 1]
                elif t == 'nl':
                    data = b'\n\n\n'
                elif t == 'binary':
                    data = bytes(range(256)) * 3
                if t not in ('missing', 'nodir', 'isdir', 'notdir', 'dangling'):
                    sim.put(p, data)
                elif t in ('missing', 'isdir', 'dangling'):
                    mkd(sim, os.path.dirname(p))
                    if t == 'isdir':
                        mkd(sim, p)
                    if t == 'dangling':
                        os.symlink('nowhere', os.path.join(root, p))
                elif t == 'notdir':
                    sim.put(p.split(os.sep)[0], b'a file\n')
                if t == 'io':
                    at = int(f['u'] * max(1, len(kinds)))
                    ft = {'at': at, 'kind': 'fail', 'errno': f['errno']}
                    if f['sticky']:
                        ft.update(sticky=True, on=['read', 'open-r'])
                    sim.arm([ft])
                elif t == 'benign':
                    sim.arm(f['b'])
                else:
                    sim.arm()
                out, exc = keep(lambda: X.do_read(c))
                sim.disarm()
                fired = list(sim.fired)
                sim.fired = []
                ctx.fault(fired)
                if t not in ('io', 'benign'):
                    ctx.count('fault damaged file:' + t)
                ctx.count('checks')
                ctx.log(f, out[0], fired, sim.kinds)
                ctx.sig(c['pkg'], c['k'], t, int(f.get('u', 0) * 12), f.get('n'), out[0], fired[:1])
                okay = out == want or out[0] == 'exc' or (out[0] == 'exit' and out[1] not in (0, None))
                if t == 'benign':
                    ctx.check(out == want, 'fragile', lambda: 'short or interrupted reads made the import fail: %s' % S.brief(out))
                ctx.check(okay, 'partial-import', lambda: 'import of a %s/%s file damaged by %s returned %s instead of failing '
                          '(complete object: %s)' % (c['pkg'], c['k'], f, S.brief(out), S.brief(want)))
                if t in ('missing', 'nodir', 'isdir', 'notdir', 'dangling', 'empty', 'hdr', 'nl', 'binary'):
                    ctx.check(out[0] != 'ok', 'phantom', lambda: 'import of a %s file returned %s' % (t, S.brief(out)))
                ctx.check(not (t == 'io' and any(k == 'read' for _, k in fired) and out[0] == 'ok' and out != want), 'partial-import', 'unreachable')
                exc = None
                # the damage must leave no trace in later imports
                wipe(root)
                sim.put(p, doc)
                again = S.outcome(X.do_read, c)
                ctx.check(again == want, 'after-failure', lambda: 'after a failed import (%s) the repaired file imports as %s, expected %s'
                          % (f, S.brief(again), S.brief(want)))
            sim.held = []
            gc.collect()


class C05(Prop):
    id = 'C05'
    level = 'exploration'
    runs = {'quick': 2200, 'thorough': 50000}
    rule = 'distinct (package, file kind, crash position decile, crash-image kind, recovered as old/new/refused) combinations'
    stub = STUB
    assumptions = ASSUME + ['crash model: at any storage event the process stops; data not yet flushed by fsync may be lost as a '
                            'suffix, in whole blocks (zeros) or entirely; a truncation or rename may or may not have reached the disk']

    def gen(self, r, i, tier):
        path, base = r.choice(X.PATHS), r.choice(X.BASES)
        pkg = r.choice(['ico2', 'dode2'])
        k = r.choice([x for x in X.READABLE if x in X.KINDS[pkg]])
        new = X.gen(r, pkg, (k,), path=path, base=base)
        old = X.gen(r, pkg, (k,), path=path, base=base) if r.random() < .6 else None
        if r.random() < .4:                    # the old file has the same number of rows, perhaps the same size
            m = r.choice([8, 8, 30, 100])
            fine = r.random() < .5
            new['obj'] = X.same_rows(r, pkg, k, m, fine)
            old = dict(new, obj=X.same_rows(r, pkg, k, m, fine))
        cuts = [{'u': r.random(), 'img': r.choice(['kill', 'kill', 'prefix', 'prefix', 'holes', 'none', 'old', 'len']),
                 'v': r.random(), 's': r.randrange(1 << 30)} for _ in range(14)]
        return {'ops': [new] + ([old] if old else []), 'cfg': dict(knobs(r), hold=False, readmax=None), 'cuts': cuts}

    def run(self, sc, ctx):
        new = sc['ops'][0]
        old = sc['ops'][1] if len(sc['ops']) > 1 else None
        root = ctx.subdir('r')
        sim_cfg = sc['cfg']
        oldb = None
        allowed = [('ok', S.canon(X.want_read(new)))]
        p = X.files(new)[0]
        if old:
            rout, rb, *_ = fault_free(root, old)
            oldb = rb[0]
            allowed.append(('ok', S.canon(X.want_read(old))))
            ctx.check(X.files(old)[0] == p, 'harness', 'paths differ')
        others = {'precious.xyz': b'1\nprecious\n', os.path.join(os.path.dirname(p), 'other.xyz'): b'other\n' * 9}

        def go():
            with S.Sim(root, sim_cfg) as sim:
                mkd(sim, os.path.dirname(p))
                for q, b in others.items():
                    sim.put(q, b)
                init = {}
                if oldb is not None:
                    sim.put(p, oldb)
                for d, ds, fs in os.walk(root):
                    for n in fs:
                        q = os.path.join(d, n)
                        init[os.path.relpath(q, root)] = os.stat(q).st_ino
                sim.log = []
                sim.arm()
                out = S.outcome(X.perform, new, I.build(new['obj']))
                sim.disarm()
                return out, sim.log, init
        out, log, init = in_fork(go)
        wipe(root)
        if not X.success(out):
            ctx.violate('export-refused', 'a valid object could not be exported: %s' % S.brief(out))
        muts = [e for e in log if e[0] in ('create', 'trunc', 'write', 'truncate', 'rename', 'unlink', 'fsync', 'link', 'mkdir', 'rmdir')]
        blobs0 = {init[q]: b for q, b in others.items()}
        if oldb is not None:
            blobs0[init[p]] = oldb
        for cut in sc['cuts']:
            r = random.Random(cut['s'])
            k = int(cut['u'] * (len(muts) + 1))
            img = crash_image(muts[:k], init, blobs0, cut, r)
            wipe(root)
            with S.Sim(root) as sim:
                for q, b in img.items():
                    sim.put(q, b)
                ctx.count('checks')
                ctx.count('fault crash:' + cut['img'])
                for q, b in others.items():
                    ctx.check(img.get(q) == b, 'collateral', lambda: 'a crash during the export of %s can change or lose %s' % (p, q))
                got = S.outcome(X.do_read, new)
                ctx.log(cut, got[0], k)
                okay = got in allowed or got[0] == 'exc' or (got[0] == 'exit' and got[1] not in (0, None))
                ctx.sig(new['pkg'], new['k'], cut['img'], int(cut['u'] * 10), got[0], allowed.index(got) if got in allowed else None)
                ctx.check(okay, 'half-object', lambda: 'after a crash at step %d of %d (%s) the import returned %s, neither the old nor '
                          'the new object' % (k, len(muts), cut['img'], S.brief(got)))
                if k == len(muts) and cut['img'] == 'kill':
                    ctx.check(got == allowed[0], 'lost', lambda: 'the process ended right after a successful export, import gives %s' % S.brief(got))
                # recovery: export again, then everything is complete
                out2 = S.outcome(X.perform, new, I.build(new['obj']))
                got2 = S.outcome(X.do_read, new)
                ctx.check(X.success(out2) and got2 == allowed[0], 'recovery', lambda: 'after the crash a new export gives %s and imports as %s'
                          % (S.brief(out2), S.brief(got2)))


def crash_image(muts, init, blobs0, cut, r):
    """disk contents after a crash that follows the given mutations"""
    names = dict(init)                       # path -> inode
    files = {i: bytearray(b) for i, b in blobs0.items()}
    writes = {}                              # inode -> list of unsynced (off, data)
    synced = {i: bytes(b) for i, b in blobs0.items()}
    fresh = 0
    for e in muts:
        op = e[0]
        if op == 'create':
            names[e[1]] = e[2]
            files[e[2]] = bytearray()
            synced[e[2]] = b''
            writes[e[2]] = []
        elif op == 'trunc':
            files.setdefault(e[2], bytearray())
            del files[e[2]][:]
            writes.setdefault(e[2], []).append('trunc')
        elif op == 'truncate':
            f = files.setdefault(e[2], bytearray())
            n = e[3]
            if n <= len(f):
                del f[n:]
            else:
                f.extend(b'\0' * (n - len(f)))
            writes.setdefault(e[2], []).append('trunc')
        elif op == 'write':
            f = files.setdefault(e[2], bytearray())
            off, d = e[3], e[4]
            if off > len(f):
                f.extend(b'\0' * (off - len(f)))
            f[off:off + len(d)] = d
            writes.setdefault(e[2], []).append((off, d))
        elif op == 'rename':
            if e[1] in names:
                names[e[2]] = names.pop(e[1])
        elif op == 'link':
            if e[1] in names:
                names[e[2]] = names[e[1]]
        elif op == 'unlink':
            names.pop(e[1], None)
        elif op == 'fsync':
            if e[1] in files:
                synced[e[1]] = bytes(files[e[1]])
                writes[e[1]] = []
    out = {}
    for q, ino in names.items():
        full = bytes(files.get(ino, b''))
        w = writes.get(ino)
        base = synced.get(ino, b'')
        if not w or cut['img'] == 'kill':
            out[q] = full
            continue
        m = cut['img']
        if m == 'prefix':
            n = int(cut['v'] * (len(full) + 1))
            out[q] = full[:n]
        elif m == 'none':
            out[q] = b'' if w[0] == 'trunc' or not base else base
        elif m == 'old':
            out[q] = base
        elif m == 'len':                     # length reached the disk, the tail did not
            n = int(cut['v'] * (len(full) + 1))
            out[q] = full[:n] + b'\0' * (len(full) - n)
        else:
            b = bytearray(full)
            bs = r.choice([512, 512, 4096, 64])
            for a in range(0, len(b), bs):
                if r.random() < .4:
                    b[a:a + bs] = b'\0' * len(b[a:a + bs])
            out[q] = bytes(b)
    return out


class C06(Prop):
    id = 'C06'
    level = 'exploration'
    runs = {'quick': 1500, 'thorough': 30000}
    rule = 'distinct (clients, kinds, set of source positions where the scheduler switched) interleavings'
    stub = STUB + ['thread scheduler: one client thread runs at a time, switches decided by the seed at source lines and storage events']
    assumptions = ASSUME + ['clients are threads of one interpreter sharing the file system; each writes its own file names']

    def gen(self, r, i, tier):
        n = r.choice([2, 2, 3, 4])
        path = r.choice(X.PATHS + ['a/b/c/d', 'new'])
        cl = []
        one = r.random() < .5                  # all clients do the same kind of export
        pkg = ['ico2', 'dode2', 'ico2'][i % 3] if one else None
        names = sorted(set(X.KINDS[pkg])) if one else None
        kinds = (names[i // 3 * 37 % len(names)],) if one else None
        for j in range(n):
            L = []
            for m in range(r.choice([1, 1, 2])):
                c = X.gen(r, pkg, kinds, path=path if r.random() < .8 else r.choice(X.PATHS + ['a/b', 'a/b/e']),
                          base=r.choice(['f%d', 'tmp%d', 'obj_%d', 'tmp.%d']) % (j * 10 + m), n=r.choice([1, 1, 2, 3]))
                if X.needs_dir(c):
                    c['o']['mk'] = True
                if c['k'] == 'hand':
                    c['k'] = 'vtx'
                    c['obj'] = X.gen_obj(r, c['pkg'], 'vtx', 2)
                    c['o'] = {'via': 'write', 'verbose': 0}
                elif X.needs_dir(c):
                    c['o']['via'] = 'write'
                L.append(dict(c, rd=r.random() < .7))
            cl.append(L)
        h = r.random()
        sc = {'clients': cl, 'cfg': dict(knobs(r), hold=False, readmax=None), 'gap': r.choice([3, 10, 40, 150]) if h < .4 else 3000, 'faults': benign(r)}
        if .4 < h < .6:
            sc['hot'] = [r.randrange(1 << 20), r.choice([3, 8, 20])]
        elif h >= .6:
            sc['meet'] = [[r.randrange(n), r.random()] for _ in range(r.choice([1, 1, 2, 3]))]
        return sc

    def run(self, sc, ctx):
        root = ctx.subdir('r')
        refs = {}
        for L in sc['clients']:
            for c in L:
                refs[tuple(X.files(c))] = fault_free(root, c)
        lines = [[k for c in L for k in refs[tuple(X.files(c))][5]] for L in sc['clients']]
        hits = sorted(shared_sites() & {k for L in lines for k in L})
        ctx.count('scenarios with shared state', bool(hits))
        with S.Sim(root, sc['cfg']) as sim:
            objs = [[I.build(c['obj']) for c in L] for L in sc['clients']]
            rng = None if sc.get('switches') is not None else random.Random(sc.get('seed', 0))
            meet = []
            for j, u in sc.get('meet', ()):
                L = lines[j % len(lines)]
                if u < .6 and hits:            # a line that touches state which outlives a call
                    meet.append(hits[int(u * 1e6) % len(hits)])
                elif L:
                    meet.append(L[int(u * len(L))])
            sch = Sched(rng, sc['gap'], sc.get('switches'), hot=sc.get('hot'), meet=meet)
            sim.yield_hook = sch.hook
            log = []

            def client(j):
                def go():
                    res = []
                    for c, o in zip(sc['clients'][j], objs[j]):
                        out = S.outcome(X.perform, c, o)
                        got = blobs(sim, c)
                        back = S.outcome(X.do_read, c) if c['rd'] and c['k'] in X.READABLE and X.success(out) else None
                        res.append((out, got, back))
                    return res
                return go
            outs = {}

            def wrap(j):
                g = client(j)

                def f():
                    outs[j] = g()
                return f
            amb = S.ambient()
            sim.arm(sc['faults'])
            res = sch.run([wrap(j) for j in range(len(sc['clients']))])
            sim.disarm()
            sim.yield_hook = None
            ctx.extra['switches'] = sch.record if rng else sc.get('switches')
            ctx.fault(sim.fired)
            ctx.count('switches', sch.nsw)
            ctx.count('steps', sch.step)
            ctx.log(sch.record if rng else sc.get('switches'), sim.kinds)
            ctx.sig(len(outs), tuple(sorted(sch.sites, key=str)), [c['k'] for L in sc['clients'] for c in L])
            d = S.ambient_diff(amb, S.ambient())
            ctx.check(not d, 'ambient', lambda: 'concurrent exports changed process-wide state: %s' % d)
            for j, L in enumerate(sc['clients']):
                ctx.check(res[j] == ('ok', ('NoneType', None)), 'client-failed', lambda: 'client %d: %s' % (j, res[j]))
                for c, (out, got, back) in zip(L, outs[j]):
                    rout, rb, *_ = refs[tuple(X.files(c))]
                    ctx.count('checks')
                    ctx.check(out == rout, 'concurrent-failure', lambda: 'client %d: %s %s export in a shared directory gives %s; alone it gives %s'
                              % (j, c['pkg'], c['k'], S.brief(out), S.brief(rout)))
                    if X.success(rout):
                        ctx.check(got == rb, 'concurrent-bytes', lambda: 'client %d: file of the %s export is not the one it writes alone' % (j, c['k']))
                        if back is not None:
                            want = ('ok', S.canon(X.want_read(c)))
                            ctx.check(back == want, 'concurrent-import', lambda: 'client %d: import gives %s, expected %s' % (j, S.brief(back), S.brief(want)))
            gc.collect()
            t = sim.tree()
            names = {p for L in sc['clients'] for c in L for p in X.files(c)}
            for L in sc['clients']:
                for c in L:
                    rout, rb, *_ = refs[tuple(X.files(c))]
                    if X.success(rout):
                        ctx.check([t.get(p) for p in X.files(c)] == rb, 'final-bytes', lambda: 'finally %s holds other bytes' % X.files(c))
            for p, b in t.items():
                ctx.check(b is None or p in names, 'stray', lambda: 'stray file %s' % p)


def _st(p):
    return S._real['stat'](p)


class C07(Prop):
    id = 'C07'
    level = 'exploration'
    runs = {'quick': 6000, 'thorough': 120000}
    rule = 'distinct (sequence of operation kinds, clock/time-stamp knobs) histories'
    stub = STUB
    assumptions = ASSUME + ['operations on one file do not overlap in time']

    def gen(self, r, i, tier):
        pkgs = [r.choice(['ico2', 'dode2']) for _ in range(3)]
        files = [('out', 'a', pkgs[0]), ('out', 'b', pkgs[1]), (r.choice(['out', 'out2']), r.choice(['a', 'c']), pkgs[2])]
        files = files[:r.choice([1, 2, 3])]
        pool = {}
        ops = []
        for _ in range(r.randint(3, 12) if i % 100 != 7 else r.choice([40, 70, 150])):
            f = r.randrange(len(files))
            p, b, pkg = files[f]
            m = r.random()
            if m < .4 or not ops:
                n = r.choice([1, 1, 2, 3, 4, 8]) if i % 160 != 3 else r.choice([30, 60, 120])
                if f in pool and r.random() < .4:      # same size, other contents / smaller object
                    n = pool[f]
                pool[f] = n
                c = X.gen(r, pkg, ('xyz', 'vtx'), n=n, path=p, base=b)
                c['o']['via'] = 'write'
                ops.append({'op': 'put', 'c': c})
            elif m < .8:
                ops.append({'op': 'get', 'f': f, 'p': p, 'b': b, 'pkg': pkg, 'sel': r.choice(['full', 'vertex', 'full']),
                            'spell': r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7])})
            elif m < .86:
                ops.append({'op': 'ext', 'p': p, 'b': b, 'pkg': pkg, 'how': r.choice(['replace', 'inplace', 'rename', 'digit', 'digit', 'permute']),
                            'u': r.random(), 'c': X.gen(r, pkg, ('xyz', 'vtx'), n=r.choice([1, 2, 3]), path=p, base=b)})
            elif m < .89:
                ops.append({'op': 'del', 'p': p, 'b': b})
            elif m < .91:
                ops.append({'op': 'harm', 'p': p, 'b': b, 'u': r.random(), 'zero': r.random() < .5})
            elif m < .95:
                ops.append({'op': 'mut'})            # the caller edits an array it got from an earlier import
            else:
                ops.append({'op': 'chdir', 'd': r.choice(['.', 'w'])})
        get = {'op': 'get', 'f': 0, 'p': files[0][0], 'b': files[0][1], 'pkg': files[0][2], 'sel': 'full', 'spell': 0}
        ops.append(get)
        if i % 40 in (3, 13):                         # stored, imported, edited elsewhere without a trace, imported again
            p, b, pkg = files[0]
            c = X.gen(r, pkg, ('xyz', 'vtx'), n=r.choice([30, 60, 120, 250]) if i % 40 == 3 else 2, path=p, base=b)
            c['o']['via'] = 'write'
            ops = ops[:2] + [{'op': 'put', 'c': c}, get, {'op': 'ext', 'p': p, 'b': b, 'pkg': pkg, 'how': r.choice(['digit', 'permute']),
                             'u': r.random(), 'c': c}, get] + ops[2:]
        return {'ops': ops, 'cfg': dict(knobs(r), hold=r.random() < .2, coarse=r.choice([None, 1.0e9, 1.0e9]),
                                        clockstep=r.choice([0.0, 0.001, -5.0]))}

    def run(self, sc, ctx):
        root = ctx.subdir('r')
        with S.Sim(root, sc['cfg']) as sim:
            state = {}                     # real path -> (pkg, rows) as a complete document
            kept = []
            mkd(sim, 'w')
            mkd(sim, 'out')
            mkd(sim, 'w/out')
            os.symlink('out', os.path.join(root, 'ln'))
            os.symlink('out', os.path.join(root, 'w', 'ln'))
            cwd = '.'
            hist = []
            for o in sc['ops']:
                hist.append(o['op'] if o['op'] != 'put' else 'put' + str(o['c']['k']))
                if o['op'] == 'chdir':
                    cwd = o['d']
                    os.chdir(os.path.join(root, cwd))
                    continue
                if o['op'] == 'put':
                    c = o['c']
                    key = os.path.normpath(os.path.join(cwd, X.files(c)[0]))
                    obj = I.build(c['obj'])
                    out = S.outcome(X.perform, c, obj)
                    ctx.check(X.success(out), 'export-refused', lambda: 'valid export failed: %s' % S.brief(out))
                    state[key] = np.array(obj, dtype=np.int64, order='C').reshape(-1, 6, 3)
                    if obj.flags.writeable:
                        obj[...] = 0          # the caller reuses its buffer
                elif o['op'] == 'ext':
                    c = o['c']
                    key = os.path.normpath(os.path.join(cwd, X.files(c)[0]))
                    rows = np.array(I.build(c['obj']), dtype=np.int64, order='C').reshape(-1, 6, 3)
                    doc = ext_doc(rows)
                    full = os.path.join(root, key)
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    cur = state.get(key)
                    if o['how'] in ('digit', 'permute') and cur is not None and not isinstance(cur, str):
                        # somebody else edits the file: same size, same name
                        if o['how'] == 'digit':
                            rows = cur.copy()
                            rows.reshape(-1)[int(o['u'] * rows.size) // 3 * 3] *= -1
                            one = rows.reshape(-1)
                            q = int(o['u'] * rows.size) // 3 * 3 + 1
                            one[q] = one[q] + 1 if one[q] % 10 != 9 else one[q] - 1
                        else:
                            rows = np.ascontiguousarray(cur[::-1])
                        doc = ext_doc(rows)
                        st0 = _st(full)
                        doc = doc.replace(b'external', b'e' * max(1, st0.st_size - len(doc) + 8), 1)
                        with S._real['open'](full, 'r+b') as f:
                            f.write(doc)
                            f.truncate()
                        os.utime(full, ns=(st0.st_atime_ns, st0.st_mtime_ns))
                    elif o['how'] == 'inplace' and os.path.exists(full):
                        with S._real['open'](full, 'r+b') as f:
                            f.write(doc)
                            f.truncate()
                    else:
                        with S._real['open'](full + '.new', 'wb') as f:
                            f.write(doc)
                        S._real['replace'](full + '.new', full)
                    state[key] = rows
                elif o['op'] == 'del':
                    key = os.path.normpath(os.path.join(cwd, o['p'], o['b'] + '.xyz'))
                    try:
                        S._real['remove'](os.path.join(root, key))
                    except FileNotFoundError:
                        pass
                    state.pop(key, None)
                elif o['op'] == 'harm':       # the file is damaged: nothing can be imported until it is replaced
                    key = os.path.normpath(os.path.join(cwd, o['p'], o['b'] + '.xyz'))
                    rows = state.get(key)
                    if rows is not None and not isinstance(rows, str):
                        full = os.path.join(root, key)
                        doc = sim.read(key)
                        st0 = _st(full)
                        ls = doc.split(b'\n')
                        n = sum(len(x) + 1 for x in ls[:2 + len(rows)])    # the part an import needs
                        k = int(o['u'] * (n - 1))
                        doc = doc[:k] + (b'\0' * (len(doc) - k) if o['zero'] else b'')
                        with S._real['open'](full, 'r+b') as f:
                            f.write(doc)
                            f.truncate()
                        os.utime(full, ns=(st0.st_atime_ns, st0.st_mtime_ns))
                        state[key] = 'damaged'
                elif o['op'] == 'mut':
                    if kept:
                        kept[-1][...] = -7
                else:
                    key = os.path.normpath(os.path.join(cwd, o['p'], o['b'] + '.xyz'))
                    path = [o['p'], './' + o['p'], os.path.join(root, cwd, o['p']), o['p'] + '/../' + o['p'], o['p'] + '/', o['p'] + '//',
                            'ln' if o['p'] == 'out' else o['p'], os.path.join(root, 'w', '..', cwd, o['p'])][o['spell']]
                    nv = I.NVERT[o['pkg']]
                    rows = state.get(key)
                    sel = X.FULL[o['pkg']] if o['sel'] == 'full' else 'vertex'
                    box = []

                    def rd():
                        v = X.mod(o['pkg']).read_xyz(path, o['b'], select=sel)
                        box.append(v)
                        return v
                    got = S.outcome(rd)
                    ctx.count('checks')
                    ctx.log(o['op'], got[0])
                    if isinstance(rows, str):
                        ctx.check(got[0] != 'ok' and got != ('exit', 0) and got != ('exit', None), 'ghost',
                                  lambda: 'history %s: import of a damaged file returned %s' % (hist, S.brief(got)))
                        hist.append('d')
                        continue
                    if rows is None:
                        ctx.check(got[0] != 'ok', 'ghost', lambda: 'import of a file that does not exist now returned %s' % S.brief(got))
                        ctx.check(got != ('exit', 0) and got != ('exit', None), 'ghost', 'a failed import ended the program with status 0')
                        hist.append('x')
                        continue
                    if sel != 'vertex' and len(rows) % nv:
                        continue
                    want = ('ok', S.canon(rows if sel == 'vertex' else rows.reshape(-1, nv, 6, 3)))
                    ctx.check(got == want, 'stale', lambda: 'history %s: import of %s returned %s, the file holds %s'
                              % (hist, key, S.brief(got), S.brief(want)))
                    if box and isinstance(box[0], np.ndarray) and box[0].flags.writeable:
                        kept.append(box[0])
            ctx.sig(tuple(hist), sc['cfg'].get('coarse'), sc['cfg'].get('clockstep'), sc['cfg'].get('hold'))
            sim.held = []
            gc.collect()


def ext_doc(rows):
    L = ['%d' % len(rows), 'external']
    for i, v in enumerate(rows):
        L.append('Xx 0.0 0.0 0.0 # %d-th vertex # # # ' % i + ' '.join('%d' % x for x in np.ravel(v)))
    return ('\n'.join(L) + '\n').encode()
