"""Properties about computations: draws, schedules, interrupts, histories, environments, sessions."""
import gc, hashlib, io, json, os, random, subprocess, sys, time
import numpy as np
from .. import sim as S, inputs as I, ops as O, exports as X, model
from ..base import Ctx, Prop, Violation, in_fork
from ..sched import Sched, Interrupt, shared_sites, try_sites, reaching
from .storage import fault_free, blobs, wipe, mkd, gen_fault, apply_fault, benign, knobs, STUB, ASSUME, ext_doc

POLICIES = ['first', 'last', 'rev', 'rot', 'zero', 'max', 'repeat', 'seed', 'seed']
RSTUB = ['random: every draw of the `random` module, numpy.random and os.urandom is decided by the simulator '
         '(honest or adversarial but legal outcomes)', 'console: in-memory']


class quiet:
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e


def invoke(call, args=None, kw=None):
    if args is None:
        args, kw = O.build_args(call)
    return O.resolve(call)(*args, **kw)


def reference(call, count=False):
    """the call alone in a fresh process; with count: (outcome, executed lines, draws made?, steps of the distinct lines)"""
    def go():
        with quiet(), S.Draws('seed', 12345) as d:
            args, kw = O.build_args(call)
            if count:
                it = Interrupt(-1, None)
                out = it.run(lambda: invoke(call, args, kw))
                return out, it.n, d.used(), it.points(), it.lines()
            return S.outcome(invoke, call, args, kw)
    return in_fork(go)


def size_of(x):
    return len(json.dumps(x))


def gen_calls(r, n, maxcost='mid', tag=None, same=False, layouts=True, pkg=None):
    names = O.names(pkg, maxcost, tag)
    if same:
        names = [r.choice(names)]
    return [O.gen_call(r, names, layouts) for _ in range(n)]


def every(i, names, salt=0):
    """the i-th choice of a fixed rotation through all names, so that every operation gets its share"""
    return names[(i * 37 + salt) % len(names)]


RELATED = [['rev', 0], ['roll', 1], ['vroll', 1], ['neg', 0], ['scale', 2], ['scale', 3], ['tau', 1], ['last', 1], ['first', 1],
           ['dup', 0], ['drop', 0], ['last', -2]]


def related(r, c):
    """a call of the same function with inputs that resemble those of c"""
    tr = r.choice(RELATED)
    c = json.loads(json.dumps(c))
    js = [j for j, a in enumerate(c['args']) if isinstance(a, dict) and a.get('$') in ('dom', 'i') and 'num' not in a]
    if js:
        for j in (js if r.random() < .4 else [r.choice(js)]):
            c['args'][j]['tr'] = c['args'][j].get('tr', []) + [tr]
    return c


def directed(maxcost='heavy', sites=shared_sites):
    """operations from which code that touches longer-lived state can be reached"""
    O.import_all()
    fns = {f for f, _ in sites()}
    if not fns:
        return []
    fns = reaching(fns)
    out = [n for n in O.names(None, 'mid') if O.CAT[n]['fn'] in fns]
    return out or [n for n in O.names(None, maxcost) if O.CAT[n]['fn'] in fns]


def cost_pick(r):
    return r.choice(['cheap', 'mid', 'mid', 'mid', 'heavy'])


class C08(Prop):
    id = 'C08'
    level = 'exploration'
    runs = {'quick': 900, 'thorough': 24000}
    rule = 'distinct (operation, draw policy, number of draws made) combinations whose result equalled the reference'
    stub = RSTUB
    assumptions = ['draw sequences are legal outcomes of the functions called; adversarial ones go on for the whole call']

    def gen(self, r, i, tier):
        m = r.random()
        tag = 'draw' if m < .8 else None
        c = gen_calls(r, 1, r.choice(['mid', 'mid', 'heavy']), tag)[0]
        if m < .25:
            c = gen_calls(r, 1, 'cheap', 'draw')[0]
        names = O.names(None, 'mid')
        extra = [O.gen_call(r, [every(4 * i + k, names)], True) for k in range(4)]
        if i % 3 == 0:
            heavy = O.names(None, 'heavy')
            extra.append(O.gen_call(r, [every(i // 3, heavy)], True))
        if i % 30 == 4 and tier == 'quick' or i % 100 == 4:     # large inputs
            c = O.gen_large(r, i // 30)
            return {'ops': [dict(c, large=1, pol=[[p, r.randrange(1 << 30)] for p in r.sample(POLICIES, 2)])],
                    'st': [r.randrange(1 << 20), r.randrange(1 << 20, 1 << 21)]}
        return {'ops': [dict(c, pol=[[p, r.randrange(1 << 30)] for p in r.sample(POLICIES, 5)])] +
                       [dict(e, pol=[[p, r.randrange(1 << 30)] for p in r.sample(POLICIES, 4)]) for e in extra],
                'st': [r.randrange(1 << 20), r.randrange(1 << 20, 1 << 21)]}

    def run(self, sc, ctx):
        for c in sc['ops']:
            self.one(c, sc['st'], ctx)

    def one(self, c, st, ctx):
        if c.get('large'):
            ref, lines, drew = reference(c), 0, True
        else:
            ref, lines, drew, _, _ = reference(c, True)
        ctx.log(c['op'], ref[0], lines)
        ctx.count('reference ' + ref[0])
        # without draws there is nothing to vary: one confirmation
        for p, s in (c['pol'] if drew else c['pol'][:1]):
            with quiet(), S.Draws(p, s, None, 300000) as d:
                args, kw = O.build_args(c)
                it = Interrupt(-1, None, budget=lines * 20 + 300000)
                if c.get('large'):              # too long for line-by-line observation
                    out = S.outcome(invoke, c, args, kw)
                else:
                    out = it.run(lambda: invoke(c, args, kw))
            nd, nl = d.n, it.n
            ctx.count('checks')
            ctx.count('draws', nd)
            ctx.count('steps', nl)
            if nd:
                ctx.count('fault draws:' + p)
                ctx.sig(c['op'], p, min(nd, 50))
            ctx.log(p, s, out[0], nd)
            ctx.check(out not in (('exc', 'Deadlock'), ('exc', 'DrawLimit')), 'no-progress', lambda: '%s: no result within %d executed lines under draw policy %s'
                      % (c['op'], lines * 20 + 300000, p))
            ctx.check(out == ref, 'draw-dependent', lambda: '%s: under draw policy %s the result is %s, otherwise %s'
                      % (c['op'], p, S.brief(out), S.brief(ref)))
        # the caller's own generators: never re-seeded, results do not depend on their state
        finals = []
        for s in st:
            random.seed(s)
            np.random.seed(s)
            with quiet():
                out = S.outcome(invoke, c)
            ctx.check(out == ref, 'state-dependent', lambda: '%s: with the caller\'s generators in another state the result is %s, not %s'
                      % (c['op'], S.brief(out), S.brief(ref)))
            finals.append((random.getstate(), tuple(np.random.get_state()[1].tolist()) + tuple(np.random.get_state()[2:])))
        ctx.check(finals[0][0] != finals[1][0], 'reseeded', lambda: '%s resets the caller\'s random generator' % c['op'])
        ctx.check(finals[0][1] != finals[1][1], 'reseeded', lambda: '%s resets the caller\'s numpy generator' % c['op'])


class C09(Prop):
    id = 'C09'
    level = 'exploration'
    runs = {'quick': 640, 'thorough': 12000}
    rule = 'distinct (operations, set of source lines where the scheduler switched) interleavings'
    stub = RSTUB + ['thread scheduler: one caller thread runs at a time, switches decided by the seed at source lines (or byte codes)']
    assumptions = ['switches happen at lines/byte codes of the package itself; numpy and Qhull calls are atomic',
                   'each thread passes its own arrays, or shares arrays it only reads']

    def gen(self, r, i, tier):
        n = r.choice([2, 2, 2, 3])
        same = r.random() < .6
        cost = r.choice(['cheap', 'mid', 'mid'])
        name = O.names(None, cost)
        m = r.random()
        if m < .1:
            name = O.names(None, 'heavy', 'geo')
        elif m < .4:                          # the deep ones
            name = sorted(set(O.names(None, 'mid', 'geo') + O.names(None, 'mid', 'draw')))
        one = every(i, name) if r.random() < .6 else r.choice(name)
        cl = []
        for j in range(n):
            k = r.choice([1, 1, 2])
            cl.append([O.gen_call(r, [one] if same else name, True) for _ in range(k)])
            if same and j and r.random() < .3:
                cl[-1] = [related(r, c) for c in cl[0]]
        if r.random() < .25:                 # all threads work on the same (shared) input arrays
            cl = [cl[0]] * n
            share = True
        else:
            share = False
        how = []
        for _ in range(4):
            m = r.random()
            h = {'gap': r.choice([2, 5, 20, 80]), 'opcodes': r.random() < .3, 's': r.randrange(1 << 30)}
            if m > .25:
                h['gap'] = 100000
            if .25 < m < .45:
                h['hot'] = [r.randrange(1 << 20), r.choice([3, 8, 20, 50])]
            elif m >= .45:
                h['meet'] = [[r.randrange(n), r.random()] for _ in range(r.choice([1, 1, 2, 3]))]
            how.append(h)
        if i % 3 == 0:                       # operations that reach state which outlives a call
            names = directed()
            if names and i // 3 < 15 * len(names):
                one = every(i // 3, names)
                cl = [[O.gen_call(r, [one], True) for _ in range(r.choice([1, 2]))] for _ in range(n)]
                if r.random() < .3:
                    cl = [cl[0]] + [[related(r, c) for c in cl[0]] for _ in cl[1:]]
                share = False
        return {'clients': cl, 'share': share, 'how': how, 'dir': [r.randrange(1 << 30) for _ in range(8)]}

    def run(self, sc, ctx):
        refs = [[reference(c, True) for c in L] for L in sc['clients']]
        total = sum(x[1] for L in refs for x in L)
        todo = [(sc, h, refs) for h in sc['how'][:4 if total < 30000 else 2 if total < 100000 else 1]]
        hits = sorted(shared_sites() & {k for L in refs for x in L for k in x[4]})
        ctx.count('scenarios with shared state', bool(hits))
        for d in sc.get('dir', ())[:0 if not hits else 8 if total < 30000 else 4 if total < 100000 else 2]:
            r = random.Random(d)
            h = {'gap': 100000, 'opcodes': False, 's': d, 'sites': [list(x) for x in r.sample(hits, min(len(hits), r.choice([1, 1, 2])))]}
            if r.random() < .5:
                todo.append((dict(sc, clients=[sc['clients'][0]] * len(sc['clients']), share=True), h, [refs[0]] * len(refs)))
            else:
                todo.append((sc, h, refs))
        for k, (sc, h, refs) in enumerate(todo):
            res = in_fork(lambda: self.schedule(sc, h, refs))
            ctx.counts.update(res['counts'])
            ctx.sigs |= res['sigs']
            ctx.log(k, res['log'])
            if res['viol']:
                # the failing schedule alone is the replay
                ctx.extra.update(how=[dict(h, switches=res['switches'])], dir=[], clients=sc['clients'], share=sc['share'])
                ctx.violate(*res['viol'])

    def shrink(self, sc):
        for h in sc['how']:
            if len(sc['how']) > 1:
                yield dict(sc, how=[h])
        if len(sc['how']) == 1 and 'switches' in sc['how'][0]:
            h = sc['how'][0]
            for c in Prop.shrink(self, {'switches': h['switches']}):
                yield dict(sc, how=[dict(h, switches=c['switches'])])
        if len(sc['clients']) > 2:
            for j in range(len(sc['clients'])):
                yield dict(sc, clients=sc['clients'][:j] + sc['clients'][j + 1:])

    def schedule(self, sc, h, refs):
        ctx = Ctx(None)
        args = [[O.build_args(c) for c in L] for L in sc['clients']]
        if sc['share']:
            args = [args[0]] * len(args)
        before = S.canon([[list(a[0]) for a in L] for L in args])
        outs = {}
        rng = None if h.get('switches') is not None else random.Random(h['s'])
        total = sum(x[1] for L in refs for x in L)
        opc = h['opcodes'] and total < 20000
        meet = [tuple(x) for x in h.get('sites', ())]
        for j, u in h.get('meet', ()):
            L = [k for x in refs[j % len(refs)] for k in x[4]]
            if L:
                meet.append(L[int(u * len(L))])
        sch = Sched(rng, max(h['gap'], total * (8 if opc else 1) // 1500), h.get('switches'), opcodes=opc,
                    max_steps=total * 400 + 500000, hot=h.get('hot'), meet=meet)

        def client(j):
            def go():
                res = []
                for c, (a, k) in zip(sc['clients'][j], args[j]):
                    res.append(S.outcome(invoke, c, a, k))
                outs[j] = res
            return go
        with quiet(), S.Draws('seed', h['s']):
            amb = S.ambient()
            res = sch.run([client(j) for j in range(len(sc['clients']))])
            amb2 = S.ambient()
        switches = sch.record if rng else h['switches']
        ctx.count('switches', sch.nsw)
        ctx.count('schedules')
        ctx.count('steps', sch.step)
        ctx.sig([c['op'] for L in sc['clients'] for c in L], tuple(sorted(sch.sites, key=str)))
        viol = None
        try:
            for j, L in enumerate(sc['clients']):
                ctx.check(res[j][0] == 'ok' and j in outs, 'stuck', lambda: 'thread %d did not finish: %s' % (j, res[j]))
                for c, ref, out in zip(L, refs[j], outs[j]):
                    ctx.count('checks')
                    ctx.check(out == ref[0], 'interference', lambda: '%s in thread %d of %d gives %s, alone it gives %s'
                              % (c['op'], j, len(sc['clients']), S.brief(out), S.brief(ref[0])))
            ctx.check(S.canon([[list(a[0]) for a in L] for L in args]) == before, 'input-changed', 'an input array was modified')
            d = S.ambient_diff(amb, amb2)
            ctx.check(not d, 'ambient', lambda: 'process-wide state changed: %s' % d)
        except Violation as v:
            viol = (v.kind, v.msg)
        return {'viol': viol, 'switches': switches, 'counts': ctx.counts, 'sigs': ctx.sigs,
                'log': (switches, [x[0] for x in res])}


class C10(Prop):
    id = 'C10'
    level = 'exploration'
    runs = {'quick': 800, 'thorough': 20000}
    rule = 'distinct (operation, function and line where the exception was raised, exception type) combinations'
    stub = RSTUB + ['asynchronous interrupts and allocation failures: raised by the simulator before a chosen source line']
    assumptions = ['interrupts arrive between source lines of the package; allocation failures are raised at the same points']

    def gen(self, r, i, tier):
        if r.random() < .5:
            c = O.gen_call(r, [every(i, O.names(None, 'mid' if i % 3 else 'heavy'))], True)
        else:
            c = gen_calls(r, 1, r.choice(['mid', 'mid', 'heavy']), 'geo' if r.random() < .6 else None)[0]
        if i % 4 == 1:
            names = directed(sites=shared_sites if i % 8 == 1 else try_sites)
            if names and i // 8 < 12 * len(names):
                c = O.gen_call(r, [every(i // 8, names)], True)
        return {'call': c, 'canary': gen_calls(r, 2, 'mid', pkg=O.CAT[c['op']]['pkg'], same=False) + [related(r, c), dict(c)],
                'file': X.gen(r, n=r.choice([1, 2])) if i % 3 == 0 else None,
                'faults': [{'u': r.random(), 'v': r.choice([None, None, 0, 0, 1, 2]),
                            'exc': r.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])} for _ in range(8)],
                'dir': [[r.random(), r.randrange(3), r.choice([0, 0, 0, 1, 3, 10, 30, 100, 300]), r.choice(['KeyboardInterrupt', 'MemoryError'])]
                        for _ in range(8)]}

    def run(self, sc, ctx):
        c = sc['call']
        ref, lines, _, points, where = reference(c, True)
        cref = [reference(k) for k in sc['canary']]
        ctx.log(c['op'], ref[0], lines)
        if sc.get('file'):
            self.files(sc, ctx)
        with quiet(), S.Draws('seed', 77):
            amb = S.ambient()
            todo = sc['faults'][:None if lines < 150000 else 4]
            hits = [p for w, p in zip(where, points) if tuple(w) in shared_sites()]
            tries = [p for w, p in zip(where, points) if tuple(w) in try_sites()]
            for q, (u, v, d, e) in enumerate(sc.get('dir', ())[:None if lines < 50000 else 4 if lines < 200000 else 2]):
                L = hits if hits and (q % 2 or not tries) else tries
                if L:
                    todo = todo + [{'k': L[int(u * len(L))][v] + d, 'exc': e}]
            for f in todo:
                args, kw = O.build_args(c)
                before = S.canon(list(args))
                k = f.get('k') or 1 + int(f['u'] * max(1, lines))
                if f.get('v') is not None and points:      # at a distinct line: first, second or last time
                    k = points[int(f['u'] * len(points))][f['v']]
                E = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[f['exc']]
                it = Interrupt(k, E, budget=lines * 30 + 300000)
                out = it.run(lambda: invoke(c, args, kw))
                ctx.count('checks')
                ctx.count('steps', it.n)
                ctx.log(f, it.fired, out[0])
                if it.fired:
                    ctx.count('fault %s@line' % f['exc'])
                    ctx.sig(c['op'], it.fired, f['exc'])
                    ctx.check(out[0] != 'ok' or out == ref, 'swallowed', lambda: '%s: a %s raised in %s line %d was swallowed and the call '
                              'returned %s (correct: %s)' % (c['op'], f['exc'], it.fired[0], it.fired[1], S.brief(out), S.brief(ref)))
                else:
                    ctx.check(out == ref, 'differs', lambda: '%s gives %s, in a fresh process %s' % (c['op'], S.brief(out), S.brief(ref)))
                ctx.check(S.canon(list(args)) == before, 'input-changed', lambda: '%s modified its inputs when interrupted at %s'
                          % (c['op'], it.fired))
                d = S.ambient_diff(amb, S.ambient())
                ctx.check(not d, 'ambient', lambda: '%s interrupted at %s left process-wide state changed: %s' % (c['op'], it.fired, d))
                retry = S.outcome(invoke, c, args, kw)
                ctx.check(retry == ref, 'retry', lambda: '%s: after an interrupt at %s the repeated call gives %s, expected %s'
                          % (c['op'], it.fired, S.brief(retry), S.brief(ref)))
            for k, kr in zip(sc['canary'], cref):
                out = S.outcome(invoke, k)
                ctx.check(out == kr, 'poisoned', lambda: 'after interrupted calls of %s, %s gives %s, in a fresh process %s'
                          % (c['op'], k['op'], S.brief(out), S.brief(kr)))


    def files(self, sc, ctx):
        """interrupted exports and imports leave the process as it was"""
        f = sc['file']
        root = ctx.subdir('r')
        rout, rb, rk, rn, rp, _ = fault_free(root, f)
        if not X.success(rout):
            return
        name = f['pkg'] + '.' + f['k']
        with S.Sim(root, {}) as sim, S.Draws('seed', 77):
            mkd(sim, os.path.dirname(X.files(f)[0]))
            amb = S.ambient()
            for q in sc['faults'][:5]:
                obj = I.build(f['obj'])
                before = S.canon(obj)
                E = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[q['exc']]
                it = Interrupt(1 + int(q['u'] * max(1, rn)), E, budget=rn * 30 + 300000)
                out = it.run(lambda: X.perform(f, obj))
                ctx.count('checks')
                if it.fired:
                    ctx.count('fault %s@line' % q['exc'])
                    ctx.sig(name, it.fired, q['exc'])
                ctx.check(not X.success(out) or blobs(sim, f) == rb, 'swallowed', lambda: '%s export: a %s raised at %s was swallowed'
                          % (name, q['exc'], it.fired))
                ctx.check(S.canon(obj) == before, 'input-changed', lambda: '%s export modified its input when interrupted at %s' % (name, it.fired))
                d = S.ambient_diff(amb, S.ambient())
                ctx.check(not d, 'ambient', lambda: '%s export interrupted at %s left process-wide state changed: %s' % (name, it.fired, d))
                out = S.outcome(X.perform, f, obj)
                ctx.check(out == rout and blobs(sim, f) == rb, 'retry', lambda: '%s: after an interrupt at %s the repeated export gives %s'
                          % (name, it.fired, S.brief(out)))
                if f['k'] in X.READABLE:
                    it = Interrupt(1 + int(q['u'] * 60 * (1 + len(np.ravel(obj)) // 18)), E)
                    out = it.run(lambda: X.do_read(f))
                    want = ('ok', S.canon(X.want_read(f)))
                    if it.fired:
                        ctx.count('fault %s@line' % q['exc'])
                        ctx.sig(name, it.fired, q['exc'])
                    ctx.check(out == want or out[0] != 'ok', 'swallowed', lambda: 'import interrupted at %s returned %s' % (it.fired, S.brief(out)))
                    d = S.ambient_diff(amb, S.ambient())
                    ctx.check(not d, 'ambient', lambda: 'import interrupted at %s left process-wide state changed: %s' % (it.fired, d))
                    back = S.outcome(X.do_read, f)
                    ctx.check(back == want, 'retry', lambda: 'after an import interrupted at %s the repeated import gives %s' % (it.fired, S.brief(back)))


class C11(Prop):
    id = 'C11'
    level = 'exploration'
    runs = {'quick': 1800, 'thorough': 40000}
    rule = 'distinct sequences of (operation, way the arguments were passed) histories'
    stub = RSTUB
    assumptions = ['arrays returned by one call are only overwritten by the caller when they do not share memory with the inputs']

    def gen(self, r, i, tier):
        n = r.randint(3, 8)
        m = r.random()
        if i % 60 == 11:                       # the same few calls very often
            few = [every(i // 60, O.names(None, 'cheap'), k * 11) for k in range(2)]
            pool = [O.gen_call(r, few, True) for _ in range(3)]
            return {'ops': [dict(r.choice(pool), how=r.choice(['new', 'new', 'same-buffer']), mut=r.random() < .2)
                            for _ in range(r.choice([140, 300]))], 'gc': None}
        if i % 90 == 41:                       # large inputs in between
            big = dict(O.gen_large(r, i // 90), how='new', mut=False)
            few = O.names(big['op'].split('.')[0], 'mid')
            ops = [dict(O.gen_call(r, few, True), how='new', mut=False) for _ in range(5)]
            return {'ops': [ops[0], big] + ops[1:] + [big, ops[0]], 'gc': None}
        if m < .65:                            # one function on inputs that resemble each other
            few = [every(i, O.names(None, 'mid' if i % 3 else 'heavy'))]
        elif m < .8:
            names = O.names(None, 'mid')
            few = r.sample(names, 3)
        else:
            few = O.names(r.choice([None, 'ico2', 'dode2']), 'mid')
        rel = r.choice([0, .3, .7])
        way = r.choice([None, None, 'same-buffer', 'idreuse'])
        ops = []
        for j in range(n):
            k = r.random()
            if ops and k < .2:
                c = dict(r.choice(ops))
            elif ops and k < .2 + rel:
                c = related(r, {k: v for k, v in r.choice(ops).items() if k in ('op', 'args', 'kw')})
            else:
                c = O.gen_call(r, few, True)
            c['how'] = way or r.choice(['new', 'new', 'same-buffer', 'idreuse', 'relayout', 'readonly'])
            c['mut'] = r.random() < .5
            ops.append(c)
        if i % 4 == 0:                         # files written and read in between
            one = ['xyz', 'wpod', 'podatm', 'vesta', 'hand', 'vtx'][i // 8 % 6] if i % 8 == 0 else None
            pkg = one and ('ico2' if one == 'wpod' else r.choice(['ico2', 'dode2']))
            for _ in range(r.choice([1, 2, 3])):
                c = X.gen(r, n=r.choice([1, 2, 4]), kinds=one and [one], pkg=pkg)
                ops.insert(r.randrange(len(ops)), {'file': c})
        return {'ops': ops, 'gc': r.choice([None, None, 1])}

    def run(self, sc, ctx):
        refs = []
        memo = {}
        root = ctx.subdir('r')
        for c in sc['ops']:
            key = json.dumps(c['file'] if 'file' in c else [c['op'], c['args'], c.get('kw')])
            if key not in memo:
                memo[key] = fault_free(root, c['file']) if 'file' in c else reference(c)
            refs.append(memo[key])
        pool = {}
        with S.Sim(root, {}) as sim, S.Draws('seed', 5):
            amb = S.ambient()
            hist, held = [], []
            for c, ref in zip(sc['ops'], refs):
                if 'file' in c:
                    f = c['file']
                    name = f['pkg'] + '.' + f['k']
                    hist.append((name, 'file'))
                    if X.needs_dir(f):
                        mkd(sim, f['path'])
                    keep = []
                    obj = I.build(f['obj'])
                    before = S.canon(obj)
                    out = S.outcome(X.perform, f, obj, keep)
                    ctx.count('checks')
                    ctx.check(S.canon(obj) == before and all(S.canon(a) == b for a, b in keep), 'input-changed', lambda: '%s modified its input' % name)
                    ctx.check(out == ref[0] and (not X.success(out) or blobs(sim, f) == ref[1]), 'history', lambda: 'export %s as call %d of a '
                              'session behaves differently from a fresh process; history %s' % (name, len(hist), [h[0] for h in hist]))
                    if f['k'] in X.READABLE and X.success(out):
                        back = S.outcome(X.do_read, f)
                        ctx.check(back == ('ok', S.canon(X.want_read(f))), 'history', lambda: 'import %s as call %d of a session gives %s; history %s'
                                  % (name, len(hist), S.brief(back), [h[0] for h in hist]))
                    d = S.ambient_diff(amb, S.ambient())
                    ctx.check(not d, 'ambient', lambda: 'export or import %s changed process-wide state: %s' % (name, d))
                    continue
                args, kw = O.build_args(c)
                args = [self.pass_as(a, c['how'], pool, j) for j, a in enumerate(args)]
                before = S.canon([np.asarray(a) if isinstance(a, np.ndarray) else a for a in args])
                box = []

                def go():
                    v = invoke(c, args, kw)
                    box.append(v)
                    return v
                out = S.outcome(go)
                ctx.count('checks')
                hist.append((c['op'], c['how']))
                ctx.log(c['op'], out[0])
                if c['how'] == 'readonly' and out != ref and out[0] == 'exc':
                    # writing to a read-only input is an attempt to modify the caller's data
                    ctx.violate('input-changed', '%s tries to modify its (read-only) input: %s' % (c['op'], S.brief(out)))
                ctx.check(out == ref, 'history', lambda: '%s as call %d of a session (%s) gives %s, in a fresh process %s; history %s'
                          % (c['op'], len(hist), c['how'], S.brief(out), S.brief(ref), [h[0] for h in hist]))
                ctx.check(S.canon([np.asarray(a) if isinstance(a, np.ndarray) else a for a in args]) == before, 'input-changed',
                          lambda: '%s modified its input' % c['op'])
                d = S.ambient_diff(amb, S.ambient())
                ctx.check(not d, 'ambient', lambda: '%s changed process-wide state: %s' % (c['op'], d))
                if c['mut']:
                    for v in box:
                        scribble(v, args)
                elif c['how'] not in ('same-buffer', 'idreuse') and out[0] == 'ok' and len(held) < 40:
                    held.append((c['op'], box[0], out[1]))
                del box[:]
                for op, v, old in held:
                    ctx.check(S.canon(v) == old, 'result-changed', lambda: 'what %s returned earlier was changed by a later call of %s' % (op, c['op']))
                if c['how'] == 'idreuse':
                    del args
                if sc['gc']:
                    gc.collect()
            ctx.sig(tuple(hist))

    def pass_as(self, a, how, pool, j):
        if not isinstance(a, np.ndarray):
            return a
        if how == 'same-buffer':               # the caller overwrites one buffer in place between calls
            k = (j, a.shape, a.dtype.str)
            if k in pool:
                pool[k][...] = a
                return pool[k]
            pool[k] = np.array(a)
            return pool[k]
        if how == 'relayout':
            return np.asfortranarray(a)
        if how == 'readonly':
            b = np.array(a)
            b.flags.writeable = False
            return b
        return a


def scribble(v, args):
    """the caller overwrites what it was given"""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind in 'if' and not any(isinstance(a, np.ndarray) and np.shares_memory(v, a) for a in args):
            v[...] = -99
    elif isinstance(v, list):
        for x in v:
            if isinstance(x, (list, np.ndarray)):
                scribble(x, args)
        del v[:]
    elif isinstance(v, tuple):
        for x in v:
            if isinstance(x, (list, np.ndarray)):
                scribble(x, args)


def any_env(value):
    """an environment in which every variable the code under test asks for is set"""
    cls = type(os.environ)

    def asked():
        f = sys._getframe(2)
        while f is not None and (f.f_code.co_filename.endswith('/os.py') or '_collections_abc' in f.f_code.co_filename):
            f = f.f_back
        return f is not None and '/pyqcstrc/' in f.f_code.co_filename

    class AnyEnv(cls):
        def __getitem__(self, k):
            try:
                return cls.__getitem__(self, k)
            except KeyError:
                if asked():
                    return value
                raise

        def __contains__(self, k):
            return cls.__contains__(self, k) or asked()

        def get(self, k, default=None):
            try:
                return cls.__getitem__(self, k)
            except KeyError:
                return value if asked() else default
    os.environ.__class__ = AnyEnv
    os.getenv = lambda k, d=None: os.environ.get(k, d) if '/pyqcstrc/' not in sys._getframe(1).f_code.co_filename \
        else (cls.get(os.environ, k, value))


SUB = '''
import sys, json, hashlib
sys.path.insert(0, %r)
from dst import sched
import warnings; warnings.simplefilter('ignore')
from dst.props import compute
compute.sub_main()
'''


def sub_main():
    """child of an environment run: executes calls in a separately configured interpreter"""
    doc = json.loads(sys.stdin.buffer.read().decode('utf-8'))
    out = []
    real = sys.stdout
    os.chdir(doc['root'])
    if doc.get('anyenv') is not None:
        any_env(doc['anyenv'])
    O.import_all()
    with quiet():
        random.seed(doc['s'])
        for c in doc['ops']:
            if 'k' in c:
                obj = I.build(c['obj'])
                if X.needs_dir(c):
                    os.makedirs(c['path'], exist_ok=True)
                o = S.outcome(X.perform, c, obj)
                b = []
                for p in X.files(c):
                    try:
                        with open(p, 'rb') as f:
                            b.append(hashlib.sha1(f.read()).hexdigest())
                    except OSError:
                        b.append(None)
                o2 = S.outcome(X.do_read, c) if c['k'] in X.READABLE else None
                out.append([digest(o), b, digest(o2)])
            else:
                out.append([digest(S.outcome(invoke, c)), [], None])
    real.write(json.dumps(out))
    real.flush()


def digest(o):
    return None if o is None else o[0] + ':' + hashlib.sha1(repr(o).encode()).hexdigest()[:16]


class C13(Prop):
    id = 'C13'
    level = 'exploration'
    runs = {'quick': 700, 'thorough': 16000}
    rule = 'distinct (operation or file kind, environment variation) combinations'
    stub = STUB + RSTUB
    assumptions = ['numpy error settings that raise are a request to raise; ignore and warn are simulated',
                   'a console that raises on output may make a verbose call raise; only consoles that accept output, or none, are simulated here',
                   'separate interpreters (hash seed, -O, locale variables) run the real code without the simulator']

    def gen(self, r, i, tier):
        if i % 28 == 7:                         # a separate interpreter: every operation and every kind of file
            ops = [O.gen_call(r, [n], True) for n in O.names(None, 'mid')]
            heavy = [n for n in O.names() if O.CAT[n]['cost'] == 'heavy']
            ops.append(O.gen_call(r, [every(i // 28, heavy)], True))
            for pkg in ('ico2', 'dode2'):
                for k in sorted(set(X.KINDS[pkg])):
                    c = X.gen(r, pkg, [k], n=r.choice([1, 2, 3]))
                    c['path'], c['base'] = r.choice(['out', 'a/b']), 'f%d' % len(ops)
                    ops.append(c)
            r.shuffle(ops)
            env = {'PYTHONHASHSEED': str(r.randrange(1, 4000)), 'TZ': r.choice(['UTC', 'Asia/Tokyo', 'XXX-11']),
                   'LC_ALL': r.choice(['C', 'C.UTF-8', 'POSIX', 'xx_YY']), 'PYTHONUTF8': r.choice(['0', '1']),
                   'PYTHONIOENCODING': r.choice(['ascii:replace', 'utf-8', 'latin-1:replace']), 'COLUMNS': r.choice(['3', '500']),
                   'HOME': r.choice(['/nonexistent', '/'])}
            return {'mode': 'sub', 'ops': ops, 'env': env, 'opt': r.choice([[], [], ['-O'], ['-OO'], ['-X', 'dev']]), 's': r.randrange(1 << 20),
                    'anyenv': r.choice([None, None, '1', '0', 'yes', '2'])}
        if i % 14 == 3:                         # one operation at several verbosity levels, many inputs
            one = every(i // 14, O.names(None, 'mid', 'verbose'))
            return {'mode': 'verb', 'ops': [dict(O.gen_call(r, [one]), v=r.choice([1, 1, 2, 2, 3, 10, True])) for _ in range(20)]}
        if r.random() < .4:
            c = X.gen(r)
            sub = 'file'
        else:
            c = gen_calls(r, 1, r.choice(['mid', 'mid', 'heavy']), 'verbose' if r.random() < .45 else None)[0]
            sub = 'op'
        envs = [{'verbose': r.choice([0, 1, 1, 2, 3, 4, 10, True]), 'anyenv': r.choice([None, None, '1', '0', 'true', '', '3', '/nonexistent']),
                 'tz': r.choice([None, 'UTC', 'XXX-11', 'AAA+11']), 'host': r.choice([None, 'node7']), 'buf': r.choice([None, None, 64, 65536]), 'clock': r.choice([0.0, 1e9, 4e9]), 'clockstep': r.choice([0.0, 1.0, -3.0, 1e6]),
                 'jump': r.choice([0, -1e5, 1e7]), 'enc': r.choice([None, 'ascii', 'latin-1', 'cp932', 'euc_jp', 'cp1252']),
                 'console': r.choice(['mem', 'none', 'ascii', 'tty']), 'umask': r.choice([0o22, 0o77, 0o0]),
                 'np': r.choice(['default', 'ignore', 'print', 'warn']), 'gc': r.choice(['on', 'off', 'eager']), 'pid': r.choice([1, 99999]),
                 'cpu': r.choice([1, 3, 128]), 'argv': r.choice([['prog'], ['prog', '-v', '--all'], ['']]), 'prec': r.choice([28, 3]),
                 'rec': r.choice([1000, 3000]), 'pyhome': r.choice([None, '/nonexistent']), 'depth': r.choice([0, 0, 100])} for _ in range(5)]
        return {'mode': sub, 'call': c, 'faults': envs}

    def run(self, sc, ctx):
        if sc['mode'] == 'sub':
            return self.run_sub(sc, ctx)
        if sc['mode'] == 'verb':
            def all_calls(verbose):
                with quiet(), S.Draws('seed', 3):
                    out = []
                    for c in sc['ops']:
                        args, kw = O.build_args(c)
                        O.set_verbose(c['op'], args, kw, c['v'] if verbose else 0)
                        out.append(S.outcome(invoke, c, args, kw))
                    return out
            want, got = in_fork(lambda: all_calls(False)), in_fork(lambda: all_calls(True))
            for c, w, g in zip(sc['ops'], want, got):
                ctx.count('checks')
                ctx.count('fault environment variation')
                ctx.sig(c['op'], c['v'], json.dumps(c['args'])[:200])
                ctx.check(g == w, 'environment', lambda: '%s gives %s at verbosity %s, otherwise %s' % (c['op'], S.brief(g), c['v'], S.brief(w)))
            ctx.log([w[0] for w in want])
            return
        root = ctx.subdir('r')
        c = sc['call']
        if sc['mode'] == 'file':
            rout, rb, *_ = fault_free(root, c)
            name = c['pkg'] + '.' + c['k']
        else:
            rout = reference(c)
            rb = None
            name = c['op']
        for e in sc['faults']:
            wipe(root)

            def go():
                return self.under(e, root, c, sc['mode'])
            out, got = in_fork(go)
            ctx.count('checks')
            ctx.count('fault environment variation')
            ctx.log(name, e, out[0])
            ctx.sig(name, e['verbose'], e['console'], e['enc'] if rb else None, e['np'], e['gc'])
            ctx.check(out == rout, 'environment', lambda: '%s gives %s in environment %s, otherwise %s' % (name, S.brief(out), e, S.brief(rout)))
            if rb is not None and X.success(rout):
                ctx.check(got == rb, 'environment-bytes', lambda: '%s writes other bytes in environment %s' % (name, e))

    def under(self, e, root, c, mode):
        import decimal
        cfg = {'clock': e['clock'], 'clockstep': e['clockstep'], 'jump': e['jump'], 'enc': e['enc'], 'buf': e.get('buf')}
        with S.Sim(root, cfg) as sim, S.Draws('seed', 3):
            sim.pid = e['pid']
            if e['console'] == 'none':
                sys.stdout = None
                sys.stderr = None
            elif e['console'] == 'ascii':
                plain = mode != 'file' or (c['path'] + c['base']).isascii()    # the exporters print the names of their files
                sys.stdout = io.TextIOWrapper(io.BytesIO(), 'ascii', errors='strict' if plain else 'replace')
            elif e['console'] == 'tty':
                sys.stdout.isatty = lambda: True
            os.umask(e['umask'])
            if e['np'] == 'ignore':
                np.seterr(all='ignore')
            elif e['np'] == 'warn':
                np.seterr(all=e['np'])
            elif e['np'] == 'print':
                np.set_printoptions(precision=1, threshold=2, suppress=True)
            if e['gc'] == 'off':
                gc.disable()
            elif e['gc'] == 'eager':
                gc.set_threshold(1, 1, 1)
            os.cpu_count = lambda: e['cpu']
            os.sched_getaffinity = lambda pid: set(range(e['cpu']))
            if e.get('tz'):
                os.environ['TZ'] = e['tz']
                time.tzset()
            if e.get('host'):
                import socket, platform
                socket.gethostname = platform.node = lambda: e['host']
            if e.get('anyenv') is not None:
                any_env(e['anyenv'])
            sys.argv = list(e['argv'])
            decimal.getcontext().prec = e['prec']
            sys.setrecursionlimit(e['rec'])
            if e['pyhome']:
                os.environ['HOME'] = e['pyhome']
                os.environ['PYQCSTRC'] = '1'
            for k in ('DEBUG', 'VERBOSE', 'TMPDIR'):
                if e['pyhome']:
                    os.environ[k] = '1'

            def body():
                if mode == 'file':
                    cc = dict(c, o=dict(c['o'], verbose=e['verbose']))
                    if X.needs_dir(cc):
                        mkd(sim, cc['path'])
                    out = S.outcome(X.perform, cc, I.build(cc['obj']))
                    if c['k'] in X.READABLE and X.success(out):
                        back = S.outcome(X.do_read, c, verbose=e['verbose'])
                        if back != ('ok', S.canon(X.want_read(c))):
                            return ('import', back)
                    return out
                args, kw = O.build_args(c)
                O.set_verbose(c['op'], args, kw, e['verbose'])
                return S.outcome(invoke, c, args, kw)

            def deep(n):
                return body() if n <= 0 else deep(n - 1)
            out = deep(e['depth'])
            got = blobs(sim, c) if mode == 'file' else None
        return out, got

    def run_sub(self, sc, ctx):
        root = ctx.subdir('r')
        want = []
        for c in sc['ops']:
            if 'k' in c:
                rout, rb, *_ = fault_free(root, c)
                o2 = None
                if c['k'] in X.READABLE:
                    o2 = ('ok', S.canon(X.want_read(c)))
                want.append([digest(rout), [None if b is None else hashlib.sha1(b).hexdigest() for b in rb], digest(o2)])
            else:
                want.append([digest(reference(c)), [], None])
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'PYTHONPATH', 'OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS')}
        env.update(sc['env'])
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        p = subprocess.run([sys.executable, '-W', 'ignore'] + sc['opt'] + ['-c', SUB % verif],
                           input=json.dumps({'root': root, 'ops': sc['ops'], 's': sc['s'], 'anyenv': sc.get('anyenv')}).encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env)
        if p.returncode != 0:
            raise S.HarnessError('interpreter failed: %s' % p.stderr[-800:].decode('utf-8', 'replace'))
        got = json.loads(p.stdout.decode())
        ctx.count('fault separate interpreter environment')
        for c, w, g in zip(sc['ops'], want, got):
            ctx.count('checks')
            n = c.get('op') or c['pkg'] + '.' + c['k']
            ctx.sig(n, 'sub', sorted(sc['env'].items()), sc['opt'])
            if n.endswith('.podatm') and not w[0].startswith('ok'):
                continue
            ctx.check(g == w, 'environment', lambda: '%s behaves differently in an interpreter with %s %s: %s, expected %s'
                      % (n, sc['env'], sc['opt'], g, w))
        ctx.log(got)


# ------------------------------------------------------------------ sessions
class C14(Prop):
    id = 'C14'
    level = 'exploration'
    runs = {'quick': 2400, 'thorough': 40000}
    rule = 'distinct (sequence of pipeline steps, sequence of fault kinds that hit them) sessions'
    stub = STUB + RSTUB + ['process crashes: all in-memory state is dropped and the session restarts from its files']
    assumptions = ASSUME

    def gen(self, r, i, tier):
        pkg = r.choice(['ico2', 'dode2'])
        a, b = O.pairn(r, pkg, 2, 3)
        steps = []
        names = {'ico2': ['shift', 'intersect', 'symm0', 'simplify', 'asym'], 'dode2': ['shift', 'intersect', 'symm0', 'similar']}[pkg]
        for _ in range(r.choice([1, 2, 2, 3])):
            m = r.choice(names)
            if m == 'simplify' and r.random() < .6:
                m = 'intersect'
            steps.append({'s': m, 'v': I.intvec6(r) if pkg == 'ico2' else {'$': 'i', 'v': [[r.randint(-1, 1), 0, 1] for _ in range(4)] + [[0, 0, 1]] * 2},
                          'n': r.randrange(24), 'ck': r.random() < .6})
        exps = [r.choice(['xyz', 'vesta', 'podatm', 'vtx']) for _ in range(r.choice([1, 2]))]
        faults = []
        for _ in range(r.choice([0, 1, 2, 4, 6, 9])):
            m = r.random()
            if m < .55:
                f = gen_fault(r)
            elif m < .8:
                f = {'t': 'int', 'u': r.random(), 'exc': r.choice(['KeyboardInterrupt', 'MemoryError'])}
            else:
                f = {'t': 'crash', 'u': r.random(), 'after': r.random() < .5,
                     'lose': [[r.random(), r.choice(['cut', 'zero', 'zero', 'all'])] for _ in range(r.choice([0, 1, 1, 3]))]}
            f['try'] = r.randrange(14)
            faults.append(f)
        return {'stale': r.choice([None, None, 'rows', 'digit', 'zero', 'cut', 'longer']), 'pkg': pkg, 'a': a, 'b': b, 'steps': steps, 'exps': exps, 'faults': faults, 'cfg': dict(knobs(r), hold=False),
                'policy': r.choice(POLICIES), 's': r.randrange(1 << 30)}

    def session(self, sc, sim, plan, ctx, refk=None):
        """drive the pipeline; plan maps attempt number -> fault; returns (result, attempts)"""
        pkg = sc['pkg']
        od = X.mod(pkg)
        two = O.module(pkg, 'two_occupation_domains')
        st = {'n': 0}
        bound = 14 + 40 + 6 * (len(sc['steps']) + len(sc['exps']) + 3)

        def attempt(name, fn, kinds):
            """repeat until it works; faults stop after attempt 14"""
            while True:
                f = plan.get(st['n'])
                st['n'] += 1
                if st['n'] > bound:
                    raise Violation('no-progress', 'the session needed more than %d attempts' % bound)
                if f is None:
                    # no fault in this attempt: it has to work
                    try:
                        return fn()
                    except (Exception, SystemExit) as e:
                        if isinstance(e, Violation):
                            raise
                        raise Violation('attempt-fails', '%s fails although no fault hits the attempt: %s' % (name, S.brief(('exc', type(e).__name__, str(e)))))
                ctx.count('attempts with faults')
                try:
                    if f['t'] == 'int':
                        it = Interrupt(1 + int(f['u'] ** 3 * 3000), {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[f['exc']])
                        box = []
                        out = it.run(lambda: box.append(fn()))
                        if it.fired:
                            ctx.count('fault %s@line' % f['exc'])
                        if out[0] == 'ok':
                            return box[0]
                        if not it.fired:
                            return fn()
                    elif f['t'] == 'crash':
                        sim.armed = False
                        ctx.count('fault crash@' + name)
                        if f.get('after'):         # the machine stops right after the step, before its data is safe
                            fn()
                        for u, how in f.get('lose', ()):
                            names = sorted(n for n in os.listdir('work') if n != 'in.xyz') if os.path.isdir('work') else []
                            if names:
                                n = 'work/' + names[int(u * 1000) % len(names)]
                                b = sim.read(n)
                                if b:
                                    ctx.count('fault lost data after crash')
                                    sim.put(n, stale(b, how, u))
                        raise Crash()
                    else:
                        con = apply_fault(sim, f, ['open'] * 2 + ['write'] * 4 + ['close'] * 2, 4000, 40)
                        try:
                            v = fn()
                        finally:
                            sys.stdout = sim.out
                            sim.disarm()
                            ctx.fault(sim.fired)
                            sim.fired = []
                        return v
                except Crash:
                    raise
                except Failed:
                    pass
                except Violation:
                    raise
                except S.HarnessError:
                    raise
                except BaseException as e:
                    pass

        def wr(obj, base, k):
            c = {'k': k, 'pkg': pkg, 'path': 'work', 'base': base, 'o': {'via': 'write', 'color': 'k', 'serial': 1, 'verbose': 0}}

            def go():
                v = X.perform(c, obj if k != 'vtx' else obj.reshape(-1, 6, 3))
                if isinstance(v, int) and v == 1:
                    if k == 'podatm':
                        return 'refused'
                    raise Failed()
                return 'done'
            return go

        def rd(base, n):
            def go():
                v = od.read_xyz('work', base)
                return v
            return go

        def compute(cur, s):
            m = s['s']
            if m == 'shift':
                return od.shift(cur, I.build(s['v']))
            if m == 'symm0':
                return od.symmetric_0(cur, I.build(I.zero6()), s['n'])
            if m == 'similar':
                return od.similarity(cur, s['n'] % 3 - 1)
            if m == 'simplify':
                return od.simplification(cur)
            if m == 'asym':
                return od.asymmetric(cur, I.build(I.zero6()), np.array(I.data()['ico2.rt'][s['n']][1:]))
            return two.intersection(cur, I.build(sc['b']))

        done = []

        def life():
            # (re)start: everything comes from files
            cur = attempt('load', rd('in', None), None)
            for j, s in enumerate(sc['steps']):
                if s['ck'] and os.path.exists(os.path.join('work', 'ck%d.xyz' % j)):
                    try:
                        cur = rd('ck%d' % j, None)()
                        continue
                    except (Exception, SystemExit):
                        pass                     # torn checkpoint: compute again
                box = []

                def go(cur=cur, s=s):
                    try:
                        return compute(cur, s)
                    except Exception as e:
                        # a computation the library refuses in the reference too ends the pipeline
                        return ('refused', type(e).__name__) if not isinstance(e, MemoryError) else (_ for _ in ()).throw(e)
                nxt = attempt(s['s'], go, None)
                if nxt is None or isinstance(nxt, tuple) or len(nxt) == 0:
                    done.append(('end', s['s'], nxt if isinstance(nxt, tuple) else None))
                    return None
                cur = np.asarray(nxt)
                if len(cur) > 30:
                    cur = cur[:30]
                if s['ck']:
                    attempt('checkpoint', wr(cur, 'ck%d' % j, 'xyz'), None)
            for k in sc['exps']:
                done.append(attempt('export', wr(cur, 'final', k), None))
            return cur
        while True:
            del done[:]
            try:
                cur = life()
                break
            except Crash:
                if plan.get(st['n'] - 1, {}).get('t') == 'crash':
                    del plan[st['n'] - 1]
        finals = {n: sim.read('work/final.' + n) for n in ('xyz', 'vesta', 'atm', 'pod')}
        back = None
        if cur is not None and finals['xyz'] is not None:
            back = S.outcome(od.read_xyz, 'work', 'final', select='vertex')
        return (S.canon(cur), tuple(map(repr, done)), finals, back), st['n']

    def run(self, sc, ctx):
        root = ctx.subdir('r')
        doc = ext_doc(np.ascontiguousarray(I.build(sc['a'])).reshape(-1, 6, 3))

        def ref():
            with S.Sim(root, {}) as sim, S.Draws('seed', 1):
                sim.put('work/in.xyz', doc)
                return self.session(sc, sim, {}, ctx)
        want, _ = in_fork(ref)
        wipe(root)
        with S.Sim(root, sc['cfg']) as sim, S.Draws(sc['policy'], sc['s']):
            sim.put('work/in.xyz', doc)
            if sc.get('stale'):                    # results of an earlier session are still there
                for n, b in want[2].items():
                    if b:
                        sim.put('work/final.' + n, stale(b, sc['stale'], sc['s'] / 2.0**30))
            plan = {f['try']: f for f in sc['faults']}
            got, n = self.session(sc, sim, plan, ctx)
            sim.held = []
            gc.collect()
            ctx.count('checks')
            ctx.count('attempts', n)
            ctx.log(n, got[1])
            ctx.simtime += n
            ctx.sig([s['s'] for s in sc['steps']], sc['exps'], sorted((f['try'], f['t']) for f in sc['faults']))
            for nm, x, y in zip(('final object', 'step results', 'exported files', 're-imported object'), got, want):
                ctx.check(x == y, 'diverged', lambda: 'session with faults ended with another %s than without faults' % nm)
            ctx.check(not sim.live, 'handle-leak', lambda: 'files left open: %s' % sorted(sim.live.values()))


def stale(b, how, u):
    """other contents that resemble b: an older result, or b after a loss of unflushed data"""
    n = int(u * len(b))
    if how == 'rows':
        L = b.splitlines(True)
        return b''.join(L[:2] + L[:1:-1])
    if how == 'digit':
        k = [i for i, c in enumerate(b) if 48 <= c < 58 and i > len(b) // 8]
        k = k[int(u * len(k))] if k else 0
        return b[:k] + bytes([48 + (b[k] - 47) % 10]) + b[k + 1:]
    if how == 'longer':
        return b + b[n:]
    return {'cut': b[:n], 'zero': b[:n] + bytes(len(b) - n), 'all': b''}[how]


class Crash(BaseException):
    pass


class Failed(BaseException):
    pass


# ------------------------------------------------------------------ geometry
class C15(Prop):
    id = 'C15'
    level = 'exploration'
    runs = {'quick': 900, 'thorough': 30000}
    rule = 'distinct (operation, overlapping pair of simplices, draw policy, threads) combinations compared with the reference model'
    stub = RSTUB + ['thread scheduler (in the concurrent runs)']
    assumptions = ['domains are unions of cells of the two icosahedral and the dodecagonal orbit of dst/data, possibly translated by '
                   'lattice vectors; volumes agree within 1e-6 relative',
                   'the reference model works in floating point and shares no code with the package']
    OPS = {'ico2': ['two_occupation_domains.intersection', 'intsct.intersection_two_obj_1', 'intsct.intersection_two_tetrahedron_4',
                    'two_occupation_domains.intersection_convex', 'occupation_domain.asymmetric', 'occupation_domain.simplification'],
           'dode2': ['two_occupation_domains.intersection', 'intsct.intersection_two_obj_1', 'intsct.intersection_two_triangles',
                     'occupation_domain.simplification']}

    def gen(self, r, i, tier):
        n = r.choice([1, 1, 1, 2, 3])
        cl = []
        if i % 8 == 5:                         # many small cases one after the other
            for _ in range(60):
                pkg = r.choice(['ico2', 'ico2', 'dode2'])
                f = r.choice([O.crossing, O.grazing, O.grazing, O.tips, O.nested, O.aligned, O.almost])
                op = '.two_occupation_domains.intersection' if f is not O.almost else '.occupation_domain.simplification'
                if pkg == 'ico2' and f is not O.almost and r.random() < .4:
                    op = '.two_occupation_domains.intersection_convex'
                cl.append({'op': pkg + op, 'args': list(f(r, pkg)), 'kw': {}, 'fine': int(f in (O.grazing, O.crossing, O.tips))})
            return {'clients': cl, 'policy': r.choice(POLICIES), 's': r.randrange(1 << 30), 'gap': 5, 'batch': 1}
        for _ in range(n):
            pkg = r.choice(['ico2', 'ico2', 'dode2'])
            sel = r.choice([None, 'standard', 'simple'])
            sel = [sel] if sel else []
            m = r.random()
            if m < .3:
                f = r.choice([O.nested, O.chipped, O.crossing, O.grazing, O.grazing, O.tips])
                if pkg == 'ico2' and f is not O.chipped and r.random() < .3:
                    cl.append({'op': 'ico2.two_occupation_domains.intersection_convex', 'args': list(f(r, pkg)), 'kw': {}})
                else:
                    cl.append({'op': pkg + '.two_occupation_domains.intersection', 'args': list(f(r, pkg)) + sel, 'kw': {}})
                if f in (O.grazing, O.crossing, O.tips):
                    cl[-1]['fine'] = 1         # exact volumes of the result may exceed 64 bits
            elif m < .5:
                op = r.choice([o for o in self.OPS[pkg] if o.split('.')[1].startswith('intersection')])
                one = 'two_t' in op
                k = r.choice([1, 2, 3, 'convex', 'convex'])
                big = r.choice([1, 2, 4, 12, 'convex'])
                a = O.aligned(r, pkg, *([1, 1] if one else r.choice([[1, 1], [1, 'convex'], ['convex', 'convex']]) if 'convex' in op else [k, big] if n == 1 else [1, 2]))
                if one:
                    a = [dict(x, form='one') for x in a]
                cl.append({'op': pkg + '.' + op, 'args': a + (sel if op.endswith('.intersection') else []), 'kw': {}})
            elif m < .58:
                a = O.almost(r, pkg) if r.random() < .5 else [O.convex(r, pkg, 8 if n == 1 else 4)]
                cl.append({'op': pkg + '.occupation_domain.simplification', 'args': a, 'kw': {}})
            elif m < .63:
                cl.append({'op': 'ico2.occupation_domain.asymmetric', 'args': O.asym_far(r), 'kw': {}})
            else:
                cl.append(O.gen_call(r, [pkg + '.' + r.choice(self.OPS[pkg])], True))
        return {'clients': cl, 'policy': r.choice(POLICIES), 's': r.randrange(1 << 30), 'gap': r.choice([5, 30, 200])}

    def run(self, sc, ctx):
        outs = {}
        args = [O.build_args(c) for c in sc['clients']]
        with quiet(), S.Draws(sc['policy'], sc['s']) as d:
            def client(j):
                def go():
                    a, k = args[j]
                    outs[j] = invoke(sc['clients'][j], a, k)
                return go
            if (len(args) == 1 or sc.get('batch')) and sc.get('switches') is None:
                res = [S.outcome(client(j)) for j in range(len(args))]      # non-termination shows as the CPU limit of the run
            else:
                rng = None if sc.get('switches') is not None else random.Random(sc['s'])
                sch = Sched(rng, sc['gap'], sc.get('switches'), max_steps=20000000)
                res = sch.run([client(j) for j in range(len(args))])
                ctx.extra['switches'] = sch.record if rng else sc.get('switches')
                ctx.count('steps', sch.step)
                ctx.count('switches', sch.nsw)
        ctx.log(sc['policy'], [r[0] for r in res], d.n)
        if d.n:
            ctx.count('fault draws:' + sc['policy'])
        for j, c in enumerate(sc['clients']):
            op = c['op']
            pkg = O.CAT[op]['pkg']
            a, k = O.build_args(c)
            ctx.count('checks')
            ctx.check(res[j][0] == 'ok', 'failed', lambda: '%s of valid domains failed: %s' % (op, res[j]))
            A = a[0]
            B = A if op.endswith('simplification') else a[1]
            if op.endswith('asymmetric'):
                v = np.array(a[2])
                v[..., :2] *= 5
                B = np.concatenate([np.array([[[0, 0, 1]] * 6]), v])[None]
                B[..., 0] += np.asarray(a[1])[:, 0] * B[..., 2]
            nv = I.NVERT[pkg]
            A = np.ascontiguousarray(A).reshape(-1, nv, 6, 3)
            B = np.ascontiguousarray(B).reshape(-1, nv, 6, 3)
            want = model.measure(pkg, A) if op.endswith('simplification') else model.inter_measure(pkg, A, B)
            got = outs.get(j)
            if got is not None:
                got = np.asarray(got)
                ctx.check(got.dtype.kind == 'i' and got.ndim == 4 and got.shape[1:] == (nv, 6, 3), 'shape', lambda: '%s returned an array %s of %s'
                          % (op, got.shape, got.dtype))
            m = model.measure(pkg, got)
            tol = 1e-6 * max(1e-3, want)
            ctx.check(abs(m - want) <= max(tol, 1e-9), 'measure', lambda: '%s: result has measure %.9f, the intersection of the inputs has %.9f '
                      '(draw policy %s, %d threads)' % (op, m, want, sc['policy'], len(args)))
            if got is not None and len(got):
                ctx.check(model.inside_all(pkg, got, A) and model.inside_all(pkg, got, B), 'outside', lambda: '%s: result has vertices outside '
                          'the inputs' % op)
                P = model.perp(pkg, got)
                V = [model.measure(pkg, g[None]) for g in got]
                ctx.check(bool(c.get('fine')) or min(V) > 1e-12, 'degenerate', lambda: '%s: result contains a degenerate cell' % op)
                vol = O.module(pkg, 'occupation_domain').volume(got)
                num = (vol[0] + vol[1] * (model.TAU if pkg == 'ico2' else model.R3)) / vol[2]
                ctx.check(bool(c.get('fine')) or abs(num - m) < 1e-6 * max(1, m), 'volume', lambda: '%s: the reported volume %.9f of the result is not its volume %.9f' % (op, num, m))
                ctx.count('nonempty')
            ctx.sig(op, json.dumps(c['args'])[:300], sc['policy'], len(args))
