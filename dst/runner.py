"""Seeded search over simulated runs: fork-per-run execution, minimisation, replay, evidence."""
import argparse, hashlib, json, os, pickle, random, select, shutil, signal, sys, tempfile, time, resource, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CPU_LIMIT = 90.0          # CPU seconds of one run (normal runs: well below 5)
WALL_LIMIT = 400.0


def _load(pid):
    from . import props
    return props.get(pid)


def _child(prop, sc, scratch, w, trace=False):
    from . import sim as S, base
    out = {'status': 'error'}
    ctx = base.Ctx(scratch)
    try:
        try:
            prop.run(sc, ctx)
            out['status'] = 'ok'
        except base.Violation as v:
            out.update(status='violation', kind=v.kind, msg=v.msg)
        except S.HarnessError as e:
            out.update(status='error', msg='HarnessError ' + str(e))
        except MemoryError:
            out.update(status='error', msg=traceback.format_exc())
        except BaseException as e:
            out.update(status='error', msg=traceback.format_exc())
            last = (traceback.extract_tb(e.__traceback__) or [None])[-1]
            if last is not None and '/pyqcstrc/' in last.filename and isinstance(e, (Exception, SystemExit)):
                # no fault was injected where the harness does not expect an exception
                out.update(status='violation', kind='unexpected-exception', msg='%s raised by %s of the package in an undisturbed step'
                           % (type(e).__name__, last.name))
        out.update(counts=dict(ctx.counts), sigs=sorted(ctx.sigs), digest=ctx.h.hexdigest(), nlog=ctx.nlog,
                   simtime=ctx.simtime, extra=ctx.extra if out['status'] != 'ok' else {})
        data = pickle.dumps(out)
    except BaseException:
        data = pickle.dumps({'status': 'error', 'msg': traceback.format_exc()})
    R = S._real
    i = 0
    while i < len(data):
        i += R['os_write'](w, data[i:i + 65536])
    R['os_close'](w)


def execute(prop, sc, base_dir):
    """one simulated run in a fresh fork of this pristine process"""
    scratch = tempfile.mkdtemp(dir=base_dir)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            # children of this run inherit the CPU limit individually
            resource.setrlimit(resource.RLIMIT_CPU, (int(CPU_LIMIT), int(CPU_LIMIT) + 5))
            _child(prop, sc, scratch, w)
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    t0 = time.monotonic()
    timed_out = False
    while True:
        left = WALL_LIMIT - (time.monotonic() - t0)
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 5))
        if rd:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf.append(b)
    os.close(r)
    if timed_out:
        _kill(pid)
    _, st, ru = os.wait4(pid, 0)
    _kill(pid)
    shutil.rmtree(scratch, ignore_errors=True)
    if timed_out:
        return {'status': 'timeout', 'msg': 'wall limit', 'counts': {}, 'sigs': []}
    if not buf:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL) and \
                ru.ru_utime + ru.ru_stime > CPU_LIMIT * 0.8:
            return {'status': 'violation', 'kind': 'no-progress',
                    'msg': 'an operation did not finish within %d CPU seconds' % CPU_LIMIT,
                    'counts': {}, 'sigs': []}
        return {'status': 'error', 'msg': 'run died, status %r' % (st,), 'counts': {}, 'sigs': []}
    return pickle.loads(b''.join(buf))


def _kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def seed_of(base, pid, i):
    return int.from_bytes(hashlib.sha256(('%s/%s/%d' % (base, pid, i)).encode()).digest()[:7], 'big')


def scenario(prop, base_seed, i, tier):
    nf = len(prop.fixed)
    if i < nf:
        return json.loads(json.dumps(prop.fixed[i]))
    s = seed_of(base_seed, prop.id, i - nf)
    sc = prop.gen(random.Random(s), i - nf, tier)
    sc['seed'] = s
    return json.loads(json.dumps(sc))


def worker(prop, base_seed, tier, indices, wfd, base_dir, stop_at):
    out = os.fdopen(wfd, 'wb', buffering=0)
    for i in indices:
        if time.monotonic() > stop_at:
            pickle.dump({'i': i, 'status': 'skipped'}, out)
            break
        try:
            sc = scenario(prop, base_seed, i, tier)
            res = execute(prop, sc, base_dir)
        except BaseException:
            res = {'status': 'error', 'msg': traceback.format_exc()}
        res['i'] = i
        pickle.dump(res, out)
        if res['status'] == 'violation':
            break
    out.close()


def search(prop, base_seed, tier, runs, jobs, base_dir, stop_at, progress=None):
    """runs `runs` scenarios over `jobs` workers; returns the list of results"""
    ws = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for _, rr, _ in ws:
                    os.close(rr)
                os.setpgid(0, 0)
                worker(prop, base_seed, tier, range(j, runs, jobs), w, base_dir, stop_at)
            finally:
                os._exit(0)
        os.close(w)
        ws.append((pid, r, bytearray()))
    results = []
    live = {r: (pid, buf) for pid, r, buf in ws}
    viol = None
    import io as _io
    while live:
        rd, _, _ = select.select(list(live), [], [], 2.0)
        for fd in rd:
            pid, buf = live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                buf += b
                while True:
                    s = _io.BytesIO(bytes(buf))
                    try:
                        obj = pickle.load(s)
                    except (EOFError, pickle.UnpicklingError, IndexError, AttributeError):
                        break
                    del buf[:s.tell()]
                    results.append(obj)
                    if obj['status'] == 'violation':
                        viol = True
            else:
                os.close(fd)
                del live[fd]
                try:
                    os.waitpid(pid, 0)
                except ChildProcessError:
                    pass
        if viol:
            # other workers stop soon: earlier indices may still report, for determinism keep the smallest
            for fd in list(live):
                pid, buf = live[fd]
                _kill(pid)
                try:
                    os.waitpid(pid, 0)
                except ChildProcessError:
                    pass
                os.close(fd)
            live = {}
    return results


def minimise(prop, sc, first, base_dir, budget):
    """greedy reduction while the same violation class persists"""
    t0 = time.monotonic()
    cur, cur_res = sc, first
    # pin the recorded schedule, if the run produced one
    if any(v is not None for v in first.get('extra', {}).values()):
        cand = dict(cur, **first['extra'])
        res = execute(prop, cand, base_dir)
        if res['status'] == 'violation' and res['kind'] == first['kind']:
            cur, cur_res = cand, res
    tried = 0
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for cand in prop.shrink(cur):
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            try:
                cand = json.loads(json.dumps(cand))
                res = execute(prop, cand, base_dir)
            except BaseException:
                continue
            if res['status'] == 'violation' and res['kind'] == first['kind']:
                cur, cur_res = cand, res
                progress = True
                break
    return cur, cur_res, tried


def prepare():
    """import the code under test once (no function of it is called) in the pristine zygote"""
    from . import sched
    sched.install_locks()
    import warnings
    warnings.simplefilter('ignore')
    from . import ops, inputs
    out = sys.stdout
    ops.import_all()
    inputs.data()
    inputs.pairs()
    import scipy.spatial, numpy.linalg, tempfile, shutil, pathlib, json, csv, locale, decimal, threading  # noqa
    import encodings.ascii, encodings.latin_1, encodings.cp932, encodings.utf_8, encodings.cp1252, encodings.euc_jp, encodings.idna, encodings.utf_16  # noqa
    import gc
    gc.collect()
    gc.freeze()


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(ln.strip())
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('DST_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--index', type=int, help='run one scenario of the seed and print it')
    ap.add_argument('--digests', help='write the event-log digest of every run to this file')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--max-s', type=float, default=None)
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    prepare()
    prop = _load(a.property)
    shm = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    base_dir = tempfile.mkdtemp(prefix='pyqc-dst-', dir=shm)
    try:
        return _main(a, prop, base_dir, t0)
    finally:
        shutil.rmtree(base_dir, ignore_errors=True)


def _main(a, prop, base_dir, t0):
    if a.replay:
        doc = json.load(open(a.replay))
        res = execute(prop, doc['scenario'], base_dir)
        print(json.dumps({k: res.get(k) for k in ('status', 'kind', 'msg', 'digest')}, indent=1))
        same = res['status'] == 'violation' and res['kind'] == doc['kind'] and res.get('digest') == doc.get('digest')
        print('replay: %s' % ('reproduced exactly' if same else 'NOT reproduced'))
        if res['status'] == 'violation':
            print('VIOLATION property=%s replay=%s' % (prop.id, a.replay))
            return 1
        return 0 if res['status'] == 'ok' else 2
    if a.index is not None:
        sc = scenario(prop, a.seed, a.index, a.tier)
        print(json.dumps(sc))
        res = execute(prop, sc, base_dir)
        print({k: v for k, v in res.items() if k != 'sigs'})
        return 0 if res['status'] == 'ok' else 1
    runs = a.runs or prop.runs[a.tier]
    runs += len(prop.fixed)
    cap = a.max_s or (560.0 if a.tier == 'quick' else 6 * 3600.0)
    results = search(prop, a.seed, a.tier, runs, a.jobs, base_dir, t0 + cap)
    viol = sorted((r for r in results if r['status'] == 'violation'), key=lambda r: r['i'])
    errs = [r for r in results if r['status'] in ('error', 'timeout')]
    ok = [r for r in results if r['status'] == 'ok']
    rc = 0
    vdoc = None
    unrep = 0
    for v in viol:
        sc = scenario(prop, a.seed, v['i'], a.tier)
        rep = None
        for _ in range(3):
            r2 = execute(prop, sc, base_dir)
            if r2['status'] == 'violation':
                rep = r2
                break
        if rep is None:
            unrep += 1
            print('unreproducible observation at index %d: %s' % (v['i'], v.get('msg')), file=sys.stderr)
            continue
        msc, mres, tried = minimise(prop, sc, rep, base_dir, 60.0 if a.tier == 'quick' else 300.0)
        # replay in a fresh fork; the replay file must reproduce exactly
        last = execute(prop, msc, base_dir)
        exact = last['status'] == 'violation' and last['kind'] == mres['kind'] and last.get('digest') == mres.get('digest')
        if last['status'] != 'violation':
            msc, last = sc, rep
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (prop.id, a.seed, v['i']))
        with open(path, 'w') as f:
            json.dump({'property': prop.id, 'verif_seed': a.seed, 'index': v['i'], 'kind': last['kind'],
                       'violation': last['msg'], 'digest': last.get('digest'), 'replays_exactly': exact,
                       'shrink_attempts': tried, 'scenario': msc,
                       'replay_cmd': 'bash /verif/check.sh %s --replay %s' % (prop.id, path)}, f, indent=1)
        print('%s: %s' % (last['kind'], last['msg']))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        vdoc = {'kind': last['kind'], 'msg': last['msg'], 'replay': path, 'index': v['i']}
        rc = 1
        break
    wall = time.monotonic() - t0
    if a.digests:
        with open(a.digests, 'w') as f:
            for r in sorted(results, key=lambda r: r['i']):
                f.write('%d %s %s %s\n' % (r['i'], r['status'], r.get('digest'), r.get('nlog')))
    evid = evidence(prop, a, results, ok, errs, vdoc, wall, unrep)
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
            json.dump(evid, f, indent=1, sort_keys=True)
    for k in known_findings(prop.id):
        if rc == 0:
            print(k)
    if rc == 0:
        if errs:
            for e in errs[:3]:
                print('harness error at index %s: %s' % (e.get('i'), e.get('msg')), file=sys.stderr)
            if len(errs) > max(0, len(results) // 100) or not ok:
                print('ERROR property=%s %d of %d runs gave no answer' % (prop.id, len(errs), len(results)))
                return 2
        if len(ok) < max(1, runs // 10):
            print('ERROR property=%s only %d of %d runs completed' % (prop.id, len(ok), runs))
            return 2
        print('OK property=%s runs=%d distinct=%d faults=%d wall=%.1fs' % (
            prop.id, len(ok), evid['coverage']['distinct_nontrivial'],
            sum(evid['coverage']['faults_fired'].values()), wall))
    return rc


def evidence(prop, a, results, ok, errs, vdoc, wall, unrep):
    counts, sigs = {}, set()
    simtime = 0.0
    steps = 0
    for r in results:
        for k, v in (r.get('counts') or {}).items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(r.get('sigs') or [])
        simtime += r.get('simtime') or 0
        steps += r.get('nlog') or 0
    faults = {k[6:]: v for k, v in counts.items() if k.startswith('fault ')}
    samples = []
    for r in sorted(ok, key=lambda r: r['i'])[:3]:
        sc = scenario(prop, a.seed, r['i'], a.tier)
        samples.append(json.dumps(sc)[:400])
    return {
        'property': prop.id, 'tier': a.tier, 'seed': int(a.seed) if str(a.seed).isdigit() else 0,
        'level': prop.level,
        'coverage': {
            'evaluations': max(1, counts.get('checks', len(ok))) if ok else len(ok),
            'distinct_nontrivial': len(sigs), 'rule': prop.rule, 'samples': samples,
            'simulated_runs': len(ok),
            'runs_per_hour': round(len(ok) / max(wall, 1e-6) * 3600),
            'simulated_steps': steps + counts.get('steps', 0),
            'simulated_time': '%.1f simulated seconds; %d logged simulator events' % (simtime, steps),
            'faults_fired': faults,
            'probes': {k: v for k, v in sorted(counts.items()) if not k.startswith('fault ')},
            'components_real': prop.real, 'components_stub': prop.stub,
            'violation_detail': [] if vdoc is None else [vdoc],
            'harness_errors': len(errs), 'unreproducible': unrep,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(wall, 2),
        'violations': 0 if vdoc is None else 1,
    }


if __name__ == '__main__':
    sys.exit(main())
