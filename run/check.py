#!/usr/bin/env python3
"""check.py PROP            decide one property on /repo's current tree
   check.py replay FILE    run the failing case of a replay file again"""
import json, os, shutil, subprocess, sys, tempfile, time, multiprocessing, threading, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from run.props import PROPS
from run import leaf
from dv import build

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
DEADLINE = float(os.environ.get('CHECK_DEADLINE', '780' if TIER == 'quick' else '7000'))
CFLAGS = ['-w', '-g', '-fno-omit-frame-pointer', '-std=gnu11']
SAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=pointer-overflow,function']
NCPU = os.cpu_count() or 4


def left():
    return DEADLINE - (time.time() - T0)


# ---------------------------------------------------------------- witness harness
def compile_all(scratch, cfg, harness, kind):
    """kind 'san': clang, ASan+UBSan, no OpenMP; kind 'omp': gcc, OpenMP, no sanitizer"""
    d = os.path.join(scratch, 'h_' + kind)
    os.makedirs(d, exist_ok=True)
    inc = build.incs(cfg) + ['-I' + os.path.join(V, 'h')]
    cc = ['clang'] + SAN if kind in ('san', 'san2') else ['gcc', '-O2', '-fopenmp']
    srcs = [os.path.join(build.REPO, s) for s in build.sources()]
    procs, objs = [], []
    for s in srcs + [os.path.join(V, 'h', harness + '.c')]:
        o = os.path.join(d, re.sub(r'\W', '_', s) + '.o')
        objs.append(o)
        procs.append((s, subprocess.Popen(cc + CFLAGS + inc + ['-c', s, '-o', o], stderr=subprocess.PIPE, text=True)))
    err = ''
    for s, p in procs:
        e = p.communicate()[1]
        if p.returncode:
            err += '%s: %s\n' % (s, e[-1500:])
    if err:
        raise RuntimeError('compiling for the harness failed:\n' + err)
    exe = os.path.join(d, harness)
    r = subprocess.run(cc + objs + ['-lm', '-o', exe], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('linking the harness failed:\n' + r.stderr[-2500:])
    return exe


def henv(kind):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    if kind == 'san2':                   # the same program, other contents of fresh memory: a result that reads it differs
        e['ASAN_OPTIONS'] += ':malloc_fill_byte=68:max_malloc_fill_size=65536'
    if kind == 'omp':
        e['OMP_NUM_THREADS'] = '4'
        e['MALLOC_PERTURB_'] = '165'
    return e


def run_harness(exe, kind, n, seed, cwd):
    """the cases are independent: split over worker processes of the harness"""
    try:
        r = subprocess.run([exe, 'run', str(n), str(seed)], capture_output=True, text=True, errors='replace', env=henv(kind), cwd=cwd, timeout=max(60, left()))
    except subprocess.TimeoutExpired:
        return {'kind': kind, 'ok': None, 'line': 'out of time', 'cases': 0, 'nontrivial': 0}
    out = r.stdout.strip().splitlines()
    last = out[-1] if out else ''
    if last.startswith('PASS'):
        m = re.match(r'PASS cases=(\d+) nontrivial=(\d+)', last)
        return {'kind': kind, 'ok': True, 'cases': int(m.group(1)), 'nontrivial': int(m.group(2)), 'line': last}
    if last.startswith('FAIL'):
        m = re.match(r'FAIL case=(\d+)', last)
        return {'kind': kind, 'ok': False, 'case': int(m.group(1)), 'line': last, 'stderr': r.stderr[-6000:], 'cases': int(m.group(1)) + 1, 'nontrivial': 0}
    return {'kind': kind, 'ok': None, 'line': 'no verdict: ' + last + r.stderr[-500:], 'cases': 0, 'nontrivial': 0}


# ---------------------------------------------------------------- deductive verification
def dv_worker(prog, fn, timeout, q):
    from dv.contracts import registry
    from dv.exec import Exec
    from dv.ir import Unsupported
    t = time.time()
    try:
        con = registry.contracts()
        if con[fn].folded:
            prog = prog.folded
        e = None
        if timeout <= 8000:              # a fast pass first; whatever it leaves open is tried again with full solver effort
            e = Exec(prog, con, fn, {'timeout': timeout, 'effort': 0})
            try:
                e.verify()
            except Unsupported:
                e = None
        if e is None or not all(o.ok for o in e.obs):
            e = Exec(prog, con, fn, {'timeout': timeout, 'effort': 1, 'budget': 400})
            e.verify()
        q.send({'fn': fn, 'status': 'ok' if all(o.ok for o in e.obs) else 'failed', 'time': time.time() - t, 'queries': e.nq,
                'obs': [dict(name=o.name(), ok=bool(o.ok), time=round(o.time, 3), backend=o.backend, detail=str(o.detail)[:3000] if not o.ok else None,
                             hints=str(o.hints)[:2000] if not o.ok else None) for o in e.obs],
                'trusted': sorted('library function %s' % x for x in e.used_externs),
                'used': sorted(e.used_contracts), 'inlined': sorted(e.inlined)})
    except Unsupported as ex:
        q.send({'fn': fn, 'status': 'unsupported', 'why': str(ex), 'time': time.time() - t})
    except Exception as ex:
        import traceback
        q.send({'fn': fn, 'status': 'unsupported', 'why': 'internal: ' + repr(ex) + traceback.format_exc()[-800:], 'time': time.time() - t})
    q.close()


def dv_all(prog, fns, results, timeout=8000):
    todo, live = list(fns), {}
    while todo or live:
        while todo and len(live) < NCPU:
            fn = todo.pop(0)
            if not prog.func(fn) and fn[0] != '$':
                results[fn] = {'fn': fn, 'status': 'absent', 'why': 'no such function in the current tree', 'time': 0}
                continue
            a, b = multiprocessing.Pipe(False)
            p = multiprocessing.Process(target=dv_worker, args=(prog, fn, timeout, b))
            p.start()
            b.close()
            live[fn] = (p, a)
        for fn, (p, a) in list(live.items()):
            if a.poll(0.02):
                try:
                    results[fn] = a.recv()
                except EOFError:
                    results[fn] = {'fn': fn, 'status': 'unsupported', 'why': 'the verifier process ended (code %s)' % p.exitcode, 'time': 0}
                p.join()
                del live[fn]
            elif left() < 30:
                p.kill()
                results[fn] = {'fn': fn, 'status': 'unsupported', 'why': 'out of time', 'time': 0}
                del live[fn]
        if left() < 30:
            for fn in todo:
                results[fn] = {'fn': fn, 'status': 'unsupported', 'why': 'out of time', 'time': 0}
            todo = []


def known(prop):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main(prop):
    cfgp = PROPS[prop]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='hdbv_')
    try:
        rc = decide(prop, cfgp, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def decide(prop, P, scratch):
    cfg = build.configure(scratch)
    hres, dvres, leafres, notes = [], {}, [], []

    def harness():
        if not P.get('h'):
            return
        name, nq, nt = P['h']
        n = nq if TIER == 'quick' else nt
        kinds = ['san', 'san2'] + (['omp'] if P.get('omp') else [])
        exe = None
        for kind in kinds:
            try:
                if kind != 'san2':
                    exe = compile_all(scratch, cfg, name, kind)
                elif not exe:
                    continue
            except RuntimeError as ex:
                hres.append({'kind': kind, 'ok': None, 'line': str(ex), 'cases': 0, 'nontrivial': 0})
                continue
            hres.append(run_harness(exe, kind, n if kind == 'san' else max(1, n // 4), SEED + (1000 if kind == 'san2' else 0), scratch))
            hres[-1]['seed'] = SEED + (1000 if kind == 'san2' else 0)
            if hres[-1]['ok'] is False:
                return
    th = threading.Thread(target=harness)
    th.start()
    try:
        if P.get('dv'):
            files = build.build_ir(scratch, cfg)
            prog = build.load(files)
            from dv.contracts import registry
            con = registry.contracts()
            if any(con[f].folded for f in P['dv']):
                prog.folded = build.load(build.fold(files))
            th.join()                      # fork only when no other thread runs
            if not any(h['ok'] is False for h in hres):
                dv_all(prog, P['dv'], dvres)
                bad = [f for f, r in dvres.items() if r['status'] == 'failed']
                if bad and left() > 120:   # once more, with more solver time, before anything is reported
                    again = {}
                    dv_all(prog, bad, again, timeout=30000)
                    for f, r in again.items():
                        if r['status'] == 'ok' or r['status'] == 'failed':
                            dvres[f] = r
        th.join()
        if P.get('leaf') and not any(h['ok'] is False for h in hres):
            leafres.extend(leaf.run_all(P['leaf'], scratch, cfg, left))
    except RuntimeError as ex:
        notes.append('extraction failed: ' + str(ex)[:2000])
    th.join()

    obs = [o for r in dvres.values() for o in r.get('obs', [])]
    nob, ndis = len(obs), sum(o['ok'] for o in obs)
    for l in leafres:
        nob += l['obligations']
        ndis += l['discharged']
    failed = [o for o in obs if not o['ok']]
    lfailed = [l for l in leafres if l['status'] == 'failed']
    viol = None
    hfail = [h for h in hres if h['ok'] is False]
    kf = known(prop)
    known_hit = []
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    rp = os.path.join(V, 'replays', prop + '.json')
    if hfail:
        h = hfail[0]
        json.dump({'property': prop, 'kind': 'failing input', 'harness': P['h'][0], 'build': h['kind'], 'case': h['case'], 'seed': h.get('seed', SEED),
                   'what': h['line'], 'stderr': h.get('stderr'), 'rerun': 'python3-vt /verif/run/check.py replay ' + rp}, open(rp, 'w'), indent=1)
        viol = 'VIOLATION property=%s replay=%s' % (prop, rp)
        print(h['line'])
    elif any(l.get('witness') for l in lfailed):
        l = [l for l in lfailed if l.get('witness')][0]
        json.dump({'property': prop, 'kind': 'failing input', 'leaf': l['name'], 'witness': l['witness'], 'what': l.get('what'),
                   'output': l.get('output'), 'rerun': 'python3-vt /verif/run/check.py replay ' + rp}, open(rp, 'w'), indent=1)
        viol = 'VIOLATION property=%s replay=%s' % (prop, rp)
        print(l.get('what'))
    elif failed or lfailed:
        fs = [o for o in failed]
        json.dump({'property': prop, 'kind': 'failed obligation', 'obligations': fs[:20], 'leaf': lfailed[:5],
                   'harness': [h['line'] for h in hres]}, open(rp, 'w'), indent=1)
        for o in fs[:10]:
            print('FAILED OBLIGATION', o['name'])
        for l in lfailed[:5]:
            print('FAILED OBLIGATION', l['name'], l.get('what'))
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)
    und = [{'function': r['fn'], 'status': r['status'], 'why': r.get('why', '')[:400]} for r in dvres.values() if r['status'] in ('unsupported', 'absent')]
    und += [{'function': l['name'], 'status': l['status'], 'why': l.get('what', '')[:400]} for l in leafres if l['status'] == 'undecided']
    und += [{'function': 'harness ' + h['kind'], 'status': 'no verdict', 'why': h['line'][:400]} for h in hres if h['ok'] is None]
    backends = {}
    for o in obs:
        if o['ok']:
            backends[o['backend'] or 'simplifier'] = backends.get(o['backend'] or 'simplifier', 0) + 1
    for l in leafres:
        backends['cbmc'] = backends.get('cbmc', 0) + l['discharged']
    trusted = sorted({t for r in dvres.values() for t in r.get('trusted', [])})
    from run.trusted import COMMON, PER
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': P.get('level', 'proof'), 'wall_s': round(time.time() - T0, 2), 'violations': 1 if viol else 0,
          'coverage': {
              'obligations': nob, 'discharged': ndis,
              'checker_cmd': 'python3-vt run/check.py %s' % prop,
              'functions_under_contract': sorted(f for f, r in dvres.items() if r['status'] == 'ok') + sorted('%s (cbmc)' % l['name'] for l in leafres if l['status'] == 'ok'),
              'per_function': [{'function': r['fn'], 'status': r['status'], 'obligations': len(r.get('obs', [])), 'discharged': sum(o['ok'] for o in r.get('obs', [])),
                                'seconds': round(r['time'], 2), 'callee_contracts': r.get('used', []), 'inlined': r.get('inlined', [])} for r in sorted(dvres.values(), key=lambda r: r['fn'])] +
                              [{'function': l['name'], 'status': l['status'], 'obligations': l['obligations'], 'discharged': l['discharged'], 'seconds': l['seconds']} for l in leafres],
              'backends': backends, 'solver_seconds': round(sum(o['time'] for o in obs) + sum(l['seconds'] for l in leafres), 2),
              'undecided': und, 'trusted_base': trusted + COMMON + PER.get(prop, []),
              'evaluations': sum(h['cases'] for h in hres), 'distinct_nontrivial': sum(h['nontrivial'] for h in hres),
              'rule': 'bounded stand-in and replay source, never counted as proved: numbered random/enumerated cases against the real sources (ASan+UBSan build%s), compared with a reference implementation; non-trivial counts the operations compared' % (', and an OpenMP build' if P.get('omp') else ''),
              'samples': [{'harness': P['h'][0], 'case': i, 'seed': SEED} for i in (0, 1, 2)] if P.get('h') else [],
              'bounded_runs': [{k: v for k, v in h.items() if k != 'stderr'} for h in hres],
          },
          'assumptions': COMMON + PER.get(prop, []) + notes}
    if failed or lfailed:
        ev['coverage']['failed'] = [o['name'] for o in failed] + [l['name'] for l in lfailed]
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for key, text in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    print('%s: %d/%d obligations discharged over %d functions, %d bounded cases, %d undecided, %.1f s' % (
        prop, ndis, nob, sum(r['status'] == 'ok' for r in dvres.values()) + sum(l['status'] == 'ok' for l in leafres), sum(h['cases'] for h in hres), len(und), time.time() - T0))
    for u in und:
        print('  undecided:', u['function'], u['status'], u['why'][:200])
    for n in notes:
        print('  note:', n[:300])
    if viol:
        print(viol)
        return 1
    return 0


def replay(path):
    r = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='hdbv_')
    try:
        if r.get('harness') and r.get('case') is not None:
            exe = compile_all(scratch, build.configure(scratch), r['harness'], r['build'])
            p = subprocess.run([exe, 'one', str(r['case']), str(r['seed'])], env=henv(r['build']), cwd=scratch)
            return 1 if p.returncode else 0
        print(json.dumps(r, indent=1))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(replay(sys.argv[2]) if sys.argv[1] == 'replay' else main(sys.argv[1]))
