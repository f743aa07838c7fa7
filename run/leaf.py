"""full-domain proofs of leaf functions with CBMC's code contracts (goto-instrument --dfcc --enforce-contract), and of
relational facts about them.  No bound: the functions are loop-free, or their recursion is unwound completely and the unwinding
assertions are part of the proof."""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from dv import build
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHK = ['--bounds-check', '--pointer-check', '--div-by-zero-check', '--signed-overflow-check']


def one(spec, scratch, cfg, srcs, left):
    """spec: 'FILE:fn' (contract) or 'FILE:fn:r' (relational harness r_fn)"""
    f, fn, rel = (spec.split(':') + [None])[:3]
    name = '%s%s' % (fn, ' (relational)' if rel else '')
    t = time.time()
    res = {'name': name, 'spec': spec, 'status': 'undecided', 'obligations': 0, 'discharged': 0, 'what': ''}
    b = os.path.join(scratch, 'leaf_%s_%s' % (fn, rel))
    try:
        h = ('r_' if rel else 'h_') + fn
        r = subprocess.run(['goto-cc', '-w'] + build.incs(cfg) + [os.path.join(V, 'leaf', f + '.c')] + srcs + ['--function', h, '-o', b + '.gb'],
                           capture_output=True, text=True, timeout=max(10, left()))
        if r.returncode:
            res['what'] = 'goto-cc: ' + (r.stderr + r.stdout)[-600:]
            return res
        gb = b + '.gb'
        if not rel:
            r = subprocess.run(['goto-instrument', '--dfcc', h, '--enforce-contract', fn, gb, b + '2.gb'], capture_output=True, text=True, timeout=max(10, left()))
            if r.returncode:
                res['what'] = 'goto-instrument: ' + (r.stderr + r.stdout)[-600:]
                return res
            gb = b + '2.gb'
        cmd = ['cbmc', '--function', h, '--json-ui', '--trace', '--unwind', '40', '--unwinding-assertions'] + (CHK if fn != 'ptr_compare' else ['--no-standard-checks']) + [gb]
        r = None
        for extra in (['--z3'], []) if rel else ([], ['--z3']):
            try:
                r = subprocess.run(cmd[:-1] + extra + cmd[-1:], capture_output=True, text=True, timeout=min(200, max(10, left())))
                out = json.loads(r.stdout)
            except (subprocess.TimeoutExpired, ValueError) as ex:
                res['what'] = 'cbmc: %s' % str(ex)[:200]
                continue
            rs = [x for o in out if 'result' in o for x in o['result']]
            if rs and all(x['status'] in ('SUCCESS', 'FAILURE') for x in rs):
                break
            rs = None
            res['what'] = 'cbmc gave no verdict: ' + r.stdout[-300:]
        else:
            return res
        bad = [x for x in rs if x['status'] == 'FAILURE']
        res['obligations'], res['discharged'] = len(rs), len(rs) - len(bad)
        unw = [x for x in bad if 'unwind' in x['property'] or 'recursion' in x['property']]
        real = [x for x in bad if x not in unw]
        if not bad:
            res['status'] = 'ok'
        elif not real:
            res['what'] = 'not completely unwound: ' + unw[0]['property']
            res['obligations'] = res['discharged'] = 0
        else:
            res['status'] = 'failed'
            res['what'] = '; '.join('%s: %s' % (x['property'], x['description']) for x in real[:4])
            tr = []
            for st in real[0].get('trace', []):
                if st.get('stepType') == 'assignment' and not st.get('hidden') and 'value' in st:
                    tr.append('%s = %s' % (st.get('lhs'), st['value'].get('data')))
            res['output'] = tr[-80:]
        return res
    except subprocess.TimeoutExpired:
        res['what'] = 'out of time'
        return res
    finally:
        res['seconds'] = round(time.time() - t, 2)


def run_all(specs, scratch, cfg, left):
    srcs = [os.path.join(build.REPO, s) for s in build.sources()]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: one(s, scratch, cfg, srcs, left), specs))
