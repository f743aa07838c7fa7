#!/usr/bin/env python3
"""mutate.py FILE... [-j N] [-o OUT]: development aid. Mutates /repo's sources line by line in scratch copies, runs the witness harnesses (sanitizer
build) of the properties anchored in the file, and lists mutants that none of them kills. Nothing registered in MANIFEST.json uses it."""
import os, re, shutil, subprocess, sys, tempfile, json, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dv import build
from run.props import PROPS
from run.check import CFLAGS, SAN
R = '/repo'
REL = {'modules/collections/src/list.c': 'C01 C02 C03 C08', 'modules/collections/src/set.c': 'C02 C03', 'modules/collections/src/linkedlist.c': 'C05 C04',
       'modules/collections/src/hashtable.c': 'C04 C08', 'modules/collections/src/primes.c': 'C08', 'modules/utils/src/utils.c': 'C06 C07 C08',
       'src/cluster.c': 'T01 T02 C06 L01', 'src/constraint.c': 'T06', 'src/distance.c': 'D01 D02 D03 L01', 'src/outlier_score.c': 'C06 T05',
       'src/undirected_graph.c': 'G01 G02 T06 L01', 'src/hdbscan.c': 'G03 T03 T04 T05 T06 S01 S02 S03 S04 S05 L01 L02 L03'}
SW = [(r'<=', ['<', '==']), (r'>=', ['>', '==']), (r'(?<![<\-])<(?![<=])', ['<=']), (r'(?<![>\-])>(?![>=])', ['>=']), (r'==', ['!=']), (r'!=', ['==']),
      (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<!\+)\+ 1\b', ['', '+ 2']), (r'(?<!-)- 1\b', ['', '- 2']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']),
      (r'\+\+', ['--']), (r'(?<=[\w)\]]) \+ (?=[\w(])', [' - ']), (r'(?<=[\w)\]]) - (?=[\w(])', [' + ']), (r'(?<=[\w)\]]) \* (?=[\w(])', [' / ']), (r'(?<=[\w)\]])\s?/\s?(?=[\w(])', [' * ']),
      (r'\+=', ['=', '-=']), (r'-=', ['=', '+=']), (r'\bbreak;', [';']), (r'\bcontinue;', [';']), (r'\bif\s*\((.*)\)\s*\{', ['if(1) {', 'if(0) {']),
      (r'\bDBL_MAX\b|\bD_MAX\b', ['0']), (r'\bDBL_MIN\b|\bD_MIN\b', ['0']), (r'%\w*\b', None)]


def mutants(src):
    lines = src.split('\n')
    depth, com = 0, False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'):
            com = True
        inn = com
        if '*/' in s:
            com = False
        d0 = depth
        if not inn:
            depth += l.count('{') - l.count('}')
        if inn or d0 <= 0 or s.startswith('//') or s.startswith('#') or 'printf' in s or 'logger' in s or not s:
            continue
        code = l.split('//')[0]
        for pat, reps in SW:
            for m in re.finditer(pat, code):
                for r in reps or []:
                    yield i, code[:m.start()] + r + code[m.end():]
        if s.endswith(';') and not re.match(r'(return|break|continue|\}|else|[\w*]+\s+\**\w+\s*(=|;|\[))', s):
            yield i, re.match(r'\s*', l).group(0) + ';'


def main():
    args = sys.argv[1:]
    n = int(args[args.index('-j') + 1]) if '-j' in args else 4
    out = args[args.index('-o') + 1] if '-o' in args else '/tmp/survivors'
    files = [a for a in args if a.endswith('.c')]
    w = tempfile.mkdtemp(prefix='mut_')
    cfg = build.configure(w)
    inc = build.incs(cfg) + ['-I' + V + '/h']
    srcs = build.sources()
    cc = ['clang'] + SAN + CFLAGS + inc

    def comp(a):
        subprocess.run(cc + ['-c', a[0], '-o', a[1]], check=True, stderr=subprocess.DEVNULL)
    jobs = [(R + '/' + s, '%s/%s.o' % (w, s.replace('/', '_'))) for s in srcs] + [('%s/h/%s.c' % (V, p), '%s/h_%s.o' % (w, p)) for p in PROPS]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, jobs))
    todo = []
    for f in files:
        src = open(R + '/' + f).read()
        todo += [(f, i, new, src) for i, new in mutants(src)]
    random.Random(5).shuffle(todo)
    print(len(todo), 'mutants')

    def run(k):
        f, i, new, src = todo[k]
        d = '%s/m%d' % (w, k)
        os.makedirs(d)
        try:
            ls = src.split('\n')
            old, ls[i] = ls[i], new
            p = d + '/x.c'
            open(p, 'w').write('\n'.join(ls))
            # keep quoted includes working
            r = subprocess.run(cc + ['-I' + os.path.dirname(R + '/' + f), '-c', p, '-o', d + '/x.o'], stderr=subprocess.DEVNULL)
            if r.returncode:
                return 'nocompile'
            objs = [d + '/x.o'] + ['%s/%s.o' % (w, s.replace('/', '_')) for s in srcs if s != f]
            for pr in REL[f].split():
                exe = '%s/%s' % (d, pr)
                if subprocess.run(cc + objs + ['%s/h_%s.o' % (w, pr), '-lm', '-o', exe], stderr=subprocess.DEVNULL).returncode:
                    return 'nolink'
                e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0')
                try:
                    q = subprocess.run([exe, 'run', str(PROPS[pr]['h'][1]), '1'], capture_output=True, text=True, errors='replace', env=e, cwd=d, timeout=200)
                except subprocess.TimeoutExpired:
                    return 'killed by timeout ' + pr
                last = (q.stdout.strip().splitlines() or [''])[-1]
                os.remove(exe)
                if not last.startswith('PASS'):
                    return 'killed ' + pr
            with open(out, 'a') as o:
                o.write('%s:%d\n  - %s\n  + %s\n' % (f, i + 1, old.strip(), new.strip()))
            return 'SURVIVED'
        finally:
            shutil.rmtree(d, ignore_errors=True)
    from collections import Counter
    c = Counter()
    with ThreadPoolExecutor(n) as ex:
        for k, r in enumerate(ex.map(run, range(len(todo)))):
            c[r.split()[0]] += 1
            if k % 50 == 49:
                print(k + 1, dict(c), flush=True)
    print(dict(c))
    shutil.rmtree(w, ignore_errors=True)


main()
