#!/usr/bin/env python3
"""seed.py NAME: make /verif/seeded/NAME from tools-side descriptions (development aid; no check uses it).
Reads a python file /tmp/seeds/NAME.py defining prop, needs, breaks, edits=[(file, old, new)], demo (C text), flags (optional).
Confirms: patch applies, repo builds, stable tests pass, demo passes without and fails with the patch; prints what the check says."""
import json, os, subprocess, sys, runpy, re
V = '/verif'
name = sys.argv[1]
d = runpy.run_path('/tmp/seeds/%s.py' % name)
out = os.path.join(V, 'seeded', name)
os.makedirs(out, exist_ok=True)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


assert not sh('git -C /repo status --short').stdout, 'repo not clean'
base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
try:
    for f, old, new in d['edits']:
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(old) == 1, '%s: %d occurrences of %r' % (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C /repo diff').stdout
    orig = {f: sh('git -C /repo show %s:%s' % (base, f)).stdout.splitlines() for f, _, _ in d['edits']}
    rem = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    if rem and not any(l in o for l in rem for o in orig.values()):
        print('WARNING: no removed line is of the original repository')
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.c', 'w').write(d['demo'])
    open(out + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds on the demonstrated case
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
R="$PWD"; export ASAN_OPTIONS=detect_leaks=0
gcc -w -g -O1 %s -I"$R/include" -I"$R/modules/collections/include" -I"$R/modules/utils/include" -I"$R/_build" "$here/demo.c" "$R"/src/*.c "$R"/modules/collections/src/*.c "$R"/modules/utils/src/*.c -lm -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
''' % d.get('flags', '-fsanitize=address,undefined'))
    json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    os.chmod(out + '/demo.sh', 0o755)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
    got = json.load(open('/tmp/seedtest.json'))
    base_ok = json.load(open('/opt/vp/BASELINE.json'))
    stable = base_ok.get('stable') or base_ok.get('passed') or base_ok.get('tests')
    miss = [x for x in stable if x not in got['passed']]
    print('tests:', 'all stable pass' if not miss else 'BROKEN %s' % miss)
    r = sh('bash %s/demo.sh' % out, cwd='/repo', env=env)
    print('demo with patch: exit', r.returncode, (r.stdout + r.stderr).strip()[-300:])
    if '--nocheck' not in sys.argv:
        c = sh('python3-vt run/check.py %s' % d['prop'], cwd=V)
        print('check: exit', c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'FAIL' in l][:6])
finally:
    sh('git -C /repo checkout -- .')
r2 = sh('bash /opt/vp/build.sh')
r2 = sh('bash %s/demo.sh' % out, cwd='/repo', env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
print('demo without patch: exit', r2.returncode, (r2.stdout + r2.stderr)[-300:] if r2.returncode else '')
