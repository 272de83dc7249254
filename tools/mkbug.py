#!/usr/bin/env python3
"""mkbug(id, prop, edits=[(file, old, new)], srcs, demo_cpp, needs, breaks): write /verif/seeded/<id> and confirm it
(builds, stable tests pass, demo 0 on the clean tree and non-zero with the patch).  Development aid."""
import os, subprocess, json, sys
S = '/verif/seeded/'
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; run with cwd = repository root
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -w -O1 -g0 -D_QK_RANGE_CHECK_=1 %s -fno-access-control -Isrc "$D/demo.cpp" %s -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def tests():
    r = sh('bash /opt/vp/test.sh /tmp/o.json')
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = json.load(open('/tmp/o.json'))
    return b <= set(o['passed'])
def mkbug(id, prop, edits, srcs, demo, needs, breaks, flags=''):
    d = S + id; os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --short').stdout.strip()
    try:
        for f, a, b in edits:
            p = '/repo/src/' + f; t = open(p).read()
            assert t.count(a) == 1, (f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        open(d + '/patch.diff', 'wb').write(sh('git -C /repo diff').stdout)
        open(d + '/demo.cpp', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO % (flags, ' '.join('src/' + x for x in srcs)))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        t = tests(); r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
    finally: sh('git -C /repo checkout -- .')
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    ok = t and r1.returncode != 0 and r0.returncode == 0
    print(id, 'OK' if ok else 'BAD', 'tests', t, 'demo patched', r1.returncode, 'clean', r0.returncode)
    if not ok: print(r1.stdout.decode()[-600:], r0.stdout.decode()[-600:])
    return ok
