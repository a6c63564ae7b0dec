"""mkseed.py NAME PROPERTY FILE 'OLD' 'NEW' NEEDS BREAKS DEMO_CPP_FILE : makes /verif/seeded/NAME from an edit of a scratch copy of /repo,
after confirming that it builds, passes the stable tests and that the demonstration tells the two apart."""
import sys, os, json, subprocess, shutil
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def demo_run(d, repo):
    r = sh('bash %s/demo.sh' % d, cwd=repo, timeout=300); return r.returncode, (r.stdout + r.stderr)[-1500:]
DEMO = r'''#!/bin/bash
# run in the repository's root after its build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)
g++ -std=c++17 -O1 -g -fopenmp -w -fpermissive -include cstdint %s -I. -IGTgraph/sprng2.0-lite/include -I"$D" -o "$T/d" "$D/demo.cpp" || { rm -rf "$T"; exit 3; }
OMP_NUM_THREADS=4 ASAN_OPTIONS=detect_leaks=0 timeout 120 "$T/d"; rc=$?
rm -rf "$T"; exit $rc
'''
def main(name, prop, edits, needs, breaks, demo, flags='', tests=True):
    S = '/tmp/seedwork'
    if not os.path.exists(S): sh('cp -a /repo %s' % S)
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (S, S, S))
    d = '/verif/seeded/' + name
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.cpp', 'w').write(demo)
    shutil.copy('/verif/tool/seedlib.hpp', d + '/seedlib.hpp')
    open(d + '/demo.sh', 'w').write(DEMO % flags)
    os.chmod(d + '/demo.sh', 0o755)
    rc0, o0 = demo_run(d, S)
    if rc0: print(name, 'DEMO FAILS ON UNCHANGED TREE', rc0, o0); return False
    for f, old, new in edits:
        p = S + '/' + f; t = open(p).read()
        if t.count(old) != 1: print(name, 'edit matches %d times in %s' % (t.count(old), f)); return False
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git -C %s diff' % S).stdout
    open(d + '/patch.diff', 'w').write(diff)
    rc1, o1 = demo_run(d, S)
    if rc1 == 0 or rc1 == 3: print(name, 'DEMO DOES NOT FAIL WITH THE PATCH' if rc1 == 0 else 'DEMO DOES NOT BUILD', o1); ok = False
    else: ok = True
    if ok and tests:
        # stable tests in place: /repo is patched for the moment
        a = sh('git -C /repo apply %s/patch.diff' % d)
        r = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        sh('git -C /repo checkout -- .')
        b = json.load(open('/opt/vp/BASELINE.json')); res = json.load(open('/tmp/seedtest.json'))
        want = set(b.get('passed', b.get('stable', b if isinstance(b, list) else [])))
        miss = want - set(res['passed'])
        if not res['passed'] or miss: print(name, 'TESTS', len(miss), 'missing'); ok = False
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(name, 'ok' if ok else 'REJECTED', rc1, o1.strip().split('\n')[-1][:200])
    sh('git -C %s checkout -q -- .' % S)
    return ok
