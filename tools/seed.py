#!/usr/bin/env python3
"""Development aid (no check uses it): turns edits into /verif/seeded/<id> after
confirming in a scratch copy that the change builds, passes the stable tests and
that the demonstration tells it from the unchanged tree.
tools/seed.py BATCH.py [-j N] [ID...]; BATCH.py defines
SEEDS = {id: dict(prop=, needs=, breaks=, edits=[(file, old, new)...], demo=C++ text,
                  srcs='space separated sources', flags='')}"""
import sys, os, subprocess, shutil, tempfile, json, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = VERIF + '/seeded'
ENV = dict(os.environ, PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', HOME='/root', LANG='C.UTF-8', CC='gcc', CXX='g++')
ALL = 'src/fields/field_secp256r1.cpp src/fields/field_bn254.cpp src/ecc/ecc_secp256r1.cpp src/ecc/ecc_bn254.cpp src/dme/dme.cpp src/dme/dmhe.cpp src/elgamal/elgamal.cpp src/ot/ot.cpp src/ot/dot.cpp src/opprf/opprf.cpp src/puda/puda.cpp src/shamirss/shamirss.cpp src/utilities/aes.cpp src/utilities/utilities.cpp'
SH = '''#!/bin/bash
# exit 0: the property holds on what is tried here; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
g++ -g -O1 -w -include cstdint -Iincludes %s "$d/demo.cpp" %s -o "$t/demo" -lgmpxx -lgmp -lcrypto || { echo "demo does not build"; exit 3; }
ASAN_OPTIONS=detect_leaks=0:halt_on_error=1 timeout 250 "$t/demo"
r=$?
find "$t" -delete
exit $r
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <vector>
#define CHECK(c) do { if(!(c)) { printf("FAILED: %s (line %d)\\n", #c, __LINE__); exit(1); } } while(0)
'''
def sh(cmd, cwd): return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True)
def build(w):
    return sh('cmake -S %s -B %s/_build -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ "-DCMAKE_CXX_FLAGS=-include cstdint" && ninja -j4 -C %s/_build' % (w, w, w), w)
def tests(w):
    sh('mkdir -p _build/reports; cd _build; stdbuf -o0 ctest --test-dir %s/_build -j4 --timeout 300 --test-output-size-passed 10000000 --test-output-size-failed 10000000 --output-junit %s/_build/reports/ctest.xml; python3 /opt/vp/cases.py %s/_build/reports/ctest.xml > %s/_build/reports/cases.txt; python3 /opt/vp/results.py %s/out.json lines:%s/_build/reports/cases.txt' % ((w,) * 6), w)
    return set(json.load(open(w + '/out.json'))['passed'])
base = json.load(open('/opt/vp/BASELINE.json'))
STABLE = set(base.get('passed') or base.get('stable') or base)
def one(item):
    sid, s = item
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        w = d + '/r'
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        f = d + '/seed'; os.makedirs(f)
        open(f + '/demo.cpp', 'w').write(PRE + s['demo'])
        open(f + '/demo.sh', 'w').write(SH % (s.get('flags', ''), s.get('srcs', ALL)))
        os.chmod(f + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % f, w)
        if r.returncode: return sid, 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-600:]
        for n, old, new in s['edits']:
            p = w + '/' + n; t = open(p).read()
            if t.count(old) != 1: return sid, 'pattern found %d times in %s: %s' % (t.count(old), n, old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', w).stdout
        r = build(w)
        if r.returncode: return sid, 'does not build: ' + (r.stdout + r.stderr)[-800:]
        for k in range(2):
            miss = STABLE - tests(w)
            if miss: return sid, 'tests notice: ' + ', '.join(sorted(miss)[:5])
        r = sh('bash %s/demo.sh' % f, w)
        if r.returncode == 0: return sid, 'demo does not notice'
        if r.returncode == 3 and not s.get('nobuild'): return sid, 'demo does not build with the change ' + r.stderr[-500:]
        open(f + '/patch.diff', 'w').write(diff)
        dst = OUT + '/' + sid
        if os.path.exists(dst): shutil.rmtree(dst)
        shutil.copytree(f, dst)
        return sid, 'KEPT  ' + (r.stdout.strip().splitlines() or [''])[-1][:150] + ' rc=%d' % r.returncode
    except Exception as e: return sid, 'error %r' % e
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    ns = {}
    a = sys.argv[1:]; j = 4
    if '-j' in a: i = a.index('-j'); j = int(a[i+1]); del a[i:i+2]
    exec(open(a[0]).read(), ns)
    items = [(k, v) for k, v in ns['SEEDS'].items() if len(a) == 1 or k in a[1:]]
    with ThreadPoolExecutor(j) as ex:
        for sid, m in ex.map(one, items): print(sid, m, flush=True)
if __name__ == '__main__': main()
