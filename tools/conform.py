#!/usr/bin/env python3
"""Test of the analysis itself: the interpreter's result for constant arguments
against the compiled program, over the C++ constructs in tools/conform/*.cpp."""
import os, sys, re, subprocess, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
os.environ['VERIF_REPO'] = HERE + '/conform'
sys.path.insert(0, V); sys.setrecursionlimit(20000)
from engine import ir, dd, interp as I, facts
from engine.dd import leaves
ARGS = [(1, 2), (5, 3), (4, 4), (0, 7), (-3, 2), (1000, -1)]
want = sys.argv[1:]
bad = n = 0
for f in sorted(os.listdir(HERE + '/conform')):
    if not f.endswith('.cpp'): continue
    p = HERE + '/conform/' + f; src = open(p).read()
    names = re.findall(r'^L (t_\w+)\(L a, L b\)', src, re.M)
    if want: names = [x for x in names if x[2:] in want]
    with tempfile.TemporaryDirectory() as d:
        main = '#include "%s"\n#include <cstdio>\nint main(){\n' % p
        for x in names:
            for a, b in ARGS: main += 'printf("%%ld\\n", %s(%d,%d));\n' % (x, a, b)
        open(d + '/m.cpp', 'w').write(main + '}\n')
        subprocess.check_call(['g++', '-std=gnu++17', '-w', '-o', d + '/m', d + '/m.cpp', '-lgmpxx', '-lgmp'])
        out = iter(subprocess.check_output([d + '/m'], text=True).split())
    pr = ir.Program([p]); pr.errors and print(pr.errors); pr.finish()
    fn = {g['qn']: g for g in pr.fns.values()}
    for x in names:
        r = []
        for a, b in ARGS:
            w = int(next(out)); n += 1
            try:
                m = I.Machine(pr); v = m.val(m.call_fn(fn[x], None, [a, b], None))
                ls = leaves(v, m.g)
                if len(ls) != 1 or not isinstance(ls[0][1], int) or int(ls[0][1]) != w: r.append('%s(%d,%d) = %d, analysis says %r' % (x, a, b, w, v))
                elif m.events: r.append('%s(%d,%d): event %s' % (x, a, b, m.events[0].msg))
            except Exception as e:
                r.append('%s: %s: %s' % (x, type(e).__name__, str(e)[:200]))
                if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
                for _ in range(ARGS.index((a, b)) + 1, len(ARGS)): next(out)
                break
        if r: bad += 1; print('BAD', r[0])
print(n, 'runs,', bad, 'functions differ')
