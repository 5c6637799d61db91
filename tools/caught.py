#!/usr/bin/env python3
"""Development aid: which planted bugs of seeded/ the check of their property catches.
tools/caught.py [-j N] [-a] [ID-PREFIX...]   (-a: all checks)"""
import sys, os, subprocess, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
def run(a):
    sid, pids = a
    d = tempfile.mkdtemp(prefix='cau-', dir='/tmp'); w = d + '/r'; out = []
    try:
        shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('_build', '.git', 'build'))
        r = subprocess.run(['patch', '-p1', '-s', '-i', '%s/seeded/%s/patch.diff' % (VERIF, sid)], cwd=w, capture_output=True, text=True)
        if r.returncode: return sid, [('-', 'patch does not apply ' + r.stdout, 0)]
        for p in pids:
            r = subprocess.run(['python3', VERIF + '/check.py', p], env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=d), capture_output=True, text=True)
            out.append((p, r.returncode, (r.stdout.strip().splitlines() or [''])[:3]))
    finally: shutil.rmtree(d)
    return sid, out
if __name__ == '__main__':
    a = sys.argv[1:]; j = 3; al = '-a' in a
    a = [x for x in a if x != '-a']
    if a[:1] == ['-j']: j = int(a[1]); a = a[2:]
    from engine.registry import CHECKS
    todo = []
    for s in sorted(os.listdir(VERIF + '/seeded')):
        if a and not any(s.startswith(x) for x in a): continue
        p = json.load(open('%s/seeded/%s/meta.json' % (VERIF, s)))['property']
        todo.append((s, sorted(CHECKS) if al else [p] if p in CHECKS else []))
    with ThreadPoolExecutor(j) as ex:
        for sid, out in ex.map(run, todo):
            if al: print(sid, ' '.join('%s%s' % (p, '' if c == 1 else '(exit %d)' % c) for p, c, _ in out if c), flush=True)
            else: print('ok  ' if any(c == 1 for _, c, _ in out) else 'MISS', sid, [(p, c, ' // '.join(o)[:230]) for p, c, o in out], flush=True)
