#!/usr/bin/env python3
"""Development aid (no check uses it): behaviour-preserving rewrites of /repo on
which every check has to stay quiet, and small breakages on which the named
checks have to report.  tools/variants.py [-j N] [NAME-PREFIX...]"""
import sys, os, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
def load():
    out = {}
    for f in sorted(glob.glob(HERE + '/variants/*.py')):
        ns = {}
        exec(open(f).read(), ns)
        for k, v in ns['VARIANTS'].items(): out[k] = v
    return out
def run(name, spec):
    """spec: dict(edits=[(file, old, new)...], ids=[...], expect=0 or 1)"""
    d = tempfile.mkdtemp(prefix='var-', dir='/tmp')
    res = []
    try:
        w = d + '/r'
        shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('_build', '.git', 'build'))
        for f, old, new in spec['edits']:
            p = w + '/' + f; s = open(p).read()
            if s.count(old) < 1: return name, [('-', 'PATTERN NOT FOUND in ' + f, 'bad')]
            open(p, 'w').write(s.replace(old, new, 1))
        for i in spec['ids']:
            r = subprocess.run(['python3', VERIF + '/check.py', i], env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=d), capture_output=True, text=True)
            o = (r.stdout.strip().splitlines() or [''])
            ok = r.returncode == spec['expect'] if spec['expect'] == 0 else r.returncode == 1
            res.append((i, 'exit %d %s' % (r.returncode, '' if r.returncode == 0 else ' // '.join(o[:2])[:300]), 'ok' if ok else 'BAD'))
    finally: shutil.rmtree(d)
    if spec['expect'] == 1 and any(x[2] == 'ok' for x in res): res = [(a, b, 'ok' if c == 'ok' else 'quiet') for a, b, c in res]
    return name, res
def main():
    a = sys.argv[1:]; j = 2; v = '-v' in a
    a = [x for x in a if x != '-v']
    skip = a[a.index('--skip') + 1].split(',') if '--skip' in a else []
    if skip: del a[a.index('--skip'):a.index('--skip') + 2]
    if a[:1] == ['-j']: j = int(a[1]); a = a[2:]
    vs = {k: s for k, s in load().items() if not a or any(k.startswith(x) for x in a)}
    for x in vs.values(): x['ids'] = [i for i in x['ids'] if i not in skip]
    bad = 0
    with ThreadPoolExecutor(j) as ex:
        for name, res in ex.map(lambda kv: run(*kv), vs.items()):
            b = [r for r in res if r[2] in ('BAD', 'bad')]
            bad += bool(b)
            print(('BAD ' if b else 'ok  ') + name, '; '.join('%s %s' % (r[0], r[1]) for r in (res if v or not b and vs[name]['expect'] else b)), flush=True)
    print('%d variants, %d bad' % (len(vs), bad))
if __name__ == '__main__': main()
