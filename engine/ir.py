"""Program database: extracted translation units, linked by USR."""
import os, subprocess, json, hashlib, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
FLAGS = ['-std=gnu++17', '-include', 'cstdint', '-I' + REPO + '/includes',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w']

class ExtractError(Exception): pass

def ensure_extractor():
    src = os.path.join(VERIF, 'extract', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'irx-' + h)
    if os.path.exists(exe): return exe
    os.makedirs(BUILD, exist_ok=True)
    fl = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    tmp = exe + '.%d' % os.getpid()
    cmd = ['/usr/bin/clang++', '-O1'] + fl + ['-fno-rtti', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise ExtractError('building the extractor failed:\n' + r.stdout[-3000:])
    os.replace(tmp, exe)
    return exe

SHARE = None
def share():
    """one extraction per file and run: the processes of a run share what the first of them extracted"""
    global SHARE
    import tempfile, atexit, shutil
    me = os.getpid()
    d = SHARE = tempfile.mkdtemp(prefix='verif-ir-')
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(d, ignore_errors=True))
def extract(path, flags=()):
    if SHARE is None: return extract1(path, flags)
    import hashlib, fcntl, pickle
    f = os.path.join(SHARE, hashlib.sha256(repr((path, tuple(flags))).encode()).hexdigest())
    with open(f + '.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if os.path.exists(f): return pickle.load(open(f, 'rb'))
        r = extract1(path, flags)
        pickle.dump(r, open(f + '.tmp', 'wb')); os.rename(f + '.tmp', f)
        return r
def extract1(path, flags=()):
    exe = ensure_extractor()
    cmd = [exe, REPO + '/:' + VERIF + '/witness/', path, '--'] + FLAGS + list(flags)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.returncode, r.stdout, r.stderr.decode('utf8', 'replace')

class Program:
    def __init__(self, files, flags=('-DNDEBUG',)):
        self.fns = {}; self.protos = {}; self.vars = {}; self.recs = {}; self.enums = {}
        self.alldefs = {}; self.modcache = {}; self.files = list(files)
        self._nd = {}; self._ht = {}; self._dv = {}
        self.errors = []
        ensure_extractor()
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda f: extract(f, flags), files))
        for f, (rc, out, err) in zip(files, res):
            if rc != 0:
                self.errors.append((f, err)); continue
            self.load(f, out)
        for f in self.fns.values(): f['_T']
    def load(self, path, out):
        ents = [json.loads(l) for l in out.splitlines()]
        T = None
        for e in ents:
            if e['e'] == 'types': T = e['types']
        for t in T: t['_T'] = T
        for e in ents:
            k = e['e']
            e['_T'] = T; e['_tu'] = path
            if k == 'fn':
                self.alldefs.setdefault(e['usr'], []).append(e)
                self.fns.setdefault(e['usr'], e)
            elif k == 'proto': self.protos.setdefault(e['usr'], e)
            elif k == 'var':
                o = self.vars.get(e['usr'])
                if o is None or (e['def'] and not o['def']) : self.vars[e['usr']] = e
                if e['def']: self.alldefs.setdefault(e['usr'], []).append(e)
            elif k == 'rec': self.recs.setdefault(e['usr'], e)
            elif k == 'enum': self.enums.setdefault(e['qn'], e)
    # ------------------------------------------------ queries
    def fn(self, usr): return self.fns.get(usr)
    def byname(self, qn, pred=None):
        r = [f for f in self.fns.values() if f['qn'] == qn and (pred is None or pred(f))]
        if not r: raise ExtractError('no definition of %s' % qn)
        return r
    def fnq(self, qn, n=None):
        r = self.byname(qn, (lambda f: len(f['params']) == n) if n is not None else None)
        if len(r) > 1: raise ExtractError('%s is ambiguous' % qn)
        return r[0]
    def ty(self, ty, n): return ty['_T'][ty[n]]
    def rec(self, ty): return self.recs.get(ty.get('usr'))
    def bases(self, ty):
        r = self.rec(ty)
        return [r['_T'][b] for b in r['bases']] if r else []
    def derives(self, ty, qn):
        if ty.get('k') != 'rec': return False
        k = (ty['usr'], qn)
        v = self._dv.get(k)
        if v is None:
            v = ty['qn'] == qn or any(self.derives(b, qn) for b in self.bases(ty))
            self._dv[k] = v
        return v
    def allfields(self, ty):
        """[(name, type)] bases first"""
        r = self.rec(ty)
        if r is None: return []
        out = []
        for b in r['bases']: out += self.allfields(r['_T'][b])
        for i, f in enumerate(r['fields']): out.append((f['n'] or '#anon%d' % i, r['_T'][f['t']]))
        return out
    def fields(self, ty): return [n for n, _ in self.allfields(ty)]
    def _ctor(self, ty, flag):
        r = self.recs.get(ty.get('usr'))
        if r is None: return None
        u = ty['usr']
        k = (u, flag)
        v = self._ht.get(k, 0)
        if v == 0:
            v = None
            for f in self.fns.values():
                if f.get(flag) and f['_T'][f['rec']].get('usr') == u: v = f; break
            self._ht[k] = v
        return v
    def default_ctor(self, ty): return self._ctor(ty, 'dfltctor')
    def copy_ctor(self, ty): return self._ctor(ty, 'copyctor')
    def dtor(self, ty): return self._ctor(ty, 'dtor')
    def needs_dtor(self, ty):
        if ty.get('k') == 'arr': return self.needs_dtor(self.ty(ty, 'to'))
        if ty.get('k') != 'rec': return False
        u = ty['usr']
        v = self._nd.get(u)
        if v is None:
            self._nd[u] = False
            v = False
            q = ty['qn']
            if q in ('std::unique_ptr',): v = True
            elif q in ('std::vector', 'std::array'):
                a = ty.get('args')
                v = bool(a) and isinstance(a[0], int) and self.needs_dtor(ty['_T'][a[0]])
            else:
                r = self.rec(ty)
                if r:
                    d = self.dtor(ty)
                    if d is not None and not d.get('implicit') and not d.get('defaulted') and d['body'].get('c'): v = True
                    elif d is None and r['dtor_user'] and (ty['usr'] not in ('',)):
                        v = any(f.get('dtor') and f['_T'][f['rec']].get('usr') == u for f in self.fns.values())
                    if not v: v = any(self.needs_dtor(r['_T'][f['t']]) for f in r['fields'] if r['_T'][f['t']]['k'] in ('rec', 'arr'))
                    if not v: v = any(self.needs_dtor(r['_T'][b]) for b in r['bases'])
            self._nd[u] = v
        return v
    def needs_dtor_arr(self, ty): return self.needs_dtor(ty)
    def has_dtor_temps(self, e, T=None):
        return e.get('_dt', False) if T is None else False
    def mark_temps(self, T, node):
        """set _dt on nodes that contain a temporary with a destructor"""
        if isinstance(node, list):
            r = False
            for x in node: r = self.mark_temps(T, x) or r
            return r
        if not isinstance(node, dict): return False
        r = False
        for k, v in node.items():
            if k not in ('_T', '_dt') and isinstance(v, (dict, list)): r = self.mark_temps(T, v) or r
        if node.get('k') == 'mat' and self.needs_dtor(T[node['t']]): r = True
        if r: node['_dt'] = True
        return r
    def finish(self):
        for f in self.fns.values():
            if f['_tu'] and 'body' in f: self.mark_temps(f['_T'], f['body'])
    def ensure_static(self, v, fr): pass
