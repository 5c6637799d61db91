"""Obligations: run the abstract interpreter over a scenario, compare the
abstract results with the specification, collect evidence and violations."""
import os, json, time, hashlib
from . import alg, dd, ir, facts
from . import interp as I
from .alg import *
from .dd import AND, OR, NOT, isF, isT, ite, leaves, N

VERIF = ir.VERIF
REPO = ir.REPO
BAD = ('uninit', 'missing-return', 'oob', 'null-deref', 'use-after-free', 'double-free', 'div-zero', 'dangling-curve', 'encode-inf',
       'bad-free', 'int-overflow', 'bad-shift', 'neg-size', 'abort', 'ub')

class Ctx:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.obl = []            # names of obligations decided
        self.violations = []
        self.undecided = []
        self.functions = {}
        self.sites = 0
        self.known = []
        self.extra = {}
        self.assume = []
        self.samples = []
        self.seen = set()
        self.notes = set()
        self.rule = ''
        self.progs = {}
        self.usrs = set()
    # ------------------------------------------------ programs
    def program(self, files, flags=('-DNDEBUG',)):
        k = (tuple(files), tuple(flags))
        if k not in self.progs:
            p = ir.Program(list(files), flags)
            if p.errors:
                for f, e in p.errors:
                    raise ir.ExtractError('%s does not compile:\n%s' % (f, e[-2000:]))
            p.finish()
            self.progs[k] = p
        return self.progs[k]
    def witness(self, name, *src, flags=('-DNDEBUG',)):
        return self.program([VERIF + '/witness/' + name] + [REPO + '/' + s for s in src], flags)
    # ------------------------------------------------ recording
    def violation(self, what, where, detail='', key=None):
        k = key or (what, where)
        if k in self.seen: return
        self.seen.add(k)
        if I.AGES and '(after many operations' not in what: what = '%s (after many operations: %s)' % (what, ', '.join('%s has reached %d' % (I.TOUCHED.get(c, (c,))[0], v) for c, v in I.AGES.items()))
        self.violations.append({'what': what, 'where': where, 'detail': detail})
    def obligation(self, name):
        self.obl.append(name)
        if len(self.samples) < 6 or (len(self.obl) % 97 == 0 and len(self.samples) < 12): self.samples.append(name)
    def absorb(self, m):
        for f, n in m.calls.items():
            if not f.startswith('w_'): self.functions[f] = self.functions.get(f, 0) + n
        self.notes |= {n for n in m.notes if isinstance(n, str)}
        self.usrs |= m.usrs
    def undecide(self, name, why):
        self.undecided.append('%s: %s' % (name, why))
    # ------------------------------------------------ scenarios
    def scenario(self, name, fn, partitions=256):
        """fn(assume) runs the analysis once; a NeedSplit partitions the traces on a predicate"""
        base = dict(dd.ASSUME)
        stack = [dict(base)]
        n = 0
        while stack:
            asm = stack.pop()
            n += 1
            if n > partitions:
                self.undecide(name, 'more than %d trace partitions' % partitions); break
            dd.ASSUME.clear(); dd.ASSUME.update(asm)
            path = [(dd.ATOMS[k], v) for k, v in asm.items()]
            try:
                if asm and not facts.feasible(None, path): continue
                fn()
            except I.NeedSplit as s:
                a = s.cond
                if a.id in asm:
                    self.undecide(name, 'cannot partition on %s (%s)' % (a, s.why)); continue
                for v in (False, True):
                    x = dict(asm); x[a.id] = v; stack.append(x)
            except (I.Unsupported, I.Budget) as u:
                if not self.fatal(name): self.undecide(name, str(u))
            except facts.Limit as u:
                self.undecide(name, str(u))
            except RecursionError:
                self.undecide(name, 'nesting too deep')
            except Exception:
                if not self.fatal(name): raise
        dd.ASSUME.clear(); dd.ASSUME.update(base)
    def fatal(self, name):
        """the analysis stopped after an operation that ends every path: that operation is the finding"""
        m = I.LAST[0]
        if m is None or not isF(m.g): return False
        ok = False
        for e in m.events:
            if not e.kill: continue
            try: p = facts.possible(m, e.guard)
            except facts.Limit: p = None
            if p is not None:
                self.violation('%s: %s: %s' % (name, e.kind, e.msg), e.loc, 'called from %s, when %s' % (' < '.join(e.stack), self.pathstr(p)), key=(e.kind, e.msg, e.loc))
                ok = True
        return ok
    def pathstr(self, path):
        extra = [(dd.ATOMS[k], v) for k, v in dd.ASSUME.items()]
        return facts.show(extra + path)
    def parallel(self, jobs, procs=8):
        """run independent (name, closure) scenarios in forked processes and merge what they recorded"""
        import pickle, tempfile, shutil
        d = tempfile.mkdtemp(prefix='verif-')
        jobs = list(jobs)
        running = {}
        nxt = 0
        fields = ('obl', 'violations', 'undecided', 'samples')
        def collect(pid, st):
            i = running.pop(pid)
            f = os.path.join(d, '%d' % i)
            try:
                r = pickle.load(open(f, 'rb'))
            except Exception:
                self.undecide(jobs[i][0], 'analysis process ended with status %s' % st); return
            if r.get('error'): self.undecide(jobs[i][0], r['error'])
            self.obl += r['obl']; self.undecided += r['undecided']
            for v in r['violations']: self.violation(v['what'], v['where'], v['detail'])
            for k, n in r['functions'].items(): self.functions[k] = self.functions.get(k, 0) + n
            self.notes |= r['notes']; self.usrs |= r['usrs']; I.TOUCHED.update(r['touched'])
            if len(self.samples) < 12: self.samples += r['samples'][:1]
            for k, v in r['extra'].items():
                if isinstance(v, int) and isinstance(self.extra.get(k), int): self.extra[k] += v
                elif isinstance(v, list) and isinstance(self.extra.get(k), list): self.extra[k] += v
                else: self.extra[k] = v
        try:
            while nxt < len(jobs) or running:
                while nxt < len(jobs) and len(running) < procs:
                    pid = os.fork()
                    if pid == 0:
                        rc = 0
                        try:
                            self.obl = []; self.violations = []; self.undecided = []; self.functions = {}; self.samples = []; self.notes = set(); self.usrs = set()
                            self.extra = {}; self.seen = set()
                            err = None
                            try: self.scenario(*jobs[nxt])
                            except BaseException as e:
                                err = '%s: %s' % (type(e).__name__, e)
                                if os.environ.get('VERIF_DEBUG'):
                                    import traceback; traceback.print_exc()
                            pickle.dump({'obl': self.obl, 'violations': self.violations, 'undecided': self.undecided, 'functions': self.functions,
                                         'samples': self.samples, 'notes': self.notes, 'usrs': self.usrs, 'extra': self.extra, 'error': err, 'touched': I.TOUCHED}, open(os.path.join(d, '%d' % nxt), 'wb'))
                        except BaseException: rc = 3
                        os._exit(rc)
                    running[pid] = nxt; nxt += 1
                pid, st = os.wait()
                if pid in running: collect(pid, st)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    def equal(self, m, name, actual, expected, where, care=True):
        self.obligation(name)
        d = facts.diff(m, care, actual, expected)
        for path, a, e in d[:1]:
            self.violation('%s: the result is %s instead of %s' % (name, short(a), short(e)), where, 'when ' + self.pathstr(path))
        return not d
    def holds(self, m, name, guard, where, what, care=True):
        """guard must be true wherever care is"""
        self.obligation(name)
        bad = AND(care, NOT(guard))
        p = facts.possible(m, bad)
        if p is not None:
            self.violation('%s: %s' % (name, what), where, 'when ' + self.pathstr(p))
            return False
        return True
    def clean(self, m, name, kinds=None, care=True, count=True):
        """no undesired event on any feasible path"""
        if count: self.obligation(name + ': no undefined or erroneous operation')
        ok = True
        for e in m.events:
            if kinds is not None and e.kind not in kinds: continue
            p = facts.possible(m, AND(care, e.guard))
            if p is not None:
                self.violation('%s: %s: %s' % (name, e.kind, e.msg), e.loc, 'called from %s, when %s' % (' < '.join(e.stack), self.pathstr(p)), key=(e.kind, e.msg, e.loc))
                ok = False
        return ok
    def noexc(self, m, name, care=True):
        self.obligation(name + ': returns normally')
        ok = True
        for g, kind, ty, loc in m.exc:
            if any(e.kind == kind for e in m.events): pass
            p = facts.possible(m, AND(care, g))
            if p is not None:
                self.violation('%s: ends in %s instead of returning' % (name, kind), loc, 'when ' + self.pathstr(p))
                ok = False
        return ok

def short(x, n=300):
    s = repr(x) if not isinstance(x, int) or isinstance(x, bool) or abs(x) < 1 << 64 else hex(x)
    return s if len(s) <= n else s[:n] + '...'

def where(prog, qn):
    fs = [f for f in prog.fns.values() if f['qn'] == qn]
    if not fs:
        c, _, n = qn.rpartition('::')
        if c.split('::')[-1] == n: fs = [f for f in prog.fns.values() if f['qn'] == c + '::<ctor>']
    return loc_of(fs[0]) if fs else qn
def loc_of(f):
    l = f.get('loc', '?')
    p = l.rsplit(':', 1)[0]
    if p.startswith(REPO + '/'): p = p[len(REPO) + 1:]
    return '%s (%s)' % (p, f['qn'])
