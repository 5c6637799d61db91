"""Long counting loops.  The state changed by an iteration is conjectured to be
affine in the iteration number k (integers, field and group elements); the
conjecture is proved by analysing one iteration at a symbolic k (induction).
The iteration in which the loop is left follows from the exit tests, which must
be equalities affine in k; tests on k alone split the range.  Skipped
iterations are exactly those in which no exit test can hold; the iteration
that leaves the loop is then interpreted as usual."""
from . import alg, dd
from .alg import *
from .dd import AND, OR, NOT, isF, isT, ite, leaves, N
from . import interp as I

CNT = [0]
def one(v, g):
    ls = leaves(v, g)
    if len(ls) == 1: return ls[0][1]
    f = ls[0][1]
    if all(dd.same(x, f) for _, x in ls): return f
    return None
def delta(a, b):
    if isinstance(a, bool) or isinstance(b, bool): return None
    if isI(a) and isI(b): return isub(b, a)
    if isinstance(a, FE) and isinstance(b, FE): return fsub(b, a)
    if isinstance(a, GP) and isinstance(b, GP): return gadd(b, gneg(a))
    return None
def zero(d): return (d == 0 if isinstance(d, int) else isinstance(d, FE) and fzero(d) or isinstance(d, GP) and gzero(d))
def same(a, b):
    if isI(a) and isI(b): return isub(a, b) == 0
    if isinstance(a, FE) and isinstance(b, FE): return feq(a, b)
    if isinstance(a, GP) and isinstance(b, GP): return geq(a, b)
    return dd.same(a, b)
def at(v, d, k):
    """v + k d for an integer class k"""
    if isI(v): return iadd(v, imul(d, k))
    if isinstance(v, FE): return fadd(v, fmul(d, to_fe(v.p, k)))
    return gadd(v, gmul(d, to_fe(v.n, k)))
def mentions(x, k):
    if isinstance(x, Poly): return k.id in dvars(x.d)
    if isinstance(x, FE): return k.id in fvars(x)
    if isinstance(x, GP): return any(k.id in fvars(f) for f in x.d.values())
    return False

class Bail(Exception): pass

class Trial:
    """one speculative execution that can be undone"""
    def __init__(self, m):
        self.m = m; fr = m.fr
        self.s = (m.g, m.gone, list(m.exc), list(m.events), list(m.draws), list(m.shuffles), list(m.allocs), fr.rv, fr.ret, [list(l) for l in fr.loops], list(fr.temps), dict(fr.locals))
        m.journal = []; I.TR[0] = []
    def changed(self):
        seen = {}; 
        for o, old in self.m.journal: seen.setdefault(id(o), (o, old))
        return list(seen.values())
    def undo(self):
        m = self.m; fr = m.fr
        for o, old in reversed(m.journal):
            if isinstance(o, I.Vec): o.items[:] = old
            else: o.v = old
        m.journal = None; I.TR[0] = None
        m.g, m.gone = self.s[0], self.s[1]
        m.exc[:] = self.s[2]; m.events[:] = self.s[3]; m.draws[:] = self.s[4]; m.shuffles[:] = self.s[5]; m.allocs[:] = self.s[6]
        fr.rv, fr.ret = self.s[7], self.s[8]
        for l, o in zip(fr.loops, self.s[9]): l[:] = o
        fr.temps[:] = self.s[10]; fr.locals.clear(); fr.locals.update(self.s[11])


def iterate(m, cond, inc, body):
    """body, increment, then the condition of the next iteration"""
    fr = m.fr
    fr.loops[-1][1] = False
    m.st(body)
    m.g = OR(m.g, fr.loops[-1][1])
    if inc is not None and not isF(m.g): m.full(m.ev, inc)
    if cond is not None and not isF(m.g):
        c = m.truth(m.full(m.rv, cond))
        fr.loops[-1][2] = OR(fr.loops[-1][2], AND(m.g, NOT(c)))
        m.g = AND(m.g, c)

def cofactor(x, aid, val):
    if not isinstance(x, N): return x
    memo = {}
    def rec(x):
        if not isinstance(x, N) or x.a > aid: return x
        r = memo.get(id(x))
        if r is None:
            r = (x.hi if val else x.lo) if x.a == aid else dd.mk(x.a, rec(x.hi), rec(x.lo)); memo[id(x)] = r
        return r
    return rec(x)
def solve(p, k):
    """the class q with p = 0 iff k = q"""
    c = p.d.get((k.id,), 0)
    rest = P({mo: x for mo, x in p.d.items() if mo != (k.id,)})
    if abs(c) != 1 or mentions(rest, k): return None
    return ineg(rest) if c == 1 else rest
def change(a, k, hi):
    """first k > 0 at which an atom on k alone differs from its value at 0 (or hi)"""
    p = a.data
    if any(len(mo) > 1 for mo in p.d): raise Bail()
    c0, c1 = p.d.get((), 0), p.d[(k.id,)]
    if a.kind == 'ieq0':
        if c0 % c1: return hi
        r = -c0 // c1
        return hi if r < 0 or r >= hi else 1 if r == 0 else r
    f = lambda i: c0 + c1 * i < 0
    v = f(0)
    if f(hi) == v: return hi
    lo, h = 0, hi
    while h - lo > 1:
        mid = (lo + h) // 2
        if f(mid) == v: lo = mid
        else: h = mid
    return h
def support(x):
    seen = set(); out = set()
    def walk(x):
        if isinstance(x, N) and id(x) not in seen:
            seen.add(id(x)); out.add(x.a); walk(x.hi); walk(x.lo)
    walk(x)
    return out

LIMIT = 1 << 20
TRYAT = (0, 1, 2, 3, 4, 8, 16, 32, 64, 128)
def try_accel(m, s, cond, inc, body):
    """before the body of a loop whose condition held: skip iterations"""
    if m.journal is not None or s.get('cv') or isF(m.g): return
    fr = m.fr; g = m.g
    tr = Trial(m)
    try:
        try:
            iterate(m, cond, inc, body)
            if isF(m.g): raise Bail()
            fresh = {id(o) for o in I.TR[0]}
            first = {id(o): (o, old) for o, old in tr.changed() if id(o) not in fresh}
            if any(isinstance(o, I.Vec) for o, _ in first.values()): raise Bail()
            v1 = {i: o.v for i, (o, _) in first.items()}
            g1 = m.g
            iterate(m, cond, inc, body)
            g2 = m.g
            if isF(g2): raise Bail()
            fresh = {id(o) for o in I.TR[0]}
            state = []
            for o, old in tr.changed():
                if id(o) in fresh: continue
                if isinstance(o, I.Vec): raise Bail()
                a, c2 = one(old, g), one(o.v, g2)
                b = one(v1[id(o)], g1) if id(o) in first else a
                if a is None or b is None or c2 is None: raise Bail()
                if dd.same(a, b) and dd.same(b, c2): continue
                d1, d2 = delta(a, b), delta(b, c2)
                if d1 is None or d2 is None or not same(d1, d2): raise Bail()
                state.append((o, a, d1))
            if len(m.draws) != len(tr.s[4]) or len(m.exc) != len(tr.s[2]) or len(m.allocs) != len(tr.s[6]): raise Bail()
            state = [x for x in state if not zero(x[2])]
            if not state: raise Bail()
        finally: tr.undo()
        def run(k):
            """the iteration k: (exit guard, atoms on k)"""
            t = Trial(m); mark = len(dd.ATOMS)
            try:
                for o, v, d in state:
                    m.journal.append((o, o.v)); o.v = at(v, d, V(k))
                for l in fr.loops[-1:]: l[0] = l[1] = l[2] = False
                iterate(m, cond, inc, body)
                ev = list(m.events)
                if len(m.draws) != len(t.s[4]) or len(m.exc) != len(t.s[2]): raise Bail()
                ok = not isF(m.g)
                fresh = {id(o) for o in I.TR[0]}
                known = {id(o) for o, _, _ in state}
                for o, v, d in state:
                    x = one(o.v, m.g)
                    if x is None or not same(x, at(v, d, iadd(V(k), 1))): ok = False
                for o, old in t.changed():
                    if id(o) in known or id(o) in fresh: continue
                    if isinstance(o, I.Vec): raise Bail()
                    x, y = one(o.v, m.g), one(old, g)
                    if x is None or y is None or not (x is y or same(x, y)): ok = False
                X = AND(g, NOT(m.g))
                return ok, X, [a for a in dd.ATOMS[mark:] if mentions(a.data, k)], ev
            finally: t.undo()
        def new(n):
            CNT[0] += 1
            return var('int', 'k%d' % CNT[0], 0, n - 1, name='k%d' % CNT[0])
        n = LIMIT
        for _ in range(6):
            k = new(n)
            ok, X, atoms, ev = run(k)
            n2 = n; rest = []
            for a in atoms:
                if a.kind not in ('ieq0', 'lt0') or not isinstance(a.data, Poly): rest.append(a); continue
                if dvars(a.data.d) == {k.id}: n2 = min(n2, change(a, k, n))
                else: rest.append(a)
            if n2 == n: break
            n = n2
            if n < 3: raise Bail()
        else: raise Bail()
        if not ok: raise Bail()
        inside = False; q = None
        sup = support(X)
        rest = [a for a in rest if a.id in sup]
        if rest:
            if len(rest) > 1: raise Bail()
            a = rest[0]
            if a.kind != 'ieq0' or not isinstance(a.data, Poly): raise Bail()
            q = solve(a.data, k)
            if q is None: raise Bail()
            if not isF(AND(g, cofactor(X, a.id, False))): raise Bail()
            inside = AND(AND(g, cofactor(X, a.id, True)), AND(NOT(m.ilt0(q)), m.ilt0(isub(q, n))))
        elif not isF(X): raise Bail()
        m.notes.add('accelerated loop at %s (%d iterations)' % (m.loc(), n))
        known = {(e.kind, e.loc) for e in m.events}
        for e in ev[len(m.events):]:
            if (e.kind, e.loc) not in known: m.events.append(I.Event(e.kind, e.msg, AND(g, e.guard), e.loc, e.stack))
        m.g = g
        for o, v, d in state:
            end = at(v, d, n)
            if not isF(inside): end = ite(inside, at(v, d, q), end)
            m.store(o, end)
    except Bail: pass
    finally: m.g = g
