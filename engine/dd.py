"""Decision diagrams over canonical predicates: guards are diagrams over
True/False, gated values are diagrams over abstract values."""
import sys
from . import alg
sys.setrecursionlimit(20000)

class Atom:
    __slots__ = ('id', 'kind', 'data', 'name', 'bit')
    def __repr__(self): return self.name
ATOMS = []
_AK = {}
class N:
    __slots__ = ('a', 'hi', 'lo')
    def __repr__(self): return 'ite(%s, %r, %r)' % (ATOMS[self.a], self.hi, self.lo)
_NK = {}
ASSUME = {}       # atom id -> bool  (the current trace partition)
class _DC:
    def __repr__(self): return 'DC'
DC = _DC()

def reset():
    del ATOMS[:]; _AK.clear(); _NK.clear(); ASSUME.clear(); _AND.clear(); _NOT.clear()

def atom(kind, data, name=None):
    a = _AK.get((kind, data))
    if a is None:
        a = Atom(); a.id = len(ATOMS); a.kind = kind; a.data = data; a.name = name or '%s(%r)' % (kind, data)
        a.bit = kind == 'bit'
        ATOMS.append(a); _AK[(kind, data)] = a
    return a

def lit(a, pos=True):
    """guard that is true when the atom has the given polarity"""
    if a.id in ASSUME: return ASSUME[a.id] == pos
    return mk(a.id, True, False) if pos else mk(a.id, False, True)

def lkey(x):
    if isinstance(x, N): return ('n', id(x))
    if isinstance(x, (int, str, bytes, tuple, float)): return (type(x).__name__ if isinstance(x, (str, float)) else 'i', x)
    return ('o', id(x))

def same(x, y):
    if x is y: return True
    if isinstance(x, int) and isinstance(y, int): return x == y
    if isinstance(x, (tuple, str, bytes)) and type(x) is type(y): return x == y
    if isinstance(x, alg.FE) and isinstance(y, alg.FE) and (x.den != alg.ONE or y.den != alg.ONE): return alg.feq(x, y)
    return False

_KEEP = []
def mk(a, hi, lo):
    if hi is DC: return lo
    if lo is DC: return hi
    if same(hi, lo): return hi
    if isinstance(hi, alg.GP) and isinstance(lo, alg.GP) and ATOMS[a].bit:
        r = bitmerge(ATOMS[a], hi, lo)
        if r is not None: return r
    k = (a, lkey(hi), lkey(lo))
    r = _NK.get(k)
    if r is None:
        r = N(); r.a = a; r.hi = hi; r.lo = lo; _NK[k] = r
    return r

def bitmerge(a, hi, lo):
    """gate by a 0/1 unknown: b*hi + (1-b)*lo"""
    v = a.data.id
    def at(x, c):
        if not any(v in alg.fvars(f) for f in x.d.values()): return x
        return alg.G(x.n, {k: alg.fsubst(f, {v: alg.fconst(x.n, c)}) for k, f in x.d.items()})
    hi, lo = at(hi, 1), at(lo, 0)
    d = alg.gadd(hi, alg.gneg(lo))
    if any(alg.VARS[v].bit for f in d.d.values() for v in alg.fvars(f)): return None
    b = alg.fvar(hi.n, a.data)
    return alg.gadd(lo, alg.gmul(d, b))

# ---------------------------------------------------------------- guards
_AND = {}
_NOT = {}
def NOT(x):
    if isinstance(x, N):
        r = _NOT.get(id(x))
        if r is None:
            r = mk(x.a, NOT(x.hi), NOT(x.lo)); _NOT[id(x)] = r
            if isinstance(r, N): _NOT[id(r)] = x
        return r
    return not x
def AND(x, y):
    if x is y: return x
    if not isinstance(x, N): return y if x else False
    if not isinstance(y, N): return x if y else False
    k = (id(x), id(y)) if id(x) < id(y) else (id(y), id(x))
    r = _AND.get(k)
    if r is None:
        a = min(x.a, y.a)
        xh, xl = (x.hi, x.lo) if x.a == a else (x, x)
        yh, yl = (y.hi, y.lo) if y.a == a else (y, y)
        r = mk(a, AND(xh, yh), AND(xl, yl)); _AND[k] = r
    return r
def OR(x, y): return NOT(AND(NOT(x), NOT(y)))
def implies(x, y): return AND(x, NOT(y)) is False or not isinstance(AND(x, NOT(y)), N) and not AND(x, NOT(y))
def isF(g): return not isinstance(g, N) and not g
def isT(g): return not isinstance(g, N) and bool(g)

# ---------------------------------------------------------------- apply
def ap(care, f, *args):
    """apply f to the leaves of args, only where care holds"""
    if not any(isinstance(x, N) for x in args):
        return f(*args)
    memo = {}
    def rec(care, args):
        if not isinstance(care, N) and not care: return DC
        top = None
        for x in args:
            if isinstance(x, N) and (top is None or x.a < top): top = x.a
        if top is None:
            k = ('L',) + tuple(map(lkey, args))
            if k in memo: return memo[k]
            r = f(*args); memo[k] = r
            return r
        if isinstance(care, N) and care.a < top:
            k = (id(care),) + tuple(map(lkey, args))
            if k in memo: return memo[k]
            # values do not depend on this atom: the care set is the union
            if isF(care.hi): r = rec(care.lo, args)
            elif isF(care.lo): r = rec(care.hi, args)
            else: r = rec(OR(care.hi, care.lo), args)
            memo[k] = r
            return r
        k = (id(care) if isinstance(care, N) else 1,) + tuple(map(lkey, args))
        if k in memo: return memo[k]
        ch, cl = (care.hi, care.lo) if isinstance(care, N) and care.a == top else (care, care)
        ah = [x.hi if isinstance(x, N) and x.a == top else x for x in args]
        al = [x.lo if isinstance(x, N) and x.a == top else x for x in args]
        h = rec(ch, ah); l = rec(cl, al)
        r = ite(lit(ATOMS[top]), h, l) if isinstance(h, N) or isinstance(l, N) else mk(top, h, l)
        memo[k] = r
        return r
    return rec(care, args)

def ite(c, x, y):
    if not isinstance(c, N): return x if c else y
    if same(x, y): return x
    if x is DC: return y
    if y is DC: return x
    memo = {}
    def rec(c, x, y):
        if not isinstance(c, N): return x if c else y
        if same(x, y): return x
        k = (id(c), lkey(x), lkey(y))
        r = memo.get(k, memo)
        if r is not memo: return r
        a = c.a
        if isinstance(x, N) and x.a < a: a = x.a
        if isinstance(y, N) and y.a < a: a = y.a
        def s(v, w): return (v.hi if w else v.lo) if isinstance(v, N) and v.a == a else v
        r = mk(a, rec(s(c, 1), s(x, 1), s(y, 1)), rec(s(c, 0), s(x, 0), s(y, 0)))
        memo[k] = r
        return r
    return rec(c, x, y)

def restrict(care, v):
    """drop the parts of v outside care"""
    if not isinstance(v, N) or not isinstance(care, N): return v
    return ap(care, lambda x: x, v)

def leaves(v, care=True):
    """[(guard, leaf)] with merged guards"""
    if not isinstance(v, N): return [] if isF(care) else [(care, v)]
    import heapq
    out = {}; guard = {id(v): care}; node = {id(v): v}
    heap = [(v.a, id(v))]
    def reach(x, g):
        if isF(g): return
        if not isinstance(x, N):
            k = lkey(x)
            if k in out: out[k] = (OR(out[k][0], g), x)
            else: out[k] = (g, x)
            return
        i = id(x)
        if i in guard: guard[i] = OR(guard[i], g)
        else:
            guard[i] = g; node[i] = x; heapq.heappush(heap, (x.a, i))
    while heap:
        a, i = heapq.heappop(heap)
        x = node[i]; g = guard[i]; l = lit(ATOMS[a])
        reach(x.hi, AND(g, l)); reach(x.lo, AND(g, NOT(l)))
    return list(out.values())

def paths(v, want=None):
    """all paths to leaves: [([(atom, bool)], leaf)]"""
    out = []
    def rec(v, p):
        if not isinstance(v, N):
            out.append((list(p), v)); return
        p.append((ATOMS[v.a], True)); rec(v.hi, p); p.pop()
        p.append((ATOMS[v.a], False)); rec(v.lo, p); p.pop()
    rec(v, [])
    return out
