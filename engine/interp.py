"""Abstract interpreter over the extracted program.

Control flow is if-converted: a statement runs once under a guard (a decision
diagram over canonical predicates), every write is gated by it and values are
joined by gating.  Calls are analysed in the caller's context.  Recursion and
loops are bounded by the abstract values themselves (a loop ends when its
continuation guard is empty); see accel() for long search loops."""
from . import alg, dd
from .alg import *
from .dd import N, AND, OR, NOT, isF, isT, ap, ite, leaves, DC

def mod_of(v):
    """prime whose canonical residues the unknown ranges over"""
    if v.kind in ('mod', 'sqrt'): return v.data.p
    if v.kind in ('resid', 'cy'): return v.data[0]
    if v.kind in ('xof', 'yof', 'draw'): return v.hi + 1 if v.lo == 0 and v.hi > 1 << 100 else None
    return None
class Unsupported(Exception):
    """the analysis cannot follow this construct: no verdict"""
class NeedSplit(Exception):
    def __init__(self, cond, why): self.cond = cond; self.why = why
class Budget(Exception): pass

TR = [None]       # objects created during a trial run (accel)
class Cell:
    __slots__ = ('v', 'birth', 'owner', 'ty', 'dead')
    def __init__(self, v, birth=True, owner=None, ty=None):
        if TR[0] is not None: TR[0].append(self)
        self.v = v; self.birth = birth; self.owner = owner; self.ty = ty; self.dead = None
class Rec:
    __slots__ = ('ty', 'f', 'birth', 'owner', 'dead', 'tag')
    def __init__(self, ty, f=None, birth=True, owner=None):
        self.ty = ty; self.f = f or {}; self.birth = birth; self.owner = owner; self.dead = None; self.tag = None
    def __repr__(self): return '<%s>' % (self.ty.get('qn') or self.ty.get('s'))
class Vec:
    __slots__ = ('items', 'kind', 'ety', 'birth', 'owner', 'dead', 'state', 'align', 'site', 'id')
    def __init__(self, items, kind, ety=None, birth=True, owner=None):
        if TR[0] is not None: TR[0].append(self)
        self.items = items; self.kind = kind; self.ety = ety; self.birth = birth; self.owner = owner
        self.dead = None; self.state = None; self.align = None; self.site = None; self.id = None
    def __repr__(self): return '<%s[%d]>' % (self.kind, len(self.items))
class Table:
    __slots__ = ('raw', 'ety', 'name', 'lin')
    def __init__(self, raw, ety, name): self.raw = raw; self.ety = ety; self.name = name; self.lin = None
class Opq:
    __slots__ = ('kind', 'd', 'ty')
    def __init__(self, kind, ty=None, **d): self.kind = kind; self.d = d; self.ty = ty
class Closure:
    __slots__ = ('e', 'caps', 'fr', 'this', 'T')
class Map:
    __slots__ = ('d', 'ty', 'kt', 'vt', 'birth', 'owner', 'dead')
    def keys(self): return sorted(self.d)

class Ptr:
    """pointer or iterator: to an object (idx None) or to element idx of a Vec/Table"""
    __slots__ = ('o', 'i', 'rev')
    _K = {}
    def __new__(cls, o, i=None, rev=False):
        k = (id(o), i if i is None or isinstance(i, (int, str, tuple)) else id(i), rev)
        r = cls._K.get(k)
        if r is None:
            r = object.__new__(cls); r.o = o; r.i = i; r.rev = rev; cls._K[k] = r
        return r
    def __repr__(self): return '&%r[%r]' % (self.o, self.i)
class _Null:
    def __repr__(self): return 'NULL'
NULL = _Null()
class Undef:
    __slots__ = ('why',)
    def __init__(self, why='uninitialised'): self.why = why
    def __repr__(self): return 'Undef'
UNDEF = Undef()
class TabRef:
    __slots__ = ('t', 'i')
    def __init__(self, t, i): self.t = t; self.i = i
class FView:
    """virtual access to the representation of an abstract field element"""
    __slots__ = ('o', 'n')
    def __init__(self, o, n): self.o = o; self.n = n
class Reint:
    """multi-byte view of a byte buffer"""
    __slots__ = ('v', 'i', 'n')
    def __init__(self, v, i, n): self.v = v; self.i = i; self.n = n
class FnRef:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
class MemPtr(FnRef):
    """pointer to a data member"""
    __slots__ = ()
    ALL = {}
class Bound(FnRef):
    """member function with the object it is called on"""
    __slots__ = ('o',)
    def __init__(self, e, o): self.e = e; self.o = o

OBJ = (Cell, Rec, Vec, Opq, Closure, Table, TabRef, FView, Reint, Map)

class Frame:
    __slots__ = ('fn', 'T', 'locals', 'this', 'g0', 'ret', 'rv', 'loops', 'alive', 'temps', 'name', 'parent', 'nodes', 'no')

class Event:
    kill = False
    def __init__(self, kind, msg, guard, loc, stack):
        self.kind = kind; self.msg = msg; self.guard = guard; self.loc = loc; self.stack = stack
    def __repr__(self): return '%s at %s: %s' % (self.kind, self.loc, self.msg)

FRAMES = [0]
AGES = {}          # counter -> value its first increment produces (see ages.py)
TOUCHED = {}       # counters incremented on the way
LAST = [None]      # the machine of the running scenario
class Machine:
    strict = False             # report every read of an indeterminate value, copies included
    def __init__(self, prog, absfield=True, abspoint=False, absaes=False, abscrc=False):
        LAST[0] = self
        self.prog = prog
        self.absfield = absfield; self.abspoint = abspoint; self.absaes = absaes; self.abscrc = abscrc
        self.g = True
        self.gone = False          # paths that left by throw/abort
        self.thrown = []           # (guard, value, type)
        self.exc = []              # (guard, kind, type, loc)
        self.fr = None
        self.globals = {}
        self.events = []
        self.draws = []; self.enclog = []
        self.shuffles = []
        self.allocs = []
        self.steps = 0
        self.maxsteps = 8000000
        self.depth = 0
        self.calls = {}            # functions analysed -> count
        self.usrs = set()
        self.journal = None
        self.curline = 0
        self.zero_generic = abspoint
        self.draw_generic = False
        self.effects_r = {}; self.effects_w = {}; self.static_g = {}; self.ginit = {}; self.gfirst = []
        self.loop_limit = 300; self.jumped = {}; self.topno = 0
        self.modulus_cache = prog.modcache
        self.consts = {}
        self.hooks = {}
        self.accel = False         # summarise long counting loops
        self.noabs = None          # calls to analyse from source although a summary exists
        self.notes = set()
        self.curve_eq = []         # (xvar, yvar) pairs known to satisfy the curve equation
        self.curve_ab = {}         # prime -> (a, b): points satisfy y^2 = x^3 + a x + b
        self.gorder = None
        self.dtor_track = False
        self.ev_dispatch = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('ev_')}
        self.st_dispatch = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('st_')}
        from . import models, stdlib
        self.models = models; self.stdlib = stdlib

    # ------------------------------------------------------------ utilities
    def T(self, i): return self.fr.T[i]
    def loc(self):
        fr = self.fr
        if not fr: return '?'
        f = fr.fn.get('loc', '?').rsplit(':', 1)[0]
        return '%s:%d (%s)' % (f, self.curline, fr.name)
    def stack(self):
        out = []; f = self.fr
        while f: out.append(f.name); f = f.parent
        return out
    def unsup(self, what):
        raise Unsupported('%s at %s' % (what, self.loc()))
    def event(self, kind, msg, guard=None, kill=False):
        g = self.g if guard is None else guard
        if isF(g): return
        self.events.append(Event(kind, msg, g, self.loc(), self.stack()))
        if kill:
            self.events[-1].kill = True
            self.die(g, kind)
    def die(self, g, kind, ty=None):
        self.exc.append((g, kind, ty, self.loc()))
        self.gone = OR(self.gone, g)
        self.g = AND(self.g, NOT(g))
    def ap(self, f, *a): return ap(self.g, f, *a)

    # ------------------------------------------------------------ predicates
    def lit(self, kind, data, name=None): return dd.lit(dd.atom(kind, data, name))
    def ieq0(self, x):
        """integer x == 0"""
        if isinstance(x, (int, bool)): return x == 0
        if isinstance(x, BV): return NOT(self.bvnz(x))
        lo, hi = iv(x)
        if lo > 0 or hi < 0: return False
        vs = dvars(x.d)
        if len(x.d) <= 2 and len(vs) == 1:
            v = VARS[next(iter(vs))]
            if v.bit and all(len(k) <= 1 for k in x.d):
                c = x.d.get((), 0); k = x.d.get((v.id,), 0)
                if c == 0: return NOT(dd.lit(dd.atom('bit', v, v.name)))
                if c + k == 0: return dd.lit(dd.atom('bit', v, v.name))
                return False
        b = poly_bits(x)
        if b is not None: return NOT(self.bvnz(B(b)))
        h = self.rewrite_ieq0(x)
        if h is not None: return h
        if self.draw_generic and self.draw_zero(x): return False
        # field-valued unknowns: v*c == 0 or v - w == 0 with canonical v, w
        g = 0
        for c in x.d.values(): g = math.gcd(g, c)
        d = {k: c // g for k, c in x.d.items()}
        lead = d[max(d, key=lambda k: (len(k), k))]
        if lead < 0: d = {k: -c for k, c in d.items()}
        return self.lit('ieq0', P(d))
    def draw_zero(self, x):
        """generic position: wide independent draws do not coincide with anything"""
        vs = [VARS[v] for v in dvars(x.d)]
        if vs and all(v.kind in ('draw', 'ENC', 'ENC0', 'enc') and v.hi - v.lo > 1 << 90 for v in vs):
            self.notes.add('generic'); return True
    def rewrite_ieq0(self, x):
        """integers that are canonical residues: equal iff their classes are"""
        mods = {mod_of(VARS[v]) for v in dvars(x.d)}
        mods.discard(None)
        if len(mods) != 1: return None
        p = mods.pop()
        if p not in self.modulus_cache.values(): return None
        lo, hi = iv(x)
        if lo > -p and hi < p: return self.feq0(to_fe(p, x))
        return None
    def ilt0(self, x):
        if isinstance(x, (int, bool)): return x < 0
        if isinstance(x, BV): return False
        lo, hi = iv(x)
        if hi < 0: return True
        if lo >= 0: return False
        if hi == 0: 
            return NOT(self.ieq0(x))
        lead = x.d[max(x.d, key=lambda k: (len(k), k))]
        if lead < 0:
            y = isub(-1, x)     # x<0 <=> not (-x-1 < 0)
            return NOT(self.ilt0(y))
        # 0/1 unknowns
        vs = dvars(x.d)
        if len(vs) == 1:
            v = VARS[next(iter(vs))]
            if v.bit:
                c0 = ivd(x.d, {v.id: (0, 0)})[0] < 0; c1 = ivd(x.d, {v.id: (1, 1)})[0] < 0
                return ite(dd.lit(dd.atom('bit', v, v.name)), c1, c0)
        if vs and all(VARS[v].bit for v in vs) and len(vs) <= 40:
            return self.bits_lt0(x)
        return self.lit('lt0', x)
    def bits_lt0(self, x):
        memo = {}
        def rec(d):
            lo, hi = ivd(d)
            if hi < 0: return True
            if lo >= 0: return False
            k = dkey(d)
            if k in memo: return memo[k]
            v = min(dvars(d))
            v = min(dvars(d), key=lambda u: dd.atom('bit', VARS[u], VARS[u].name).id)
            r = ite(dd.lit(dd.atom('bit', VARS[v], VARS[v].name)), rec(dsubst(d, {v: ONE})), rec(dsubst(d, {v: {}})))
            memo[k] = r
            return r
        return rec(x.d)
    def bvnz(self, x):
        if isinstance(x, int): return x != 0
        if 1 in x.b: return True
        forms = tuple(sorted(set(f for f in x.b if f)))
        if not forms: return False
        forms = gf2_basis(forms)
        # affine forms: some form is non-zero
        if len(forms) == 1: return self.bitlit(forms[0])
        r = False
        if len(forms) <= 0:
            for f in forms: r = OR(r, self.bitlit(f))
            return r
        return self.lit('nz', forms, 'nz%d' % len(forms))
    def bitlit(self, f):
        if f <= 1: return bool(f)
        c = f & 1; g = f & ~1
        if g & (g - 1) == 0:
            v = BITS[g.bit_length() - 2]
            r = dd.lit(dd.atom('bit', v, v.name))
        else: r = self.lit('nz', (g,), 'lin(%d)' % bin(g).count('1'))
        return NOT(r) if c else r
    def feq0(self, f):
        if fzero(f): return True
        if fisconst(f): return False
        num = f.num
        if self.curve_ab and f.p in self.curve_ab: return self.reduce_feq0(f)
        if self.zero_generic:
            vs = dvars(num)
            # coincidences between values the caller chooses are kept apart; those with random draws are not
            if not any(VARS[v].kind in ('case',) for v in vs) and not all(VARS[v].kind == 'resid' for v in vs):
                self.notes.add('generic')
                bits = [v for v in dvars(num) if VARS[v].bit]
                if not bits: return False
                if len(bits) == len(dvars(num)) and len(bits) <= 20:
                    return self.lit('eq0', F(f.p, num))
                return False
        return self.eq0atom(f.p, num)
    def eq0atom(self, p, num):
        g = None
        ks = list(num)
        if len(ks) == 1:
            r = True
            out = False
            for v in set(ks[0]): out = OR(out, self.lit('eq0', F(p, {(v,): 1})))
            return out
        lead = num[max(num, key=lambda k: (len(k), k))]
        i = pow(lead, -1, p)
        num = {k: c * i % p for k, c in num.items()}
        m = None
        common = set(ks[0])
        for k in ks: common &= set(k)
        out = False
        if common:
            gm = alg._gcdmono((num,))
            for v in set(gm): out = OR(out, self.lit('eq0', F(p, {(v,): 1})))
            num = alg._divmono(num, gm)
        return OR(out, self.lit('eq0', F(p, num)))
    def gpeq0(self, x):
        if gzero(x): return True
        h = self.hooks.get('gpeq0')
        if h: return h(self, x)
        if len(x.d) > 1 and all(BASES[b].kind in ('case', 'raw', 'const') and fisconst(c) for b, c in x.d.items()):
            # points the caller chooses may coincide
            lead = min(x.d, key=lambda b: (BASES[b].kind == 'const', b))
            i = finv(x.d[lead]); y = gmul(x, i)
            return self.lit('peq', y, '%r = O' % (y,))
        # generic position: independent bases, random coefficients
        case = [b for b in x.d if BASES[b].kind == 'case']
        if case and len(x.d) == len(case):
            if len(case) == 1 and fisconst(x.d[case[0]]):
                return self.lit('inf', BASES[case[0]], 'inf(%s)' % BASES[case[0]].name)
        self.notes.add('generic')
        return False

    # ------------------------------------------------------------ algebra of curve points
    def ginf(self, n=None):
        if n is None: n = self.gorder
        return G(n, {})
    def rhs(self, x):
        """x^3 + a x + b of the curve under analysis"""
        p = x.p; a, b = self.curve_ab[p]
        return fadd(fadd(fmul(fmul(x, x), x), fmul(fconst(p, a), x)), fconst(p, b))
    def canon(self, f):
        """modulo the curve equation of every known point and squares of known roots"""
        num = self.dcanon(f.num, f.p)
        if f.den == ONE: return F(f.p, num)
        return F(f.p, num, self.dcanon(f.den, f.p))
    def dcanon(self, d, p):
        for _ in range(60):
            r = None
            for k in d:
                for i in range(len(k) - 1):
                    if k[i] == k[i + 1]:
                        r = self.sq_of(k[i], p)
                        if r is not None: v = k[i]; break
                if r is not None: break
            if r is None: return d
            # replace v^2 by r everywhere
            out = {}
            for k, c in d.items():
                n = k.count(v)
                if n >= 2:
                    rest = [x for x in k if x != v]
                    if n % 2: rest.append(v)
                    t = {tuple(sorted(rest)): c}
                    for _ in range(n // 2): t = dmul(t, r, p)
                    out = dadd(out, t, p)
                else: out = dadd(out, {k: c}, p)
            d = out
        return d
    def sq_of(self, v, p):
        x = VARS[v]
        if x.kind == 'cy' and x.data[0] == p:
            return self.rhs(x.data[1]).num
        if x.kind == 'sqrt' and x.data.p == p and x.data.den == ONE and isT(self.qr(x.data)):
            return x.data.num
        return None
    def qr(self, f):
        """f is a square (zero included)"""
        p = f.p
        f = self.canon(f)
        if fzero(f): return True
        num = dmul(f.num, f.den, p) if f.den != ONE else f.num
        for v in VARS:
            if v.kind == 'cy' and v.data[0] == p and self.rhs(v.data[1]).num == num: return True
        h = self.hooks.get('qr')
        if h:
            r = h(self, F(p, num))
            if r is not None: return r
        lead = num[max(num, key=lambda k: (len(k), k))]
        pos = True
        if lead != 1:
            i = pow(lead, -1, p); num = {k: c * i % p for k, c in num.items()}
            pos = pow(lead, (p - 1) // 2, p) == 1
        if len(num) == 1 and () in num: return pos
        if len(num) == 1:
            k, = num
            if all(k.count(v) % 2 == 0 for v in k): return pos if pos else self.eq0atom(p, num)
        g = self.lit('qr', F(p, num), 'square(%r)' % F(p, num))
        if pos: return g
        # c*f with c a non-residue: square iff f is zero or a non-square
        return OR(NOT(g), self.eq0atom(p, num))
    def reduce_feq0(self, f):
        num = self.dcanon(f.num, f.p)
        if not num: return True
        if len(num) == 1 and () in num: return False
        for k in num:
            for i in range(len(k) - 1):
                if k[i] == k[i + 1] and VARS[k[i]].kind == 'sqrt' and VARS[k[i]].data.p == f.p:
                    v = k[i]; b = VARS[v].data
                    if b.den != ONE: continue
                    q = self.qr(b)
                    def sub(r):
                        out = {}
                        for k, c in num.items():
                            n = k.count(v)
                            if n >= 2:
                                t = {tuple(sorted([x for x in k if x != v] + [v] * (n % 2))): c}
                                for _ in range(n // 2): t = dmul(t, r, f.p)
                                out = dadd(out, t, f.p)
                            else: out = dadd(out, {k: c}, f.p)
                        return out
                    hi = self.feq0(F(f.p, sub(b.num)))
                    neg = sub({k: f.p - c for k, c in b.num.items()})
                    # here b is not a square, so it is not zero
                    while neg:
                        d = ddiv_exact(neg, b.num, f.p)
                        if d is None: break
                        neg = d
                    lo = self.feq0(F(f.p, neg)) if neg else True
                    return ite(q, hi, lo)
        return self.eq0atom(f.p, num)

    # ------------------------------------------------------------ types and objects
    def is_field(self, ty): return ty.get('k') == 'rec' and self.prog.derives(ty, 'field::PrimeField')
    def is_point(self, ty): return ty.get('k') == 'rec' and self.prog.derives(ty, 'ecc::Point')
    def is_curve(self, ty): return ty.get('k') == 'rec' and self.prog.derives(ty, 'ecc::Curve')
    def modulus(self, ty):
        u = ty['usr']
        if u not in self.modulus_cache:
            self.modulus_cache[u] = None
            m = Machine(self.prog, absfield=False)
            LAST[0] = self
            o = m.new_obj(ty)
            c = self.prog.default_ctor(ty)
            if c is None: raise Unsupported('no default constructor of ' + ty['qn'])
            m.run_ctor(c, o, [])
            v = o.f['p'].v
            if not isinstance(v, int): raise Unsupported('modulus of %s is not a constant' % ty['qn'])
            self.modulus_cache[u] = v
        return self.modulus_cache[u]

    def cell(self, v, ty=None):
        return Cell(v, self.g, self.fr, ty)
    def new_obj(self, ty, undef=True):
        """storage for a type, before any constructor ran"""
        k = ty['k']
        if k in ('int', 'bool', 'enum', 'ptr', 'float', 'nullptr', 'ref', 'rref'):
            return Cell(UNDEF, self.g, self.fr, ty)
        if k == 'arr':
            to = self.prog.ty(ty, 'to')
            if to.get('qn') == '__mpz_struct': return Cell(UNDEF, self.g, self.fr, to)
            v = Vec([self.new_obj(to) for _ in range(max(0, ty['n']))], 'carray', to, self.g, self.fr)
            return v
        if k == 'rec':
            return self.models.new_rec(self, ty)
        return Opq('other', ty)

    def uncond(self, o):
        """the current guard covers every path on which o matters"""
        g = self.g
        if g is o.birth: return True
        if isT(g): return True
        rest = AND(o.birth, NOT(g))
        if isF(rest): return True
        if not isF(self.gone): rest = AND(rest, NOT(self.gone))
        if isF(rest): return True
        fr = o.owner
        if fr is not None and fr is self.fr and not isF(fr.ret):
            rest = AND(rest, NOT(fr.ret))
        return isF(rest)

    # ------------------------------------------------------------ load / store
    def load(self, o):
        if isinstance(o, N): return self.ap(self.load1, o)
        return self.load1(o)
    def load1(self, o):
        if isinstance(o, Cell):
            if o.dead: self.event('use-after-free', 'reads %s' % o.dead)
            v = o.v
            if isinstance(v, N): v = dd.restrict(self.g, v)
            if v is DC: v = UNDEF
            return v
        if isinstance(o, TabRef): return self.tabload(o)
        if isinstance(o, Reint): return self.reint_load(o)
        if isinstance(o, FView):
            fe = self.load(o.o.f['fe'])
            if o.n == 'p': return self.modulus(o.o.ty)
            return self.ap(lambda f: f if isinstance(f, Undef) else rep(f), fe)
        if isinstance(o, (Rec, Vec, Opq, Closure, Table, Map)): return o
        return o
    def val(self, x):
        """value of an argument that may be a location of scalar/mpz type"""
        if isinstance(x, (Cell, TabRef, FView, Reint)): return self.load(x)
        if isinstance(x, N):
            return self.ap(lambda y: self.load1(y) if isinstance(y, (Cell, TabRef, FView, Reint)) else y, x)
        return x
    def tabload(self, r):
        t = r.t
        if isinstance(r.i, int):
            if not 0 <= r.i < len(t.raw):
                self.event('out-of-bounds', 'index %d of table %s[%d]' % (r.i, t.name, len(t.raw))); return 0
            return t.raw[r.i]
        b = bits_of(r.i)
        if b is None: self.unsup('table index')
        n = len(t.raw)
        if len(b) > (n - 1).bit_length() and any(b[(n - 1).bit_length():]):
            self.event('out-of-bounds', 'index may exceed table %s[%d]' % (t.name, n))
        if t.lin is None:
            t.lin = n & (n - 1) == 0 and t.raw[0] == 0 and all(
                t.raw[i] == t.raw[i & (i - 1)] ^ t.raw[i & -i] for i in range(1, n))
        if not t.lin:
            # entries that break linearity: opaque
            return self.opaque_bits(('tab', t.name, tuple(b)), 32, 'tab(%s)' % t.name)
        out = [0] * 64
        for i, f in enumerate(b[:(n - 1).bit_length()]):
            if f == 0: continue
            w = t.raw[1 << i]
            j = 0
            while w:
                if w & 1: out[j] ^= f
                w >>= 1; j += 1
        return B(out)
    def opaque_bits(self, key, n, name):
        c = self.consts.get(('ob',) + (key,))
        if c is None:
            c = B([newbit('%s.%d' % (name, i) + '#%d' % len(self.consts)) for i in range(n)])
            self.consts[('ob',) + (key,)] = c
        return c
    def reint_load(self, r):
        out = []
        for j in range(r.n):
            x = self.elem(r.v, r.i + j)
            if x is None: return 0
            v = self.load(x)
            if isinstance(v, Undef): self.event('uninit', 'reads uninitialised bytes'); return 0
            b = bits_of(v, 8)
            if b is None: self.unsup('byte value')
            out += b
        return B(out)
    def store(self, o, v):
        if isinstance(o, N):
            for g, x in leaves(o, self.g):
                g0 = self.g; self.g = g
                self.store(x, v)
                self.g = g0
            return
        if isinstance(o, Cell):
            if o.dead: self.event('use-after-free', 'writes %s' % o.dead)
            if self.journal is not None: self.journal.append((o, o.v))
            if self.uncond(o): o.v = v
            else: o.v = ite(self.g, v, o.v)
            return
        if isinstance(o, FView):
            if o.n == 'p':
                if v != self.modulus(o.o.ty): self.unsup('modulus written')
                return
            p = self.modulus(o.o.ty)
            self.store(o.o.f['fe'], self.ap(lambda x: x if isinstance(x, Undef) else to_fe(p, self.toI(x)), v))
            return
        if isinstance(o, Reint):
            b = bits_of(v, 8 * o.n)
            if b is None: self.unsup('multi-byte store')
            for j in range(o.n): self.store(self.elem(o.v, o.i + j), B(b[8 * j:8 * j + 8]))
            return
        if isinstance(o, TabRef): self.event('write-const', 'writes a constant table'); return
        self.unsup('store to %r' % (o,))

    def toI(self, x):
        """mpz value as int/Poly"""
        if isinstance(x, BV):
            p = bv_poly(x)
            if p is None: p = self.opaque_int(x)
            return p
        return x
    def opaque_int(self, x):
        return V(var('bvint', x, 0, (1 << len(x.b)) - 1))

    def elem(self, vec, i):
        """element location, with bounds check"""
        if isinstance(vec, Table): return TabRef(vec, i)
        if vec.dead: self.event('use-after-free', 'access to %s' % vec.dead)
        if isinstance(i, int):
            if vec.kind == 'string' and i == len(vec.items): return self.cell(0)
            if 0 <= i < len(vec.items): return vec.items[i]
            self.event('out-of-bounds', 'element %d of %s of size %d' % (i, vec.kind, len(vec.items)), kill=True)
            return None
        if isinstance(i, BV): i = bv_poly(i) or i
        if isinstance(i, Poly):
            vs = [v for v in dvars(i.d)]
            if all(VARS[v].bit for v in vs) and len(vs) <= 8:
                return self.bits_select(i, lambda k: self.elem(vec, k))
            lo, hi = iv(i)
            if hi - lo <= 64 and lo != -INF:
                r = None
                for k in range(int(lo), int(hi) + 1):
                    if 0 <= k < len(vec.items):
                        e = self.elem(vec, k)
                        r = e if r is None else ite(self.ieq0(isub(i, k)), e, r)
                    else:
                        self.event('out-of-bounds', 'element %d of %s of size %d' % (k, vec.kind, len(vec.items)), AND(self.g, self.ieq0(isub(i, k))), kill=True)
                if r is not None: return r
        self.unsup('symbolic index %r' % (i,))
    def bits_select(self, i, f):
        memo = {}
        def rec(d):
            if not d: return f(0)
            if len(d) == 1 and () in d: return f(d[()])
            k = dkey(d)
            if k in memo: return memo[k]
            v = min(dvars(d))
            r = ite(dd.lit(dd.atom('bit', VARS[v], VARS[v].name)), rec(dsubst(d, {v: ONE})), rec(dsubst(d, {v: {}})))
            memo[k] = r; return r
        return rec(i.d)

    # pointers -> location
    def deref(self, p, ty=None):
        """pointer value -> location (DD of locations)"""
        if isinstance(p, N):
            bad = [(g, x) for g, x in leaves(p, self.g) if not isinstance(x, Ptr)]
            for g, x in bad: self.badptr(x, g)
            return self.ap(lambda x: self.deref1(x, ty) if isinstance(x, Ptr) else DC, p)
        if not isinstance(p, Ptr):
            self.badptr(p, self.g); return None
        return self.deref1(p, ty)
    def badptr(self, x, g):
        if x is NULL or (isinstance(x, int) and x == 0): self.event('null-deref', 'dereferences a null pointer', g, kill=True)
        elif isinstance(x, Undef): self.event('uninit', 'dereferences an uninitialised pointer', g, kill=True)
        else: self.unsup('dereference of %r' % (x,))
    def deref1(self, p, ty=None):
        if isinstance(p.o, Map) and p.i is not None: return self.stdlib.map_deref(self, p)
        if p.i is None:
            o = p.o
            if getattr(o, 'dead', None): self.event('use-after-free', 'dereferences a pointer to %s' % o.dead)
            return o
        if ty is not None and ty.get('k') == 'int' and isinstance(p.o, Vec):
            n = ty['bits'] // 8
            en = self.esize(p.o)
            if en == 1 and n > 1: return Reint(p.o, p.i, n)
            if en is not None and n < en: self.unsup('narrow access')
        i = p.i - 1 if p.rev else p.i
        return self.elem(p.o, i)
    def esize(self, v):
        t = v.ety
        if t is None: return 1
        if t.get('k') == 'int': return t['bits'] // 8
        return None

    # ------------------------------------------------------------ assignment of objects
    def copy_into(self, dst, src):
        """dst = src for same-shaped objects"""
        if dst is src: return
        if isinstance(src, N):
            for g, s in leaves(src, self.g):
                g0 = self.g; self.g = g
                self.copy_into(dst, s)
                self.g = g0
            return
        if isinstance(dst, N):
            for g, d in leaves(dst, self.g):
                g0 = self.g; self.g = g
                self.copy_into(d, src)
                self.g = g0
            return
        if isinstance(dst, (Cell, FView, Reint)):
            self.store(dst, self.val(src)); return
        if isinstance(dst, Rec):
            if not isinstance(src, Rec): self.unsup('copy of %r into record' % (src,))
            if src.dead: self.event('use-after-free', 'copies %s' % src.dead)
            vals = None
            for n, d in dst.f.items():
                if n not in src.f: self.unsup('copy between different records')
                self.copy_into(d, src.f[n])
            return
        if isinstance(dst, Vec):
            if not isinstance(src, Vec): self.unsup('copy of %r into array' % (src,))
            if len(dst.items) != len(src.items):
                if not self.uncond(dst): self.split('container size')
                self.setitems(dst, [self.clone(x) for x in src.items])
                return
            for d, s in zip(list(dst.items), list(src.items)): self.copy_into(d, s)
            return
        if isinstance(dst, Opq): dst.d = dict(src.d) if isinstance(src, Opq) else dst.d; return
        if isinstance(dst, Closure) and isinstance(src, Closure):
            dst.e, dst.caps, dst.fr, dst.this, dst.T = src.e, src.caps, src.fr, src.this, src.T; return
        if isinstance(dst, Map):
            if not self.uncond(dst): self.split('map copy')
            dst.d = {k: self.clone(v) for k, v in src.d.items()}; return
        self.unsup('copy into %r' % (dst,))
    def setitems(self, vec, items):
        if self.journal is not None: self.journal.append((vec, list(vec.items)))
        vec.items = items
    def split(self, why, v=None):
        g = self.g
        if isinstance(v, N): raise NeedSplit(dd.ATOMS[v.a], '%s at %s' % (why, self.loc()))
        if isinstance(g, N):
            raise NeedSplit(dd.ATOMS[g.a], '%s at %s' % (why, self.loc()))
        self.unsup(why)
    def clone(self, o):
        """fresh deep copy (bitwise: std containers, aggregates)"""
        if isinstance(o, N):
            ls = leaves(o, self.g)
            r = None
            for g, x in ls:
                g0 = self.g; self.g = g
                if r is None: 
                    self.g = g0; r = self.clone(x)
                else: self.copy_into(r, x)
                self.g = g0
            return r
        if isinstance(o, Cell): return Cell(self.load1(o), self.g, self.fr, o.ty)
        if isinstance(o, (TabRef, FView, Reint)): return Cell(self.load1(o), self.g, self.fr, None)
        if isinstance(o, Rec):
            if o.dead: self.event('use-after-free', 'copies %s' % o.dead)
            r = Rec(o.ty, {n: self.clone(x) for n, x in o.f.items()}, self.g, self.fr); r.tag = o.tag
            return r
        if isinstance(o, Vec):
            v = Vec([self.clone(x) for x in o.items], o.kind, o.ety, self.g, self.fr); v.align = o.align
            return v
        if isinstance(o, Opq): return Opq(o.kind, o.ty, **o.d)
        if isinstance(o, Closure): return o
        if isinstance(o, Table): return Vec([Cell(x, self.g, self.fr, o.ety) for x in o.raw], 'carray', o.ety, self.g, self.fr)
        if isinstance(o, Map):
            m = Map(); m.ty, m.kt, m.vt, m.birth, m.owner, m.dead = o.ty, o.kt, o.vt, self.g, self.fr, None
            m.d = {k: self.clone(v) for k, v in o.d.items()}
            return m
        self.unsup('clone of %r' % (o,))
    def kill(self, o, why):
        if isinstance(o, (Cell,)): o.dead = why
        elif isinstance(o, Rec):
            o.dead = why
            for x in o.f.values(): self.kill(x, why)
        elif isinstance(o, Vec):
            o.dead = why
            for x in (o.items if isinstance(o.items, list) else o.items.d.values()): self.kill(x, why)

    # ------------------------------------------------------------ truth and arithmetic
    def truth(self, v):
        return self.ap(self.truth1, v)
    def truth1(self, v):
        if isinstance(v, (bool, int)): return bool(v)
        if isinstance(v, Ptr) or isinstance(v, (Closure, FnRef)): return True
        if v is NULL: return False
        if isinstance(v, (Poly, BV)): return NOT(self.ieq0(v))
        if isinstance(v, Undef):
            self.event('uninit', 'branches on an uninitialised value'); return self.lit('unk', self.loc())
        if isinstance(v, float): return v != 0
        self.unsup('truth of %r' % (v,))

    def wrap(self, v, ty):
        """convert an integer value to a C integer type"""
        k = ty['k']
        if k == 'bool': return self.ap(self.truth1, v)
        if k == 'enum' or k == 'int':
            bits, signed = ty['bits'], ty['signed']
            return self.ap(lambda x: self.wrap1(x, bits, signed), v)
        return v
    def wrap1(self, x, bits, signed, arith=False):
        if isinstance(x, bool): return int(x)
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        if isinstance(x, int):
            if lo <= x <= hi: return x
            x &= (1 << bits) - 1
            return x - (1 << bits) if signed and x >> (bits - 1) else x
        if isinstance(x, BV):
            if len(x.b) <= bits - (1 if signed else 0): return x
            y = B(x.b[:bits])
            if signed and isinstance(y, BV) and len(y.b) == bits: return self.signed_bv(y, bits)
            if isinstance(y, int): return self.wrap1(y, bits, signed)
            return y
        if isinstance(x, Poly):
            a, b = iv(x)
            if a >= lo and b <= hi: return x
            pb = poly_bits(x)
            if pb is not None and not signed: return B(pb[:bits])
            if isinstance(self.g, N) and a != -INF and b != INF:
                bad = OR(self.ilt0(isub(x, lo)) if a < lo else False, self.ilt0(isub(hi, x)) if b > hi else False)
                if isF(AND(self.g, bad)): return x
            return V(var('wrap', (x, bits, signed), lo, hi))
        if isinstance(x, float): return int(x)
        return x
    def signed_bv(self, y, bits):
        # value with symbolic sign bit
        p = bv_poly(B(y.b[:bits - 1]))
        s = bv_poly(B(y.b[bits - 1:]))
        if p is None or s is None: return V(var('sbv', (y, bits), -(1 << bits - 1), (1 << bits - 1) - 1))
        return isub(p, imul(s, 1 << bits - 1))

    def asI(self, x):
        if isinstance(x, bool): return int(x)
        if isinstance(x, BV):
            return self.toI(x)
        return x
    def arith(self, op, a, b, ty=None, mpz=False):
        return self.ap(lambda x, y: self.arith1(op, x, y, ty, mpz), a, b)
    def arith1(self, op, x, y, ty, mpz):
        if isinstance(x, Undef) or isinstance(y, Undef):
            self.event('uninit', 'computes with an uninitialised value (%s)' % op)
            return UNDEF
        if isinstance(x, bool): x = int(x)
        if isinstance(y, bool): y = int(y)
        if isinstance(x, float) or isinstance(y, float): return self.farith(op, x, y)
        if op in ('==', '!=', '<', '>', '<=', '>='): return self.cmp1(op, x, y)
        if isinstance(x, Ptr) or isinstance(y, Ptr) or x is NULL or y is NULL: return self.ptrarith(op, x, y)
        bits = ty['bits'] if ty and ty['k'] in ('int', 'enum') else None
        signed = ty['signed'] if bits else True
        if not (isinstance(x, (int, Poly, BV)) and isinstance(y, (int, Poly, BV))):
            self.unsup('%r %s %r' % (x, op, y))
        r = self.arith2(op, x, y, bits, signed)
        if bits:
            if isinstance(r, int) and signed and op in ('+', '-', '*') and not -(1 << bits - 1) <= r < 1 << bits - 1:
                self.event('overflow', 'signed overflow in %s' % op)
            r = self.wrap1(r, bits, signed)
        return r
    def arith2(self, op, x, y, bits, signed):
        if isinstance(x, int) and isinstance(y, int):
            if op == '+': return x + y
            if op == '-': return x - y
            if op == '*': return x * y
            if op in ('/', '%'):
                if y == 0:
                    self.event('div-zero', 'division by zero', kill=True); return 0
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return q if op == '/' else x - q * y
            if op == '<<':
                if bits and not 0 <= y < bits: self.event('bad-shift', 'shift by %d' % y); return 0
                return x << y
            if op == '>>':
                if bits and not 0 <= y < bits: self.event('bad-shift', 'shift by %d' % y); return 0
                return x >> y
            if op == '&': return x & y
            if op == '|': return x | y
            if op == '^': return x ^ y
            self.unsup('operator ' + op)
        if op in ('&', '|', '^'):
            if isinstance(x, int) and x < 0 and bits is None or isinstance(y, int) and y < 0 and bits is None:
                if op == '&' and (x == -1 or y == -1): return y if x == -1 else x
                n = max(len(bits_of(z) or []) if not isinstance(z, int) else z.bit_length() for z in (x, y)) + 1
                if op == '&':
                    xx = B(bits_of(x, n)) if bits_of(x, n) is not None else None; yy = B(bits_of(y, n)) if bits_of(y, n) is not None else None
                    r = band(xx, yy)
                    if r is not None: return r
                self.unsup('mpz bit operation on negative')
            f = {'&': band, '|': bor, '^': bxor}[op]
            xx, yy = self.as_bits(x, bits), self.as_bits(y, bits)
            r = f(xx, yy, bits) if xx is not None and yy is not None else None
            if r is None:
                if op == '&':
                    r = self.maskand(x, y)
                    if r is not None: return r
                if op == '|' or op == '^':
                    # disjoint ranges: a*2^k | b
                    r = self.disjoint_or(x, y)
                    if r is not None: return r
                self.unsup('bit operation %s on %r, %r' % (op, x, y))
            if signed and bits and isinstance(r, int): r = self.wrap1(r, bits, True)
            return r
        if op in ('<<', '>>'):
            if not isinstance(y, int):
                y = self.asI(y)
                if isinstance(y, Poly):
                    lo, hi = iv(y)
                    if lo == hi: y = int(lo)
                    else: self.unsup('symbolic shift amount')
            if bits and not 0 <= y < bits: self.event('bad-shift', 'shift by %d' % y); return 0
            if isinstance(x, BV):
                return B([0] * y + list(x.b)) if op == '<<' else B(x.b[y:])
            if isinstance(x, int) : return x << y if op == '<<' else x >> y
            if op == '<<': return imul(x, 1 << y)
            return ifdiv(x, 1 << y)
        if isinstance(x, BV) or isinstance(y, BV):
            if op == '*' and isinstance(y, int) and y > 0 and y & (y - 1) == 0: return B([0] * (y.bit_length() - 1) + list(x.b))
            if op == '/' and isinstance(y, int) and y > 0 and y & (y - 1) == 0: return B(x.b[y.bit_length() - 1:])
            if op == '%' and isinstance(y, int) and y > 0 and y & (y - 1) == 0: return B(x.b[:y.bit_length() - 1])
            if op == '+':
                # disjoint bits
                r = self.disjoint_or(x, y)
                if r is not None: return r
            if op == '-' and isinstance(x, BV) and not (isinstance(y, int) and y < 0):
                # bits that are known to be set
                yb = bits_of(y) if isinstance(y, (int, BV)) else None
                if yb is not None and len(yb) <= len(x.b) and all(q == 0 or q == p for p, q in zip(x.b, yb)):
                    return B([0 if q else p for p, q in zip(x.b, yb)] + list(x.b[len(yb):]))
            x, y = self.toI(x), self.toI(y)
        if op == '+': return iadd(x, y)
        if op == '-': return isub(x, y)
        if op == '*': return imul(x, y)
        if op == '/':
            if isinstance(y, int) and y != 0:
                lo, hi = iv(x)
                if lo >= 0 and y > 0: return ifdiv(x, y)
                if y < 0: return ineg(self.arith2('/', x, -y, bits, signed))
                # exact division
                if all(c % y == 0 for c in x.d.values()): return P({k: c // y for k, c in x.d.items()})
                return ite(self.ilt0(x), ineg(ifdiv(ineg(x), y)), ifdiv(x, y)) if True else None
            if y == 0:
                self.event('div-zero', 'division by zero', kill=True); return 0
            self.unsup('division by %r' % (y,))
        if op == '%':
            if isinstance(y, int) and y != 0:
                y = abs(y)
                lo, hi = iv(x)
                if lo >= 0: return imod(x, y)
                if hi <= 0: return ineg(imod(ineg(x), y))
                # truncated: mod for x>=0, mod - y (unless 0) for x<0
                m = imod(x, y)
                neg = ite(self.ieq0(m), 0, isub(m, y))
                return ite(self.ilt0(x), neg, m)
            if y == 0:
                self.event('div-zero', 'division by zero', kill=True); return 0
            self.unsup('remainder by %r' % (y,))
        self.unsup('operator ' + op)
    def as_bits(self, x, bits):
        if isinstance(x, (int, BV)): return x
        b = poly_bits(x)
        return B(b) if b is not None else None
    def maskand(self, x, y):
        if x == 0 and isinstance(x, int) or y == 0 and isinstance(y, int): return 0
        for a, b in ((x, y), (y, x)):
            # low bits of a converted integer are those of the integer itself
            if not (isinstance(a, int) and a > 0 and a & (a + 1) == 0): continue
            u = b
            while isinstance(u, Poly) and len(u.d) == 1:
                (k, c), = u.d.items()
                if len(k) != 1 or c != 1 or VARS[k[0]].kind != 'wrap' or a >= 1 << VARS[k[0]].data[1]: break
                u = VARS[k[0]].data[0]
            if u is not b and isinstance(u, Poly): return imod(u, a + 1)
        if isinstance(x, int): x, y = y, x
        if isinstance(y, Poly) and isinstance(x, Poly):
            if iv(x) == (0, 1): x, y = y, x
            if iv(y) == (0, 1): return ite(self.ieq0(y), 0, imod(x, 2))
        if isinstance(x, Poly) and isinstance(y, int) and y > 0:
            lo, hi = iv(x)
            if y & (y + 1) == 0 and lo != -INF: return imod(x, y + 1)
            if hi != INF and lo >= 0 and y & (y - 1) == 0:
                return imul(imod(ifdiv(x, y), 2), y)
        return None
    def disjoint_or(self, x, y):
        bx, by = bits_of(x), bits_of(y)
        if bx is not None and by is not None:
            n = max(len(bx), len(by)); bx += [0] * (n - len(bx)); by += [0] * (n - len(by))
            if all(p == 0 or q == 0 for p, q in zip(bx, by)): return B([p or q for p, q in zip(bx, by)])
            return None
        xi, yi = self.toI(x) if not isinstance(x, int) else x, self.toI(y) if not isinstance(y, int) else y
        for a, b in ((xi, yi), (yi, xi)):
            if isinstance(a, Poly):
                tz = min((c & -c).bit_length() - 1 for c in a.d.values())
                lo, hi = iv(b)
                if iv(a)[0] >= 0 and lo >= 0 and hi < 1 << tz: return iadd(a, b)
        return None
    def farith(self, op, x, y):
        if not isinstance(x, (int, float)) or not isinstance(y, (int, float)): self.unsup('floating point on symbolic value')
        import operator as o
        return {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '<': o.lt, '>': o.gt, '<=': o.le, '>=': o.ge, '==': o.eq, '!=': o.ne}[op](x, y)
    def cmp1(self, op, x, y):
        if op == '!=': return NOT(self.cmp1('==', x, y))
        if op == '>': return self.cmp1('<', y, x)
        if op == '>=': return NOT(self.cmp1('<', x, y))
        if op == '<=': return NOT(self.cmp1('<', y, x))
        num = (int, Poly, BV)
        if isinstance(x, num) and isinstance(y, num):
            if isinstance(x, BV) or isinstance(y, BV):
                if op == '==':
                    bx, by = bits_of(x) if not (isinstance(x, int) and x < 0) else None, bits_of(y) if not (isinstance(y, int) and y < 0) else None
                    if bx is not None and by is not None:
                        r = bxor(x, y)
                        return NOT(self.bvnz(r))
                    if (isinstance(x, int) and x < 0) or (isinstance(y, int) and y < 0): return False
                else:
                    # interval first
                    lx, hx = (x, x) if isinstance(x, int) else (0, (1 << len(x.b)) - 1) if isinstance(x, BV) else iv(x)
                    if isinstance(x, BV): lx = sum(1 << i for i, f in enumerate(x.b) if f == 1)
                    ly, hy = (y, y) if isinstance(y, int) else (0, (1 << len(y.b)) - 1) if isinstance(y, BV) else iv(y)
                    if isinstance(y, BV): ly = sum(1 << i for i, f in enumerate(y.b) if f == 1)
                    if hx < ly: return True
                    if lx >= hy: return False
                    if lx == 0 and isinstance(x, BV) and y == 1: return NOT(self.bvnz(x))
                    if x == 0 and isinstance(y, BV): return self.bvnz(y)
                x, y = self.toI(x), self.toI(y)
            if op == '==': return self.ieq0(isub(x, y))
            return self.ilt0(isub(x, y))
        if isinstance(x, FE) and isinstance(y, FE) and op == '==': return self.feq0(fsub(x, y))
        # pointers
        if x == 0 and isinstance(x, int): x = NULL
        if y == 0 and isinstance(y, int): y = NULL
        if op == '==':
            if x is y: return True
            if x is NULL or y is NULL: return False
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if (x.i is None) != (y.i is None): x, y = self.norm_ptr(x), self.norm_ptr(y)
                return x.o is y.o and x.i == y.i
        if op == '<' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.o is y.o:
            return (x.i > y.i) if x.rev else (x.i < y.i)
        self.unsup('comparison %r %s %r' % (x, op, y))
    def ptrarith(self, op, x, y):
        if op == '-' and isinstance(x, Ptr) and isinstance(y, Ptr):
            if isinstance(x.o, Map):
                ks = x.o.keys() + ['end']; return ks.index(x.i) - ks.index(y.i)
            if x.o is not y.o: self.unsup('pointer difference')
            return (y.i or 0) - (x.i or 0) if x.rev else (x.i or 0) - (y.i or 0)
        if isinstance(y, Ptr) and op == '+': x, y = y, x
        if isinstance(x, Ptr) and isinstance(x.o, Map) and x.i is not None and op in ('+', '-') and isinstance(y, int):
            for _ in range(abs(y)): x = self.stdlib.map_next(self, x, 1 if (y > 0) == (op == '+') else -1)
            return x
        if isinstance(x, Ptr) and op in ('+', '-'):
            if isinstance(y, BV): y = self.toI(y)
            if isinstance(y, Poly):
                lo, hi = iv(y)
                if lo == hi: y = lo
            if not isinstance(y, int): self.unsup('symbolic pointer offset')
            if x.i is None:
                if y == 0: return x
                self.unsup('arithmetic on object pointer')
            if op == '-': y = -y
            if x.rev: y = -y
            return Ptr(x.o, x.i + y, x.rev)
        if x is NULL and isinstance(y, int) and op in ('+', '-'):
            if y == 0: return NULL
            self.event('null-arith', 'arithmetic on a null pointer', kill=True)
            return NULL
        self.unsup('pointer %s' % op)

    def norm_ptr(self, p):
        """pointer to the element itself where there is one"""
        if p.i is not None and isinstance(p.o, Vec):
            i = p.i - 1 if p.rev else p.i
            if 0 <= i < len(p.o.items): return Ptr(p.o.items[i])
        return p

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > self.maxsteps: raise Budget('step budget exceeded at %s' % self.loc())
        l = e.get('l')
        if l: self.curline = l
        f = self.ev_dispatch.get(e['k'])
        if f is None: self.unsup('expression %s %s' % (e['k'], e.get('cls', '')))
        return f(e)
    def ev_given(self, e): return e['v']          # operand supplied by a library model
    def rv(self, e):
        """scalar value of an expression (lvalue-to-rvalue if needed)"""
        return self.val(self.ev(e))
    def ev_int(self, e):
        v = e.get('_v')
        if v is None: v = e['_v'] = int(e['v'])
        return v
    def ev_float(self, e): return float(e['v'])
    def ev_null(self, e): return NULL
    def ev_zero(self, e): return self.zero_of(self.T(e['t']))
    def zero_of(self, t):
        k = t['k']
        if k in ('int', 'bool', 'enum'): return 0
        if k in ('ptr', 'nullptr'): return NULL
        if k == 'float': return 0.0
        o = self.new_obj(t)
        self.zero_fill(o)
        return o
    def zero_fill(self, o):
        if isinstance(o, Cell):
            k = o.ty['k'] if o.ty else 'int'
            o.v = NULL if k in ('ptr', 'nullptr') else 0
        elif isinstance(o, Vec):
            for x in o.items: self.zero_fill(x)
        elif isinstance(o, Rec) and 'fe' not in o.f and 'gp' not in o.f:
            for x in o.f.values(): self.zero_fill(x)
    def ev_str(self, e):
        v = e.get('_o')
        if v is None:
            raw = bytes.fromhex(e['hex'])
            t = Table(list(raw) + [0], None, 'str'); e['_o'] = v = t
        return v
    def ev_ref(self, e):
        r = e['r']
        if r == 'local':
            fr = self.fr
            try: return fr.locals[e['id']]
            except KeyError: pass
            self.unsup('unknown local %s' % e['n'])
        if r == 'enumc': return int(e['v'])
        if r == 'func': return FnRef(e)
        if r == 'field': return MemPtr.ALL.setdefault(e['n'], MemPtr(e))
        return self.global_loc(e)
    def global_loc(self, e):
        u = e['usr']
        self.effects_r.setdefault(e['qn'], self.fr.name if self.fr else '')
        if u in self.globals: return self.globals[u]
        d = self.prog.vars.get(u)
        if d is None: return self.models.ext_global(self, e)
        g, fr, gone, ln = self.g, self.fr, self.gone, self.curline
        self.g = True; self.gone = False
        f = Frame(); f.fn = d; f.T = d['_T']; f.locals = {}; f.this = None; f.g0 = True; f.ret = False; f.rv = None; f.loops = []; f.temps = []; f.name = 'init of ' + d['qn']; f.parent = None; f.no = 0
        self.fr = f
        t = d['_T'][d['t']]
        o = None
        init = d.get('init')
        if t['k'] == 'arr' and init and init['k'] == 'ilist' and init['c'] and all(x and x['k'] == 'int' for x in init['c']):
            el = d['_T'][t['to']]
            o = Table([self.wrap1(int(x['v']), el['bits'], el['signed']) for x in init['c']] + [0] * (t['n'] - len(init['c'])), el, d['qn'])
            if not el.get('const') and not t.get('const'): o = self.clone(o)
        else:
            o = self.new_obj(t)
            if init: self.init_into(o, init, t)
            else: self.zero_fill(o)
            if t['k'] in ('ref', 'rref'): o = self.ev(init)
        self.globals[u] = o
        self.mark_static(o)
        self.g, self.fr, self.gone, self.curline = g, fr, gone, ln
        self.ginit[u] = (d, self.freeze(o))
        return o
    # ------------------------------------------------------------ state that outlives a call
    def freeze(self, o, seen=None):
        """contents of a static object, for comparison; random generators are left out"""
        if seen is None: seen = {}
        if isinstance(o, Cell): return self.freeze(o.v, seen)
        if isinstance(o, N): return ('n', o)
        if isinstance(o, Opq): return ('opq', o.kind) if o.kind == 'rng' or not o.d else ('opq', o.kind, tuple(sorted((k, repr(x)) for k, x in o.d.items())))
        if isinstance(o, (Rec, Vec, Map)):
            if id(o) in seen: return ('seen', seen[id(o)])
            seen[id(o)] = len(seen)
            if isinstance(o, Rec): return ('rec',) + tuple((n, self.freeze(x, seen)) for n, x in o.f.items())
            if isinstance(o, Vec): return ('vec',) + tuple(self.freeze(x, seen) for x in o.items)
            return ('map',) + tuple(sorted((repr(k), self.freeze(x, seen)) for k, x in o.d.items()))
        if isinstance(o, Ptr): return ('ptr', id(o.o) if not isinstance(o.o, (Rec, Vec, Cell)) or True else 0, o.i if not isinstance(o.i, N) else id(o.i)) + ((self.freeze(o.o, seen),) if isinstance(o.o, (Rec, Vec, Cell)) else ())
        return ('v', o)
    def frozen_same(self, a, b):
        if type(a) is not type(b): return False
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.frozen_same(x, y) for x, y in zip(a, b))
        if isinstance(a, N) or isinstance(b, N): return a is b
        if isinstance(a, (str, float)) : return a == b
        if isinstance(a, Undef): return isinstance(b, Undef)
        return a is b or dd.same(a, b) or repr(a) == repr(b)
    def refreeze(self):
        for u, (d, _) in list(self.ginit.items()): self.ginit[u] = (d, self.freeze(self.globals[u]))
    def hidden_state(self):
        """[(declaration, before, after)] of static objects changed since their initialisation"""
        out = []
        for u, (d, f) in self.ginit.items():
            now = self.freeze(self.globals[u])
            if not self.frozen_same(f, now): out.append((d, f, now))
        return out
    def mark_static(self, o):
        if isinstance(o, Opq):
            if o.kind == 'rng': o.d['static'] = True
        elif isinstance(o, Rec):
            for x in o.f.values(): self.mark_static(x)
        elif isinstance(o, Vec):
            for x in o.items[:64]: self.mark_static(x)
    def ev_this(self, e): 
        return Ptr(self.fr.this) if not isinstance(self.fr.this, N) else self.ap(lambda o: Ptr(o), self.fr.this)
    def base_loc(self, e, arrow):
        """object designated by the base of a member access"""
        if arrow:
            if e['k'] == 'this': return self.fr.this
            return self.deref(self.rv(e))
        return self.ev(e)
    def ev_mem(self, e):
        o = self.base_loc(e['c'][0], e['arrow'])
        n = e['n']
        return self.member(o, n)
    def member(self, o, n):
        if isinstance(o, N): return self.ap(lambda x: self.member(x, n) if x is not None else DC, o)
        if o is None: return None
        if isinstance(o, Rec):
            f = o.f.get(n)
            if f is not None: return f
            if 'fe' in o.f and n in ('value', 'p'): return FView(o, n)
            if 'gp' in o.f: return self.absmodels_view(o, n)
            if 'gp' in o.f: pass
        if isinstance(o, Cell) and n == '_mp_size':
            return Cell(self.models.sign3(self, self.load(o), 0), self.g, self.fr, None)
        if isinstance(o, Cell) and n == '_mp_d':
            v = self.ap(lambda x: self.wrap1(self.models.abs1(self, x), 64, False), self.load(o))
            return Cell(Ptr(Vec([Cell(v, self.g, self.fr, None)], 'array', {'k': 'int', 'bits': 64, 'signed': False, 's': 'unsigned long'}, self.g, self.fr), 0), self.g, self.fr, None)
        if isinstance(o, Cell) and n in ('__mp', 'mp'): return o
        self.unsup('member %s of %r' % (n, o))
    def absmodels_view(self, o, n):
        """read-only view of the representation of an abstract point"""
        from . import absmodels as am
        if n == 'is_inf': return Cell(am.isinf(self, am.gp_of(self, o)), self.g, self.fr, None)
        if n in ('x', 'y'):
            t = am.pfield_ty(self, o.ty); p = self.modulus(t)
            return am.mkfe(self, t, self.ap(lambda x: am.xof(self, p, x) if n == 'x' else am.yof(p, x), am.gp_of(self, o)))
        self.unsup('representation of an abstract point (%s)' % n)
    def ev_mat(self, e):
        c = e['c'][0]
        v = self.ev(c)
        if isinstance(v, OBJ) or (isinstance(v, N) and self.T(e['t'])['k'] == 'rec'): return v
        return Cell(v, self.g, self.fr, self.T(e['t']))
    def ev_index(self, e):
        b, i = e['c']
        base = self.ev(b)
        p = self.val(base)
        idx = self.val(self.ev(i))
        # allow i[a]
        et = self.T(e['t'])
        def f(p, i):
            if isinstance(i, (Ptr,)): p, i = i, p
            if isinstance(p, (Vec, Table)): return self.elem(p, i)
            if p is NULL or isinstance(p, Undef): return DC
            if isinstance(p, Ptr):
                if p.i is None:
                    if i == 0: return p.o
                    self.unsup('index of object pointer')
                if isinstance(p.o, Table) or not isinstance(i, int):
                    if isinstance(i, int): return self.elem(p.o, p.i + i)
                    if p.i == 0: return self.elem(p.o, i)
                    return self.elem(p.o, iadd(p.i, self.asI(i)))
                if isinstance(p.o, Vec) and et['k'] == 'int' and self.esize(p.o) == 1 and et['bits'] > 8:
                    return Reint(p.o, p.i + i * et['bits'] // 8, et['bits'] // 8)
                return self.elem(p.o, p.i + i)
            self.unsup('index of %r' % (p,))
        for g, x in leaves(p, self.g):
            if x is NULL or isinstance(x, Undef): self.badptr(x, g)
        return self.ap(f, p, idx)
    def ev_cast(self, e):
        ck = e['ck']; c = e['c'][0]
        t = self.T(e['t'])
        if ck == 'LValueToRValue':
            o = self.ev(c)
            if o is None: return UNDEF
            v = self.load(o)
            if t['k'] == 'rec' and isinstance(v, (Rec, Vec)): return self.clone(v)
            if t['k'] == 'rec' and isinstance(o, Cell): return self.clone(o)
            if self.strict and t['k'] != 'rec': self.defined(v, c)
            return v
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'Dynamic', 'LValueBitCast', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            return self.ev(c)
        if ck == 'BitCast' or ck == 'ReinterpretMemberPointer': return self.ev(c)
        if ck == 'ToVoid': 
            self.ev(c); return None
        if ck == 'ArrayToPointerDecay':
            o = self.ev(c)
            if isinstance(o, Ptr): return o
            def dec(o):
                if isinstance(o, (Vec, Table)): return Ptr(o, 0)
                if isinstance(o, Cell): return Ptr(o)
                return Ptr(o)
            return self.ap(dec, o)
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            v = self.rv(c)
            if t['k'] == 'bool': return self.truth(v)
            return self.ap(lambda x: x if isinstance(x, Undef) else self.wrapany(x, t), v)
        if ck in ('PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'): return self.truth(self.rv(c))
        if ck == 'NullToPointer':
            return NULL
        if ck == 'PointerToIntegral':
            p = self.rv(c)
            return self.ap(self.addr_int, p)
        if ck == 'IntegralToPointer':
            v = self.rv(c)
            if isinstance(v, int) and v == 0: return NULL
            self.unsup('integer to pointer')
        if ck in ('IntegralToFloating', 'FloatingCast'):
            v = self.rv(c)
            if isinstance(v, (int, float)): return float(v)
            return v
        if ck == 'FloatingToIntegral':
            v = self.rv(c)
            if isinstance(v, (int, float)): return self.wrap1(int(v), t['bits'], t['signed'])
            return v
        self.unsup('cast ' + ck)
    def wrapany(self, x, t):
        if isinstance(x, (int, bool, Poly, BV, float)):
            if t['k'] == 'bool': return self.truth1(x)
            return self.wrap1(x, t['bits'], t['signed'])
        return x
    def addr_int(self, p):
        if p is NULL: return 0
        if isinstance(p, Ptr) and isinstance(p.o, Vec):
            if p.o.align is None: p.o.align = 16 if p.o.kind == 'heap' else 0
            return (1 << 20) + p.o.align + (p.i or 0) * (self.esize(p.o) or 1)
        self.unsup('address as integer')
    def ev_un(self, e):
        op = e['op']; c = e['c'][0]
        t = self.T(e['t'])
        if op in ('++', '--'):
            o = self.ev(c)
            old = self.load(o)
            new = self.arith('+' if op == '++' else '-', old, 1, self.T(c['t']) if self.T(c['t'])['k'] in ('int',) else None)
            if self.T(c['t'])['k'] == 'bool': new = 1
            if c['k'] != 'ref' or c['r'] != 'local': new = self.aged(c, o, new)
            self.note_write(c)
            self.store(o, new)
            return old if e.get('post') else o
        if op == '*':
            v = self.rv(c)
            if isinstance(v, FnRef) or isinstance(v, Closure): return v
            return self.deref(v, t)
        if op == '&':
            p = self.elem_addr(c)
            if p is not None: return p
            o = self.ev(c)
            if isinstance(o, FnRef): return o
            return self.addr_of(o)
        v = self.rv(c)
        if op == '!': return NOT(self.truth(v))
        if op == '-': return self.ap(lambda x: self.neg1(x, t), v)
        if op == '+': return v
        if op == '~':
            bits = t['bits']
            def inv(x):
                if isinstance(x, int): return self.wrap1(~x, bits, t['signed'])
                b = bits_of(x, bits)
                if b is None: self.unsup('~')
                return self.wrap1(B([f ^ 1 for f in b]), bits, t['signed'])
            return self.ap(inv, v)
        self.unsup('unary ' + op)
    def elem_addr(self, c):
        """address of an element of a scalar array: keeps the position"""
        while c['k'] == 'cast' and c['ck'] == 'NoOp' or c['k'] == 'paren': c = c['c'][0]
        if self.T(c['t'])['k'] not in ('int', 'bool', 'enum', 'ptr', 'float'): return None
        if c['k'] == 'index':
            p = self.rv(c['c'][0]); i = self.rv(c['c'][1])
            p = self.ap(lambda x: Ptr(x, 0) if isinstance(x, (Vec, Table)) else x, p)
            for g, x in leaves(p, self.g):
                if x is NULL or isinstance(x, Undef): self.badptr(x, g); return NULL
            if all(isinstance(x, Ptr) and x.i is not None for _, x in leaves(p, self.g)) and isinstance(i, int):
                for _, x in leaves(p, self.g):
                    if isinstance(x.o, Vec) and not 0 <= x.i + i <= len(x.o.items): self.event('out-of-bounds', 'address of element %d of %d' % (x.i + i, len(x.o.items)))
                return self.arith('+', p, i)
            o = self.ap(lambda p, i: self.elem(p.o, p.i + i) if p.i is not None and isinstance(i, int) else p.o if p.i is None and isinstance(i, int) and i == 0 else self.elem(p.o, iadd(p.i or 0, self.asI(i))), p, i)
            return self.addr_of(o)
        if c['k'] == 'un' and c['op'] == '*': return self.rv(c['c'][0]) if self.T(c['c'][0]['t'])['k'] == 'ptr' else None
        if c['k'] == 'call' and 'obj' in c and c.get('qn') in ('std::vector::operator[]', 'std::array::operator[]', 'std::basic_string::operator[]', 'std::vector::at', 'std::array::at', 'std::vector::front', 'std::array::front'):
            o = self.val(self.base_loc(c['obj'], c.get('arrow')))
            if isinstance(o, Vec):
                i = self.rv(c['c'][0]) if c['c'] else 0
                if isinstance(i, int):
                    self.elem(o, i)
                    return Ptr(o, i)
                return self.addr_of(self.models.vec_at(self, o, 'operator[]', i))
        return None
    def addr_of(self, o):
        def f(o):
            if isinstance(o, TabRef): return Ptr(o.t, o.i)
            if isinstance(o, Reint): return Ptr(o.v, o.i)
            if o is None: return NULL
            # element of a vector: keep the position
            return self.elem_ptr(o)
        return self.ap(f, o)
    def elem_ptr(self, o):
        v = getattr(o, 'owner', None)
        return Ptr(o)
    def neg1(self, x, t):
        if isinstance(x, Undef): self.event('uninit', 'negates an uninitialised value'); return x
        if isinstance(x, float): return -x
        if isinstance(x, bool): x = int(x)
        x = self.asI(x)
        r = ineg(x)
        if t and t['k'] == 'int': r = self.wrap1(r, t['bits'], t['signed'])
        return r
    def note_write(self, e):
        while e['k'] in ('mem', 'index', 'cast'): e = e['c'][0]
        if e['k'] == 'ref' and e['r'] == 'global': self.effects_w.setdefault(e['qn'], self.fr.name)
    def ev_assign(self, e):
        l, r = e['c']
        v = self.rv(r)
        o = self.ev(l)
        if isinstance(v, (Rec, Vec)) or isinstance(o, (Rec, Vec)):
            self.copy_into(o, v); return o
        self.note_write(l)
        if o is None: return self.cell(v)
        if r['k'] in ('bin', 'cast') and (l['k'] == 'mem' or l['k'] == 'ref' and l['r'] == 'global') and isinstance(o, Cell):
            while r['k'] in ('cast', 'paren'): r = r['c'][0]
            if r['k'] == 'bin' and r['op'] == '+': v = self.aged(l, o, v)
        self.store(o, v)
        return o
    def ev_cassign(self, e):
        l, r = e['c']
        v = self.rv(r)
        o = self.ev(l)
        ct = self.T(e['ct']); lt = self.T(l['t'])
        old = self.load(o)
        clt = self.T(e['clt'])
        if clt['k'] in ('int', 'enum'): old = self.ap(lambda x: x if isinstance(x, Undef) else self.wrapany(x, clt), old)
        new = self.arith(e['op'][:-1], old, v, ct if ct['k'] in ('int', 'enum') else None)
        if lt['k'] == 'bool': new = self.truth(new)
        elif lt['k'] in ('int', 'enum'): new = self.ap(lambda x: x if isinstance(x, Undef) else self.wrapany(x, lt), new)
        if l['k'] != 'ref' or l['r'] != 'local': new = self.aged(l, o, new)
        self.note_write(l)
        self.store(o, new)
        return o
    def aged(self, e, o, new):
        """the value an increment of a counter stands for"""
        if not isinstance(o, Cell): return new
        from . import ages
        k = ages.key_of(e, self.fr.T)
        if k is None: return new
        cs = self.prog.__dict__.get('counters')
        if cs is None: cs = self.prog.counters = ages.scan(self.prog)
        if k not in cs: return new
        ow = o.owner
        if isinstance(k, tuple):
            if isinstance(ow, Frame) and ow.no >= self.topno and not ow.name.startswith('w_'): return new     # made by this very operation
            fr = self.fr
            while fr is not None:
                if fr.fn.get('ctor') or fr.fn.get('kind') == 'ctor': return new
                fr = fr.parent
        TOUCHED[k] = cs[k]
        if k not in AGES or id(o) in self.jumped: return new
        self.jumped[id(o)] = o
        return AGES[k]
    def ev_bin(self, e):
        op = e['op']; a, b = e['c']
        if op == '&&' or op == '||':
            x = self.truth(self.rv(a))
            g0 = self.g
            self.g = AND(g0, x if op == '&&' else NOT(x))
            if isF(self.g):
                self.g = g0
                return x
            y = self.truth(self.rv(b))
            gb = self.g
            self.g = OR(AND(g0, NOT(x) if op == '&&' else x), gb)
            if not isF(self.gone): self.g = AND(self.g, NOT(self.gone))
            return AND(x, y) if op == '&&' else OR(x, y)
        if op == ',':
            self.ev(a); return self.ev(b)
        if op in ('.*', '->*'):
            o = self.base_loc(a, op == '->*')
            def sel(f):
                if isinstance(f, MemPtr): return self.member(o, f.e['n'])
                if isinstance(f, FnRef): return Bound(f.e, o)
                if isinstance(f, Undef) or f is NULL: self.badptr(f, self.g); return None
                self.unsup('pointer to member')
            return self.ap(sel, self.rv(b))
        x = self.rv(a); y = self.rv(b)
        if op in ('+', '-') and self.T(e['t'])['k'] == 'ptr' or isinstance(x, Ptr) or isinstance(y, Ptr):
            return self.arith(op, x, y)
        t = self.T(e['t'])
        if op in ('==', '!=', '<', '>', '<=', '>='): return self.arith(op, x, y)
        return self.arith(op, x, y, t if t['k'] in ('int', 'enum') else None)
    def ev_cond(self, e):
        c, a, b = e['c']
        x = self.truth(self.rv(c))
        if isT(x): return self.ev(a)
        if isF(x): return self.ev(b)
        g0 = self.g
        self.g = AND(g0, x)
        va = self.ev(a) if not isF(self.g) else DC
        ga = self.g
        self.g = AND(g0, NOT(x))
        vb = self.ev(b) if not isF(self.g) else DC
        self.g = OR(ga, self.g)
        if va is None or vb is None: return va if vb is None else vb
        r = ite(x, va, vb)
        if isinstance(r, N) and self.T(e['t'])['k'] == 'rec' and not e.get('lv'): return self.clone(r)
        return r
    def ev_ilist(self, e):
        t = self.T(e['t'])
        if t['k'] in ('int', 'bool', 'enum', 'ptr', 'float'):
            return self.rv(e['c'][0]) if e['c'] else self.zero_of(t)
        o = self.new_obj(t)
        self.fill_ilist(o, e, t)
        return o
    def fill_ilist(self, o, e, t):
        if isinstance(o, Vec):
            el = o.ety
            if o.kind == 'array' and len(e['c']) == 1 and e['c'][0]['k'] in ('ilist', 'zero') and self.T(e['c'][0]['t'])['k'] == 'arr' and not (el and el['k'] == 'arr'):
                return self.init_into(o, e['c'][0], self.T(e['c'][0]['t'])) if e['c'][0]['k'] == 'zero' else self.fill_ilist(o, e['c'][0], self.T(e['c'][0]['t']))
            for i, x in enumerate(o.items):
                c = e['c'][i] if i < len(e['c']) else e.get('filler')
                if c is None: self.zero_fill(x)
                else: self.init_into(x, c, el)
            return
        if isinstance(o, Rec):
            if t['qn'] == 'std::array':
                pass
            names = self.prog.fields(t)
            cs = e['c']
            for n, c in zip(names, cs):
                if c is None: continue
                if o.f[n] is None: o.f[n] = self.ev(c); continue
                self.init_into(o.f[n], c, None)
            return
        if isinstance(o, Cell) and e['c']:
            self.init_into(o, e['c'][0], t); return
        if not e['c']: return
        self.unsup('init list for %r' % (o,))
    def ev_stdinit(self, e):
        o = self.ev(e['c'][0])
        return o
    def ev_lambda(self, e):
        c = Closure(); c.e = e; c.caps = {}; c.fr = self.fr; c.this = None; c.T = self.fr.T
        for cap, init in zip(e['caps'], e['capinit']):
            if cap.get('this'): c.this = self.fr.this if cap.get('byref', True) else self.clone(self.fr.this)
            elif 'id' in cap:
                if cap['byref']:
                    if cap['id'] in self.fr.locals: c.caps[cap['id']] = self.fr.locals[cap['id']]
                    else: c.caps[cap['id']] = self.ev(init)
                else:
                    v = self.ev(init)
                    if isinstance(v, OBJ): c.caps[cap['id']] = self.clone(v)
                    elif isinstance(v, N) and any(isinstance(x, OBJ) for _, x in leaves(v)): c.caps[cap['id']] = self.clone(v)
                    else: c.caps[cap['id']] = self.cell(v)
        return c
    def ev_throw(self, e):
        ty = None
        if e.get('c'):
            v = self.ev(e['c'][0])
            ty = self.T(e['c'][0]['t'])
            self.thrown.append((self.g, v, ty))
        self.die(self.g, 'throw', ty['qn'] if ty and 'qn' in ty else (ty['s'] if ty else None))
        return None
    def ev_stmtexpr(self, e):
        body = e['body']
        r = None
        cs = body['c']
        for i, s in enumerate(cs):
            if i == len(cs) - 1 and s['k'] == 'expr': r = self.ev(s['e'])
            else: self.st(s)
        return r
    def ev_new(self, e):
        t = self.T(e['of'])
        if e.get('place'): self.unsup('placement new')
        if 'n' in e:
            n = self.rv(e['n'])
            if isinstance(n, Poly) and iv(n)[0] == iv(n)[1]: n = iv(n)[0]
            if not isinstance(n, int): self.unsup('new[] of symbolic size')
            v = Vec([self.new_obj(t) for _ in range(n)], 'heap', t, self.g, None)
            if e.get('init'):
                i = e['init']
                if i['k'] in ('ilist',):
                    for k, x in enumerate(v.items):
                        c = i['c'][k] if k < len(i['c']) else i.get('filler')
                        if c: self.init_into(x, c, t)
                        else: self.zero_fill(x)
                elif i['k'] == 'zero':
                    for x in v.items: self.zero_fill(x)
                elif i['k'] == 'ctor':
                    for x in v.items: self.init_into(x, i, t)
            self.note_alloc(v, 'new[]')
            return Ptr(v, 0)
        o = self.new_obj(t)
        self.set_birth(o, self.g, None)
        if e.get('init'): self.init_into(o, e['init'], t)
        self.note_alloc(o, 'new')
        return Ptr(o)
    def set_birth(self, o, g, fr):
        o.owner = fr if hasattr(o, 'owner') else None
        if isinstance(o, Rec):
            for x in o.f.values(): self.set_birth_(x, fr)
    def set_birth_(self, o, fr):
        if hasattr(o, 'owner'): o.owner = fr
        if isinstance(o, Rec):
            for x in o.f.values(): self.set_birth_(x, fr)
    def note_alloc(self, o, how):
        self.allocs.append({'o': o, 'how': how, 'g': self.g, 'loc': self.loc(), 'freed': False, 'stack': self.stack()})
    def find_alloc(self, o):
        for a in self.allocs:
            if a['o'] is o: return a
        return None
    def free_ptr(self, p, how):
        for g, x in leaves(p, self.g):
            if x is NULL or (isinstance(x, int) and x == 0): continue
            if isinstance(x, Undef): self.event('uninit', 'releases an uninitialised pointer', g); continue
            if not isinstance(x, Ptr): self.unsup('free of %r' % (x,))
            a = self.find_alloc(x.o)
            if a is None or (x.i not in (None, 0)):
                self.event('bad-free', 'releases memory that was not allocated (%s)' % how, g); continue
            want = {'malloc': 'free', 'new': 'delete', 'new[]': 'delete[]', 'evp': 'evp'}[a['how']]
            if want != how: self.event('bad-free', '%s of memory from %s' % (how, a['how']), g)
            d = AND(g, a['freed'])
            if not isF(d): self.event('double-free', 'memory allocated at %s is released twice' % a['loc'], d)
            a['freed'] = OR(a['freed'], g)
            if isT(a['freed']) or isF(AND(a['g'], NOT(a['freed']))):
                if how not in ('delete', 'delete[]'): self.kill(x.o, 'released memory') if isinstance(x.o, (Vec, Rec)) else None
    def ev_delete(self, e):
        p = self.rv(e['c'][0])
        t = self.T(e['of'])
        for g, x in leaves(p, self.g):
            if isinstance(x, Ptr) and isinstance(x.o, Rec):
                a = self.find_alloc(x.o)
                if a and isF(AND(g, a['freed'])):
                    g0 = self.g; self.g = g
                    self.destroy(x.o, t)
                    self.g = g0
        self.free_ptr(p, 'delete[]' if e.get('array') else 'delete')
        for g, x in leaves(p, self.g):
            if isinstance(x, Ptr) and self.uncond_alloc(x.o): self.kill(x.o, 'deleted object')
        return None
    def uncond_alloc(self, o):
        a = self.find_alloc(o)
        return a and isF(AND(a['g'], NOT(a['freed'])))

    # ------------------------------------------------------------ destruction
    def destroy(self, o, ty):
        """run the destructor of o"""
        if isinstance(o, N):
            for g, x in leaves(o, self.g):
                g0 = self.g; self.g = g; self.destroy(x, ty); self.g = g0
            return
        if isinstance(o, Vec):
            if o.kind in ('vector', 'array', 'carray') and o.ety and o.ety['k'] == 'rec' and self.prog.needs_dtor(o.ety):
                for x in o.items: self.destroy(x, o.ety)
            return
        if ty['k'] != 'rec' or not self.prog.needs_dtor(ty): return
        if self.models.destroy_std(self, o, ty): return
        f = self.prog.dtor(ty)
        if f is not None and not f.get('defaulted') and not f.get('implicit'):
            self.call_fn(f, o, [], None)
        if isinstance(o, Rec):
            r = self.prog.rec(ty)
            if r:
                T = r['_T']
                for fd in reversed(r['fields']):
                    ft = T[fd['t']]
                    if fd['n'] in o.f and self.prog.needs_dtor(ft): self.destroy(o.f[fd['n']], ft)
                for b in r['bases']:
                    if self.prog.needs_dtor(T[b]): self.destroy(o, T[b])

    # ------------------------------------------------------------ calls
    def ev_args(self, cs, pts, T):
        out = []
        for i, c in enumerate(cs):
            pt = T[pts[i]] if i < len(pts) else None
            v = self.ev(c)
            if pt is not None and pt['k'] not in ('ref', 'rref', 'rec'): v = self.val(v)
            out.append(v)
        return out
    def ev_call(self, e):
        if 'dyn' in e:
            f = self.rv(e['dyn'])
            args = [self.ev(c) for c in e['c']]
            return self.call_dyn(f, args, e)
        m = self.models.lookup(self, e)
        if m is not None:
            return m(self, e)
        fn = self.prog.fn(e.get('fn'))
        if fn is None:
            # conversion of a lambda, operator() of a closure
            if 'obj' in e:
                o = self.ev(e['obj'])
                o = self.val(o)
                if isinstance(o, Closure):
                    if not e['qn'].endswith('operator()'): return o
                    return self.call_closure(o, [self.ev(c) for c in e['c']], e.get('fn'))
                if e['qn'].endswith('::operator=') and isinstance(o, OBJ):
                    src = self.ev(e['c'][0])
                    self.copy_into(o, src); return o
            if e.get('repo'): self.unsup('call of %s, which has no definition' % e['qn'])
            self.unsup('call of unmodelled %s' % e['qn'])
        this = None
        if 'obj' in e:
            this = self.base_loc(e['obj'], e.get('arrow'))
            if this is None:
                for c in e['c']: self.ev(c)
                return self.dummy(fn)
        if e.get('virt'):
            ls = leaves(this, self.g) if isinstance(this, N) else [(self.g, this)]
            fs = {id(f): f for f in (self.override(fn, o) for _, o in ls)}
            if len(fs) != 1:
                args = self.ev_args(e['c'], e['pt'], self.fr.T)
                def one(o):
                    f = self.override(fn, o)
                    return self.call_fn(f, o, [self.clone(a) if f['_T'][p['t']]['k'] == 'rec' else a for a, p in zip(args, f['params'])], e)
                return self.each_target(ls, one, e)
            fn = next(iter(fs.values()))
        args = self.ev_args(e['c'], e['pt'], self.fr.T)
        return self.call_fn(fn, this, args, e)
    def override(self, fn, o):
        """final overrider of fn in the dynamic class of o"""
        ty = getattr(o, 'ty', None)
        if not isinstance(ty, dict) or ty.get('k') != 'rec': self.unsup('virtual call')
        n = fn['qn'].split('::')[-1]; sig = [fn['_T'][p['t']]['s'] for p in fn['params']]
        def find(t):
            for f in self.prog.fns.values():
                if 'rec' in f and f['qn'].split('::')[-1] == n and f['_T'][f['rec']].get('usr') == t['usr'] and [f['_T'][p['t']]['s'] for p in f['params']] == sig and bool(f.get('cm')) == bool(fn.get('cm')): return f
            r = self.prog.rec(t)
            for b in (r or {}).get('bases', ()):
                f = find(r['_T'][b])
                if f is not None: return f
            return None
        f = find(ty)
        return f if f is not None else fn
    def dummy(self, fn):
        t = fn['_T'][fn['rt']]
        if t['k'] == 'rec': return self.new_obj(t)
        return UNDEF
    def call_dyn(self, f, args, e):
        if isinstance(f, Closure): return self.call_closure(f, args)
        if isinstance(f, FnRef):
            fn = self.prog.fn(f.e.get('fn'))
            if isinstance(f, Bound) and fn is None: self.unsup('call of %s through a pointer to member' % f.e.get('qn'))
            if fn is not None:
                a2 = []
                for a, p in zip(args, fn['params']):
                    pt = fn['_T'][p['t']]
                    a2.append(a if pt['k'] in ('ref', 'rref') else self.clone(a) if pt['k'] == 'rec' else self.val(a))
                if isinstance(f, Bound):
                    if fn.get('virtual'): fn = self.override(fn, f.o)
                    return self.call_fn(fn, f.o, a2, e)
                return self.call_fn(fn, None, a2, e)
            return self.models.by_name(self, f.e, args)
        if isinstance(f, N):
            return self.each_target(leaves(f, self.g), lambda x: self.call_dyn(x, args, e), e)
        self.unsup('indirect call')
    def each_target(self, ls, call, e):
        """call of a function that depends on the gates: visit every target under its gate, merge the results"""
        g0 = self.g; out = False; res = None; first = True
        for g, x in ls:
            self.g = g
            r = call(x)
            out = OR(out, self.g)
            res = r if first else (res if r is None else r if res is None else ite(g, r, res)); first = False
        self.g = out
        if isinstance(res, N) and e is not None and self.T(e['t'])['k'] == 'rec' and not e.get('lv'): return self.clone(res)
        return res
    def call_closure(self, c, args, usr=None):
        e = c.e
        if e is None: self.unsup('call of an unknown function object')
        if e.get('generic') or 'body' not in e: e = self.specialisation(e, c, args, usr)
        fn = {'qn': self.fr.name + '::lambda', 'loc': self.fr.fn.get('loc', '?'), 'params': e['params'], 'rt': e['rt'], 'body': e['body'], '_T': c.T, 'usr': 'lambda'}
        a2 = []
        for a, p in zip(args, e['params']):
            pt = c.T[p['t']]
            if pt['k'] in ('ref', 'rref'): a2.append(a)
            elif pt['k'] == 'rec' or isinstance(a, (Rec, Vec)): a2.append(self.clone(a))
            else: a2.append(self.val(a))
        return self.call_fn(fn, c.this, a2, None, extra=c.caps)
    def specialisation(self, e, c, args, usr):
        """the instantiated body of a generic lambda that is called"""
        sp = [s for s in e.get('specs', ()) if len(s['params']) == len(args)]
        if usr is not None:
            x = [s for s in sp if s['fn'] == usr]
            if len(x) == 1: return x[0]
        if len(sp) > 1:
            def fits(s):
                for p, a in zip(s['params'], args):
                    t = c.T[p['t']]
                    while t['k'] in ('ref', 'rref'): t = c.T[t['to']] if isinstance(t['to'], int) else t['to']
                    u = getattr(a, 'ty', None)
                    if isinstance(a, N) or u is None: continue
                    if isinstance(u, dict) and t['k'] == 'rec' and u.get('k') == 'rec' and t.get('usr') != u.get('usr'): return False
                    if isinstance(u, dict) and (t['k'] == 'rec') != (u.get('k') == 'rec'): return False
                return True
            sp = [s for s in sp if fits(s)]
        if len(sp) != 1: self.unsup('generic lambda')
        return sp[0]
    def ev_arrcopy(self, e): return self.ev(e['c'][0])

    def call_fn(self, fn, this, args, e, extra=None):
        self.depth += 1
        if self.depth > 120: self.unsup('recursion')
        if 'body' not in fn: self.unsup('no body for ' + fn['qn'])
        if isinstance(this, N):
            # resolve the object when it is the same on all live paths
            ls = leaves(this, self.g)
            if len(ls) == 1: this = ls[0][1]
            else:
                self.depth -= 1
                return self.call_multi(fn, ls, args, e)
        self.calls[fn['qn']] = self.calls.get(fn['qn'], 0) + 1
        self.usrs.add(fn['usr'])
        h = self.hooks.get(('call', fn['qn']))
        if h: h(self, fn, this, args)
        fr = Frame(); fr.fn = fn; fr.T = fn['_T']; fr.locals = dict(extra) if extra else {}
        fr.this = this; fr.g0 = self.g; fr.ret = False; fr.rv = None; fr.loops = []; fr.temps = []
        fr.name = fn['qn']; fr.parent = self.fr
        FRAMES[0] += 1; fr.no = FRAMES[0]
        if self.fr is None: self.topno = fr.no
        saved = self.fr; ln = self.curline
        self.fr = fr
        gone0 = self.gone
        T = fr.T
        dt = []
        for p, a in zip(fn['params'], args):
            pt = T[p['t']]
            if pt['k'] in ('ref', 'rref'):
                if not isinstance(a, OBJ) and not isinstance(a, (N, FnRef)): a = Cell(a, self.g, fr, pt)
                fr.locals[p['id']] = a
            elif pt['k'] == 'rec':
                if isinstance(a, N): a = self.clone(a)
                fr.locals[p['id']] = a
                if self.prog.needs_dtor(pt): dt.append((a, pt, self.g))
            else:
                fr.locals[p['id']] = Cell(a, self.g, fr, pt)
        if fn.get('ctor'): self.ctor_inits(fn, this)
        rt = T[fn['rt']] if 'rt' in fn else None
        self.st(fn['body'])
        if not isF(self.g) and rt is not None and rt['k'] not in ('void',) and not fn.get('ctor') and not fn.get('dtor') and fn['qn'] != 'main':
            self.event('missing-return', 'control reaches the end of %s without a return value' % fn['qn'])
            if fr.rv is None: fr.rv = self.new_obj(rt) if rt['k'] == 'rec' else UNDEF
        for a, pt, g in dt:
            self.g = g; self.destroy(a, pt)
        if fn['qn'] == 'aes::AES::init': self.refreeze()
        self.fr = saved; self.curline = ln
        g = fr.g0
        if self.gone is not gone0: g = AND(g, NOT(self.gone))
        self.g = g
        self.depth -= 1
        rv = fr.rv
        if rt is not None and rt['k'] == 'rec' and isinstance(rv, N):
            rv = self.clone(rv)
        if rv is None and rt is not None and rt['k'] == 'rec': rv = self.new_obj(rt)
        if rv is None and rt is not None and rt['k'] != 'void': rv = UNDEF
        return rv
    def call_multi(self, fn, ls, args, e):
        g0 = self.g
        r = None; first = True; gend = False
        for g, o in ls:
            self.g = g
            if o is None: continue
            v = self.call_fn(fn, o, [self.clone(a) if isinstance(a, (Rec, Vec)) and fn['_T'][p['t']]['k'] == 'rec' else a for a, p in zip(args, fn['params'])], e)
            gend = OR(gend, self.g)
            r = v if first else ite(g, v, r) if v is not None else None
            first = False
        self.g = gend
        if isinstance(r, N) and fn['_T'][fn['rt']]['k'] == 'rec': r = self.clone(r)
        return r

    # ------------------------------------------------------------ construction
    def ctor_inits(self, fn, this):
        T = fn['_T']
        for i in fn.get('inits', ()):
            init = i['init']
            if 'm' in i:
                t = T[i['mt']]
                if t['k'] in ('ref', 'rref'):
                    this.f[i['m']] = self.ev(init); continue
                f = this.f.get(i['m'])
                if f is None:
                    if 'fe' in this.f: continue
                    self.unsup('initialiser of %s' % i['m'])
                self.init_into(f, init, t)
            else:
                self.init_into(this, init, T[i['base']] if 'base' in i else None)
    def init_into(self, o, e, t):
        """initialise storage o from initialiser expression e"""
        k = e['k']
        if k == 'ctor':
            return self.construct(o, e)
        if k == 'ilist':
            if not isinstance(o, Cell): return self.fill_ilist(o, e, self.T(e['t']))
        if k == 'zero':
            self.zero_fill(o); return
        if k == 'arrcopy' and isinstance(o, Vec):
            v = self.val(self.ev(e['c'][0]))
            if isinstance(v, Vec) and o.ety and o.ety['k'] == 'rec':
                for x, y in zip(o.items, v.items): self.copy_via_ctor(x, o.ety, y) if isinstance(x, Rec) else self.copy_into(x, y)
            else: self.copy_into(o, v)
            return
        if isinstance(o, Cell):
            if isinstance(o.ty, dict) and o.ty.get('k') in ('ref', 'rref'):
                o.v = self.ev(e); return
            v = self.rv(e)
            if isinstance(v, (Rec, Vec)): self.unsup('object into cell')
            self.store(o, v); return
        v = self.ev(e)
        if v is None: return
        if isinstance(v, Table) and isinstance(o, Vec):
            for x, r in zip(o.items, v.raw): self.store(x, r)
            for x in o.items[len(v.raw):]: self.store(x, 0)
            return
        self.move_into(o, v)
    def move_into(self, o, v):
        """bitwise move of a fresh temporary"""
        if isinstance(o, Rec) and isinstance(v, Rec) and getattr(v, 'tag', None) == 'unique_ptr':
            for n in o.f: self.copy_into(o.f[n], v.f[n])
            self.store(v.f['p'], NULL)
            return
        if isinstance(o, Rec) and isinstance(v, Rec):
            for n in o.f:
                if n in v.f: self.move_into(o.f[n], v.f[n])
                else: self.unsup('move')
            return
        self.copy_into(o, v)
    def ev_ctor(self, e):
        t = self.T(e['t'])
        o = self.new_obj(t)
        r = self.construct(o, e)
        return o if r is None else r
    def construct(self, o, e):
        """run constructor expression e on storage o"""
        t = self.T(e['t'])
        m = self.models.lookup_ctor(self, e, t)
        if m is not None:
            return m(self, o, e, t)
        if t['k'] == 'arr':
            for i, x in enumerate(o.items):
                if isinstance(x, (Rec, Vec)):
                    r = self.construct(x, dict(e, t=t['to']))
                    if r is not None: o.items[i] = r
            return
        fn = self.prog.fn(e.get('fn'))
        if e.get('inhfwd'):
            # inherited constructor forwards its own parameters
            args = [self.fr.locals[p['id']] for p in self.fr.fn['params']]
            f2 = self.prog.fn(e.get('fn'))
            if f2 is None: self.unsup('inherited constructor')
            a2 = []
            for a, p in zip(args, f2['params']):
                pt = f2['_T'][p['t']]
                a2.append(a if pt['k'] in ('ref', 'rref', 'rec') else self.val(a))
            self.call_fn(f2, o, a2, e)
            return
        if fn is None and e.get('inh'):
            fn = self.prog.fn(e['inh'])
        if fn is None or ('body' not in fn):
            if e.get('copy') or e.get('move'):
                src = self.ev(e['c'][0])
                self.default_copy(o, src); return
            if e.get('dflt') or not e['c']:
                self.default_init(o, t); return
            self.unsup('constructor of %s has no definition' % t['s'])
        args = self.ev_args(e['c'], e['pt'], self.fr.T)
        if e.get('copy') and isinstance(args[0], N):
            ls = leaves(args[0], self.g)
            g0 = self.g
            if len(ls) > 1:
                gend = False
                for g, s in ls:
                    self.g = g
                    self.call_fn(fn, o, [s], e); gend = OR(gend, self.g)
                self.g = gend
                return
            args[0] = ls[0][1]
        if args and args[0] is None: return
        self.call_fn(fn, o, args, e)
    def run_ctor(self, fn, o, args):
        self.call_fn(fn, o, args, None)
    def defined(self, v, c=None):
        """strict mode: a value that is read must have been written on every path"""
        for g, x in leaves(v, self.g):
            if isinstance(x, Undef):
                n = c.get('qn') or c.get('name') or c.get('n') if isinstance(c, dict) else None
                self.event('uninit', 'reads %s before any value was stored' % (n or 'a variable'), g)
    def defined_deep(self, o):
        if isinstance(o, N):
            for g, x in leaves(o, self.g):
                if x is not None: self.defined_deep(x)
        elif isinstance(o, Cell):
            if isinstance(o.ty, dict) and not (o.ty.get('k') == 'int' and o.ty.get('bits') == 8): self.defined(self.load(o), {'name': 'a member'})
        elif isinstance(o, Rec):
            for n, x in o.f.items():
                if isinstance(x, Cell) and isinstance(x.ty, dict) and x.ty.get('k') in ('int', 'bool', 'enum', 'ptr', 'float') and x.ty.get('bits') != 8: self.defined(self.load(x), {'name': n})
                elif isinstance(x, Rec): self.defined_deep(x)
    def default_copy(self, o, src):
        if self.strict: self.defined_deep(src)
        self.copy_into(o, src)
    def default_init(self, o, t):
        if isinstance(o, Rec):
            r = self.prog.rec(t)
            if r is None: return
            T = r['_T']
            for b in r['bases']: 
                c = self.prog.default_ctor(T[b])
                if c and not (self.absfield and self.is_field(t)): self.call_fn(c, o, [], None)
            for fd in r['fields']:
                ft = T[fd['t']]
                x = o.f.get(fd['n'])
                if x is None: continue
                if fd.get('init') is not None:
                    saved = self.fr
                    fr = Frame(); fr.fn = {'qn': r['qn'], 'loc': r['loc'], 'params': []}; fr.T = T; fr.locals = {}; fr.this = o; fr.g0 = self.g; fr.ret = False; fr.rv = None; fr.loops = []; fr.temps = []; fr.name = r['qn']; fr.parent = saved; fr.no = FRAMES[0]
                    self.fr = fr
                    self.init_into(x, fd['init'], ft)
                    self.fr = saved
                elif ft['k'] == 'rec' and isinstance(x, Rec) and 'fe' not in x.f and 'gp' not in x.f:
                    c = self.prog.default_ctor(ft)
                    if c and 'body' in c: self.call_fn(c, x, [], None)
                    else: self.default_init(x, ft)

    # ------------------------------------------------------------ statements
    def st(self, s):
        if isF(self.g): return
        self.steps += 1
        l = s.get('l')
        if l: self.curline = l
        f = self.st_dispatch.get(s['k'])
        if f is None: self.unsup('statement %s %s' % (s['k'], s.get('cls', '')))
        f(s)
    def st_expr(self, s): self.full(self.ev, s['e'])
    def full(self, f, e):
        """full expression: temporaries with destructors end here"""
        if not self.prog.has_dtor_temps(e): return f(e)
        return self.models.full_expr(self, f, e)
    def st_null(self, s): pass
    def st_block(self, s):
        dt = []
        fr = self.fr
        mark = len(fr.temps)
        for x in s['c']:
            if isF(self.g): break
            self.st(x)
        self.end_scope(mark)
    def end_scope(self, mark):
        fr = self.fr
        if len(fr.temps) > mark:
            todo = fr.temps[mark:]; del fr.temps[mark:]
            g0 = self.g
            for o, t, g in reversed(todo):
                self.g = g
                ln = self.curline
                self.destroy(o, t)
                self.curline = ln
            self.g = g0
    def st_decl(self, s):
        for v in s['vars']: self.decl(v)
    def decl(self, v):
        t = self.T(v['t'])
        if v.get('static'):
            self.static_local(v, t)
            return
        if 'bindings' in v: return self.decl_bind(v, t)
        if t['k'] in ('ref', 'rref'):
            o = self.full(self.ev, v['init'])
            if not isinstance(o, OBJ) and not isinstance(o, (N, FnRef)): o = self.cell(o, t)
            self.fr.locals[v['id']] = o
            return
        if t.get('qn') in self.stdlib.BITREF and 'init' in v:
            i = v['init']
            while i['k'] in ('ctor', 'cast', 'mat') and len(i['c']) == 1: i = i['c'][0]
            self.fr.locals[v['id']] = self.ev(i); return
        o = self.new_obj(t)
        self.fr.locals[v['id']] = o
        if 'init' in v:
            r = self.full(lambda e: self.init_into(o, e, t), v['init'])
            if isinstance(o, Opq) and o.kind == 'other' or isinstance(o, Closure):
                pass
        if t['k'] == 'rec' and self.prog.needs_dtor(t): self.fr.temps.append((o, t, self.g))
        elif t['k'] == 'arr' and self.prog.needs_dtor_arr(t): self.fr.temps.append((o, t, self.g))
    def static_local(self, v, t):
        """a function-local static is initialised by the first execution of its declaration"""
        u = v['usr']; init = v.get('init')
        d = self.prog.vars.get(u)
        if not init or d is None or t['k'] in ('ref', 'rref') or init['k'] == 'ilist' and all(x and x['k'] == 'int' for x in init['c']): return
        if u in self.globals and u not in self.static_g: return
        need = AND(self.g, NOT(self.static_g.get(u, False)))
        if isF(need): return
        if u not in self.globals:
            o = self.new_obj(t)
            self.globals[u] = o
        o = self.globals[u]
        self.static_g[u] = OR(self.static_g.get(u, False), need)
        g0 = self.g; self.g = need
        na = len(self.allocs)
        self.full(lambda e: self.init_into(o, e, t), init)
        self.mark_static(o)
        self.ginit[u] = (d, self.freeze(o)); self.gfirst.append((u, [a['o'] for a in self.allocs[na:]]))
        self.g = AND(g0, self.g) if isT(need) else OR(self.g, AND(g0, NOT(need)))
    def decl_bind(self, v, t):
        init = self.ev(v['init'])
        if t['k'] not in ('ref', 'rref'):
            init = self.clone(init) if isinstance(init, OBJ) or isinstance(init, N) else init
        self.fr.locals[v['id']] = init
        for i, b in enumerate(v['bindings']):
            if 'expr' in b:
                self.fr.locals[b['id']] = self.ev(b['expr'])
            else:
                o = self.models.get_n(self, init, i)
                self.fr.locals[b['id']] = o
                self.fr.locals[b['hv']] = o
    def st_if(self, s):
        mark = len(self.fr.temps)
        if s.get('init'): self.st(s['init'])
        if s.get('cv'): self.decl(s['cv'])
        c = self.truth(self.full(self.rv, s['cond']))
        g0 = self.g
        self.g = AND(g0, c)
        if not isF(self.g): self.st(s['then'])
        gt = self.g
        self.g = AND(g0, NOT(c))
        if not isF(self.g) and s['else']: self.st(s['else'])
        self.g = OR(gt, self.g)
        if not isF(self.gone): self.g = AND(self.g, NOT(self.gone))
        self.end_scope(mark)
    def loop(self, s, cond, inc, body, post=False):
        fr = self.fr
        it = 0
        first = True
        while True:
            if cond is not None and not (post and first):
                if s.get('cv'): self.decl(s['cv'])
                c = self.truth(self.full(self.rv, cond))
                g0 = self.g
                out = AND(g0, NOT(c))
                fr.loops[-1][2] = OR(fr.loops[-1][2], out)
                self.g = AND(g0, c)
            first = False
            if isF(self.g): break
            if self.accel and self.journal is None:
                from . import accel
                if it in accel.TRYAT: accel.try_accel(self, s, cond, inc, body)
            it += 1
            if it > self.loop_limit and isinstance(self.g, N):
                self.event('unbounded-loop', 'loop not shown to terminate after %d iterations' % self.loop_limit)
                raise Unsupported('loop bound exceeded at %s' % self.loc())
            if it > 200000: raise Unsupported('loop too long at %s' % self.loc())
            fr.loops[-1][1] = False
            self.st(body)
            self.g = OR(self.g, fr.loops[-1][1])
            if isF(self.g): break
            if inc is not None: self.full(self.ev, inc)
        self.g = OR(fr.loops[-1][0], fr.loops[-1][2])
        if not isF(self.gone): self.g = AND(self.g, NOT(self.gone))
    def in_loop(self, f):
        fr = self.fr
        fr.loops.append([False, False, False])     # break, continue, normal exit
        mark = len(fr.temps)
        f()
        fr.loops.pop()
        self.end_scope(mark)
    def st_while(self, s): self.in_loop(lambda: self.loop(s, s['cond'], None, s['body']))
    def st_do(self, s): self.in_loop(lambda: self.loop(s, s['cond'], None, s['body'], True))
    def st_for(self, s):
        def run():
            if s.get('init'): self.st(s['init'])
            self.loop(s, s.get('cond'), s.get('inc'), s['body'])
        self.in_loop(run)
    def st_rangefor(self, s):
        def run():
            if s.get('init'): self.st(s['init'])
            r = self.ev(s['range'])
            r = self.models.range_items(self, r)
            fr = self.fr
            v = s['var']; t = self.T(v['t'])
            for x in r:
                if isF(self.g): break
                fr.loops[-1][1] = False
                mark = len(fr.temps)
                if 'bindings' in v:
                    o = x if t['k'] in ('ref', 'rref') else self.clone(x)
                    fr.locals[v['id']] = o
                    for i, b in enumerate(v['bindings']):
                        fr.locals[b['id']] = self.models.get_n(self, o, i)
                        if 'hv' in b: fr.locals[b['hv']] = fr.locals[b['id']]
                elif t['k'] in ('ref', 'rref'): fr.locals[v['id']] = x
                elif t.get('qn') in self.stdlib.BITREF: fr.locals[v['id']] = x
                elif t['k'] == 'rec':
                    fr.locals[v['id']] = self.copy_construct(t, x)
                else: fr.locals[v['id']] = self.cell(self.wrapto(self.val(x), t), t)
                self.st(s['body'])
                self.end_scope(mark)
                self.g = OR(self.g, fr.loops[-1][1])
            self.g = OR(self.g, fr.loops[-1][0])
            if not isF(self.gone): self.g = AND(self.g, NOT(self.gone))
        self.in_loop(run)
    def wrapto(self, v, t):
        if t['k'] in ('int', 'bool', 'enum'): return self.ap(lambda x: x if isinstance(x, Undef) else self.wrapany(x, t), v)
        return v
    def copy_construct(self, t, x):
        o = self.new_obj(t)
        self.copy_via_ctor(o, t, x)
        return o
    def copy_via_ctor(self, o, t, x):
        f = self.prog.copy_ctor(t)
        if f is not None and 'body' in f and not (self.absfield and self.is_field(t)) and not (self.abspoint and self.is_point(t)):
            if isinstance(x, N):
                g0 = self.g; ge = False
                for g, y in leaves(x, g0):
                    self.g = g; self.call_fn(f, o, [y], None); ge = OR(ge, self.g)
                self.g = ge
            else: self.call_fn(f, o, [x], None)
        else: self.copy_into(o, x)
    def st_break(self, s):
        self.fr.loops[-1][0] = OR(self.fr.loops[-1][0], self.g); self.g = False
    def st_continue(self, s):
        for l in reversed(self.fr.loops):
            if len(l) == 3:
                l[1] = OR(l[1], self.g); break
        self.g = False
    def st_return(self, s):
        fr = self.fr
        if s.get('e') is not None:
            rt = fr.T[fr.fn['rt']]
            e = s['e']
            def go(e):
                if rt['k'] in ('ref', 'rref'): return self.ev(e)
                if rt['k'] == 'rec':
                    v = self.ev(e)
                    return v
                if rt['k'] == 'void':
                    self.ev(e); return None
                return self.rv(e)
            v = self.full(go, e)
            if v is not None and not isF(self.g):
                if rt['k'] == 'rec' and not isinstance(v, OBJ) and not isinstance(v, N):
                    v = self.cell(v)
                fr.rv = v if fr.rv is None else ite(self.g, v, fr.rv)
        fr.ret = OR(fr.ret, self.g)
        self.g = False
    def st_switch(self, s):
        mark = len(self.fr.temps)
        if s.get('init'): self.st(s['init'])
        if s.get('cv'): self.decl(s['cv'])
        v = self.full(self.rv, s['cond'])
        g0 = self.g
        fr = self.fr
        fr.loops.append([False, False])           # only break
        body = s['body']
        stm = body['c'] if body['k'] == 'block' else [body]
        # collect the case values
        conds = []
        def cond_of(c):
            lo = self.rv(c['v'])
            if 'v2' in c:
                hi = self.rv(c['v2'])
                return AND(self.arith('>=', v, lo), self.arith('<=', v, hi))
            return self.arith('==', v, lo)
        def collect(x):
            while x and x['k'] in ('case', 'default'):
                if x['k'] == 'case': conds.append(cond_of(x))
                x = x['s']
        for x in stm: collect(x)
        anyc = False
        for c in conds: anyc = OR(anyc, c)
        self.g = False
        hasdef = False
        i = 0
        for x in stm:
            while x and x['k'] in ('case', 'default'):
                if x['k'] == 'case':
                    self.g = OR(self.g, AND(g0, conds[i])); i += 1
                else:
                    hasdef = True
                    self.g = OR(self.g, AND(g0, NOT(anyc)))
                x = x['s']
            if x: self.st(x)
        b = fr.loops.pop()[0]
        self.g = OR(self.g, b)
        if not hasdef: self.g = OR(self.g, AND(g0, NOT(anyc)))
        if not isF(self.gone): self.g = AND(self.g, NOT(self.gone))
        self.end_scope(mark)
    def st_case(self, s): self.st(s['s'])
    def st_default(self, s): self.st(s['s'])
    def st_try(self, s):
        n0 = len(self.exc); gone0 = self.gone; g0 = self.g
        fr = self.fr
        mark = len(fr.temps)
        self.st(s['body'])
        gend = self.g
        thrown = [x for x in self.exc[n0:]]
        rest = self.exc[:n0]
        for h in s['handlers']:
            hv = h.get('var'); ht = None
            if hv:
                ht = self.T(hv['t'])
                while ht['k'] in ('ref', 'rref', 'ptr'): ht = self.T(ht['to'])
            caught = False; left = []
            for (g, kind, ty, loc) in thrown:
                if kind == 'throw' and self.models.catches(ht, ty): caught = OR(caught, g)
                else: left.append((g, kind, ty, loc))
            thrown = left
            if isF(caught): continue
            self.exc = rest + left
            self.gone = gone0
            for x in left: self.gone = OR(self.gone, x[0])
            self.g = caught
            if hv: fr.locals[hv['id']] = self.caught_value(caught, self.T(hv['t']))
            n1 = len(self.exc)
            self.st(h['body'])
            thrown2 = self.exc[n1:]
            rest = rest + thrown2
            gend = OR(gend, self.g)
        self.exc = rest + thrown
        self.gone = gone0
        for x in self.exc[n0:]: self.gone = OR(self.gone, x[0])
        self.g = gend
        if not isF(self.gone): self.g = AND(self.g, NOT(self.gone))
    def caught_value(self, g, t):
        while t['k'] in ('ref', 'rref'): t = t['_T'][t['to']] if isinstance(t['to'], int) else t['to']
        if t['k'] in ('int', 'bool', 'enum', 'float'):
            v = UNDEF
            for gt, x, ty in self.thrown:
                if isF(AND(g, gt)) or ty['k'] != t['k']: continue
                v = self.val(x) if isinstance(v, Undef) else ite(gt, self.val(x), v)
            return self.cell(v, t)
        if t['k'] == 'rec' and self.prog.rec(t) is not None:
            xs = [x for gt, x, ty in self.thrown if not isF(AND(g, gt)) and ty.get('usr') == t['usr']]
            if len(xs) == 1: return xs[0]
        return Opq('exception')
    def st_asm(self, s):
        if s.get('outs'): self.unsup('inline assembly')

    # ------------------------------------------------------------ long search loops

def gf2_basis(forms):
    """reduced row-echelon basis of a set of affine forms (constant bit lowest)"""
    rows = []
    for f in forms:
        for r in rows:
            if f & (1 << (r.bit_length() - 1)): f ^= r
        if f:
            hb = 1 << (f.bit_length() - 1)
            rows = [r ^ f if r & hb else r for r in rows] + [f]
    return tuple(sorted(rows))
