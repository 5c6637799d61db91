"""Shared set-up of the protocol-level analyses: scalars are rational functions
of the random draws over GF(n), points are linear combinations of the
generator and of arbitrary given points; field, point and lifting operations
are replaced by their specifications (decided by F01-F03, E01-E06)."""
from ..lab import *
from .. import interp as I
from .. import absmodels

BASESRC = ('src/fields/field_secp256r1.cpp', 'src/ecc/ecc_secp256r1.cpp', 'src/utilities/utilities.cpp')
BF = BASESRC

class Proto:
    def __init__(self, ctx, wfile, ns, src, lift=True, **kw):
        self.ctx = ctx; self.ns = ns + '::'
        self.prog = ctx.witness(wfile, *(BASESRC + tuple(src)), flags=kw.pop('flags', ('-DNDEBUG',)))
        kw.setdefault('abspoint', True)
        self.kw = kw; self.lift = lift
        self.fresh()
    def fresh(self):
        self.m = m = I.Machine(self.prog, **self.kw)
        self.c = self.call('mkcurve', [])
        self.n = m.val(self.call('order', [self.c]))
        m.gorder = self.n
        f = self.fn('dflt'); self.PT = f['_T'][f['rt']]
        f = self.fn('szero'); self.ST = f['_T'][f['rt']]
        m.modulus(self.ST); m.modulus(absmodels.pfield_ty(m, self.PT))
        self.p = m.modulus(absmodels.pfield_ty(m, self.PT))
        if self.lift: m.hooks['lift'] = lambda m, x: True
        m.events[:] = []; m.exc[:] = []
        return m
    def fn(self, n): return self.prog.fnq(self.ns + n)
    def call(self, n, *a):
        args = a[0] if len(a) == 1 and isinstance(a[0], list) else list(a)
        return self.m.call_fn(self.fn(n), None, args, None)
    def val(self, n, *a): return self.m.val(self.call(n, *a))
    def new(self, n, *a):
        """object behind a pointer returned by a witness"""
        p = self.m.val(self.call(n, *a))
        ls = leaves(p, self.m.g)
        if len(ls) != 1 or not isinstance(ls[0][1], I.Ptr): self.m.unsup('%s returns %r' % (n, p))
        return ls[0][1].o
    def where(self, qn): return where(self.prog, qn)
    # -------------------------------------------------- values
    def pt(self, gp, cv=None):
        o = self.m.new_obj(self.PT)
        self.m.store(o.f['gp'], gp); self.m.store(o.f['curve'], I.Ptr(self.c) if cv is None else cv)
        return o
    def gpt(self, name, kind='raw'):
        """class of an arbitrary point; kind 'case': may be infinity"""
        return gbase(self.n, base(kind, name, name))
    def anypoint(self, name, cv=None, kind='case'): 
        g = self.gpt(name, kind)
        cv = I.Ptr(self.c) if cv is None else cv
        if kind == 'case':
            inf = self.m.gpeq0(g)
            cv = ite(inf, I.NULL, cv)
        return self.pt(g, cv)
    def sc(self, f):
        o = self.m.new_obj(self.ST); self.m.store(o.f['fe'], f); return o
    def svar(self, name): return fvar(self.n, var('resid', (self.n, name), 0, self.n - 1, name=name))
    def gp(self, o): return absmodels.gp_of(self.m, o)
    def cv(self, o): return absmodels.cv_of(self.m, o)
    def fe(self, o): return absmodels.fe_of(self.m, o)
    def z(self, name, lo=0, hi=(1 << 200) - 1): return V(var('int', name, lo, hi, name=name))
    def zc(self, x): return I.Cell(x)
    def ginf(self): return self.m.ginf()
    def gen(self): return self.gp(self.call('gen', self.c))
    def finish(self, nm, care=True):
        ctx = self.ctx; m = self.m
        ctx.clean(m, nm, care=care); ctx.noexc(m, nm, care); ctx.absorb(m)
    def usable(self, nm, o, cptr, w, care=True):
        """a finite point refers to the given curve object"""
        inf = self.m.ap(self.m.gpeq0, self.gp(o))
        self.ctx.equal(self.m, nm, self.cv(o), cptr, w, AND(care, NOT(inf)))

# ------------------------------------------------------------ algebra of randomness
def one(v, m=None):
    ls = leaves(v, True)
    if len(ls) == 1: return ls[0][1]
    return None
def partial(f, v, p):
    """formal derivative of a rational function"""
    def d(n):
        out = {}
        for k, c in n.items():
            e = k.count(v)
            if e:
                l = list(k); l.remove(v)
                out = dadd(out, {tuple(l): c * e % p}, p)
        return out
    dn, dd_ = d(f.num), d(f.den)
    num = dadd(dmul(dn, f.den, p), dmul(f.num, dd_, p), p, -1)
    return F(p, num, dmul(f.den, f.den, p))
def evalat(f, env, p):
    def e(n):
        s = 0
        for k, c in n.items():
            t = c
            for v in k: t = t * env(v) % p
            s += t
        return s % p
    dn = e(f.den)
    return e(f.num) * pow(dn, -1, p) % p
def jac_rank(fs, vs, p):
    """rank of the Jacobian of fs in the unknowns vs at one fixed point: a lower bound of the generic rank"""
    import hashlib
    def env(v):
        return int.from_bytes(hashlib.sha256(b'pt%d' % v).digest() + hashlib.sha256(b'qt%d' % v).digest(), 'big') % (p - 1) + 1
    M = [[evalat(partial(f, v, p), env, p) for v in vs] for f in fs]
    r = 0
    for c in range(len(vs)):
        piv = next((i for i in range(r, len(M)) if M[i][c]), None)
        if piv is None: continue
        M[r], M[piv] = M[piv], M[r]
        inv = pow(M[r][c], -1, p)
        M[r] = [x * inv % p for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c]:
                k = M[i][c]; M[i] = [(a - k * b) % p for a, b in zip(M[i], M[r])]
        r += 1
    return r
def gcoef(g, b): return g.d.get(b.id, fconst(g.n, 0))
