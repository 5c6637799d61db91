"""E01-E06 and the point parts of F03, V01, V02: point and curve operations
interpreted from source; coordinates are rational functions over GF(p) modulo
the curve equation."""
from ..lab import *
from .. import interp as I
from .. import absmodels

CURVES = ('bn254', 'secp256r1')
SRC = ('src/fields/field_bn254.cpp', 'src/fields/field_secp256r1.cpp', 'src/ecc/ecc_bn254.cpp', 'src/ecc/ecc_secp256r1.cpp', 'src/utilities/utilities.cpp')

class PV:
    """gated view of a point: infinity, coordinates, curve pointer"""
    __slots__ = ('inf', 'x', 'y', 'cv')

class PointLab:
    def __init__(self, ctx, cname, **kw):
        self.ctx = ctx; self.cname = cname; self.kw = kw
        self.prog = ctx.witness('points.cpp', *SRC)
        self.ns = 'w_%s::' % cname
        self.fresh()
    def fresh(self):
        self.m = m = I.Machine(self.prog, **self.kw)
        self.c = self.call('mkcurve', [])
        self.p = m.val(self.call('prime', [self.c]))
        self.n = m.val(self.call('order', [self.c]))
        self.a = m.val(self.call('ca', [self.c])); self.b = m.val(self.call('cb', [self.c]))
        m.curve_ab = {self.p: (self.a % self.p, self.b % self.p)}
        m.gorder = self.n
        self.F = self.prog.fnq(self.ns + 'fzero'); self.FT = self.F['_T'][self.F['rt']]
        f = self.fn('szero'); self.ST = f['_T'][f['rt']]
        m.modulus(self.FT); m.modulus(self.ST)
        m.events[:] = []; m.exc[:] = []
        return m
    def fn(self, n): return self.prog.fnq(self.ns + n)
    def call(self, n, args): return self.m.call_fn(self.fn(n), None, args, None)
    def fe(self, x, ty=None):
        """a field object with the given abstract class"""
        m = self.m
        ty = ty or self.FT
        o = m.new_obj(ty)
        if m.absfield: o.f['fe'].v = x
        else:
            o.f['p'].v = m.modulus(ty); o.f['value'].v = m.ap(lambda f: rep(f) if isinstance(f, FE) else f, x)
        return o
    def fev(self, o):
        """class of a field object"""
        m = self.m
        def g(r):
            if r is None or r is dd.DC: return dd.DC
            if isinstance(r, I.Cell): return m.ap(g, m.load(r))
            if m.absfield: return m.load(r.f['fe'])
            return m.ap(lambda v: v if isinstance(v, I.Undef) else to_fe(m.modulus(r.ty), v), m.load(r.f['value']))
        return m.ap(g, o)
    def xvar(self, name): return fvar(self.p, var('resid', (self.p, 'x' + name), 0, self.p - 1, name='x' + name))
    def yvar(self, name):
        return fvar(self.p, var('cy', (self.p, self.xvar(name), name), 0, self.p - 1, name='y' + name))
    def cptr(self, c=None): return I.Ptr(c if c is not None else self.c)
    def point(self, name, c=None, offcurve=False):
        """any point: infinity (without or with a curve pointer), or any finite point of the curve"""
        m = self.m
        inf = m.lit('ptinf', ('pt', name), '%s is infinity' % name) if not offcurve else False
        y = self.yvar(name) if not offcurve else fvar(self.p, var('resid', (self.p, 'y' + name), 0, self.p - 1, name='y' + name))
        o = self.call('mk', [inf, self.fe(self.xvar(name)), self.fe(y), self.cptr(c)])
        if not offcurve:
            # an infinite point may carry a curve pointer
            g = AND(inf, m.lit('ptrinf', ('pt', name), '%s carries a curve' % name))
            m.g = g
            t = self.call('attach', [o, self.cptr(c)])
            m.g = True
            o2 = m.new_obj(o.ty)
            for k in o.f: pass
            m.g = g; self.call('asg', [o, t]); m.g = True
        self.m.events[:] = []
        return o
    def view(self, o):
        m = self.m; v = PV()
        v.inf = m.val(self.call('inf', [o]))
        v.inf = m.ap(lambda x: bool(x) if isinstance(x, int) else x, v.inf)
        v.x = self.fev(self.call('getx', [o])); v.y = self.fev(self.call('gety', [o]))
        v.cv = m.val(self.call('curve', [o]))
        return v
    def where(self, n): return where(self.prog, n)
    def spec_add(self, P, Q, neg=False):
        """group law on views: (inf, x, y)"""
        m = self.m; p = self.p
        qy = m.ap(fneg, Q.y) if neg else Q.y
        both = AND(NOT(P.inf), NOT(Q.inf))
        g0 = m.g; m.g = both
        def chord(x1, y1, x2, y2):
            l = fmul(fsub(y1, y2), finv(fsub(x1, x2)))
            x3 = fsub(fsub(fmul(l, l), x1), x2)
            return (x3, fsub(fmul(l, fsub(x1, x3)), y1))
        def tang(x1, y1):
            if fzero(y1): return (fconst(p, 0), fconst(p, 0))
            l = fmul(fadd(fmul(fconst(p, 3), fmul(x1, x1)), fconst(p, self.a)), finv(fmul(fconst(p, 2), y1)))
            x3 = fsub(fmul(l, l), fmul(fconst(p, 2), x1))
            return (x3, fsub(fmul(l, fsub(x1, x3)), y1))
        samex = m.ap(lambda a, b: m.feq0(fsub(a, b)), P.x, Q.x)
        opp = m.ap(lambda a, b: m.feq0(fadd(a, b)), P.y, qy)
        m.g = AND(both, NOT(samex))
        def safe(f, *a):
            try: return f(*a)
            except (ZeroDivisionError, ValueError): return (fconst(p, 0), fconst(p, 0))
        ch = m.ap(lambda *a: safe(chord, *a), P.x, P.y, Q.x, qy)
        m.g = AND(both, AND(samex, NOT(opp)))
        tg = m.ap(lambda *a: safe(tang, *a), P.x, P.y)
        m.g = g0
        fin = ite(samex, ite(opp, 'inf', tg), ch)
        q = self.pack(Q.inf, Q.x, qy)
        pp = self.pack(P.inf, P.x, P.y)
        return ite(P.inf, q, ite(Q.inf, pp, fin))
    def pack(self, inf, x, y):
        def f(i, a, b):
            if i: return 'inf'
            return (a, b)
        return dd.ap(True, f, inf, x, y)
    def packv(self, v): return self.pack(v.inf, v.x, v.y)
    def check_point(self, nm, res, exp, w, care=True, cv=None):
        ctx = self.ctx; m = self.m
        v = self.view(res)
        ok = ctx.equal(m, nm + ': value', self.packv(v), exp, w, care)
        cvl = self.cptr() if cv is None else cv
        ctx.equal(m, nm + ': curve object of a finite result', v.cv, cvl, w, AND(care, NOT(v.inf)))
        return v
PT = 'ecc::Point::'

def each(ctx, body, **kw):
    for c in CURVES:
        ctx.scenario(c, lambda: body(PointLab(ctx, c, **kw)))

def unchanged(L, nm, o, v0, w):
    v = L.view(o)
    L.ctx.equal(L.m, nm, L.packv(v), L.packv(v0), w)
    L.ctx.equal(L.m, nm + ' (curve)', v.cv, v0.cv, w)

def E01(ctx):
    def body(L):
        for n, w in (('add', 'operator+'), ('addsame', 'operator+'), ('dbl', 'pointDouble'), ('addas', 'operator+='), ('addself', 'operator+=')):
            two = n in ('add', 'addas')
            for other in (False, True) if two else (False,):
                # operands on one curve object, or each on a curve object of its own
                m = L.fresh(); nm = '%s %s%s' % (L.cname, n, ' across curve objects' if other else ''); W = L.where(PT + w)
                c2 = L.call('mkcurve', []) if other else L.c
                m.events[:] = []
                P = L.point('P'); Q = L.point('Q', c2); vp = L.view(P); vq = L.view(Q)
                r = L.call(n, [P, Q] if two else [P])
                ev = list(m.events)
                L.check_point(nm, r, L.spec_add(vp, vq if two else vp), W, cv=ite(vp.inf, L.cptr(c2), L.cptr()) if other else None)
                m.events[:] = ev
                ctx.clean(m, nm); ctx.noexc(m, nm); ctx.absorb(m)
    each(ctx, body)

def E02(ctx):
    def body(L):
        for n, w in (('sub', 'operator-'), ('subsame', 'operator-'), ('subas', 'operator-='), ('subself', 'operator-=')):
            two = n in ('sub', 'subas')
            for other in (False, True) if two else (False,):
                # operands on one curve object, or each on a curve object of its own
                m = L.fresh(); nm = '%s %s%s' % (L.cname, n, ' across curve objects' if other else ''); W = L.where(PT + w)
                c2 = L.call('mkcurve', []) if other else L.c
                m.events[:] = []
                P = L.point('P'); Q = L.point('Q', c2); vp = L.view(P); vq = L.view(Q)
                r = L.call(n, [P, Q] if two else [P])
                ev = list(m.events)
                L.check_point(nm, r, L.spec_add(vp, vq if two else vp, neg=True), W, cv=ite(vp.inf, L.cptr(c2), L.cptr()) if other else None)
                m.events[:] = ev
                ctx.clean(m, nm); ctx.noexc(m, nm); ctx.absorb(m)
    each(ctx, body)

# ---------------------------------------------------------------- lifting, encoding
CV = 'ecc::Curve::'
def E04(ctx):
    def body(L):
        p = L.p
        X = L.xvar('0')
        m = L.fresh()
        res = {}
        for n, w in (('lift', 'evaluateP'), ('liftneg', 'evaluatePneg')):
            nm = '%s %s' % (L.cname, n); W = L.where(CV + w)
            xo = L.fe(X)
            r = L.call(n, [L.c, xo])
            v = L.view(r); res[n] = v
            q = m.qr(L.m.rhs(X))
            ctx.equal(m, nm + ': infinity exactly when no point has this x', v.inf, NOT(q), W)
            fin = NOT(v.inf)
            ctx.equal(m, nm + ': x', v.x, X, W, AND(q, fin))
            m.g = AND(q, fin)
            ctx.equal(m, nm + ': satisfies the curve equation', m.ap(lambda y: fmul(y, y), v.y), m.rhs(X), W, AND(q, fin))
            m.g = True
            ctx.equal(m, nm + ': curve object', v.cv, L.cptr(), W, AND(q, fin))
            ctx.equal(m, nm + ': x argument unchanged', L.fev(xo), X, W)
        q = m.qr(m.rhs(X))
        ctx.equal(m, '%s: the two lifts are opposite' % L.cname, m.ap(lambda a, b: fadd(a, b), res['lift'].y, res['liftneg'].y), fconst(p, 0), L.where(CV + 'evaluatePneg'), AND(q, AND(NOT(res['lift'].inf), NOT(res['liftneg'].inf))))
        py2 = L.fev(L.call('py2', [L.c, L.fe(X)]))
        ctx.equal(m, '%s evaluatePy2' % L.cname, py2, m.rhs(X), L.where(CV + 'evaluatePy2'))
        ctx.clean(m, L.cname + ' lifting'); ctx.noexc(m, L.cname + ' lifting'); ctx.absorb(m)
        # encoding round trip
        m = L.fresh()
        P = L.point('P'); vp = L.view(P)
        fin = NOT(vp.inf)
        m.g = fin
        r = L.call('encdec', [P, L.cptr()])
        ev = list(m.events)
        m.g = True
        L.check_point('%s decode(encode)' % L.cname, r, L.packv(vp), L.where(PT + 'setEncodedX'), fin)
        m.events[:] = ev
        unchanged(L, '%s encode leaves its point unchanged' % L.cname, P, vp, L.where(PT + 'getEncodedX'))
        m.events[:] = ev
        ctx.clean(m, L.cname + ' encoding'); ctx.noexc(m, L.cname + ' encoding'); ctx.absorb(m)
        # decoding onto another curve object
        m = L.fresh()
        c2 = L.call('mkcurve', [])
        P = L.point('P'); vp = L.view(P); fin = NOT(vp.inf)
        m.g = fin; r = L.call('encdec', [P, L.cptr(c2)]); m.g = True
        v = L.view(r)
        ctx.equal(m, '%s decode attaches the curve of the target' % L.cname, v.cv, L.cptr(c2), L.where(PT + 'setEncodedX'), AND(fin, NOT(v.inf)))
        ctx.absorb(m)
    each(ctx, body)

def E05(ctx):
    def body(L):
        W = L.where(PT + 'isValid')
        m = L.fresh()
        P = L.point('Z', offcurve=True)
        v = L.view(P)
        r = m.val(L.call('valid', [P]))
        ctx.equal(m, '%s isValid of finite coordinates' % L.cname, r, m.feq0(fsub(fmul(L.fev(L.call('gety', [P])), L.fev(L.call('gety', [P]))), m.rhs(L.fev(L.call('getx', [P]))))), W)
        ctx.clean(m, L.cname + ' isValid'); ctx.absorb(m)
        m = L.fresh()
        P = L.point('P')
        ctx.equal(m, '%s isValid of curve points and infinity' % L.cname, m.val(L.call('valid', [P])), True, W)
        Q = L.call('nullcurve', [L.fe(L.xvar('Q')), L.fe(L.yvar('Q'))])
        ctx.equal(m, '%s isValid without a curve' % L.cname, m.val(L.call('valid', [Q])), False, W)
        D = L.call('dflt', [])
        ctx.equal(m, '%s isValid of infinity' % L.cname, m.val(L.call('valid', [D])), True, W)
        D2 = L.call('attach', [D, L.cptr()])
        ctx.equal(m, '%s isValid of infinity with a curve' % L.cname, m.val(L.call('valid', [D2])), True, W)
        unchanged(L, '%s isValid leaves its point unchanged' % L.cname, P, L.view(P), W)
        ctx.clean(m, L.cname + ' isValid (2)'); ctx.noexc(m, L.cname + ' isValid'); ctx.absorb(m)
    each(ctx, body)
    def body2(L):
        # coordinates of another field
        W = L.where(PT + 'isValid')
        for which in ('x', 'y', 'xy'):
            m = L.fresh(); m.curve_ab = {}
            x, y = L.fe(L.xvar('Q')), L.fe(fvar(L.p, var('resid', (L.p, 'yQ'), 0, L.p - 1, name='yQ')))
            q = I.Cell(min(L.n, L.p) if L.n != L.p else L.p - 2)
            if 'x' in which: x = L.call('setf', [x, q])
            if 'y' in which: y = L.call('setf', [y, q])
            P = L.call('off', [x, y, L.cptr()])
            ctx.equal(m, '%s isValid with %s over another prime' % (L.cname, which), m.val(L.call('valid', [P])), False, W)
            ctx.absorb(m)
    each(ctx, body2, absfield=False)

def E06(ctx):
    def body(L):
        m = L.fresh()
        n = L.n
        gen = absmodels.gp_of(m, L.call('gen', [L.c]))
        def one_draw(nm, k0, w):
            ds = m.draws[k0:]
            ctx.obligation(nm + ': one draw over [0, order)')
            if len(ds) != 1 or not isT(ds[0]['g']) or (ds[0]['lo'], ds[0]['hi']) != (0, n):
                ctx.violation('%s: draws %s instead of one value of [0, order)' % (nm, [(hex(d['lo']), hex(d['hi'])) for d in ds]), w)
                return None
            return fvar(n, ds[0]['v'])
        for rep_ in (1, 2):
            w = L.where(CV + 'getRandomPoint'); nm = '%s getRandomPoint (call %d)' % (L.cname, rep_); k = len(m.draws)
            r = L.call('rndp', [L.c]); d = one_draw(nm, k, w)
            if d is not None: ctx.equal(m, nm, absmodels.gp_of(m, r), gmul(gen, d), w); ctx.equal(m, nm + ': curve object', m.load(r.f['curve']), L.cptr(), w)
            w = L.where(CV + 'getRandomScalar'); nm = '%s getRandomScalar (call %d)' % (L.cname, rep_); k = len(m.draws)
            r = L.call('rnds', [L.c]); d = one_draw(nm, k, w)
            if d is not None: ctx.equal(m, nm, L.fev(r), d, w)
            w = L.where(CV + 'generateKeyPair'); nm = '%s generateKeyPair (call %d)' % (L.cname, rep_); k = len(m.draws)
            pk = m.new_obj(r2(L)); m.store(pk.f['gp'], m.ginf()); m.store(pk.f['curve'], I.NULL)
            sk = m.val(L.call('ksk', [L.c, pk])); d = one_draw(nm, k, w)
            if d is not None:
                ctx.equal(m, nm + ': secret key', m.ap(lambda x: to_fe(n, x), sk), d, w)
                ctx.holds(m, nm + ': secret key in [0, order)', AND(NOT(m.ap(m.ilt0, sk)), m.ap(lambda x: m.ilt0(isub(x, n)), sk)), w, 'out of range')
                ctx.equal(m, nm + ': public key', absmodels.gp_of(m, pk), gmul(gen, d), w)
                ctx.equal(m, nm + ': curve object of the public key', m.load(pk.f['curve']), L.cptr(), w)
        ctx.clean(m, L.cname + ' random generation'); ctx.noexc(m, L.cname); ctx.absorb(m)
    each(ctx, body, abspoint=True)
def r2(L):
    f = L.fn('dflt'); return f['_T'][f['rt']]

# ---------------------------------------------------------------- scalar multiplication
def bits_zero(m, x):
    """exact zero test of sum c_i b_i modulo the group order for 0/1 unknowns"""
    n = x.n
    r = True
    for b, f in x.d.items():
        if BASES[b].kind == 'case':
            z = coef_zero(m, f)
            r = AND(r, OR(z, m.lit('inf', BASES[b], 'inf(%s)' % BASES[b].name)))
        else: r = AND(r, coef_zero(m, f))
    return r
def coef_zero(m, f):
    if fzero(f): return True
    if fisconst(f): return False
    if f.den != ONE: m.unsup('zero test of a fraction of scalars')
    if all(VARS[v].bit for v in dvars(f.num)) and all(len(k) <= 1 and c & (c - 1) == 0 for k, c in f.num.items()) and len(set(f.num.values())) == len(f.num):
        # distinct bits of a scalar below the order
        if () in f.num: return False
        r = True
        for k in sorted(f.num, key=lambda k: -k[0]): r = AND(r, NOT(dd.lit(dd.atom('bit', VARS[k[0]], VARS[k[0]].name))))
        return r
    d = {k: (c if c <= f.p // 2 else c - f.p) for k, c in f.num.items()}
    if not all(VARS[v].bit for v in dvars(d)): 
        return m.lit('eq0', f)
    lo, hi = ivd(d)
    if not (-f.p < lo and hi < f.p):
        # shifted representatives
        d2 = dict(f.num)
        lo, hi = ivd(d2)
        if not (-f.p < lo and hi < f.p):
            return m.lit('eq0', f)
        d = d2
    if lo > 0 or hi < 0: return False
    if all(c > 0 for c in d.values()) or all(c < 0 for c in d.values()):
        if () in d: return False
        if all(len(k) == 1 for k in d):
            r = True
            for k in sorted(d, key=lambda k: -k[0]): r = AND(r, NOT(dd.lit(dd.atom('bit', VARS[k[0]], VARS[k[0]].name))))
            return r
    memo = {}
    def rec(d):
        lo, hi = ivd(d)
        if lo > 0 or hi < 0: return False
        if lo == hi == 0: return True
        k = dkey(d)
        if k in memo: return memo[k]
        v = min(dvars(d), key=lambda u: dd.atom('bit', VARS[u], VARS[u].name).id)
        r = ite(dd.lit(dd.atom('bit', VARS[v], VARS[v].name)), rec(dsubst(d, {v: ONE})), rec(dsubst(d, {v: {}})))
        memo[k] = r
        return r
    return rec(d)

def lengths(ctx, n):
    top = n.bit_length()
    if ctx.tier == 'thorough' or top < 256: return list(range(0, top + 1))
    return sorted({0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 160, 192, 200, 224, top - 2, top - 1, top})

def E03(ctx):
    isop = lambda e: e['qn'] in ('ecc::Point::operator*', 'ecc::Point::operator*=')
    def body(L):
        n = L.n
        W = L.where(PT + 'operator*'); W2 = L.where(PT + 'operator*=')
        PTy = r2(L)
        def pt(m, name, case):
            o = m.new_obj(PTy)
            if case:
                b = base('case', name, name); gp = gbase(n, b); m.store(o.f['gp'], gp)
                m.store(o.f['curve'], ite(m.lit('inf', b, 'inf(%s)' % name), I.NULL, L.cptr()))
            else:
                gp = gbase(n, base('raw', name, name)); m.store(o.f['gp'], gp); m.store(o.f['curve'], L.cptr())
            return o, gp
        def machine(noabs):
            m = L.fresh(); m.hooks['gpeq0'] = bits_zero; m.noabs = noabs
            return m
        def scalar_bits(m, ln):
            """an unknown scalar of exactly ln bits"""
            d = {}
            for i in range(ln - 1):
                newbit_once('k%d' % i)
                d[(var('bit', 'k%d' % i, 0, 1, bit=True).id,)] = 1 << i
            if ln: d[()] = 1 << (ln - 1)
            return P(d)
        def canonical(ln):
            """the scalar of ln bits is a residue: less than the order"""
            if ln < n.bit_length(): return True
            c = False
            for i in range(ln - 1):
                b = dd.lit(dd.atom('bit', var('bit', 'k%d' % i, 0, 1, bit=True), 'k%d' % i))
                c = OR(NOT(b), c) if n >> i & 1 else AND(NOT(b), c)
            return c
        def chk(nm, w, r, gp, k, care=True):
            m = L.m
            g = absmodels.gp_of(m, r)
            ctx.equal(m, nm, g, gmul(gp, to_fe(n, k)), w, care)
            inf = m.ap(m.gpeq0, g)
            ctx.equal(m, nm + ': curve object of a finite result', absmodels.cv_of(m, r), L.cptr(), w, AND(care, NOT(inf)))
            ctx.clean(m, nm, care=care); ctx.noexc(m, nm, care=care); ctx.absorb(m)
        top = n.bit_length()
        for ln in lengths(ctx, n):
            def one(ln=ln):
                m = machine(lambda m, e: isop(e))
                k = scalar_bits(m, ln)
                so = m.new_obj(L.ST); so.f['p'].v = n; so.f['value'].v = k
                o, gp = pt(m, 'P', False)
                r = L.call('mulf', [o, so])
                nm = '%s field scalar of %d bits' % (L.cname, ln)
                chk(nm, W, r, gp, k, canonical(ln))
                ctx.equal(m, nm + ': scalar unchanged', m.load(so.f['value']), k, W)
                ctx.equal(m, nm + ': point unchanged', absmodels.gp_of(m, o), gp, W)
            jobs.append(('E03 %s %d bits' % (L.cname, ln), one))
        # infinity times anything; short scalars times any point
        for ln in (0, 1, 2, 3, 5):
            for fn, ty in (('mulf', 'f'), ('mulz', 'z')):
                def two(ln=ln, fn=fn, ty=ty):
                    m = machine(lambda m, e: isop(e))
                    k = scalar_bits(m, ln)
                    o, gp = pt(m, 'Q', True)
                    if ty == 'f':
                        so = m.new_obj(L.ST); so.f['p'].v = n; so.f['value'].v = k
                    else: so = I.Cell(k)
                    r = L.call(fn, [o, so])
                    g = absmodels.gp_of(m, r)
                    nm = '%s %s, any point, scalar of %d bits' % (L.cname, fn, ln)
                    ctx.equal(m, nm, g, gmul(gp, to_fe(n, k)), W)
                    ctx.clean(m, nm); ctx.noexc(m, nm); ctx.absorb(m)
                jobs.append(('E03 %s short scalars' % fn, two))
        # arbitrary integer: the other forms delegate with the same class modulo the order
        def outer(m, e): return isop(e) and m.fr.name.startswith('w_')
        for fn, w in (('mulz', W), ('mulzas', W2), ('mulfas', W2)):
            def three(fn=fn, w=w):
                m = machine(outer)
                for case in (False, True):
                    o, gp = pt(m, 'R%d' % case, case)
                    kv = var('int', 'k' + fn, -INF, INF, name='k')
                    kf = to_fe(n, V(kv))
                    if fn == 'mulfas':
                        rv_ = var('resid', (n, 'k' + fn), 0, n - 1, name='k')
                        so = m.new_obj(L.ST); so.f['p'].v = n; so.f['value'].v = V(rv_); kf = fvar(n, rv_)
                    else: so = I.Cell(V(kv))
                    r = L.call(fn, [o, so])
                    nm = '%s %s, any scalar%s' % (L.cname, fn, ', any point' if case else '')
                    ctx.equal(m, nm, absmodels.gp_of(m, r), gmul(gp, kf), w)
                    if fn != 'mulz':
                        ctx.obligation(nm + ': returns the assigned object')
                        for g, x in leaves(r, m.g):
                            if x is not o: ctx.violation(nm + ': does not return the assigned object', w)
                ctx.clean(m, fn); ctx.noexc(m, fn); ctx.absorb(m)
            jobs.append(('E03 %s' % fn, three))
    jobs = []
    for c in CURVES:
        body(PointLab(ctx, c, absfield=False, abspoint=True))
    jobs.sort(key=lambda j: -int(j[0].split()[2]) if j[0].endswith('bits') else 0)
    ctx.parallel(jobs)
def newbit_once(name):
    v = var('bit', name, 0, 1, name=name, bit=True)
    if v.id not in BITIDX:
        BITIDX[v.id] = len(BITS); BITS.append(v)

# ---------------------------------------------------------------- operands and compound forms (F03)
def F03_points(ctx):
    def body(L):
        for n, plain, w, two in (('add', None, 'operator+', 1), ('sub', None, 'operator-', 1), ('addsame', None, 'operator+', 0), ('subsame', None, 'operator-', 0), ('dbl', None, 'pointDouble', 0),
                                 ('addas', 'add', 'operator+=', 1), ('subas', 'sub', 'operator-=', 1), ('addself', 'addsame', 'operator+=', 0), ('subself', 'subsame', 'operator-=', 0),
                                 ('eq', None, 'operator==', 1), ('valid', None, 'isValid', 0), ('copy', None, 'operator=', 0), ('enc', None, 'getEncodedX', 0)):
            m = L.fresh(); nm = '%s %s' % (L.cname, n); W = L.where(PT + w)
            P = L.point('P'); Q = L.point('Q'); vp, vq = L.view(P), L.view(Q)
            if n == 'enc': m.g = NOT(vp.inf)
            r = L.call(n, [P, Q] if two else [P])
            m.g = True
            if plain is None: unchanged(L, nm + ': left operand unchanged', P, vp, W)
            if two: unchanged(L, nm + ': right operand unchanged', Q, vq, W)
            if plain:
                ctx.obligation(nm + ': returns the assigned object')
                for g, x in leaves(r, m.g):
                    if x is not P: ctx.violation(nm + ': does not return the assigned object', W)
                v1 = L.view(r)
                m2 = L.fresh()
                P2 = L.point('P'); Q2 = L.point('Q')
                v2 = L.view(L.call(plain, [P2, Q2] if two else [P2]))
                ctx.equal(m2, nm + ': same result as the plain operator', L.packv(v1), L.packv(v2), W)
            ctx.absorb(m)
    each(ctx, body)
    def mul(L):
        for n, w in (('mulzas', 'operator*='), ('mulfas', 'operator*='), ('mulz', 'operator*'), ('mulf', 'operator*')):
            m = L.fresh(); W = L.where(PT + w); nm = '%s %s' % (L.cname, n)
            m.noabs = (lambda m, e: e['qn'] == 'ecc::Point::operator*=' or (e['qn'] == 'ecc::Point::operator*' and m.fr.name.startswith('w_'))) if n != 'mulf' else None
            o = m.new_obj(r2(L)); gp = gbase(L.n, base('raw', 'P', 'P')); m.store(o.f['gp'], gp); m.store(o.f['curve'], L.cptr())
            kv = var('resid', (L.n, 'k'), 0, L.n - 1, name='k'); kf = fvar(L.n, kv)
            so = L.fe(kf, L.ST) if n.startswith('mulf') else I.Cell(V(kv))
            r = L.call(n, [o, so])
            if n.endswith('as'):
                ctx.obligation(nm + ': returns the assigned object')
                for g, x in leaves(r, m.g):
                    if x is not o: ctx.violation(nm + ': does not return the assigned object', W)
                ctx.equal(m, nm + ': same result as the plain operator', absmodels.gp_of(m, r), gmul(gp, kf), W)
            else: ctx.equal(m, nm + ': point unchanged', absmodels.gp_of(m, o), gp, W)
            ctx.equal(m, nm + ': scalar unchanged', L.fev(so) if n.startswith('mulf') else m.ap(lambda x: to_fe(L.n, x), m.load(so)), kf, W)
            ctx.absorb(m)
    each(ctx, mul, abspoint=True)

# ---------------------------------------------------------------- equality and copies of points and curves
def symcurve(L, name):
    """a curve object with unknown integer parameters"""
    m = L.m
    c = L.call('mkcurve', [])
    vs = {}
    for k, cell in c.f.items():
        if isinstance(cell, I.Cell) and cell.ty and cell.ty.get('qn') in ('__gmp_expr', '__mpz_struct'):
            vs[k] = V(var('int', 'cv%s.%s' % (name, k), -INF, INF, name='%s.%s' % (name, k)))
            cell.v = vs[k]
    if len(vs) < 5: raise ir.ExtractError('fewer than five integer parameters in the curve class')
    return c, vs
def V01_points(ctx):
    def body(L):
        m = L.fresh(); W = L.where(PT + 'operator==')
        P, Q = L.point('P'), L.point('Q'); vp, vq = L.view(P), L.view(Q)
        bothinf = AND(vp.inf, vq.inf); fin = AND(NOT(vp.inf), NOT(vq.inf))
        m.g = fin
        same = AND(m.ap(lambda a, b: m.feq0(fsub(a, b)), vp.x, vq.x), m.ap(lambda a, b: m.feq0(fsub(a, b)), vp.y, vq.y))
        m.g = True
        exp = OR(bothinf, AND(fin, same))
        r = m.val(L.call('eq', [P, Q]))
        nm = L.cname + ' points'
        ctx.equal(m, nm + ': equality', r, exp, W)
        r2_ = m.val(L.call('eq', [Q, P]))
        ctx.equal(m, nm + ': equality is symmetric', r2_, exp, W)
        ctx.equal(m, nm + ': a point equals itself', m.val(L.call('eqself', [P])), True, W)
        ctx.clean(m, nm); ctx.noexc(m, nm); ctx.absorb(m)
        # points of different curves
        m = L.fresh()
        c1, v1 = symcurve(L, 'c1'); c2, v2 = symcurve(L, 'c2')
        m.events[:] = []
        same = True
        for k in v1: same = AND(same, m.ieq0(isub(v1[k], v2[k])))
        WC = where(L.prog, 'ecc::operator==')
        ctx.equal(m, L.cname + ' curves: equality', m.val(L.call('eqcurve', [c1, c2])), same, WC)
        ctx.equal(m, L.cname + ' curves: equality is symmetric', m.val(L.call('eqcurve', [c2, c1])), same, WC)
        x, y = L.fe(L.xvar('P')), L.fe(L.yvar('P'))
        A = L.call('off', [x, y, L.cptr(c1)]); B_ = L.call('off', [x, y, L.cptr(c2)])
        ctx.equal(m, nm + ': equality involves the curve', m.val(L.call('eq', [A, B_])), same, W)
        ctx.clean(m, L.cname + ' curve equality'); ctx.noexc(m, L.cname + ' curve equality'); ctx.absorb(m)
    each(ctx, body)
def V02_points(ctx):
    def body(L):
        for n, w in (('copy', 'operator='), ('assign', 'operator='), ('asg', 'operator='), ('asgself', 'operator='), ('chain', 'operator=')):
            m = L.fresh(); W = L.where(PT + w); nm = '%s points: %s' % (L.cname, n)
            P, Q = L.point('P'), L.point('Q'); vp, vq = L.view(P), L.view(Q)
            if n == 'asg': r = L.call(n, [Q, P])
            elif n == 'chain': r = L.call(n, [P, Q])
            else: r = L.call(n, [P])
            for what, o in (('result', r), ('source', P)) + ((('assigned object', Q),) if n in ('asg', 'chain') else ()):
                unchanged(L, '%s: %s has the components of the source' % (nm, what), o, vp, W)
            if n in ('asg', 'asgself'):
                ctx.obligation(nm + ': returns the assigned object')
                for g, x in leaves(r, m.g):
                    if x is not (Q if n == 'asg' else P): ctx.violation(nm + ': does not return the assigned object', W)
            ctx.clean(m, nm); ctx.noexc(m, nm); ctx.absorb(m)
        # construction from components
        m = L.fresh(); W = L.where('ecc::Point::Point')
        x, y = L.fe(L.xvar('P')), L.fe(L.yvar('P'))
        z = I.Cell(V(var('int', 'zx', -INF, INF, name='zx'))); z2 = I.Cell(V(var('int', 'zy', -INF, INF, name='zy')))
        K = fconst
        for n, args, ex, ey in (('off', [x, y, L.cptr()], L.xvar('P'), L.yvar('P')), ('ofz', [z, z2, L.cptr()], to_fe(L.p, z.v), to_fe(L.p, z2.v)),
                                ('ofstr', [L.cptr()], K(L.p, 1234567), K(L.p, 89)), ('ofstr16', [L.cptr()], K(L.p, 0x1234567), K(L.p, 0xab)),
                                ('ofchar', [L.cptr()], K(L.p, 1234567), K(L.p, 89)), ('ofchar16', [L.cptr()], K(L.p, 0x1234567), K(L.p, 0xab))):
            v = L.view(L.call(n, args)); nm = '%s points: %s' % (L.cname, n)
            ctx.equal(m, nm + ' is finite', v.inf, False, W)
            ctx.equal(m, nm + ' x', v.x, ex, W); ctx.equal(m, nm + ' y', v.y, ey, W); ctx.equal(m, nm + ' curve', v.cv, L.cptr(), W)
        v = L.view(L.call('dflt', []))
        ctx.equal(m, L.cname + ' points: default construction is infinity', v.inf, True, W)
        ctx.clean(m, L.cname + ' point construction'); ctx.noexc(m, L.cname); ctx.absorb(m)
        # curves
        m = L.fresh(); WC = where(L.prog, 'ecc::Curve::operator=')
        for n in ('copycurve', 'asgcurve'):
            c1, v1 = symcurve(L, 's'); 
            if n == 'copycurve': r = L.call(n, [c1]); o = r
            else:
                o, _ = symcurve(L, 'o'); r = L.call(n, [o, c1])
                ctx.obligation('%s %s returns the assigned object' % (L.cname, n))
                if r is not o: ctx.violation('%s %s does not return the assigned object' % (L.cname, n), WC)
            for k in v1:
                ctx.equal(m, '%s %s: %s' % (L.cname, n, k), m.load(o.f[k]), v1[k], WC)
                ctx.equal(m, '%s %s: source %s unchanged' % (L.cname, n, k), m.load(c1.f[k]), v1[k], WC)
            g0 = L.view(L.call('gen', [c1])); g1 = L.view(L.call('gen', [o]))
            ctx.equal(m, '%s %s: generator' % (L.cname, n), L.packv(g1), L.packv(g0), WC)
            ctx.equal(m, '%s %s: generator refers to the new curve' % (L.cname, n), g1.cv, I.Ptr(o), WC)
            ctx.equal(m, '%s %s: generator of the source untouched' % (L.cname, n), g0.cv, I.Ptr(c1), WC)
        # key pairs
        m = L.fresh(); P = L.point('P'); vp = L.view(P); s = V(var('int', 'sk', -INF, INF, name='sk'))
        pk = L.call('dflt', [])
        sk = m.val(L.call('kpsk', [I.Cell(s), P, pk])); W = where(L.prog, 'ecc::KeyPair::KeyPair')
        ctx.equal(m, L.cname + ' key pair: secret key', sk, s, W)
        unchanged(L, L.cname + ' key pair: public key', pk, vp, W); unchanged(L, L.cname + ' key pair: source point', P, vp, W)
        ctx.absorb(m)
    each(ctx, body)
