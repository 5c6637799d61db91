"""D01-D05, M01, and the dual-mode value types of V01/V02."""
from .proto import *

SRC = ('src/dme/dme.cpp', 'src/dme/dmhe.cpp')
Q = 'dme::DME_DDH::'
INST = ('messy', 'decryption', 'received', 'default')

class Dme(Proto):
    def __init__(self, ctx, **kw):
        kw.setdefault('abscrc', True)
        Proto.__init__(self, ctx, 'dme.cpp', 'w_dme', SRC, **kw)
    def crsvals(self): return [self.gpt(x) for x in ('g0', 'g1', 'h0', 'h1')]
    def inst(self, kind, he=False):
        """an object of every kind of instance; a received string holds arbitrary points of another curve object"""
        if kind == 'received':
            cr = self.call('mkCRS', *[self.pt(g) for g in self.crsvals()])
            return self.new('mkhecrs' if he else 'mkcrs', cr)
        if kind == 'default': return self.new('mkdflt')
        return self.new('mkhe' if he else 'mkmode', 0 if kind == 'messy' else 1)
    def cptr(self, d): return self.m.val(self.call('curve', d))
    def crs(self, d):
        r = self.call('crs', d)
        return [self.call('crs_' + x, r) for x in ('g0', 'g1', 'h0', 'h1')]

def each(ctx, kinds, body, **kw):
    for k in kinds:
        for b in (0, 1):
            ctx.scenario('%s, branch %d' % (k, b), lambda: body(Dme(ctx, **kw), k, b))

def same_ct(L, nm, c, v0, w):
    L.ctx.equal(L.m, nm, L.gp(L.call('ct_u', c)), v0[0], w)
    L.ctx.equal(L.m, nm, L.gp(L.call('ct_mv', c)), v0[1], w)
def ctv(L, c): return (L.gp(L.call('ct_u', c)), L.gp(L.call('ct_mv', c)))

# ------------------------------------------------------------ D01
def D01(ctx):
    def body(L, k, b):
        m = L.m
        d = L.inst(k)
        kp = L.call('keygen', d, b); pk, sk = L.call('kp_pk', kp), L.call('kp_sk', kp)
        for rep_ in (1, 2):
            nm = '%s instance, branch %d, message %d' % (k, b, rep_)
            M = L.anypoint('M%d' % rep_); g = L.gp(M)
            c = L.call('enc', d, pk, b, M)
            r = L.call('dec', d, sk, c)
            ctx.equal(m, nm + ': point', L.gp(r), g, L.where(Q + 'Enc'))
            ctx.equal(m, nm + ': message unchanged', L.gp(M), g, L.where(Q + 'Enc'))
            inf = m.ap(m.gpeq0, L.gp(r))
            ctx.holds(m, nm + ': the decrypted point keeps a curve', m.ap(lambda c: isinstance(c, I.Ptr), L.cv(r)), L.where(Q + 'Dec'), 'a finite result has no curve', NOT(inf))
            z = L.z('z%d' % rep_)
            c = L.call('encz', d, pk, b, L.zc(z))
            ctx.equal(m, nm + ': integer', L.val('decz', d, sk, c), z, L.where(Q + 'DecDecode'))
            z = L.z('y%d' % rep_, 1, (1 << 168) - 1)
            c = L.call('enccrc', d, pk, b, L.zc(z))
            ctx.equal(m, nm + ': integer with checksum', L.val('deccrc', d, sk, c), z, L.where(Q + 'DecDecodeCRC'))
        L.finish('%s instance, branch %d' % (k, b))
        # a second key pair, and another party that adopted the reference string
        kp2 = L.call('keygen', d, b)
        e = L.new('mkcrs', L.call('crs', d))
        M = L.anypoint('N')
        r = L.call('dec', d, L.call('kp_sk', kp2), L.call('enc', e, L.call('kp_pk', kp2), b, M))
        ctx.equal(m, '%s instance, branch %d: encrypted by another party' % (k, b), L.gp(r), L.gp(M), L.where(Q + 'Enc'))
        kp3 = L.call('keygen', e, b)
        r = L.call('dec', e, L.call('kp_sk', kp3), L.call('enc', d, L.call('kp_pk', kp3), b, M))
        ctx.equal(m, '%s instance, branch %d: key pair of another party' % (k, b), L.gp(r), L.gp(M), L.where(Q + 'KeyGen'))
        L.finish('%s instance, branch %d, two parties' % (k, b))
    each(ctx, INST, body)
    def crcbad(L):
        m = L.m; d = L.inst('messy')
        kp = L.call('keygen', d, 0)
        z = L.z('z', 1)
        c = L.call('encz', d, L.call('kp_pk', kp), 0, L.zc(z))
        v = L.val('deccrc', d, L.call('kp_sk', kp), c)
        ok = m.lit('crcok', z, 'checksum of z')
        ctx.equal(m, 'an integer without a valid checksum decrypts to zero', v, 0, L.where(Q + 'DecDecodeCRC'), NOT(ok))
        ctx.absorb(m)
    ctx.scenario('checksum', lambda: crcbad(Dme(ctx)))

# ------------------------------------------------------------ D02
def full_rank(L, nm, c, mg, draws, w):
    """(u, mask) is a full-rank affine image of the fresh scalars of this encryption"""
    ctx = L.ctx; m = L.m
    ctx.obligation(nm + ': two fresh scalars of full range, full rank')
    for d in draws:
        if d['kind'] == 'weak' or (d['lo'], d['hi']) != (0, L.n):
            ctx.violation('%s: randomness of range [%s, %s) instead of [0, order)' % (nm, d['lo'], hex(d['hi'])), w); return
    u = one(L.gp(L.call('ct_u', c))); v = one(m.ap(lambda x: gadd(x, gneg(mg)), L.gp(L.call('ct_mv', c))))
    if u is None or v is None: ctx.violation('%s: the ciphertext is not one linear form of the randomness' % nm, w); return
    vs = [d['v'].id for d in draws]
    fs = []
    # coefficients on the generator (generated strings) or on the given points
    bases = sorted(set(u.d) | set(v.d))
    if len(bases) == 1:
        fs = [u.d.get(bases[0], fconst(L.n, 0)), v.d.get(bases[0], fconst(L.n, 0))]
    else:
        # arbitrary independent points: coefficients weighted by unknown logarithms
        def dl(x):
            s = fconst(L.n, 0)
            for b in bases: s = fadd(s, fmul(x.d.get(b, fconst(L.n, 0)), L.svar('log%d' % b)))
            return s
        fs = [dl(u), dl(v)]
    r = jac_rank(fs, vs, L.n)
    if r < 2: ctx.violation('%s: (u, mask) depends on %d independent random scalar(s), not two' % (nm, r), w)
    for f in fs:
        if any(len([x for x in k if x in vs]) > 1 for k in f.num) or any(x in vs for x in dvars(f.den)):
            ctx.violation('%s: the ciphertext is not linear in its randomness' % nm, w)

def D02(ctx):
    def body(L, k, b):
        m = L.m; d = L.inst('messy'); w = L.where(Q + 'Enc')
        kp = L.call('keygen', d, b)
        pk, sk = L.call('kp_pk', kp), L.call('kp_sk', kp)
        for rep_ in (1, 2):
            nm = 'public key for branch %d, ciphertext %d on branch %d' % (b, rep_, 1 - b)
            M = L.anypoint('M%d' % rep_); n0 = len(m.draws)
            c = L.call('enc', d, pk, 1 - b, M)
            full_rank(L, nm, c, L.gp(M) if not isinstance(L.gp(M), N) else one(L.gp(M)), m.draws[n0:], w)
            r = L.call('dec', d, sk, c)
            diff_ = m.ap(lambda x, y: gzero(gadd(x, gneg(y))), L.gp(r), L.gp(M))
            ctx.holds(m, nm + ': decryption with the other key does not return the message', m.ap(lambda x: not x, diff_), w, 'the message is recovered on the hidden branch')
            # integer form
            z = L.z('z%d' % rep_); n0 = len(m.draws)
            c = L.call('encz', d, pk, 1 - b, L.zc(z))
            mg = one(L.gp(L.call('encode', d, L.zc(z))))
            full_rank(L, nm + ' (integer)', c, mg, m.draws[n0:], w)
        # distinct encryptions use distinct randomness
        ctx.obligation('branch %d: encryptions share no draw' % b)
        ids = [x['v'].id for x in m.draws]
        if len(set(ids)) != len(ids): ctx.violation('two draws coincide', w)
        L.finish('messy mode, branch %d' % b)
    each(ctx, ('messy',), body)

# ------------------------------------------------------------ D03
def D03(ctx):
    def messy(L, k, b):
        m = L.m; d = L.inst('messy'); w = L.where(Q + 'FindMessy')
        for i in (1, 2):
            kp = L.call('keygen', d, b)
            ctx.equal(m, 'key pair %d for branch %d: messy branch' % (i, b), L.val('findmessy', d, L.call('kp_pk', kp)), 1 - b, w)
        e = L.new('mkcrs', L.call('crs', d))
        kp = L.call('keygen', e, b)
        ctx.equal(m, "another party's key for branch %d: messy branch" % b, L.val('findmessy', d, L.call('kp_pk', kp)), 1 - b, w)
        L.finish('messy mode, branch %d' % b)
    each(ctx, ('messy',), messy)
    def trap(L, k, b):
        m = L.m; d = L.inst('decryption'); w = L.where(Q + 'TrapKeyGen')
        for i in (1, 2):
            pk = L.call('mkPK', L.call('dflt'), L.call('dflt')); s = [L.call('szero'), L.call('szero')]
            L.call('trap', d, pk, s[0], s[1])
            nm = 'trapdoor key %d, branch %d' % (i, b)
            M = L.anypoint('M%d' % i)
            for who, e in (('own', d), ('other', L.new('mkcrs', L.call('crs', d)))):
                r = L.call('dec', d, s[b], L.call('enc', e, pk, b, M))
                ctx.equal(m, nm + ' (encrypted by %s party)' % who, L.gp(r), L.gp(M), w)
            z = L.z('z%d' % i)
            ctx.equal(m, nm + ', integer', L.val('decz', d, s[b], L.call('encz', d, pk, b, L.zc(z))), z, w)
            g, h = L.call('pk_g', pk), L.call('pk_h', pk)
            for o in (g, h): L.usable(nm + ': curve object of the key', o, L.cptr(d), w)
        L.finish('decryption mode, branch %d' % b)
    each(ctx, ('decryption',), trap)

# ------------------------------------------------------------ D04
def D04(ctx):
    def body(L, k, b):
        m = L.m; d = L.inst(k, he=True); w = L.where('dme::DMHE_DDH::Eval')
        base_ = L.call('base', d)
        kp = L.call('keygen', base_, b); pk, sk = L.call('kp_pk', kp), L.call('kp_sk', kp)
        A, B_, C = L.anypoint('A'), L.anypoint('B'), L.anypoint('C')
        ca, cb, cc = [L.call('enc', base_, pk, b, x) for x in (A, B_, C)]
        va, vb = ctv(L, ca), ctv(L, cb)
        add = lambda *x: m.ap(lambda *y: __import__('functools').reduce(gadd, y), *[L.gp(q) for q in x])
        nm = '%s instance, branch %d' % (k, b)
        for rep_ in (1, 2):
            r = L.call('eval', d, ca, cb)
            ctx.equal(m, nm + ': sum of two', L.gp(L.call('dec', base_, sk, r)), add(A, B_), w)
            same_ct(L, nm + ': first input unchanged', ca, va, w); same_ct(L, nm + ': second input unchanged', cb, vb, w)
        r2 = L.call('eval', d, r, cc)
        ctx.equal(m, nm + ': sum of three', L.gp(L.call('dec', base_, sk, r2)), add(A, B_, C), w)
        r3 = L.call('eval', d, cc, r)
        ctx.equal(m, nm + ': sum of three, other order', L.gp(L.call('dec', base_, sk, r3)), add(A, B_, C), w)
        s = L.call('eval', d, ca, ca)
        ctx.equal(m, nm + ': ciphertext added to itself', L.gp(L.call('dec', base_, sk, s)), add(A, A), w)
        same_ct(L, nm + ': input added to itself unchanged', ca, va, w)
        n0 = len(m.draws); L.call('eval', d, ca, cb)
        # the combination of ciphertexts made by another party
        e = L.new('mkcrs', L.call('crs', base_))
        ce = L.call('enc', e, pk, b, B_)
        r = L.call('eval', d, ca, ce)
        ctx.equal(m, nm + ': sum with another party', L.gp(L.call('dec', base_, sk, r)), add(A, B_), w)
        L.finish(nm)
    each(ctx, ('messy', 'decryption', 'received'), body)

# ------------------------------------------------------------ M01 (dual-mode part)
NTRY = 64
def candidate(m, x):
    """number of the candidate abscissa x in order of first use"""
    t = m.consts.setdefault('tried', [])
    for i, y in enumerate(t):
        if feq(x, y): return i + 1
    t.append(x)
    return len(t)
def M01(ctx):
    def body(L):
        m = L.m
        z = L.z('m')
        d = L.inst('messy')
        def h(m, x):
            if candidate(m, x) < NTRY: return m.lit('onc', x, 'on-curve(%r)' % (x,))
            return True
        m.hooks['lift'] = h
        P = L.call('encode', d, L.zc(z))
        g = L.gp(P)
        w = L.where(Q + 'encode')
        ctx.holds(m, 'dual-mode encoding is a finite point', NOT(m.ap(lambda x: gzero(x), g)), w, 'encoding ends with the point at infinity')
        ctx.equal(m, 'dual-mode decode(encode(m))', L.val('decode', d, P), z, L.where(Q + 'decode'))
        L.usable('dual-mode encoding: curve object', P, L.cptr(d), w)
        ctx.extra['candidates'] = len(m.consts.get('tried', ()))
        L.finish('dual-mode encoding')
    ctx.scenario('dual-mode encoding', lambda: body(Dme(ctx, lift=False)))
    from . import elgamal
    elgamal.M01_elgamal(ctx)

# ------------------------------------------------------------ D05 (dual-mode part)
def D05_dme(ctx):
    def body(L, k, b):
        m = L.m; w = L.where(Q + 'DME_DDH')
        for src in ('given points', 'another object'):
            L.fresh(); m = L.m
            nm = 'reference string from %s, branch %d' % (src, b)
            if src == 'given points':
                own = L.call('mkcurve')
                vals = L.crsvals()
                cr = L.call('mkCRS', *[L.pt(g, I.Ptr(own)) for g in vals])
                d = L.new('mkhecrs' if k == 'he' else 'mkcrs', cr)
                m.kill(own, 'gone')
            else:
                a = L.new('mkmode', 0)
                cr = L.call('crs', a); cr = L.call('CRS_copy', cr)
                vals = [L.gp(L.call('crs_' + x, cr)) for x in ('g0', 'g1', 'h0', 'h1')]
                d = L.new('mkhecrs' if k == 'he' else 'mkcrs', cr)
                L.call('del', I.Ptr(a))
            dd_ = L.call('base', d) if k == 'he' else d
            for x, v, o in zip(('g0', 'g1', 'h0', 'h1'), vals, L.crs(dd_)):
                ctx.equal(m, nm + ': %s is the given point' % x, L.gp(o), v, w)
                L.usable(nm + ': %s is attached to the own curve' % x, o, L.cptr(dd_), w)
            kp = L.call('keygen', dd_, b); M = L.anypoint('M', L.cptr(dd_))
            c = L.call('enc', dd_, L.call('kp_pk', kp), b, M)
            r = L.call('dec', dd_, L.call('kp_sk', kp), c)
            ctx.equal(m, nm + ': usable after its producer is gone', L.gp(r), L.gp(M), w)
            L.finish(nm)
    for k in ('plain', 'he'):
        for b in (0, 1):
            ctx.scenario('%s %d' % (k, b), lambda: body(Dme(ctx), k, b))
    def upd(L):
        m = L.m; own = L.call('mkcurve')
        cr = L.call('mkCRS', *[L.pt(g) for g in L.crsvals()])
        L.call('crs_update', cr, I.Ptr(own))
        for x, v in zip(('g0', 'g1', 'h0', 'h1'), L.crsvals()):
            o = L.call('crs_' + x, cr)
            ctx.equal(m, 'updateCurve keeps %s' % x, L.gp(o), v, L.where('dme::CRS_DDH::updateCurve'))
            ctx.equal(m, 'updateCurve attaches %s' % x, L.cv(o), I.Ptr(own), L.where('dme::CRS_DDH::updateCurve'))
        ctx.absorb(m)
    ctx.scenario('updateCurve', lambda: upd(Dme(ctx)))

# ------------------------------------------------------------ V01 / V02: value types
TYPES = {  # name -> (class, components)
    'CRS': ('dme::CRS_DDH', (('crs_g0', 'p'), ('crs_g1', 'p'), ('crs_h0', 'p'), ('crs_h1', 'p'))),
    'TDM': ('dme::td_messy_DDH', (('tdm_e0', 's'), ('tdm_e1', 's'))),
    'TDD': ('dme::td_dec_DDH', (('tdd_y', 's'),)),
    'PK': ('dme::PKEY', (('pk_g', 'p'), ('pk_h', 'p'))),
    'KP': ('dme::KeyPair', (('kp_pk', 'PK'), ('kp_sk', 's'))),
    'CT': ('dme::CTXT', (('ct_u', 'p'), ('ct_mv', 'p'))),
}
def mkval(L, T, tag):
    """object with unknown components, and the flat list of their values"""
    args = []; flat = []
    for i, (acc, k) in enumerate(TYPES[T][1]):
        if k == 'p':
            o = L.anypoint('%s%d' % (tag, i), kind='raw'); flat.append(('p', L.gp(o), L.cv(o)))
        elif k == 's':
            v = L.svar('%s%d' % (tag, i)); o = L.sc(v); flat.append(('s', v, None))
        else:
            o, f = mkval(L, k, '%s%d_' % (tag, i)); flat += f
        args.append(o)
    return L.call('mk' + T, *args), flat
def parts(L, T, o):
    out = []
    for acc, k in TYPES[T][1]:
        x = L.call(acc, o)
        if k == 'p': out.append(('p', L.gp(x), L.cv(x)))
        elif k == 's': out.append(('s', L.fe(x), None))
        else: out += parts(L, k, x)
    return out
def same(L, nm, a, b, w):
    for i, (x, y) in enumerate(zip(a, b)):
        L.ctx.equal(L.m, '%s: component %d' % (nm, i + 1), x[1], y[1], w)
        if x[0] == 'p': L.ctx.equal(L.m, '%s: curve of component %d' % (nm, i + 1), x[2], y[2], w)
def eqhook(L):
    """exact equality atoms between unknown components"""
    def g(m, x):
        if gzero(x): return True
        k = gneg(x); key = x if x.k <= k.k else k
        return m.lit('peq', key, '%r = O' % (key,))
    L.m.hooks['gpeq0'] = g; L.m.zero_generic = False
def spec_eq(L, a, b):
    r = True
    for x, y in zip(a, b):
        if x[0] == 'p': r = AND(r, L.m.gpeq0(gadd(x[1], gneg(y[1]))))
        else: r = AND(r, L.m.feq0(fsub(x[1], y[1])))
    return r
def V01_dme(ctx):
    def body(L, T):
        m = L.m; eqhook(L)
        w = L.where(TYPES[T][0] + '::operator==')
        a, fa = mkval(L, T, 'a'); b, fb = mkval(L, T, 'b')
        # an unknown point is not infinity here: comparison of finite points consults their curves
        nm = TYPES[T][0]
        e = spec_eq(L, fa, fb)
        fin = True
        for x in fa + fb:
            if x[0] == 'p': fin = AND(fin, NOT(L.m.gpeq0(x[1])))
        ctx.equal(m, nm + ' equality', L.val(T + '_eq', a, b), e, w, fin)
        ctx.equal(m, nm + ' equality is symmetric', L.val(T + '_eq', b, a), e, w, fin)
        ctx.equal(m, nm + ' equals itself', L.val(T + '_eqself', a), True, w)
        same(L, nm + ' equality leaves its operands unchanged', parts(L, T, a), fa, w)
        same(L, nm + ' equality leaves its operands unchanged', parts(L, T, b), fb, w)
        c = L.call(T + '_copy', a)
        ctx.equal(m, nm + ' equals its copy', L.val(T + '_eq', a, c), True, w)
        L.finish(nm + ' equality', fin)
    for T in TYPES: ctx.scenario(T, lambda: body(Dme(ctx), T))
def V02_dme(ctx):
    def body(L, T):
        cls = TYPES[T][0]; m = L.m
        a, fa = mkval(L, T, 'a')
        same(L, cls + ' component-wise construction', parts(L, T, a), fa, L.where(cls + '::' + cls.split('::')[-1]))
        for op in ('copy', 'assign', 'asg', 'asgself', 'chain'):
            m = L.fresh(); w = L.where(cls + '::operator=')
            a, fa = mkval(L, T, 'a'); b, fb = mkval(L, T, 'b')
            args = {'copy': [a], 'assign': [a], 'asg': [b, a], 'asgself': [a], 'chain': [a, b]}[op]
            r = L.call(T + '_' + op, args)
            nm = '%s %s' % (cls, op)
            same(L, nm + ': result', parts(L, T, r), fa, w)
            same(L, nm + ': source unchanged', parts(L, T, a), fa, w)
            if op in ('asg', 'chain'): same(L, nm + ': target', parts(L, T, b), fa, w)
            if op in ('asg', 'asgself'):
                ctx.obligation(nm + ': returns the assigned object')
                if one(r) is not args[0]: ctx.violation(nm + ': the returned reference is not the assigned object', w)
            if op in ('copy', 'assign', 'asg'):
                # independent of the source
                if op != 'asg':
                    b2, fb2 = mkval(L, T, 'c')
                    L.call(T + '_asg', [a, b2])
                    same(L, nm + ': independent of the source', parts(L, T, r), fa, w)
            L.finish(nm)
    for T in TYPES: ctx.scenario(T, lambda: body(Dme(ctx), T))
