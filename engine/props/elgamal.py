"""G01 and the ElGamal part of M01."""
from .proto import *
SRC = ('src/elgamal/elgamal.cpp',)
Q = 'elgamal::ElGamal::'
class Eg(Proto):
    def __init__(self, ctx, **kw):
        Proto.__init__(self, ctx, 'elgamal.cpp', 'w_eg', SRC, **kw)
def fresh_full(L, nm, ds, k, w):
    ctx = L.ctx
    ctx.obligation(nm + ': %d fresh draw(s) over [0, order)' % k)
    if len(ds) != k or any(d['kind'] == 'weak' or not isT(d['g']) or (d['lo'], d['hi']) != (0, L.n) for d in ds):
        ctx.violation('%s: draws %s instead of %d value(s) of [0, order)' % (nm, [(d['kind'], hex(d['lo']), hex(d['hi'])) for d in ds], k), w)
        return False
    return True
def G01(ctx):
    def body(L):
        m = L.m; gen = L.gen()
        for who in ('own', 'copy', 'assigned'):
            e = L.new('mk')
            nm = 'ElGamal (%s)' % who
            if who == 'copy':
                e0 = e; e = L.new('copy', e0); L.call('del', I.Ptr(e0))
            elif who == 'assigned':
                e0 = e; e = L.new('mk'); L.call('asg', e, e0); L.call('del', I.Ptr(e0))
            for i in (1, 2):
                n0 = len(m.draws)
                kp = L.call('keygen', e); pk, sk = L.call('kp_pk', kp), L.call('kp_sk', kp)
                w = L.where(Q + 'keyGen')
                if fresh_full(L, nm + ' keyGen', m.draws[n0:], 1, w):
                    ctx.equal(m, nm + ' keyGen: secret key', L.fe(sk), fvar(L.n, m.draws[-1]['v']), w)
                ctx.equal(m, nm + ' keyGen: public key = generator times secret key', L.gp(pk), m.ap(gmul, gen, L.fe(sk)), w)
                w = L.where(Q + 'encrypt')
                M = L.anypoint('M%d' % i); g = L.gp(M); n0 = len(m.draws)
                c = L.call('enc', e, pk, M)
                fresh_full(L, nm + ' encrypt', m.draws[n0:], 1, w)
                u, mv = L.gp(L.call('ct_u', c)), L.gp(L.call('ct_mv', c))
                ctx.equal(m, nm + ' point message: mv - sk u', m.ap(lambda a, b, s: gadd(a, gneg(gmul(b, s))), mv, u, L.fe(sk)), g, w)
                ctx.equal(m, nm + ' u = generator times the fresh scalar', u, gmul(one(gen), fvar(L.n, m.draws[-1]['v'])), w)
                ctx.equal(m, nm + ' message unchanged', L.gp(M), g, w)
                z = L.z('z%d' % i); n0 = len(m.draws)
                c = L.call('encz', e, pk, L.zc(z))
                fresh_full(L, nm + ' encrypt (integer)', m.draws[n0:], 1, w)
                u = L.gp(L.call('ct_u', c))
                ctx.equal(m, nm + ' integer: u', u, gmul(one(gen), fvar(L.n, m.draws[-1]['v'])), w)
                ctx.equal(m, nm + ' integer message', L.val('decz', e, sk, c), z, L.where(Q + 'decrypt'))
                # another party
                f = L.new('mk')
                ctx.equal(m, nm + ' decrypted by another object', L.val('decz', f, sk, c), z, L.where(Q + 'decrypt'))
                L.call('del', I.Ptr(f))
            L.finish(nm)
    ctx.scenario('ElGamal', lambda: body(Eg(ctx)))
def M01_elgamal(ctx):
    from .dme import NTRY, candidate
    def body(L):
        m = L.m; z = L.z('m'); e = L.new('mk')
        kp = L.call('keygen', e); pk, sk = L.call('kp_pk', kp), L.call('kp_sk', kp)
        def h(m, x):
            if candidate(m, x) < NTRY: return m.lit('onc', x, 'on-curve(%r)' % (x,))
            return True
        m.hooks['lift'] = h
        c = L.call('encz', e, pk, L.zc(z))
        w = L.where(Q + 'encode')
        g = m.ap(lambda a, b, s: gadd(a, gneg(gmul(b, s))), L.gp(L.call('ct_mv', c)), L.gp(L.call('ct_u', c)), L.fe(sk))
        ctx.holds(m, 'ElGamal encoding is a finite point', NOT(m.ap(gzero, g)), w, 'encoding ends with the point at infinity')
        ctx.equal(m, 'ElGamal decode(encode(m))', L.val('decz', e, sk, c), z, L.where(Q + 'decode'))
        L.finish('ElGamal encoding')
    ctx.scenario('ElGamal encoding', lambda: body(Eg(ctx, lift=False)))
