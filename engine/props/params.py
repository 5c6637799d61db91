"""C01: the domain parameters, propagated as constants out of the constructors,
against the published ones and against each other."""
from ..lab import *
from .. import interp as I
from . import points, fields

PUB = {
 'bn254': dict(p=0x2523648240000001BA344D80000000086121000000000013A700000000000013, n=0x2523648240000001BA344D8000000007FF9F800000000010A10000000000000D,
               a=0, b=2, gx=0x2523648240000001BA344D80000000086121000000000013A700000000000012, gy=1, h=1),
 'secp256r1': dict(p=0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF, n=0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551,
                   a=0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC, b=0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B,
                   gx=0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296, gy=0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5, h=1),
}
def isprime(n):
    if n < 2 or n % 2 == 0: return n == 2
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in list(range(2, 60)) + [0x1234567, 0xdeadbeef]:
        a %= n
        if a in (0, 1): continue
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def ecadd(P, Q, a, p):
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0: return None
        l = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p) % p
    else: l = (P[1] - Q[1]) * pow(P[0] - Q[0], -1, p) % p
    x = (l * l - P[0] - Q[0]) % p
    return x, (l * (P[0] - x) - P[1]) % p
def ecmul(k, P, a, p):
    R = None
    while k:
        if k & 1: R = ecadd(R, P, a, p)
        P = ecadd(P, P, a, p); k >>= 1
    return R

def C01(ctx):
    for cn in points.CURVES:
        L = points.PointLab(ctx, cn); m = L.m; pub = PUB[cn]
        W = where(L.prog, 'ecc::Curve_%s::<ctor>' % cn)
        def ok(name, cond, what):
            ctx.obligation('%s: %s' % (cn, name))
            if not cond: ctx.violation('%s: %s: %s' % (cn, name, what), W)
        def num(x):
            x = m.val(x)
            if not isinstance(x, int): raise I.Unsupported('a domain parameter of %s is not a constant: %r' % (cn, x))
            return x
        p, n, a, b = L.p, L.n, L.a, L.b
        g = L.view(L.call('gen', [L.c]))
        gx, gy = fval(g.x), fval(g.y)
        cof = [c.v for k, c in L.c.f.items() if k == 'cofactor']
        ok('generator is finite', isF(g.inf), 'it is infinity')
        ok('prime', p == pub['p'], '%x is not the published prime' % p)
        ok('order', n == pub['n'], '%x is not the published order' % n)
        ok('a', a == pub['a'], '%x is not the published coefficient' % a)
        ok('b', b == pub['b'], '%x is not the published coefficient' % b)
        ok('generator', (gx, gy) == (pub['gx'], pub['gy']), '(%x, %x) is not the published generator' % (gx, gy))
        if cof: ok('cofactor', cof[0] == pub['h'], '%r is not the published cofactor' % cof[0])
        ok('prime is prime', isprime(p), 'it is composite')
        ok('order is prime', isprime(n), 'it is composite')
        ok('square roots by exponentiation', p % 4 == 3, 'the prime is not 3 modulo 4')
        ok('non-singular', (4 * a ** 3 + 27 * b * b) % p != 0, 'the discriminant is zero')
        ok('generator on the curve', (gy * gy - gx ** 3 - a * gx - b) % p == 0, 'it is not')
        ok('generator has the stated order', isprime(n) and ecmul(n, (gx, gy), a, p) is None, 'n*G is not infinity')
        ok('order within the Hasse bound', cof and (p + 1 - n * cof[0]) ** 2 <= 4 * p, 'order times cofactor is outside it')
        ok('generator refers to its curve', g.cv is L.cptr(), 'it does not')
        ctx.equal(m, cn + ': getAField', L.fev(L.call('caf', [L.c])), fconst(p, pub['a']), where(L.prog, 'ecc::Curve::getAField'))
        ctx.equal(m, cn + ': getBField', L.fev(L.call('cbf', [L.c])), fconst(p, pub['b']), where(L.prog, 'ecc::Curve::getBField'))
        ctx.clean(m, cn + ' construction')
        ctx.absorb(m)
    for f in fields.FIELDS:
        F = fields.FieldLab(ctx, f)
        cn, k = f.split('_'); want = PUB[cn][k]
        for how, args in (('dflt', []), ('from', [F.integer('z')])):
            F.fresh()
            r = F.call(how, args)
            ctx.equal(F.m, 'Field_%s: modulus of an element made by %s' % (f, 'default' if how == 'dflt' else 'conversion'), F.fld_of(r), want, loc_of([x for x in F.prog.fns.values() if x['qn'] == 'field::Field_%s::<ctor>' % f][0]))
            ctx.absorb(F.m)
