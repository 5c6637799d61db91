"""O01, O02 and the transfer part of D05."""
from .proto import *
SRC = ('src/dme/dme.cpp', 'src/dme/dmhe.cpp', 'src/ot/ot.cpp', 'src/ot/dot.cpp')
R, S, X = 'ot::OTrecv::', 'ot::OTsndr::', 'ot::DOTprxy::'
class Ot(Proto):
    def __init__(self, ctx, **kw):
        kw.setdefault('abscrc', True)
        Proto.__init__(self, ctx, 'ot.cpp', 'w_ot', SRC, **kw)
    def crs(self, kind):
        """a reference string and a function that ends the life of its producer"""
        if kind == 'given':
            own = self.call('mkcurve')
            return self.call('mkCRS', *[self.pt(self.gpt(x), I.Ptr(own)) for x in ('g0', 'g1', 'h0', 'h1')]), lambda: self.m.kill(own, 'gone')
        d = self.new('mkmode', 0 if kind == 'messy' else 1)
        r = self.call('mkCRS', *[self.call('p_id', x) if 0 else x for x in self.crspts(self.call('crs', d))])
        return r, lambda: self.call('deldme', I.Ptr(d))
    def crspts(self, r):
        return [self.m.member(r, x) for x in ('g0', 'g1', 'h0', 'h1')]
    def snap(self, cv):
        n = self.val('size', cv)
        if n != 2: return [('size', n)]
        return [(self.gp(self.call('ct_u', self.call('at', cv, i))), self.gp(self.call('ct_mv', self.call('at', cv, i)))) for i in range(2)]

def O01(ctx):
    def body(L, kind, b, cls):
        m = L.m
        cr, gone = L.crs(kind)
        r = L.new(cls[0], cr); s = L.new(cls[1], cr)
        gone()
        nm0 = '%s string, %s' % (kind, 'distributed parties' if cls[0][0] == 'd' else 'plain parties')
        for i, bb in enumerate((b, 1 - b, b)):
            nm = '%s, transfer %d, choice %d' % (nm0, i + 1, bb)
            pk = L.call('select', r, bb)
            ctx.equal(m, nm + ': branch', L.val('branch', r), bb, L.where(R + 'selectMsg'))
            M = [L.anypoint('M%d_%d' % (i, j)) for j in (0, 1)]
            g = [L.gp(x) for x in M]
            cv = L.call('enc', s, pk, M[0], M[1])
            cv = L.call('cvcopy', cv)
            ctx.equal(m, nm + ': number of ciphertexts', L.val('size', cv), 2, L.where(S + 'encMsgs'))
            v0 = L.snap(cv)
            z = [L.z('z%d_%d' % (i, j)) for j in (0, 1)]
            zv = L.call('encz', s, pk, L.zc(z[0]), L.zc(z[1]))
            ctx.equal(m, nm + ': number of ciphertexts (integers)', L.val('size', zv), 2, L.where(S + 'encMsgs'))
            x = L.call('dec', r, cv)
            ctx.equal(m, nm + ': the chosen point', L.gp(x), g[bb], L.where(R + 'decryptMsg'))
            ctx.equal(m, nm + ': the chosen integer', L.val('decz', r, zv), z[bb], L.where(R + 'decryptMsgDecode'))
            y = L.call('dec', r, cv)
            ctx.equal(m, nm + ': decryption is repeatable', L.gp(y), g[bb], L.where(R + 'decryptMsg'))
            for (a, c), (a2, c2) in zip(v0, L.snap(cv)):
                ctx.equal(m, nm + ': ciphertexts unchanged by decryption', a2, a, L.where(R + 'decryptMsg')); ctx.equal(m, nm + ': ciphertexts unchanged by decryption', c2, c, L.where(R + 'decryptMsg'))
            # a point message the sender draws itself
            q = L.call('rndmsg', s)
            ctx.equal(m, nm + ': random message is a fresh multiple of the generator', L.gp(q), gmul(one(L.gen()), fvar(L.n, m.draws[-1]['v'])), L.where(S + 'getRandomMsg'))
            L.usable(nm + ': curve of a random message', q, L.m.val(L.call('scurve', s)), L.where(S + 'getRandomMsg'))
        L.finish(nm0 + ', choice %d' % b)
    for kind in ('messy', 'decryption', 'given'):
        for b in (0, 1):
            for cls in (('recv', 'sndr'), ('drecv', 'dsndr')):
                ctx.scenario('%s %d %s' % (kind, b, cls), lambda: body(Ot(ctx), kind, b, cls))

def sizes(ctx): return (1, 2, 3, 4, 5, 6, 7) if ctx.tier == 'quick' else tuple(range(1, 13))
def O02(ctx):
    def body(L, kind, b):
        m = L.m; w = L.where(X + 'aggregate')
        cr, gone = L.crs(kind)
        r = L.new('drecv', cr); p = L.new('prxy', cr)
        gone()
        pk = L.call('select', r, b)
        for k in sizes(ctx):
            nm = '%s string, choice %d, %d sender(s)' % (kind, b, k)
            vs = L.call('none'); sums = [None, None]; snaps = []
            zsum = 0
            for j in range(k):
                s = L.new('dsndr', cr)
                M = [L.anypoint('M%d_%d_%d' % (k, j, i)) for i in (0, 1)]
                for i in (0, 1):
                    g = L.gp(M[i]); sums[i] = g if sums[i] is None else m.ap(gadd, sums[i], g)
                cv = L.call('enc', s, pk, M[0], M[1])
                L.call('push', vs, cv)
                snaps.append(L.snap(cv))
            for rep_ in (1, 2):
                a = L.call('cvcopy', L.call('aggregate', p, vs))
                ctx.equal(m, nm + ': number of aggregated ciphertexts', L.val('size', a), 2, w)
                x = L.call('dec', r, a)
                ctx.equal(m, nm + ', aggregation %d: sum of the chosen branch' % rep_, L.gp(x), sums[b], w)
            for j in range(k):
                for (u, v), (u2, v2) in zip(snaps[j], L.snap(L.call('vat', vs, j))):
                    ctx.equal(m, nm + ': inputs unchanged', u2, u, w); ctx.equal(m, nm + ': inputs unchanged', v2, v, w)
        # the branch not selected also holds the component-wise sum
        L.finish('%s string, choice %d' % (kind, b))
    for kind in ('messy', 'decryption', 'given'):
        for b in (0, 1):
            ctx.scenario('%s %d' % (kind, b), lambda: body(Ot(ctx), kind, b))
    def indep(L):
        # the components do not depend on the proxy's own string or randomness
        m = L.m; w = L.where(X + 'aggregate')
        cr, gone = L.crs('given'); p = L.new('prxy', cr); r = L.new('recv', cr); pk = L.call('select', r, 0)
        vs = L.call('none'); exp = [[None, None], [None, None]]
        for j in range(3):
            s = L.new('sndr', cr)
            cv = L.call('enc', s, pk, L.anypoint('A%d' % j), L.anypoint('B%d' % j))
            L.call('push', vs, cv)
            for i, t in enumerate(L.snap(cv)):
                for q in (0, 1): exp[i][q] = t[q] if exp[i][q] is None else m.ap(gadd, exp[i][q], t[q])
        n0 = len(m.draws)
        a = L.call('aggregate', p, vs)
        for i, t in enumerate(L.snap(a)):
            ctx.equal(m, 'aggregation is the component-wise sum on branch %d (u)' % i, t[0], exp[i][0], w)
            ctx.equal(m, 'aggregation is the component-wise sum on branch %d (v)' % i, t[1], exp[i][1], w)
        ctx.obligation('aggregation draws no randomness')
        L.finish('component-wise sum')
    ctx.scenario('components', lambda: indep(Ot(ctx)))

def D05_ot(ctx):
    def body(L, b):
        for fresh_ in ('recv', 'drecv', 'sndr', 'dsndr', 'prxy'):
            m = L.fresh()
            cr, gone = L.crs('given')
            other = L.new('recv', cr); snd = L.new('sndr', cr)
            o = L.new(fresh_, cr)
            gone()
            nm = {'recv': 'OTrecv', 'drecv': 'DOTrecv', 'sndr': 'OTsndr', 'dsndr': 'DOTsndr', 'prxy': 'DOTprxy'}[fresh_] + ', branch %d' % b
            w = L.where('dme::DME_DDH::DME_DDH')
            g, h = [L.gpt(x) for x in (('g0', 'h0') if b == 0 else ('g1', 'h1'))]
            if 'recv' in fresh_:
                pk = L.call('select', o, b)
                k = fvar(L.n, m.draws[-1]['v'])
                for x, e in (('pk_g', g), ('pk_h', h)):
                    q = L.call(x, pk)
                    ctx.equal(m, nm + ': key formed from the given points', L.gp(q), gmul(e, k), w)
                    L.usable(nm + ': key refers to the own curve', q, m.val(L.call('rcurve', o)), w)
            elif 'sndr' in fresh_:
                pk = L.call('select', other, b)
                k = fvar(L.n, m.draws[-1]['v'])
                M = [L.anypoint('A'), L.anypoint('B')]; n0 = len(m.draws)
                cv = L.call('enc', o, pk, M[0], M[1])
                ds = m.draws[n0:]
                used = set()
                for i in (0, 1):
                    c = L.call('at', cv, i); u = one(L.gp(L.call('ct_u', c)))
                    used.add(frozenset(u.d) if u is not None else None)
                    L.usable(nm + ': ciphertext refers to the own curve', L.call('ct_u', c), m.val(L.call('scurve', o)), w)
                ctx.obligation(nm + ': ciphertexts formed from the given points')
                if used != {frozenset(base('raw', x, x).id for x in q) for q in (('g0', 'h0'), ('g1', 'h1'))}:
                    ctx.violation('%s: the ciphertexts are not formed from the points (g0, h0) and (g1, h1) of the reference string' % nm, w)
                ctx.equal(m, nm + ': delivered', L.gp(L.call('dec', other, cv)), L.gp(M[b]), w)
            else:
                pk = L.call('select', other, b)
                M = [L.anypoint('A'), L.anypoint('B')]
                vs = L.call('none'); cv = L.call('enc', snd, pk, M[0], M[1]); L.call('push', vs, cv)
                a = L.call('aggregate', o, vs)
                ctx.equal(m, nm + ': delivered', L.gp(L.call('dec', other, a)), L.gp(M[b]), w)
            L.finish(nm)
    for b in (0, 1): ctx.scenario('transfer parties %d' % b, lambda: body(Ot(ctx), b))
