"""S01, S02: secret sharing over the field of scalars."""
from .proto import *
import itertools
SRC = ('src/shamirss/shamirss.cpp',)
Q = 'sss::ShamirSS::'
class Sss(Proto):
    def __init__(self, ctx, **kw):
        self.ctx = ctx; self.ns = 'w_sss::'
        self.prog = ctx.witness('shamir.cpp', 'src/fields/field_secp256r1.cpp', *SRC)
        kw.setdefault('abspoint', False)
        self.kw = kw; self.fresh()
    def fresh(self):
        self.m = m = I.Machine(self.prog, **self.kw)
        m.zero_generic = True
        f = self.fn('szero'); self.ST = f['_T'][f['rt']]
        self.n = m.modulus(self.ST); m.gorder = self.n
        m.events[:] = []; m.exc[:] = []
        return m
    def shv(self, sv):
        n = self.val('size', sv)
        if not isinstance(n, int): self.m.unsup('number of shares %r' % (n,))
        return [(self.fe(self.call('idx', self.call('at', sv, i))), self.fe(self.call('value', self.call('at', sv, i)))) for i in range(n)]

def lagrange(n, pts):
    """coefficients of the interpolating polynomial through (constant abscissa, value) pairs"""
    k = len(pts)
    coefs = [fconst(n, 0)] * k
    for i, (xi, yi) in enumerate(pts):
        num = [1]; den = 1
        for j, (xj, _) in enumerate(pts):
            if j == i: continue
            num = [(a - xj * b) % n for a, b in zip([0] + num, num + [0])]
            den = den * (xi - xj) % n
        inv = pow(den, -1, n)
        for d in range(k): coefs[d] = fadd(coefs[d], fmul(yi, fconst(n, num[d] * inv % n)))
    return coefs

def many(ctx):
    """share counts and thresholds beyond the small ones: past the range of narrow counters, around the constants of the code"""
    from .crc import constants
    prog = ctx.witness('shamir.cpp', 'src/fields/field_secp256r1.cpp', *SRC)
    cs, _ = constants(prog, [Q + 'getShares', Q + 'reconSecret', Q + 'evalPoly'], 600)
    ks = {9, 20, 33, 70, 130, 260} if ctx.tier == 'quick' else {9, 17, 20, 33, 65, 70, 129, 130, 257, 260, 520}
    cap = 140 if ctx.tier == 'quick' else 600
    ks |= {c + d for c in cs if 8 < c <= cap for d in (-1, 0, 1)}
    return sorted(ks)
def S01(ctx):
    top = 4 if ctx.tier == 'quick' else 8
    def body(L, t):
        w = L.where(Q + 'getShares')
        for n in sorted({0, 1, 2, max(t - 1, 0), t, t + 1, t + 2}):
            m = L.fresh(); o = L.new('mk'); s = L.svar('s'); so = L.sc(s)
            for rep_ in (1, 2):
                nm = 'getShares(%d, %d), call %d' % (t, n, rep_)
                n0 = len(m.draws)
                sv = L.call('shares', o, t, n, so)
                ds = m.draws[n0:]
                ctx.equal(m, nm + ': number of shares', L.val('size', sv), n, w)
                sh = L.shv(sv)
                if len(sh) != n: continue
                for i, (x, y) in enumerate(sh): ctx.equal(m, nm + ': index %d' % (i + 1), x, fconst(L.n, i + 1), w)
                k = max(t, 1)
                ctx.obligation(nm + ': coefficients from independent draws over the whole field')
                if len(ds) != k - 1 or any(d['kind'] == 'weak' or not isT(d['g']) or (d['lo'], d['hi']) != (0, L.n) for d in ds):
                    ctx.violation('%s: draws %s instead of %d values of the whole field' % (nm, [(d['kind'], hex(d['lo']), hex(d['hi'])) for d in ds], k - 1), w); continue
                vals = [one(y) for _, y in sh]
                if any(v is None or isinstance(v, I.Undef) for v in vals): ctx.violation(nm + ': a share has no definite value', w); continue
                vs = [d['v'].id for d in ds]
                j = min(n, k - 1)
                ctx.obligation(nm + ': any %d shares are independent of the secret' % j)
                combos = list(itertools.combinations(range(n), j))[:40]
                for c in combos:
                    if jac_rank([vals[i] for i in c], vs, L.n) < j:
                        ctx.violation('%s: shares %s are not independent uniform values: they determine a relation with the secret' % (nm, [i + 1 for i in c]), w); break
                if n >= k:
                    pol = lagrange(L.n, [(i + 1, vals[i]) for i in range(k)])
                    ctx.equal(m, nm + ': constant term is the secret', pol[0], s, w)
                    for i in range(k, n):
                        v = fconst(L.n, 0)
                        for c in reversed(pol): v = fadd(fmul(v, fconst(L.n, i + 1)), c)
                        ctx.equal(m, nm + ': share %d lies on the same polynomial of degree below %d' % (i + 1, k), vals[i], v, w)
                    ctx.obligation(nm + ': independent coefficients')
                    if jac_rank(pol[1:], vs, L.n) < k - 1: ctx.violation('%s: the coefficients are not independent' % nm, w)
                else:
                    # fewer shares than the threshold: each is the secret plus a combination of draws
                    for i, v in enumerate(vals):
                        ctx.equal(m, nm + ': share %d is the secret when all coefficients vanish' % (i + 1), fsubst(v, {u: fconst(L.n, 0) for u in vs}), s, w)
                ctx.equal(m, nm + ': secret unchanged', L.fe(so), s, w)
            L.finish('getShares(%d, %d)' % (t, n))
    def wide(L, t, n):
        # counts beyond the range of small counters
        w = L.where(Q + 'getShares')
        m = L.m; m.loop_limit = 1 << 30; m.maxsteps = 1 << 40
        o = L.new('mk'); s = L.svar('s')
        sh = L.shv(L.call('shares', o, t, n, L.sc(s)))
        nm = 'getShares(%d, %d)' % (t, n)
        ctx.obligation(nm + ': number of shares and draws')
        if len(sh) != n or len(m.draws) != t - 1: ctx.violation('%s: %d shares, %d draws' % (nm, len(sh), len(m.draws)), w); return
        cs = [s] + [fvar(L.n, d['v']) for d in m.draws]
        for i, (x, y) in enumerate(sh):
            ctx.equal(m, nm + ': index %d' % (i + 1), x, fconst(L.n, i + 1), w)
            if t == 2: ctx.equal(m, nm + ': share %d' % (i + 1), fsub(fmul(fsub(sh[1][1], sh[0][1]), fconst(L.n, i)), fsub(one(y), sh[0][1])), fconst(L.n, 0), w)
        if t > 2:
            d = {(): 0}
            ctx.obligation(nm + ': every coefficient is used')
            y = one(sh[0][1])
            if len(fvars(y)) != t: ctx.violation('%s: the first share depends on %d of %d coefficients' % (nm, len(fvars(y)), t), w)
        L.finish(nm)
    def square(L, t):
        # as many shares as the threshold: the coefficients are the secret and the draws, each used once
        w = L.where(Q + 'getShares')
        m = L.m; m.loop_limit = 1 << 30; m.maxsteps = 1 << 40
        o = L.new('mk'); s = L.svar('s')
        sh = L.shv(L.call('shares', o, t, t, L.sc(s)))
        nm = 'getShares(%d, %d)' % (t, t)
        ctx.obligation(nm + ': number of shares and draws')
        if len(sh) != t or len(m.draws) != t - 1: ctx.violation('%s: %d shares, %d draws' % (nm, len(sh), len(m.draws)), w); return
        vals = [one(y) for _, y in sh]
        for i, (x, y) in enumerate(sh): ctx.equal(m, nm + ': index %d' % (i + 1), x, fconst(L.n, i + 1), w)
        if any(v is None or isinstance(v, I.Undef) for v in vals): ctx.violation(nm + ': a share has no definite value', w); return
        pol = lagrange(L.n, [(i + 1, v) for i, v in enumerate(vals)])
        ctx.equal(m, nm + ': constant term is the secret', pol[0], s, w)
        ctx.obligation(nm + ': independent coefficients')
        if jac_rank(pol[1:], [d['v'].id for d in m.draws], L.n) < t - 1: ctx.violation('%s: the coefficients are not independent' % nm, w)
        L.finish(nm)
    from .crc import constants
    prog = ctx.witness('shamir.cpp', 'src/fields/field_secp256r1.cpp', *SRC)
    most = max([258] + [c for c in constants(prog, [Q + 'getShares', Q + 'evalPoly'], 5000)[0]]) + 2
    ctx.parallel([('wide', lambda: wide(Sss(ctx), 2, most)), ('wide', lambda: wide(Sss(ctx), 260, 1))] + [('n=t=%d' % k, (lambda k: lambda: square(Sss(ctx), k))(k)) for k in many(ctx) if k < 100] +
        ([('wide', lambda: wide(Sss(ctx), 2, 66000))] if ctx.tier == 'thorough' else []))
    for t in range(0, top + 1): ctx.scenario('t=%d' % t, lambda: body(Sss(ctx), t))

def S02(ctx):
    top = 4 if ctx.tier == 'quick' else 6
    def body(L, t):
        w = L.where(Q + 'reconSecret')
        # from the shares that getShares returns: subsets of size >= t, several orders
        m = L.fresh(); o = L.new('mk'); s = L.svar('s'); n = t + 2
        sv = L.call('shares', o, t, n, L.sc(s))
        sh = L.shv(sv)
        for k in range(t, n + 1):
            for sub in itertools.combinations(range(len(sh)), k):
                orders = [sub, tuple(reversed(sub))] + ([sub[1:] + sub[:1]] if k > 2 else [])
                for od in dict.fromkeys(orders):
                    v = L.call('none')
                    for i in od: L.call('push', v, L.call('at', sv, i))
                    r = L.call('recon', o, v)
                    nm = 'threshold %d, shares %s' % (t, [i + 1 for i in od])
                    ctx.equal(m, nm, L.fe(r), s, w)
                    for i, (x, y) in zip(od, L.shv(v)):
                        ctx.equal(m, nm + ': shares unchanged', x, sh[i][0], w); ctx.equal(m, nm + ': shares unchanged', y, sh[i][1], w)
        L.finish('threshold %d' % t)
        # arbitrary distinct indices
        if t <= (3 if ctx.tier == 'quick' else 4):
            m = L.fresh(); o = L.new('mk')
            co = [L.svar('c%d' % i) for i in range(t)]
            for k in range(t, min(t + 1, 4) + 1):
                xs = [L.svar('x%d' % i) for i in range(k)]
                v = L.call('none')
                for x in xs:
                    y = fconst(L.n, 0)
                    for c in reversed(co): y = fadd(fmul(y, x), c)
                    L.call('push', v, L.call('mkshare', L.sc(x), L.sc(y)))
                care = True
                for i in range(k):
                    care = AND(care, NOT(m.feq0(xs[i])))        # the share at zero is the secret itself: getShares never makes it
                    for j in range(i): care = AND(care, NOT(m.feq0(fsub(xs[i], xs[j]))))
                m.g = care
                r = L.call('recon', o, v)
                m.g = True
                ctx.equal(m, 'threshold %d, %d arbitrary distinct nonzero indices' % (t, k), L.fe(r), co[0], w, care)
            L.finish('threshold %d, arbitrary indices' % t)
    def wide(L, k, xs, what):
        # any k values at k distinct indices lie on exactly one polynomial of degree below k
        m = L.m; m.loop_limit = 1 << 30; m.maxsteps = 1 << 40
        o = L.new('mk'); ys = [L.svar('y%d' % i) for i in range(k)]
        v = L.call('none')
        for x, y in zip(xs, ys): L.call('push', v, L.call('mkshare', L.sc(fconst(L.n, x)), L.sc(y)))
        exp = fconst(L.n, 0); d = {}
        num = [1] * k
        for i, x in enumerate(xs):
            a = b = 1
            for j, z in enumerate(xs):
                if j != i: a = a * z % L.n; b = b * (z - x) % L.n
            num[i] = a * pow(b, -1, L.n) % L.n
            exp = fadd(exp, fmul(ys[i], fconst(L.n, num[i])))
        nm = 'threshold %d, %d shares with %s' % (k, k, what)
        ctx.equal(m, nm, L.fe(L.call('recon', o, v)), exp, L.where(Q + 'reconSecret'))
        L.finish(nm)
    def consec(k): return list(range(1, k + 1))
    def spread(k): return [(i * 0x9e3779b97f4a7c15f39cc0605cedc835 + 7) % (1 << (8 * (i % 33))) or i + 3 for i in range(k)]
    def distinct(xs): return list(dict.fromkeys(xs))
    jobs = []
    for k in many(ctx):
        for xs, what in ((consec(k), 'consecutive indices'), (distinct(spread(k)), 'scattered indices')):
            jobs.append(('%d shares' % k, (lambda xs, what: lambda: wide(Sss(ctx), len(xs), xs, what))(xs, what)))
    ctx.parallel(jobs + [('t=%d' % t, (lambda t: lambda: body(Sss(ctx), t))(t)) for t in range(1, top + 1)])
    # threshold 0 behaves as threshold 1
    def zero(L):
        m = L.m; o = L.new('mk'); s = L.svar('s')
        sv = L.call('shares', o, 0, 2, L.sc(s))
        v = L.call('none'); L.call('push', v, L.call('at', sv, 1))
        ctx.equal(m, 'threshold 0, one share', L.fe(L.call('recon', o, v)), s, L.where(Q + 'reconSecret'))
        L.finish('threshold 0')
    ctx.scenario('t=0', lambda: zero(Sss(ctx)))
