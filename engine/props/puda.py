"""P01-P03: private aggregation."""
from .proto import *
SRC = ('src/puda/puda.cpp',)
Q = 'puda::Puda::'
class Pu(Proto):
    def __init__(self, ctx, **kw):
        Proto.__init__(self, ctx, 'puda.cpp', 'w_puda', SRC, **kw)
    def fresh(self):
        m = Proto.fresh(self)
        m.accel = True; m.hooks['gpeq0'] = gpz
        return m
    def msgs(self, n, tag='m'): return [V(var('int', '%s%d' % (tag, i), 0, 65535, name='%s%d' % (tag, i))) for i in range(n)]
    def t(self, name='t'): return V(var('int', name, -2**31, 2**31 - 1, name=name))
def small(f):
    """numerator as an integer when it only involves bounded integers and is far below the modulus"""
    d = {}
    for k, c in f.num.items():
        for v in k:
            x = VARS[v]
            if x.kind not in ('int', 'bit') or x.lo == -INF or x.hi == INF or x.lo < -2**40 or x.hi > 2**40: return None
        d[k] = c if c <= f.p // 2 else c - f.p
    lo, hi = ivd(d)
    if not (-f.p < lo and hi < f.p): return None
    return P(d)
def gpz(m, x):
    """independent random logarithms: zero iff every coefficient is; integer coefficients are compared exactly"""
    if gzero(x): return True
    r = True
    for b, f in x.d.items():
        # group the numerator by its random unknowns: each group has to vanish
        groups = {}
        for k, c in f.num.items():
            rnd = tuple(v for v in k if not isint_var(VARS[v]))
            groups.setdefault(rnd, {})[tuple(v for v in k if isint_var(VARS[v]))] = c
        for rnd, num in groups.items():
            z = small(F(f.p, num))
            if z is None: m.notes.add('generic'); return False
            r = AND(r, m.ieq0(z))
            if isF(r): return False
    if any(BASES[b].kind == 'case' for b in x.d): m.unsup('zero test of a case point')
    m.notes.add('generic')
    return r
def isint_var(v): return v.kind == 'int' and v.lo != -INF and v.hi != INF and v.hi < 2**40

def sizes(ctx): return (0, 1, 2, 3) if ctx.tier == 'quick' else (0, 1, 2, 3, 4, 5, 6)

def add(*x):
    r = 0
    for a in x: r = iadd(r, a)
    return r
def P01(ctx):
    def body(L, n, who):
        m = L.m; p = L.new('mk'); k = L.call('setup', p, n)
        q = p
        if who == 'copy': q = L.new('copy', p); L.call('del', I.Ptr(p))
        nm0 = '%d users%s' % (n, '' if who == 'same' else ', aggregated by a copy')
        for rep_ in (1, 2):
            ms = L.msgs(n, 'm%d_' % rep_); t = L.t('t%d' % rep_)
            c = L.call('none'); g = L.call('none')
            for i in range(n):
                L.call('push', c, L.call('enc', q, L.call('ek', k, i), ms[i], t))
                L.call('push', g, L.call('tag', q, L.call('sk', k, i), ms[i], t))
            S = add(*ms)
            care = NOT(m.ilt0(isub(65535, S)))
            m.g = care
            r = L.val('aggsum', q, L.call('ak', k), c, g, t)
            m.g = True
            ctx.equal(m, '%s, period %d: sum' % (nm0, rep_), r, S, L.where(Q + 'Agg'), care)
            ctx.clean(m, nm0, care=care); ctx.noexc(m, nm0, care)
        # ciphertexts in another order
        if n > 1:
            c2 = L.call('none')
            for i in reversed(range(n)): L.call('push', c2, L.call('at', c, i))
            m.g = care; r = L.val('aggsum', q, L.call('ak', k), c2, g, t); m.g = True
            ctx.equal(m, '%s: sum in another order' % nm0, r, S, L.where(Q + 'Agg'), care)
        ctx.absorb(m)
        ctx.extra['loops'] = sorted({x for x in m.notes if isinstance(x, str) and x.startswith('accel')})
    def point(L, S, n):
        # a given sum, split over n users; keys and period unknown: the search is followed step by step
        m = L.m; m.accel = False; m.loop_limit = 1 << 30; m.maxsteps = 1 << 40
        p = L.new('mk'); k = L.call('setup', p, n); t = L.t()
        c = L.call('none'); g = L.call('none')
        for i in range(n):
            v = S // n + (S % n if i == 0 else 0)
            L.call('push', c, L.call('enc', p, L.call('ek', k, i), v, t))
            L.call('push', g, L.call('tag', p, L.call('sk', k, i), v, t))
        nm = '%d users, sum %d' % (n, S)
        ctx.equal(m, nm, L.val('aggsum', p, L.call('ak', k), c, g, t), S, L.where(Q + 'Agg'))
        ctx.clean(m, nm); ctx.noexc(m, nm); ctx.absorb(m)
    from .crc import constants
    prog = Pu(ctx).prog
    cs, _ = constants(prog, [Q + x for x in ('Agg', 'Enc', 'compute_dlog')], 65535)
    ps = {0, 1, 2, 127, 128, 255, 256, 257, 1000, 2048, 4095, 4096, 4097}
    cap = 65535
    ps |= {8192, 32767, 65535}
    if ctx.tier != 'quick': ps |= {8191, 16384, 32768, 65534}
    ps |= {x for c in cs for x in (c - 1, c, c + 1, 2 * c) if 0 <= x <= cap}
    ctx.parallel([('%d users %s' % (n, who), (lambda n, who: lambda: body(Pu(ctx), n, who))(n, who)) for n in sizes(ctx) for who in ('same', 'copy')] +
        [('sum %d' % x, (lambda x: lambda: point(Pu(ctx), x, 1 + x % 2))(x)) for x in sorted(ps, reverse=True)])

def P02(ctx):
    def body(L, n):
        m = L.m; p = L.new('mk'); n0 = len(m.draws); k = L.call('setup', p, n); ds = m.draws[n0:]
        w = L.where(Q + 'Setup'); nm = '%d users' % n
        G = one(L.gen())
        ctx.equal(m, nm + ': number of encryption keys', L.val('nek', k), n, w)
        ctx.equal(m, nm + ': number of signing keys', L.val('nsk', k), n, w)
        eks = [L.fe(L.call('ek', k, i)) for i in range(n)]; tks = [L.fe(L.call('tk', k, i)) for i in range(n)]
        aa = [L.m.ap(lambda x: to_fe(L.n, x), L.val('ska', k, i)) for i in range(n)]
        s = fconst(L.n, 0)
        for e in eks: s = fadd(s, one(e))
        ctx.equal(m, nm + ': the aggregation key is minus the sum of the encryption keys', L.fe(L.call('ak', k)), fneg(s), w)
        T = fconst(L.n, 0)
        for e in tks: T = fadd(T, one(e))
        for i in range(1, n): ctx.equal(m, nm + ': common tag exponent', aa[i], aa[0], w)
        # the second generator is the default generator of the second curve
        ctx.equal(m, nm + ': vk_1 = g2 * sum of tag keys', L.gp(L.call('vk1', k)), gmul(G, T), w)
        if n: ctx.equal(m, nm + ': vk_2 = g2 * common exponent', L.gp(L.call('vk2', k)), gmul(G, one(aa[0])), w)
        # the period hash: observed through a tag of the value zero
        t = L.t(); ms = L.msgs(n)
        wt = L.where(Q + 'Tag')
        tags = [L.call('tag', p, L.call('sk', k, i), ms[i], t) for i in range(n)]
        zero = [L.call('tag', p, L.call('sk', k, i), 0, t) for i in range(n)]
        H = None
        for i in range(n):
            z = one(L.gp(zero[i]))
            h = gmul(z, finv(fmul(one(tks[i]), to_fe(L.n, t))))
            if H is None:
                H = h
                ctx.obligation(nm + ': the period hash is a random point, times the period')
                hv = [d['v'].id for d in ds if d['v'].id in fvars_gp(h)]
                if len(hv) != 1 or not geq(h, gmul(G, fvar(L.n, VARS[hv[0]]))): ctx.violation('%s: the hash of a period is %r, not a random point times the period' % (nm, h), wt)
            ctx.equal(m, nm + ': tag %d' % (i + 1), L.gp(tags[i]), gadd(gmul(gmul(H, to_fe(L.n, t)), one(tks[i])), gmul(G, fmul(one(aa[i]), to_fe(L.n, ms[i])))), wt)
        c = L.call('none'); g = L.call('none')
        for i in range(n):
            L.call('push', c, L.call('enc', p, L.call('ek', k, i), ms[i], t)); L.call('push', g, tags[i])
        S = add(*ms); w = L.where(Q + 'Agg')
        care = NOT(m.ilt0(isub(65535, S)))
        m.g = care
        r = L.call('aggtag', p, L.call('ak', k), c, g, t)
        exp = m.ginf() if not n else gadd(gmul(gmul(H, to_fe(L.n, t)), T), gmul(G, fmul(one(aa[0]), to_fe(L.n, S))))
        m.g = True
        ctx.equal(m, nm + ': aggregated tag = hash * sum of tag keys + g1 * a * sum', L.gp(r), exp, w, care)
        # removing, repeating, altering
        for what, sel in (('removed', lambda l: l[1:]), ('repeated', lambda l: l + l[:1]), ('replaced by another value', lambda l: None)):
            if not n: continue
            g2 = L.call('none')
            if sel(tags) is None:
                l = [L.call('tag', p, L.call('sk', k, 0), L.msgs(1, 'x')[0], t)] + tags[1:]
            else: l = sel(tags)
            for x in l: L.call('push', g2, x)
            m.g = care
            r = L.call('aggtag', p, L.call('ak', k), c, g2, t)
            m.g = True
            ctx.obligation(nm + ': relation broken when a tag is ' + what)
            for gg, x in leaves(L.gp(r), care):
                for _, y in leaves(exp, gg):
                    if geq(x, y): ctx.violation('%s: the aggregated tag is unchanged when a tag is %s' % (nm, what), w)
        ctx.clean(m, nm, care=care); ctx.noexc(m, nm, care); ctx.absorb(m)
    ctx.parallel([('%d users' % n, (lambda n: lambda: body(Pu(ctx), n))(n)) for n in sizes(ctx)])
def fvars_gp(g):
    out = set()
    for f in g.d.values(): out |= fvars(f)
    return out

def P03(ctx):
    def body(L):
        m = L.m; w = L.where(Q + 'Verify'); n = 2
        p = L.new('mk'); k = L.call('setup', p, n); t = L.t(); ms = L.msgs(n)
        S = add(*ms); care = NOT(m.ilt0(isub(65535, S)))
        c = L.call('none'); g = L.call('none')
        for i in range(n):
            L.call('push', c, L.call('enc', p, L.call('ek', k, i), ms[i], t)); L.call('push', g, L.call('tag', p, L.call('sk', k, i), ms[i], t))
        m.g = care
        tag = L.call('aggtag', p, L.call('ak', k), c, g, t)
        ctx.equal(m, 'an honest aggregation verifies', L.val('verify', p, k, S, tag, t), True, w, care)
        bad = V(var('int', 'other', 0, 65535, name='other'))
        ctx.equal(m, 'Verify rejects another sum', L.val('verify', p, k, bad, tag, t), m.ieq0(isub(bad, S)), w, care)
        ctx.equal(m, 'Verify rejects another period', L.val('verify', p, k, S, tag, iadd(t, 1)), False, w, AND(care, m.ilt0(isub(t, 2**31 - 1))))
        ctx.equal(m, 'Verify rejects another tag', L.val('verify', p, k, S, L.anypoint('T', kind='raw'), t), False, w, care)
        m.g = True
        ctx.clean(m, 'Verify', care=care); ctx.noexc(m, 'Verify', care); ctx.absorb(m)
    ctx.scenario('Verify', lambda: body(Pu(ctx)))
