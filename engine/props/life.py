"""X02: copies and assigned objects are complete, independent, refer to their
own curve and can be destroyed in any order."""
from .proto import *
from . import elgamal, dme, ot, puda, opprf, shamir, points

OWN = ('double-free', 'use-after-free', 'bad-free', 'dangling-curve', 'null-deref', 'uninit', 'missing-return', 'out-of-bounds')
# how an object with the state of o comes about: (name, function(original, fresh other object) -> object)
def made(L, how, o, copy, asg, other):
    if how == 'copy': return L.new(copy, o)
    if how == 'assigned': x = other(); L.call(asg, x, o); return x
    if how == 'copy of an assigned object': x = other(); L.call(asg, x, o); return L.new(copy, x)
    if how == 'assigned twice':
        x = other(); y = other(); L.call(asg, x, y); L.call(asg, x, o); return x
HOW = ('copy', 'assigned', 'copy of an assigned object', 'assigned twice')
ORDER = ('original dies first', 'copy dies first')

def end(L, nm, care=True):
    ctx = L.ctx; m = L.m
    ctx.clean(m, nm, kinds=OWN, care=care); ctx.noexc(m, nm, care); ctx.absorb(m)

# ------------------------------------------------------------ dual-mode encryption
def dm_use(L, nm, d, kind, he, w):
    """everything an instance can do, with results that refer to its own curve"""
    m = L.m; ctx = L.ctx; own = L.cptr(d) if not he else L.cptr(L.call('base', d))
    b_ = L.call('base', d) if he else d
    for q, x in zip(L.crs(b_), ('g0', 'g1', 'h0', 'h1')): L.usable('%s: %s refers to the own curve' % (nm, x), q, own, w)
    for b in (0, 1):
        kp = L.call('keygen', b_, b); pk, sk = L.call('kp_pk', kp), L.call('kp_sk', kp)
        for x in ('pk_g', 'pk_h'): L.usable(nm + ': key refers to the own curve', L.call(x, pk), own, w)
        M = L.anypoint('M%d' % b)
        c = L.call('enc', b_, pk, b, M)
        for x in ('ct_u', 'ct_mv'): L.usable(nm + ': ciphertext refers to a live curve', L.call(x, c), L.cv(L.call(x, c)), w)
        ctx.equal(m, nm + ': round trip on branch %d' % b, L.gp(L.call('dec', b_, sk, c)), L.gp(M), w)
        z = L.z('z%d' % b)
        ctx.equal(m, nm + ': integer round trip on branch %d' % b, L.val('decz', b_, sk, L.call('encz', b_, pk, b, L.zc(z))), z, w)
        if kind == 'messy': ctx.equal(m, nm + ': messy branch of a key for %d' % b, L.val('findmessy', b_, pk), 1 - b, w)
        if he:
            N_ = L.anypoint('N%d' % b)
            e = L.call('eval', d, c, L.call('enc', b_, pk, b, N_))
            ctx.equal(m, nm + ': homomorphic sum on branch %d' % b, L.gp(L.call('dec', b_, sk, e)), m.ap(gadd, L.gp(M), L.gp(N_)), w)
    if kind == 'decryption':
        pk = L.call('mkPK', L.call('dflt'), L.call('dflt')); s = [L.call('szero'), L.call('szero')]
        L.call('trap', b_, pk, s[0], s[1])
        for b in (0, 1):
            M = L.anypoint('T%d' % b)
            ctx.equal(m, nm + ': trapdoor key on branch %d' % b, L.gp(L.call('dec', b_, s[b], L.call('enc', b_, pk, b, M))), L.gp(M), w)
def dm(ctx, kind, he, how, order):
    L = dme.Dme(ctx); m = L.m; w = L.where(dme.Q + 'operator=')
    nm = '%s%s instance, %s, %s' % ('homomorphic ' if he else '', kind, how, order)
    cp, asg, dl = ('hecopy', 'heasg', 'delhe') if he else ('copy', 'asg', 'del')
    base_ = (lambda o: L.call('base', o)) if he else (lambda o: o)
    d = L.inst(kind, he=he)
    others = ['decryption', 'received', 'messy'] if kind == 'messy' else ['messy', 'received']
    cnt = [0]
    def other():
        cnt[0] += 1; return L.inst(others[cnt[0] % len(others)], he=he)
    crs0 = [L.gp(q) for q in L.crs(base_(d))]
    kp = L.call('keygen', base_(d), 1); M = L.anypoint('K'); c0 = L.call('enc', base_(d), L.call('kp_pk', kp), 1, M)
    e = made(L, how, d, cp, asg, other)
    L.call(asg + 'self', e); L.call(asg + 'self', d)
    for o, who in ((e, 'copy'), (d, 'original')):
        for q, g, x in zip(L.crs(base_(o)), crs0, ('g0', 'g1', 'h0', 'h1')): ctx.equal(m, '%s: %s of the %s' % (nm, x, who), L.gp(q), g, w)
    ctx.obligation(nm + ': distinct curve objects')
    if dd.same(L.cptr(base_(e)), L.cptr(base_(d))): pass
    if order[0] == 'o': L.call(dl, I.Ptr(d)); last = e
    else:
        # changing the copy does not touch the original
        n = L.inst(others[0], he=he)
        L.call(asg, e, n); L.call(dl, I.Ptr(n))
        dm_use(L, nm + ': after the copy was reassigned, the reassigned copy', e, others[0], he, w)
        for q, g, x in zip(L.crs(base_(d)), crs0, ('g0', 'g1', 'h0', 'h1')): ctx.equal(m, '%s: %s of the original after the copy changed' % (nm, x), L.gp(q), g, w)
        L.call(dl, I.Ptr(e)); last = d
    dm_use(L, nm, last, kind, he, w)
    # a ciphertext made before, by the original (its curve is gone when the original is)
    if last is d: ctx.equal(m, nm + ': earlier ciphertext', L.gp(L.call('dec', base_(last), L.call('kp_sk', kp), c0)), L.gp(M), w)
    L.call(dl, I.Ptr(last))
    end(L, nm)

# ------------------------------------------------------------ oblivious transfer
def tr(ctx, kind, how, order, b):
    L = ot.Ot(ctx); m = L.m
    nm = 'transfer, %s string, choice %d, %s, %s' % (kind, b, how, order); w = L.where(ot.R + 'selectMsg')
    cr, gone = L.crs(kind)
    r = L.new('recv', cr); s = L.new('sndr', cr); p = L.new('prxy', cr)
    cr2, gone2 = L.crs('messy')
    gone()
    other = lambda: L.new('recv', cr2)
    r0 = made(L, how, r, 'recvcopy', 'recvasg', other)               # before any selection
    bb = L.val('branch', r0)
    ctx.equal(m, nm + ': selection of an unused copy', bb, L.val('branch', r), w)
    pk = L.call('select', r, b)
    A, B = L.anypoint('A'), L.anypoint('B'); g = [L.gp(A), L.gp(B)]
    cv = L.call('cvcopy', L.call('enc', s, pk, A, B))
    r1 = made(L, how, r, 'recvcopy', 'recvasg', other)
    s1 = made(L, how, s, 'sndrcopy', 'sndrasg', lambda: L.new('sndr', cr2)); p1 = made(L, how, p, 'prxycopy', 'prxyasg', lambda: L.new('prxy', cr2))
    for f, x in (('recv', r), ('recv', r1), ('sndr', s), ('sndr', s1), ('prxy', p), ('prxy', p1)): L.call(f + 'asgself', x)
    ctx.equal(m, nm + ': branch of the copy', L.val('branch', r1), b, w)
    ctx.equal(m, nm + ': the copy decrypts', L.gp(L.call('dec', r1, cv)), g[b], w)
    # the copy selects something else; the original is unaffected
    L.call('select', r0, 1 - b)
    pk2 = L.call('select', r1, 1 - b)
    ctx.equal(m, nm + ': branch of the original', L.val('branch', r), b, w)
    ctx.equal(m, nm + ': the original still decrypts', L.gp(L.call('dec', r, cv)), g[b], w)
    keep = (r, s, p, b) if order[0] == 'c' else (r1, s1, p1, 1 - b)
    L.call('delrecv', I.Ptr(r0))
    for x, f in zip((r1, s1, p1) if order[0] == 'c' else (r, s, p), ('delrecv', 'delsndr', 'delprxy')): L.call(f, I.Ptr(x))
    r, s, p, b = keep
    for bb in (b, 1 - b):
        pk = L.call('select', r, bb)
        for x in ('pk_g', 'pk_h'): L.usable(nm + ': key refers to the own curve', L.call(x, pk), m.val(L.call('rcurve', r)), w)
        vs = L.call('none'); sums = None
        for i in range(2):
            A, B = L.anypoint('A%d%d' % (i, bb)), L.anypoint('B%d%d' % (i, bb))
            cv = L.call('enc', s, pk, A, B); L.call('push', vs, cv)
            x = L.gp((A, B)[bb]); sums = x if sums is None else m.ap(gadd, sums, x)
            ctx.equal(m, nm + ': survivors transfer', L.gp(L.call('dec', r, cv)), x, w)
            z = [L.z('z%d%d%d' % (i, bb, j)) for j in (0, 1)]
            ctx.equal(m, nm + ': survivors transfer integers', L.val('decz', r, L.call('encz', s, pk, L.zc(z[0]), L.zc(z[1]))), z[bb], w)
        ctx.equal(m, nm + ': survivors aggregate', L.gp(L.call('dec', r, L.call('aggregate', p, vs))), sums, w)
        L.usable(nm + ': random message refers to the own curve', L.call('rndmsg', s), m.val(L.call('scurve', s)), w)
    for x, f in ((r, 'delrecv'), (s, 'delsndr'), (p, 'delprxy')): L.call(f, I.Ptr(x))
    gone2()
    end(L, nm)

# ------------------------------------------------------------ aggregation
def pu(ctx, how, order):
    L = puda.Pu(ctx); m = L.m; n = 2
    nm = 'aggregation, %s, %s' % (how, order); w = L.where(puda.Q + 'operator=')
    p = L.new('mk'); k = L.call('setup', p, n); t = L.t(); ms = L.msgs(n)
    tag = lambda q, i=0: L.gp(L.call('tag', q, L.call('sk', k, i), ms[i], t))
    enc = lambda q, i=0: L.gp(L.call('enc', q, L.call('ek', k, i), ms[i], t))
    t0, e0 = tag(p), enc(p)
    def other():
        o = L.new('mk'); L.call('setup', o, 1); return o
    q = made(L, how, p, 'copy', 'asg', other)
    L.call('asgself', q); L.call('asgself', p)
    for o, who in ((q, 'copy'), (p, 'original')):
        ctx.equal(m, '%s: tag by the %s' % (nm, who), tag(o), t0, w); ctx.equal(m, '%s: ciphertext by the %s' % (nm, who), enc(o), e0, w)
    # ciphertexts made by one, aggregated by the other
    def agg(o, by):
        c = L.call('none'); g = L.call('none')
        for i in range(n): L.call('push', c, L.call('enc', by, L.call('ek', k, i), ms[i], t)); L.call('push', g, L.call('tag', by, L.call('sk', k, i), ms[i], t))
        S = puda.add(*ms); care = NOT(m.ilt0(isub(65535, S)))
        m.g = care; r = L.val('aggsum', o, L.call('ak', k), c, g, t); m.g = True
        ctx.equal(m, nm + ': sum', r, S, w, care)
    agg(q, p); agg(p, q)
    if order[0] == 'c':
        x = L.new('mk'); L.call('asg', q, x)
        ctx.equal(m, nm + ': tag by the original after the copy was reassigned', tag(p), t0, w)
        k2 = L.call('setup', q, 1); L.call('del', I.Ptr(x)); L.call('tag', q, L.call('sk', k2, 0), ms[0], t)
        L.call('del', I.Ptr(q)); last = p
    else: L.call('del', I.Ptr(p)); last = q
    ctx.equal(m, nm + ': tag by the survivor', tag(last), t0, w); ctx.equal(m, nm + ': ciphertext by the survivor', enc(last), e0, w)
    agg(last, last)
    L.call('del', I.Ptr(last))
    care = NOT(m.ilt0(isub(65535, puda.add(*ms))))
    end(L, nm, care)

# ------------------------------------------------------------ OPPRF
def op(ctx, how, order, at):
    """copies of both parties taken before the session, between rounds, or after the last round"""
    L = opprf.Op(ctx); m = L.m; w = L.where(opprf.S + 'operator='); wc = L.where(opprf.C + 'operator=')
    n = L.val('rounds'); x, th = 0x1b77, 0x5a3c
    nm = 'OPPRF, %s, %s, copied at step %d' % (how, order, at)
    cr, gone = L.crs('given')
    s = L.new('server', th, cr); c = L.new('client', cr)
    cr2, gone2 = L.crs('messy')
    gone()
    ga = L.anypoint('ga')
    def oths():
        o = L.new('server', 0x0f0f, cr2); L.call('secret', o, L.anypoint('gb')); L.call('prepare', o); return o
    def othc():
        o = L.new('client', cr2); L.call('message', o, 3); L.call('start', o, n); return o
    def dup(s, c):
        s2 = made(L, how, s, 'scopy', 'sasg', oths); c2 = made(L, how, c, 'ccopy', 'casg', othc)
        for f, q in (('sasgself', s), ('sasgself', s2), ('casgself', c), ('casgself', c2)): L.call(f, q)
        return s2, c2
    pairs = [(s, c)]
    if at == n + 2: pairs.append(dup(s, c))          # nothing configured yet
    for s_, c_ in pairs: L.call('secret', s_, ga); L.call('message', c_, x)
    if at == n + 1: pairs.append(dup(s, c))          # configured, not prepared
    for s_, c_ in pairs: L.call('prepare', s_)
    Ks = None
    for i in range(n, -1, -1):
        if i == at:
            pairs.append(dup(*pairs[0]))
            if i: 
                # inside a round: the key was chosen, the answer is not there yet
                pk = L.call('start', pairs[0][1], i); c3 = made(L, how, pairs[0][1], 'ccopy', 'casg', othc)
                L.call('end', c3, i, L.call('send', pairs[0][0], i, pk)); L.call('delc', I.Ptr(c3))
        if i:
            for s_, c_ in pairs:
                pk = L.call('start', c_, i); L.call('end', c_, i, L.call('send', s_, i, pk))
    # masks of the parties copied during the session open each other's results
    for s_, c_ in pairs:
        K = L.gp(L.call('kopprf', s_))
        L.call('unmask', c_, L.call('masks', s_))
        R = L.gp(L.call('result', c_))
        ctx.equal(m, nm + ': result', R, m.ap(lambda k, g: gadd(k, gmul(g, fconst(L.n, x))), K, L.gp(ga)), w)
        if at <= n: 
            if Ks is None: Ks = K
            ctx.equal(m, nm + ': copies share the session', K, Ks, w)
    (s, c), (s2, c2) = pairs[0], pairs[1]
    # cleaning or killing one leaves the other able to run a new session
    a, b = ((s, c), (s2, c2)) if order[0] == 'o' else ((s2, c2), (s, c))
    Rb = L.gp(L.call('result', b[1])); Kb = L.gp(L.call('kopprf', b[0]))
    L.call('sclean', a[0]); L.call('cclean', a[1])
    ctx.equal(m, nm + ': result of the other after cleaning', L.gp(L.call('result', b[1])), Rb, wc)
    ctx.equal(m, nm + ': secret of the other after cleaning', L.gp(L.call('kopprf', b[0])), Kb, w)
    L.call('dels', I.Ptr(a[0])); L.call('delc', I.Ptr(a[1])); gone2()
    ctx.equal(m, nm + ': result of the survivor', L.gp(L.call('result', b[1])), Rb, wc)
    R = L.call('result', b[1])
    L.usable(nm + ': result refers to a live curve', R, L.cv(R), wc)
    L.call('sclean', b[0]); L.call('cclean', b[1])
    L.call('secret', b[0], ga); L.call('message', b[1], x); L.call('prepare', b[0]); K = L.gp(L.call('kopprf', b[0]))
    L.session(b[0], b[1], n)
    ctx.equal(m, nm + ': a new session of the survivors', L.gp(L.call('result', b[1])), m.ap(lambda k, g: gadd(k, gmul(g, fconst(L.n, x))), K, L.gp(ga)), w)
    L.call('dels', I.Ptr(b[0])); L.call('delc', I.Ptr(b[1]))
    end(L, nm)

# ------------------------------------------------------------ ElGamal, sharing, curves
def eg(ctx, how, order):
    L = elgamal.Eg(ctx); m = L.m; nm = 'ElGamal, %s, %s' % (how, order); w = 'includes/elgamal.hpp (elgamal::ElGamal)'
    e = L.new('mk'); kp = L.call('keygen', e); pk, sk = L.call('kp_pk', kp), L.call('kp_sk', kp)
    f = made(L, how, e, 'copy', 'asg', lambda: L.new('mk'))
    L.call('asgself', e); L.call('asgself', f)
    own = sk
    for x, y in ((e, f), (f, e)):
        z = L.z('z'); ctx.equal(m, nm + ': encrypted by one, decrypted by the other', L.val('decz', y, sk, L.call('encz', x, pk, L.zc(z))), z, w)
    a, b = (e, f) if order[0] == 'o' else (f, e)
    L.call('del', I.Ptr(a))
    kp = L.call('keygen', b); pk, sk = L.call('kp_pk', kp), L.call('kp_sk', kp)
    z = L.z('z2'); c = L.call('encz', b, pk, L.zc(z))
    ctx.equal(m, nm + ': the survivor', L.val('decz', b, sk, c), z, w)
    for q in (pk, L.call('ct_u', c), L.call('ct_mv', c)):
        L.usable(nm + ': refers to the own curve', q, L.cv(q), w)
    L.call('del', I.Ptr(b))
    end(L, nm)
def sh(ctx, order):
    L = shamir.Sss(ctx); m = L.m; nm = 'sharing, %s' % order; w = L.where(shamir.Q + 'getShares')
    a = L.new('mk'); b = L.new('copy', a)
    s = L.svar('s') if hasattr(L, 'svar') else None
    v = L.call('shares', a, 2, 3, L.sc(s))
    x, y = (a, b) if order[0] == 'o' else (b, a)
    L.call('del', I.Ptr(x))
    ctx.equal(m, nm + ': the survivor reconstructs', L.fe(L.call('recon', y, v)), s, w)
    v = L.call('shares', y, 3, 3, L.sc(s))
    ctx.equal(m, nm + ': the survivor shares', L.fe(L.call('recon', y, v)), s, w)
    L.call('del', I.Ptr(y))
    end(L, nm)
def curves(ctx, cname, how):
    L = points.PointLab(ctx, cname); m = L.m; call = lambda n, *a: L.call(n, list(a))
    nm = 'Curve_%s, %s' % (cname, how); w = L.where('ecc::Curve::getDefaultGen')
    c = L.c; g0 = L.view(call('gen', c))
    if how == 'copy': d = call('copycurve', c)
    elif how == 'assigned': d = call('mkcurve'); call('asgcurve', d, c)
    else: d = call('mkcurve'); call('asgcurve', d, d)
    ctx.equal(m, nm + ': equal', m.ap(bool, m.val(call('eqcurve', c, d))), True, w)
    for f in ('prime', 'order', 'ca', 'cb'): ctx.equal(m, nm + ': ' + f, m.val(call(f, d)), m.val(call(f, c)), w)
    q = call('gen', d); v = L.view(q)
    ctx.equal(m, nm + ': generator', L.packv(v), L.packv(g0), w)
    ctx.equal(m, nm + ': the generator refers to the own curve', v.cv, m.val(call('addr', d)), w, NOT(v.inf))
    m.kill(c, 'the original curve')
    for k in (1, 2, 3, 5): 
        r = call('mulz', call('gen', d), I.Cell(k)); v = L.view(r)
        ctx.equal(m, nm + ': multiples of the generator refer to the own curve', v.cv, m.val(call('addr', d)), w, NOT(v.inf))
        ctx.holds(m, nm + ': %d times the generator is a point of the curve' % k, m.ap(bool, m.val(call('valid', r))), w, 'it is not valid')
    a = L.point('P', d)
    s = call('add', a, call('gen', d)); v = L.view(s)
    ctx.equal(m, nm + ': sums refer to the own curve', v.cv, m.val(call('addr', d)), w, NOT(v.inf))
    ctx.clean(m, nm, kinds=OWN); ctx.noexc(m, nm); ctx.absorb(m)

def jobs(ctx):
    full = ctx.tier != 'quick'
    out = []
    def add(nm, f, *a): out.append((nm, lambda: f(*a)))
    for i, kind in enumerate(dme.INST):
        for he in (False, True):
            if he and kind == 'default': continue
            for j, how in enumerate(HOW):
                for order in ORDER:
                    if not full and he and j > 1: continue
                    add('dual mode %s %d %s %s' % (kind, he, how, order), dm, ctx, kind, he, how, order)
    for kind in ('messy', 'decryption', 'given'):
        for j, how in enumerate(HOW):
            for order in ORDER:
                for b in (0, 1):
                    if not full and (j + b + (order[0] == 'o')) % 2: continue
                    add('transfer %s %s %s %d' % (kind, how, order, b), tr, ctx, kind, how, order, b)
    for how in HOW:
        for order in ORDER:
            add('ElGamal %s %s' % (how, order), eg, ctx, how, order)
            add('aggregation %s %s' % (how, order), pu, ctx, how, order)
    n = 16
    for at in ([18, 17, 16, 9, 0] if not full else range(0, 19)):
        for j, how in enumerate(HOW):
            for order in ORDER:
                if not full and (j > 1 or (j + at + (order[0] == 'o')) % 2): continue
                add('OPPRF %d %s %s' % (at, how, order), op, ctx, how, order, at)
    for order in ORDER: add('sharing ' + order, sh, ctx, order)
    for c in points.CURVES:
        for how in ('copy', 'assigned', 'self-assigned'): add('curve %s %s' % (c, how), curves, ctx, c, how)
    return out
def X02(ctx):
    ctx.parallel(jobs(ctx))
    ctx.rule = 'ownership and liveness of every heap object and curve pointer over copy, assignment, self-assignment and destruction in every order; equal values and own curve of the copies'
