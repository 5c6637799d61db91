"""R01: every secret is a fresh, independent, full-range draw."""
from .proto import *
from . import elgamal, dme, ot, puda, opprf, shamir

def log(L, x):
    """one discrete logarithm expressing a point: coefficients weighted by the unknown logarithms of given points"""
    x = one(x) if not isinstance(x, GP) else x
    if not isinstance(x, GP): return None
    s = fconst(L.n, 0)
    g = next(iter(one(L.gen()).d)) if 'gen' in dir(L) and L.kw.get('abspoint') else None
    for b, f in x.d.items():
        s = fadd(s, f if b == g else fmul(f, L.svar('log%d' % b)))
    return s
def sources(L, nm, d0=0):
    """every draw of the operations analysed comes from a shared generator and covers its range"""
    ctx = L.ctx
    for d in L.m.draws[d0:]:
        ctx.obligation('%s: draw at %s' % (nm, d['loc']))
        if d['kind'] == 'weak':
            ctx.violation('%s: a value is %s' % (nm, d.get('why') or 'produced by %s(), which is not a cryptographic source' % d.get('fn')), d['loc'])
        elif d['kind'] == 'range':
            if d['lo'] != 0 and d['lo'] != 1 or d['hi'] not in (L.n, getattr(L, 'p', None)):
                ctx.violation('%s: a value is drawn from [%s, %s), not from the whole range' % (nm, hex(d['lo']), hex(d['hi'])), d['loc'])
        elif d['hi'] - d['lo'] < 1 << 128:
            ctx.violation('%s: only %d random bits are drawn' % (nm, (d['hi'] - d['lo']).bit_length() - 1), d['loc'])
def independent(L, nm, vals):
    """vals: list of (what, value, where): jointly independent functions of the draws"""
    ctx = L.ctx; m = L.m
    vs = [d['v'].id for d in m.draws if d['kind'] != 'weak']
    fs = []
    for what, v, w in vals:
        ctx.obligation('%s: %s is a function of fresh draws' % (nm, what))
        f = log(L, v) if isinstance(v, GP) or isinstance(v, N) and isinstance(one(v), GP) else one(v)
        if isinstance(f, I.Undef) or f is None: ctx.violation('%s: %s has no definite value' % (nm, what), w); return
        if not isinstance(f, FE): f = to_fe(L.n, f)
        if not set(fvars(f)) & set(vs): ctx.violation('%s: %s does not depend on any random draw' % (nm, what), w); return
        fs.append(f)
    ctx.obligation('%s: %d values jointly independent' % (nm, len(fs)))
    if jac_rank(fs, vs, L.n) == len(fs): return
    # name the first value that is determined by the ones before it
    for i in range(1, len(fs) + 1):
        if jac_rank(fs[:i], vs, L.n) < i:
            ctx.violation('%s: %s is determined by the values drawn before it (%s)' % (nm, vals[i - 1][0], ', '.join(x[0] for x in vals[max(0, i - 4):i - 1])), vals[i - 1][2]); return

def eg(ctx):
    L = elgamal.Eg(ctx); Q = elgamal.Q; vals = []
    a, b = L.new('mk'), L.new('mk')
    a2 = L.new('copy', a)
    for i, e in enumerate((a, b, a2, a)):
        for j in (1, 2):
            kp = L.call('keygen', e); pk = L.call('kp_pk', kp)
            vals.append(('the secret key %d of object %d' % (j, i + 1), L.fe(L.call('kp_sk', kp)), L.where(Q + 'keyGen')))
            for k in (1, 2):
                c = L.call('enc', e, pk, L.anypoint('M%d%d%d' % (i, j, k)))
                vals.append(('the randomness of encryption %d, key %d, object %d' % (k, j, i + 1), L.gp(L.call('ct_u', c)), L.where(Q + 'encrypt')))
                c = L.call('encz', e, pk, L.zc(L.z('z%d%d%d' % (i, j, k))))
                vals.append(('the randomness of integer encryption %d, key %d, object %d' % (k, j, i + 1), L.gp(L.call('ct_u', c)), L.where(Q + 'encrypt')))
    sources(L, 'ElGamal'); independent(L, 'ElGamal', vals)
    L.finish('ElGamal')

NDOF = {'messy': 4, 'decryption': 3, 'default': 4}
def dm(ctx, kind, he):
    L = dme.Dme(ctx); Q = dme.Q; vals = []; m = L.m
    w = L.where(Q + 'DME_DDH')
    nm = 'dual mode, %s%s' % (kind, ' (homomorphic)' if he else '')
    objs = []
    for i in (1, 2):
        d = L.inst(kind, he=he)
        b = L.call('base', d) if he and kind != 'default' else d
        if kind != 'received':
            ps = [L.gp(o) for o in L.crs(b)]
            for x, g in list(zip(('g0', 'h0', 'g1', 'h1'), (ps[0], ps[2], ps[1], ps[3])))[:NDOF[kind]]:
                vals.append(('%s of reference string %d' % (x, i), g, w))
        objs.append(b)
    for i, d in enumerate(objs):
        for br in (0, 1):
            for j in (1, 2):
                kp = L.call('keygen', d, br); pk = L.call('kp_pk', kp)
                vals.append(('secret key %d, branch %d, object %d' % (j, br, i + 1), L.fe(L.call('kp_sk', kp)), L.where(Q + 'KeyGen')))
            for eb in (0, 1):
                for form in ('point', 'integer', 'checksummed integer') if kind != 'messy' or eb == br else ('point',):
                    if form == 'point': c = L.call('enc', d, pk, eb, L.anypoint('M%d%d%d' % (i, br, eb)))
                    elif form == 'integer': c = L.call('encz', d, pk, eb, L.zc(L.z('z%d%d%d' % (i, br, eb))))
                    else: c = L.call('enccrc', d, pk, eb, L.zc(L.z('y%d%d%d' % (i, br, eb), 1, (1 << 168) - 1)))
                    vals.append(('u of the %s encryption on branch %d, key of branch %d, object %d' % (form, eb, br, i + 1), L.gp(L.call('ct_u', c)), L.where(Q + 'Enc')))
                    if kind == 'messy' and eb != br:
                        g = L.gpt('M%d%d%d' % (i, br, eb), 'case')
                        mask = m.ap(lambda x: gadd(x, gneg(g)), L.gp(L.call('ct_mv', c)))
                        vals.append(('the mask on branch %d, key of branch %d, object %d' % (eb, br, i + 1), mask, L.where(Q + 'Enc')))
        if kind == 'decryption':
            for j in (1, 2):
                pk = L.call('mkPK', L.call('dflt'), L.call('dflt')); s = [L.call('szero'), L.call('szero')]
                L.call('trap', d, pk, s[0], s[1])
                vals.append(('trapdoor key %d of object %d' % (j, i + 1), L.fe(s[0]), L.where(Q + 'TrapKeyGen')))
    sources(L, nm); independent(L, nm, vals)
    L.finish(nm)

def tr(ctx, kind, dist):
    L = ot.Ot(ctx); m = L.m; vals = []
    nm = 'transfer, %s string, %s' % (kind, 'distributed' if dist else 'plain')
    cr, gone = L.crs(kind)
    rs = [L.new('drecv' if dist else 'recv', cr) for _ in (1, 2)]; ss = [L.new('dsndr' if dist else 'sndr', cr) for _ in (1, 2)]
    gone()
    d0 = len(m.draws); L.m.draws[:d0] = L.m.draws[:d0]
    for i, (r, s) in enumerate(zip(rs, ss)):
        for t, b in enumerate((0, 1, 0)):
            pk = L.call('select', r, b)
            vals.append(('the transfer key %d of receiver %d' % (t + 1, i + 1), L.gp(L.call('pk_g', pk)), L.where('ot::OTrecv::selectMsg')))
            for form in ('enc', 'encz'):
                if form == 'enc': cv = L.call('enc', s, pk, L.anypoint('A%d%d' % (i, t)), L.anypoint('B%d%d' % (i, t)))
                else: cv = L.call('encz', s, pk, L.zc(L.z('a%d%d' % (i, t))), L.zc(L.z('b%d%d' % (i, t))))
                for k in (0, 1):
                    vals.append(('u of message %d, transfer %d of sender %d' % (k, t + 1, i + 1), L.gp(L.call('ct_u', L.call('at', cv, k))), L.where('ot::OTsndr::encMsgs')))
            q = L.call('rndmsg', s)
            vals.append(('random message %d of sender %d' % (t + 1, i + 1), L.gp(q), L.where('ot::OTsndr::getRandomMsg')))
    sources(L, nm); independent(L, nm, vals)
    L.finish(nm)

def ss(ctx):
    L = shamir.Sss(ctx); vals = []
    L.kw = {}
    o = L.new('mk'); o2 = L.new('mk'); o3 = L.new('copy', o)
    k = 0
    for i, q in enumerate((o, o2, o3, o)):
        for t in (2, 3, 4):
            for j in (1, 2):
                s = L.svar('s'); k += 1
                sh = L.shv(L.call('shares', q, t, t, L.sc(s)))
                # consecutive calls with the same secret: t - 1 of the shares are independent
                for x in range(t - 1): vals.append(('share %d of call %d' % (x + 1, k), fsub(one(sh[x][1]), s), L.where(shamir.Q + 'getShares')))
    sources(L, 'secret sharing')
    independent(L, 'secret sharing', vals)
    L.finish('secret sharing')

def pu(ctx, n):
    L = puda.Pu(ctx); m = L.m; vals = []; w = L.where(puda.Q + 'Setup')
    p, p2 = L.new('mk'), L.new('mk')
    for i, q in enumerate((p, p2, p)):
        k = L.call('setup', q, n)
        for j in range(n):
            vals.append(('encryption key %d of set-up %d' % (j + 1, i + 1), L.fe(L.call('ek', k, j)), w))
            vals.append(('tag key %d of set-up %d' % (j + 1, i + 1), L.fe(L.call('tk', k, j)), w))
        if n: vals.append(('the common tag exponent of set-up %d' % (i + 1), L.val('ska', k, 0), w))
        # the period hash: a tag of the value zero
        if n:
            z = one(L.gp(L.call('tag', q, L.call('sk', k, 0), 0, 1)))
            vals.append(('the period hash of set-up %d' % (i + 1), gmul(z, finv(one(L.fe(L.call('tk', k, 0))))), w))
    nm = 'aggregation, %d users' % n
    sources(L, nm); independent(L, nm, vals)
    L.finish(nm)

def op(ctx, theta, cleaned):
    L = opprf.Op(ctx); m = L.m; vals = []
    m.draw_generic = True
    w = L.where(opprf.S + 'prepareKeysAndInputs')
    n = L.val('rounds'); nm = 'OPPRF, theta=%#x%s' % (theta, ', cleaned' if cleaned else '')
    cr, gone = L.crs('given')
    servers = [L.new('server', theta, cr) for _ in (1, 2)]; c = L.new('client', cr)
    gone()
    ga = L.anypoint('ga')
    keys = {}
    def key(k, sess, what, loc):
        if dd.same(k, 0): return
        x = one(k); v = None
        if isinstance(x, BV): x = x.as_poly() if hasattr(x, 'as_poly') else x
        if isinstance(x, Poly) and len(x.d) == 1:
            (mo, co), = x.d.items()
            if co == 1 and len(mo) == 1: v = VARS[mo[0]]
        if v is None or v.kind != 'draw': ctx.violation('%s: %s is not itself one random draw (%r)' % (nm, what, x), loc); return
        d = next((d for d in m.draws if d['v'] is v), None)
        if d is None or d['hi'] - d['lo'] < 1 << 128: ctx.violation('%s: %s has less than 128 random bits' % (nm, what), loc)
        if keys.setdefault(v.id, sess) != sess: ctx.violation('%s: %s was already used in an earlier session' % (nm, what), loc)
    for sess, s in enumerate((servers[0], servers[1], servers[0])):
        L.call('secret', s, ga); L.call('message', c, 0)
        e0 = len(m.enclog); k0 = len(keys)
        L.call('prepare', s)
        vals.append(('the PRF point of session %d' % (sess + 1), L.gp(L.call('kopprf', s)), w))
        prev = L.gp(L.call('result', c))
        for i in range(n, 0, -1):
            L.call('end', c, i, L.call('send', s, i, L.call('start', c, i)))
            cur = L.gp(L.call('result', c))
            vals.append(('the blinding of round %d, session %d' % (i, sess + 1), m.ap(lambda a, b: gadd(a, gneg(b)), cur, prev), w))
            prev = cur
        for rep_ in (1, 2):
            e1 = len(m.enclog)
            L.call('masks', s)
            masks = [one(x) for _, k, x, _ in m.enclog[e1:]]
            ms = []
            for x in masks:
                if isinstance(x, Poly) and len(x.d) == 1:
                    (mo, co), = x.d.items()
                    if len(mo) == 1 and VARS[mo[0]].kind == 'enc': ms.append(VARS[mo[0]].data)
            ctx.obligation('%s: masks' % nm)
            if len(ms) != len(masks): ctx.violation('%s: a mask is not an encoded point' % nm, L.where(opprf.S + 'sendEncryptedMasks'))
            u = []
            for g in ms:
                if not any(geq(g, h) for h in u): u.append(g)
            if len(u) != 2: ctx.violation('%s: %d distinct masks instead of two' % (nm, len(u)), L.where(opprf.S + 'sendEncryptedMasks'))
            for g in u:
                if any(geq(g, h) for h in [x[1] for x in vals if isinstance(x[1], GP)]): continue     # the opening mask, repeated
                cnt = sum(geq(g, h) for h in ms)
                # the mask of an accepted input is determined by the session: K - r*sum(ok)
                if cnt == 1: vals.append(('the mask of a rejected input, request %d of session %d' % (rep_, sess + 1), g, L.where(opprf.S + 'sendEncryptedMasks')))
        ob = set()
        for g, k, x, loc in m.enclog[e0:]:
            key(k, sess, 'a symmetric key', loc)
        # the keys encrypted under other keys are checked as well: they occur as plaintexts
        for g, k, x, loc in m.enclog[e0:]:
            y = one(x)
            if isinstance(y, Poly) and len(y.d) == 1 and VARS[list(y.d)[0][0]].kind == 'enc': continue
            key(x, sess, 'a symmetric key', loc)
        ctx.obligation('%s: session %d: three fresh keys for each of the %d positions' % (nm, sess + 1, n))
        if len(keys) - k0 != 3 * n - unused(theta, n): ctx.violation('%s: session %d uses %d distinct symmetric keys instead of %d' % (nm, sess + 1, len(keys) - k0, 3 * n - unused(theta, n)), w)
        if cleaned: L.call('sclean', s)
        L.call('cclean', c)
    sources(L, nm); independent(L, nm, vals)
    L.finish(nm)
def unused(theta, n): return 0

def R01(ctx):
    jobs = [('ElGamal', lambda: eg(ctx)), ('sharing', lambda: ss(ctx))]
    for kind in ('messy', 'decryption', 'default', 'received'):
        for he in (False, True):
            if he and kind == 'default': continue
            jobs.append(('dual mode %s %d' % (kind, he), (lambda k, h: lambda: dm(ctx, k, h))(kind, he)))
    for kind in ('messy', 'given'):
        for d in (False, True): jobs.append(('transfer %s %d' % (kind, d), (lambda k, d: lambda: tr(ctx, k, d))(kind, d)))
    for n in (0, 1, 3) if ctx.tier == 'quick' else (0, 1, 2, 3, 5, 8): jobs.append(('aggregation %d' % n, (lambda n: lambda: pu(ctx, n))(n)))
    for th in (0, 0xa5c3, 0xffff): 
        for cl in (False, True): jobs.append(('OPPRF %x %d' % (th, cl), (lambda t, c: lambda: op(ctx, t, c))(th, cl)))
    ctx.parallel(jobs)
    ctx.rule = 'each secret is, jointly with all others, an independent full-range function of the draws (Jacobian rank over GF(order)); provenance of every draw'
