"""Q01-Q04 and the OPPRF part of D05."""
from .proto import *
from .crc import newbit_once
SRC = ('src/dme/dme.cpp', 'src/dme/dmhe.cpp', 'src/ot/ot.cpp', 'src/ot/dot.cpp', 'src/utilities/aes.cpp', 'src/opprf/opprf.cpp')
S, C = 'opprf::OPPRFserver::', 'opprf::OPPRFclient::'
PERM = [0]
def permute(m, o, idx, rec):
    """an arbitrary order: Fisher-Yates with fresh unknown choices"""
    PERM[0] += 1
    idx = list(idx); rec['atoms'] = []
    for i in range(1, len(idx)):
        rest = m.g
        for j in range(i):
            l = m.lit('perm', (PERM[0], i, j), 'shuffle%d.%d=%d' % (PERM[0], i, j))
            rec['atoms'].append(l)
            a, b = o.items[idx[i]], o.items[idx[j]]
            g0 = m.g; m.g = AND(rest, l)
            t = m.clone(a); m.copy_into(a, b); m.copy_into(b, t)
            m.g = g0; rest = AND(rest, NOT(l))
class Op(Proto):
    def __init__(self, ctx, **kw):
        kw.setdefault('abscrc', True); kw.setdefault('absaes', True)
        Proto.__init__(self, ctx, 'opprf.cpp', 'w_opprf', SRC, **kw)
    def fresh(self):
        m = Proto.fresh(self)
        m.draw_generic = True
        m.hooks['shuffle'] = permute
        return m
    def crs(self, kind):
        if kind == 'given':
            own = self.call('mkcurve')
            return self.call('mkCRS', *[self.pt(self.gpt(x), I.Ptr(own)) for x in ('g0', 'g1', 'h0', 'h1')]), lambda: self.m.kill(own, 'gone')
        d = self.new('mkmode', 0 if kind == 'messy' else 1)
        r = self.call('crs', d)
        r = self.call('mkCRS', *[self.m.member(r, x) for x in ('g0', 'g1', 'h0', 'h1')])
        return r, lambda: self.call('deldme', I.Ptr(d))
    def bits(self, names, n):
        """unknown n-bit integers whose bits are interleaved in the predicate order"""
        out = {x: [0] * n for x in names}
        for i in reversed(range(n)):
            for x in names:
                newbit_once('%s.%d' % (x, i))
                v = var('bit', '%s.%d' % (x, i), 0, 1, bit=True)
                dd.lit(dd.atom('bit', v, v.name))
                out[x][i] = v
        return [self.word(out[x]) for x in names], [out[x] for x in names]
    def word(self, vs): return B([1 << (BITIDX[v.id] + 1) for v in vs])
    def num(self, vs):
        r = 0
        for i, v in enumerate(vs): r = iadd(r, imul(1 << i, V(v)))
        return r
    def session(self, s, c, n, order=None):
        for i in (order or range(n, 0, -1)):
            pk = self.call('start', c, i)
            self.call('end', c, i, self.call('send', s, i, pk))
        self.call('unmask', c, self.call('masks', s))
def leq(vx, vt):
    """x <= theta over bit atoms"""
    r = True
    for x, t in zip(vx, vt):
        a = dd.lit(dd.atom('bit', x, x.name)); b = dd.lit(dd.atom('bit', t, t.name))
        r = OR(AND(NOT(a), b), AND(NOT(OR(AND(a, NOT(b)), AND(NOT(a), b))), r))
    return r

def Q01(ctx):
    def body(L, kind, variant):
        m = L.m; w = L.where(C + 'unmaskResult')
        n = L.val('rounds')
        (xs, ts), (vx, vt) = L.bits(('x', 'th'), n)
        cr, gone = L.crs(kind)
        s = L.new('server', ts, cr); c = L.new('client', cr)
        gone()
        ga = L.anypoint('ga')
        if variant == 'copies':
            s2 = L.new('scopy', s); L.call('dels', I.Ptr(s)); s = s2
            c2 = L.new('ccopy', c); L.call('delc', I.Ptr(c)); c = c2
        L.call('secret', s, ga); L.call('message', c, xs); L.call('prepare', s)
        K = L.gp(L.call('kopprf', s))
        L.session(s, c, n)
        nm = '%s string%s' % (kind, ', copied parties' if variant == 'copies' else '')
        R = L.gp(L.call('result', c))
        le = leq(vx, vt)
        exp = m.ap(lambda a, g: gadd(a, gmul(g, to_fe(L.n, L.num(vx)))), K, L.gp(ga))
        ctx.equal(m, nm + ': x <= theta: K + x*ga', R, exp, w, le)
        ctx.obligation(nm + ': x > theta: blinded by an independent point')
        bad = False
        for g, x in leaves(R, NOT(le)):
            for g2, k in leaves(exp, g):
                # some random unknown occurs in the difference and nowhere in what the client should learn
                kv = fvs(k)
                bad = OR(bad, AND(g2, absmodels.each(lambda y: not any(VARS[v].kind == 'draw' and v not in kv for v in fvs(y)), gadd(x, gneg(k)))))
        p = facts.possible(m, bad)
        if p is not None: ctx.violation('%s: the result for x > theta is not blinded by an independent point' % nm, w, 'when ' + ctx.pathstr(p))
        L.usable(nm + ': result refers to a live curve object', L.call('result', c), m.val(L.m.ap(lambda z: z, L.cv(L.call('result', c)))), w)
        L.finish(nm)
    ctx.parallel([('%s %s' % (k, v), (lambda k, v: lambda: body(Op(ctx), k, v))(k, v)) for k in ('messy', 'decryption', 'given') for v in ('plain', 'copies')])
def fvs(g):
    out = set()
    for f in g.d.values(): out |= fvars(f)
    return out

# ------------------------------------------------------------ everything reachable from an object
def unknowns(m, o, out=None, seen=None, skip=()):
    """unknowns occurring in the values stored in an object"""
    if out is None: out = set(); seen = set()
    def val(v):
        if isinstance(v, N):
            for _, x in leaves(v, True): val(x)
        elif isinstance(v, Poly):
            for i in dvars(v.d): var_(i)
        elif isinstance(v, FE):
            for i in fvars(v): var_(i)
        elif isinstance(v, GP):
            for b, f in v.d.items():
                for i in fvars(f): var_(i)
                dat(BASES[b].data)
        elif isinstance(v, BV):
            for f in v.b:
                i = 0
                while f >> (i + 1):
                    if f >> (i + 1) & 1: var_(BITS[i].id)
                    i += 1
        elif isinstance(v, I.Ptr): obj(v.o)
        elif isinstance(v, I.OBJ): obj(v)
    def dat(d):
        if isinstance(d, tuple):
            for x in d: dat(x)
        else: val(d)
    def var_(i):
        if i in out: return
        out.add(i)
        if VARS[i].kind in ('ENC', 'ENC0', 'DEC', 'enc', 'CRCAPP', 'CRCREM', 'xof', 'yof', 'mod', 'sqrt', 'div', 'fdiv', 'lift'): dat(VARS[i].data)
    def obj(x):
        if id(x) in seen or x is None: return
        seen.add(id(x))
        if isinstance(x, N):
            for _, y in leaves(x, True): obj(y)
        elif isinstance(x, I.Cell): val(x.v)
        elif isinstance(x, I.Rec):
            for n, y in x.f.items():
                if n in skip: continue
                if isinstance(y, I.OBJ) or isinstance(y, N): obj(y)
                else: val(y)
        elif isinstance(x, I.Vec):
            for y in x.items: obj(y)
        elif isinstance(x, I.Map):
            for y in x.d.values(): obj(y)
    obj(o) if isinstance(o, I.OBJ) or isinstance(o, N) else val(o)
    return out

def Q02(ctx):
    def group(L, nm, items, w, n0):
        """three distinct entries, in one of the six orders, each possible"""
        m = L.m
        new = m.shuffles[n0:]
        perms = [l for r in new for l in r['atoms']]
        ids = sorted({l.a for l in perms if isinstance(l, N)})
        ctx.obligation(nm + ': returned in an order chosen by a shuffle')
        seen = {}; base = None
        import itertools
        for vals in itertools.product((False, True), repeat=len(ids)):
            env = dict(zip(ids, vals))
            # at most one choice per step
            st = {}
            bad = False
            for i, v in env.items():
                k = dd.ATOMS[i].data
                if v and (k[0], k[1]) in st: bad = True
                if v: st[(k[0], k[1])] = 1
            if bad: continue
            def cof(v):
                while isinstance(v, N) and v.a in env: v = v.hi if env[v.a] else v.lo
                return v
            row = tuple(dd.lkey(cofall(x, env)) if not isinstance(x, tuple) else tuple(dd.lkey(cofall(y, env)) for y in x) for x in items)
            if len(set(row)) != 3: ctx.violation('%s: the three entries are not distinct' % nm, w); return
            if base is None: base = set(row)
            if set(row) != base: ctx.violation('%s: the entries themselves depend on the order' % nm, w); return
            seen[row] = 1
        if len(seen) != 6: ctx.violation('%s: %d of the 6 orders can occur' % (nm, len(seen)), w)
    def body(L, kind):
        m = L.m
        n = L.val('rounds')
        (xs, ts), (vx, vt) = L.bits(('x', 'th'), n)
        cr, gone = L.crs(kind)
        s = L.new('server', ts, cr); c = L.new('client', cr)
        L.call('secret', s, L.anypoint('ga')); L.call('message', c, xs); L.call('prepare', s)
        for i in range(n, 0, -1):
            pk = L.call('start', c, i)
            n0 = len(m.shuffles)
            o = L.call('send', s, i, pk)
            if i == n: continue
            w = L.where(S + 'runOTRound'); nm = 'round %d' % i
            ctx.equal(m, nm + ': number of key ciphertext pairs', L.val('nctxt', o), 3, w)
            items = []
            for j in range(3):
                cv = L.call('ctxt', o, j)
                ctx.equal(m, nm + ': each is a pair', L.val('csize', cv), 2, w)
                items.append(tuple(L.gp(L.call(f, cv, b)) for f in ('ct_u', 'ct_mv') for b in (0, 1)))
            group(L, nm, items, w, n0)
        w = L.where(S + 'sendEncryptedMasks')
        n0 = len(m.shuffles)
        o = L.call('masks', s)
        ctx.equal(m, 'number of masks', L.val('nmask', o), 3, w)
        group(L, 'masks', [L.val('mask', o, j) for j in range(3)], w, n0)
        # a second request for the masks is ordered independently
        n0 = len(m.shuffles)
        o = L.call('masks', s)
        group(L, 'masks, requested again', [L.val('mask', o, j) for j in range(3)], w, n0)
        L.finish(kind)
    ctx.parallel([(k, (lambda k: lambda: body(Op(ctx), k))(k)) for k in ('messy', 'given')])
def cofall(v, env):
    memo = {}
    def rec(x):
        if not isinstance(x, N): return x
        r = memo.get(id(x), memo)
        if r is memo:
            r = rec(x.hi if env[x.a] else x.lo) if x.a in env else dd.mk(x.a, rec(x.hi), rec(x.lo))
            memo[id(x)] = r
        return r
    return rec(v)

def Q03(ctx):
    def body(L, kind, variant):
        m = L.m; w = L.where(S + 'prepareKeysAndInputs')
        n = L.val('rounds')
        (xs, xs2, ts), (vx, vx2, vt) = L.bits(('x', 'y', 'th'), n)
        cr, gone = L.crs(kind)
        s = L.new('server', ts, cr); c = L.new('client', cr)
        gone()
        nm = '%s string, %s' % (kind, variant)
        d0 = len(m.draws)
        ga = L.anypoint('ga')
        L.call('secret', s, ga); L.call('message', c, xs); L.call('prepare', s)
        K0 = L.gp(L.call('kopprf', s))
        if variant.startswith('interrupted'):
            for i in range(n, n - 3, -1):
                L.call('end', c, i, L.call('send', s, i, L.call('start', c, i)))
        else: L.session(s, c, n)
        first = {d['v'].id for d in m.draws[d0:]}
        if 'no server cleanup' not in variant: L.call('sclean', s)
        # the client leaves no trace (its transfer key pair excepted, which holds neither the result nor the key)
        L.call('cclean', c)
        wc = L.where(C + 'clean')
        ctx.equal(m, nm + ': a cleaned client has no result', L.gp(L.call('result', c)), L.ginf(), wc)
        otrty = [k for k, v in c.f.items() if isinstance(v, I.Rec) and 'ot::' in (v.ty.get('qn') or '')]
        ctx.obligation(nm + ': a cleaned client holds nothing of the previous session')
        tr = unknowns(m, c, skip=tuple(otrty)) & first
        if tr: ctx.violation('%s: the cleaned client still holds %s of the previous session' % (nm, ', '.join(sorted(VARS[v].name for v in tr))), wc)
        # next session
        d1 = len(m.draws)
        L.call('message', c, xs2)
        L.call('prepare', s)
        K = L.gp(L.call('kopprf', s))
        ctx.obligation(nm + ': the next session uses nothing of the previous one')
        ob = []
        for i in range(n, 0, -1):
            pk = L.call('start', c, i); o = L.call('send', s, i, pk); ob.append((o, 'round %d' % i)); L.call('end', c, i, o)
        o = L.call('masks', s); ob.append((o, 'masks')); L.call('unmask', c, o)
        for o, what in ob:
            old = unknowns(m, o) & first
            if old: ctx.violation('%s: %s of the next session depends on %s of the previous one' % (nm, what, ', '.join(sorted(VARS[v].name for v in old)[:4])), w)
        old = unknowns(m, K) & first
        if old: ctx.violation('%s: the PRF point of the next session is that of the previous one' % nm, w)
        le = leq(vx2, vt)
        exp = m.ap(lambda a, g: gadd(a, gmul(g, to_fe(L.n, L.num(vx2)))), K, L.gp(ga))
        ctx.equal(m, nm + ': result of the next session', L.gp(L.call('result', c)), exp, w, le)
        L.finish(nm)
    ctx.parallel([('%s %s' % (k, v), (lambda k, v: lambda: body(Op(ctx), k, v))(k, v)) for k in ('messy', 'given')
                  for v in ('server cleanup', 'no server cleanup', 'interrupted, server cleanup', 'interrupted, no server cleanup')])

def Q04(ctx):
    def body(L, at, mixed):
        m = L.m; w = L.where(C + 'runOTRound_end')
        n = L.val('rounds')
        (xs, ts), (vx, vt) = L.bits(('x', 'th'), n)
        cr, gone = L.crs('given')
        s = L.new('server', ts, cr); f = L.new('server', ts, cr); c = L.new('client', cr)
        ga = L.anypoint('ga')
        for q in (s, f): L.call('secret', q, ga); L.call('prepare', q)
        L.call('message', c, xs)
        nm = 'undecryptable %s' % ('masks' if at == 0 else 'round %d' % at)
        for i in range(n, 0, -1):
            pk = L.call('start', c, i)
            o = L.call('send', s, i, pk)
            if i == at:
                R0 = L.gp(L.call('result', c))
                for what, bad in (('another session', L.call('send', f, i, pk)),):
                    ctx.equal(m, '%s (%s): refused' % (nm, what), L.val('tryend', c, i, bad), False, w)
                    ctx.equal(m, '%s (%s): result unchanged' % (nm, what), L.gp(L.call('result', c)), R0, w)
            L.call('end', c, i, o)
        mk = L.call('masks', s)
        if at == 0:
            w = L.where(C + 'unmaskResult')
            R0 = L.gp(L.call('result', c))
            for what, bad in (('another session', L.call('masks', f)), ('zeros', L.call('mkmasks', L.zc(0), L.zc(0), L.zc(0)))):
                ctx.equal(m, '%s (%s): refused' % (nm, what), L.val('tryunmask', c, bad), False, w)
                ctx.equal(m, '%s (%s): result unchanged' % (nm, what), L.gp(L.call('result', c)), R0, w)
        L.call('unmask', c, mk)
        K = L.gp(L.call('kopprf', s))
        le = leq(vx, vt)
        exp = m.ap(lambda a, g: gadd(a, gmul(g, to_fe(L.n, L.num(vx)))), K, L.gp(ga))
        ctx.equal(m, nm + ': the key is unchanged, the session can be completed', L.gp(L.call('result', c)), exp, w, le)
        L.finish(nm)
    ctx.parallel([('round %d' % a, (lambda a: lambda: body(Op(ctx), a, 0))(a)) for a in range(15, -1, -1)])

def D05_opprf(ctx):
    def body(L):
        m = L.m
        n = L.val('rounds')
        (xs, ts), (vx, vt) = L.bits(('x', 'th'), n)
        own = L.call('mkcurve')
        cr = L.call('mkCRS', *[L.pt(L.gpt(x), I.Ptr(own)) for x in ('g0', 'g1', 'h0', 'h1')])
        s = L.new('server', ts, cr); c = L.new('client', cr)
        m.kill(own, 'gone')
        own2 = L.call('mkcurve')
        ga = L.anypoint('ga', I.Ptr(own2))
        g = L.gp(ga)
        L.call('secret', s, ga)
        ctx.equal(m, 'setSecret leaves the point unchanged', L.gp(ga), g, L.where(S + 'setSecret'))
        m.kill(own2, 'gone')
        L.call('message', c, xs); L.call('prepare', s)
        K = L.gp(L.call('kopprf', s))
        L.session(s, c, n)
        exp = m.ap(lambda a, g: gadd(a, gmul(g, to_fe(L.n, L.num(vx)))), K, g)
        ctx.equal(m, 'OPPRF server and client with a reference string and a secret whose producers are gone', L.gp(L.call('result', c)), exp, L.where(S + 'setSecret'), leq(vx, vt))
        L.finish('OPPRF parties')
        # the transfers use the given points
        ctx.obligation('the OPPRF parties use the points of the reference string')
        pk = L.call('start', c, n); o = L.call('send', s, n, pk)
        u = unknown_bases(m, o)
        if not {base('raw', x, x).id for x in ('g0', 'g1', 'h0', 'h1')} <= u:
            ctx.violation('the transfers of the OPPRF parties do not use the points of the reference string', L.where('opprf::OPPRFserver::OPPRFserver'))
    ctx.scenario('OPPRF parties', lambda: body(Op(ctx)))
def unknown_bases(m, o):
    out = set()
    def walk(x):
        if isinstance(x, N):
            for _, y in leaves(x, True): walk(y)
        elif isinstance(x, GP): out.update(x.d)
        elif isinstance(x, I.Cell): walk(x.v)
        elif isinstance(x, I.Rec):
            for y in x.f.values(): walk(y)
        elif isinstance(x, I.Vec):
            for y in x.items: walk(y)
    walk(o)
    return out
def D05(ctx):
    from . import dme, ot
    dme.D05_dme(ctx); ot.D05_ot(ctx); D05_opprf(ctx)
