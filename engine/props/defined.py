"""Scenarios of X04 that the other checks do not have: every operation on
objects in the state their constructors leave them in."""
from .proto import *
from . import elgamal, dme, ot, puda, opprf, shamir, points, meta

def use(v, m):
    """the caller reads the result"""
    for g, x in leaves(m.val(v) if not isinstance(v, I.Rec) else v, m.g):
        if isinstance(x, I.Rec): m.defined_deep(x)
        elif isinstance(x, I.Undef): m.event('uninit', 'returns an indeterminate value', g)
def done(L, nm): 
    meta.Sub(L.ctx, 'X04').clean(L.m, nm); L.ctx.absorb(L.m); L.ctx.obligation(nm)
def reset(m): m.g = True; m.gone = False
def each(L, nm, ops):
    """every operation on its own: one that refuses does not hide the next"""
    m = L.m
    for f, a in ops:
        m.sites_now = nm
        use(L.call(f, *a) , m) if L.fn(f)['_T'][L.fn(f)['rt']]['k'] != 'void' else L.call(f, *a)
        reset(m)
def dm(ctx, kind, he):
    L = dme.Dme(ctx); m = L.m; nm = 'fresh %s%s instance' % ('homomorphic ' if he else '', kind)
    d = L.inst(kind, he=he); b_ = L.call('base', d) if he else d
    pk = L.call('mkPK', L.anypoint('G'), L.anypoint('H')); sk = L.sc(L.svar('k'))
    ct = L.call('mkCT', L.anypoint('U'), L.anypoint('V'))
    bit = V(var('bit', 'br', 0, 1, bit=True))
    spk = L.call('mkPK', L.call('dflt'), L.call('dflt')); ss = [L.call('szero'), L.call('szero')]
    ops = [('copy', (b_,)), ('keygen', (b_, bit)), ('enc', (b_, pk, bit, L.anypoint('M'))), ('encz', (b_, pk, bit, L.zc(L.z('z')))), ('enccrc', (b_, pk, bit, L.zc(L.z('y', 1, (1 << 168) - 1)))),
           ('dec', (b_, sk, ct)), ('decz', (b_, sk, ct)), ('deccrc', (b_, sk, ct)), ('findmessy', (b_, pk)), ('trap', (b_, spk, ss[0], ss[1])), ('encode', (b_, L.zc(L.z('e')))), ('decode', (b_, L.anypoint('D')))]
    if he: ops += [('eval', (d, ct, ct)), ('hecopy', (d,))]
    each(L, nm, ops)
    x = L.inst('default'); L.call('asg', x, b_)
    done(L, nm)
def values(ctx):
    L = dme.Dme(ctx); m = L.m
    for v in ('CRS', 'TDM', 'TDD', 'PK', 'KP', 'CT'):
        a = L.call(v + '_dflt')
        for f in ('copy', 'assign', 'eqself'): use(L.call('%s_%s' % (v, f), a), m); reset(m)
        b = L.call(v + '_dflt'); use(L.call(v + '_eq', a, b), m); L.call(v + '_asg', a, b); reset(m)
    done(L, 'default-constructed values')
def tr(ctx):
    for kind in ('messy', 'decryption', 'given'):
        L = ot.Ot(ctx); m = L.m
        cr, gone = L.crs(kind)
        for f in ('recv', 'drecv'):
            r = L.new(f, cr); nm = 'fresh receiver, %s string' % kind
            s = L.new('sndr', cr); o = L.new('recv', cr); pk = L.call('select', o, 0)
            cv = L.call('enc', s, pk, L.anypoint('A'), L.anypoint('B'))
            each(L, nm, [('branch', (r,)), ('recvcopy', (r,)), ('dec', (r, cv)), ('decz', (r, cv)), ('rcurve', (r,))])
            x = L.new(f, cr); L.call('recvasg', x, r); each(L, nm, [('branch', (x,))])
        for mode in (0, 1):
            r = L.new('recvmode', mode); each(L, nm, [('branch', (r,)), ('recvcopy', (r,))])
            s = L.new('sndrmode', mode); each(L, nm, [('sndrcopy', (s,)), ('rndmsg', (s,))])
        p = L.new('prxy', cr); each(L, nm, [('prxycopy', (p,))])
        done(L, nm)
def op(ctx):
    for kind in ('messy', 'given'):
        L = opprf.Op(ctx); m = L.m; nm = 'fresh OPPRF parties, %s string' % kind
        cr, gone = L.crs(kind); n = L.val('rounds')
        c = L.new('client', cr); s = L.new('server', 0x1234, cr)
        each(L, nm, [('result', (c,)), ('ccopy', (c,)), ('kopprf', (s,)), ('scopy', (s,)), ('sclean', (s,)), ('cclean', (c,)), ('start', (c, n)), ('start', (c, 1)), ('result', (c,)), ('ccopy', (c,))])
        c2 = L.new('client', cr); c = L.new('client', cr); L.call('casg', c2, c); s2 = L.new('server', 1, cr); s = L.new('server', 2, cr); L.call('sasg', s2, s)
        each(L, nm, [('result', (c2,)), ('kopprf', (s2,)), ('start', (c2, 3)), ('ccopy', (c2,))])
        L.call('secret', s2, L.anypoint('ga')); reset(m)
        each(L, nm, [('kopprf', (s2,)), ('scopy', (s2,))])
        # a whole session of a client that never chose a message
        L.call('prepare', s2); L.session(s2, c2, n); each(L, nm, [('result', (c2,))])
        done(L, nm)
def rest(ctx):
    L = shamir.Sss(ctx); L.call = L.call; m = L.m
    o = L.new('mk'); p = L.new('copy', o)
    each(L, 'secret sharing object', [('copy', (p,)), ('recon', (p, L.call('none')))])
    done(L, 'fresh secret sharing object')
    L = elgamal.Eg(ctx); m = L.m
    e = L.new('mk'); f = L.new('copy', e); L.call('asg', f, e)
    each(L, 'ElGamal', [('keygen', (f,)), ('encz', (f, L.anypoint('Q'), L.zc(L.z('z')))), ('enc', (f, L.anypoint('Q'), L.anypoint('M')))])
    done(L, 'fresh ElGamal object')
    L = puda.Pu(ctx); m = L.m
    p = L.new('mk'); q = L.new('copy', p); L.call('asg', q, p)
    each(L, 'aggregation object', [('enc', (q, L.sc(L.svar('ek')), 3, L.t()))])
    k = L.call('setup', q, 2); t = L.t(); ms = L.msgs(2); g = L.call('none'); c = L.call('none')
    for i in range(2): L.call('push', c, L.call('enc', q, L.call('ek', k, i), ms[i], t)); L.call('push', g, L.call('tag', q, L.call('sk', k, i), ms[i], t))
    care = NOT(m.ilt0(isub(65535, puda.add(*ms)))); m.g = care
    tag = L.call('aggtag', q, L.call('ak', k), c, g, t)
    use(L.call('verify', q, k, puda.add(*ms), tag, t), m); reset(m)
    meta.Sub(L.ctx, 'X04').clean(L.m, 'fresh aggregation object', care=care); L.ctx.absorb(L.m)
def jobs(ctx):
    out = []
    for kind in dme.INST:
        for he in (False, True):
            if he and kind == 'default': continue
            out.append(('fresh %s %d' % (kind, he), (lambda k, h: lambda: dm(ctx, k, h))(kind, he)))
    return out + [('values', lambda: values(ctx)), ('fresh transfer', lambda: tr(ctx)), ('fresh OPPRF', lambda: op(ctx)), ('fresh others', lambda: rest(ctx))]
