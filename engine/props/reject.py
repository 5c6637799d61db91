"""X05: what must be refused is refused with and without assertions."""
from .proto import *
from . import opprf, aes
from .crc import int_of
BUILDS = (('release', ('-DNDEBUG',)), ('assertions', ()))

def verdict(L, nm, fn, args, valid, w):
    """run a call that may refuse: returns True / throws (False) / aborts; accepted iff valid"""
    m = L.m; ctx = L.ctx
    n0 = len(m.exc)
    r = L.val(fn, *args)
    acc = False
    for g, v in leaves(r, m.g): acc = OR(acc, AND(g, v if isinstance(v, bool) else NOT(m.ieq0(v))))
    died = False
    for g, kind, ty, loc in m.exc[n0:]: died = OR(died, g)
    ctx.holds(m, nm + ': bad input is refused', OR(NOT(acc), valid), w, 'it is accepted')
    ctx.holds(m, nm + ': good input is accepted', OR(acc, NOT(valid)), w, 'it is refused')
    del m.exc[n0:]
    m.g = True; m.gone = False
    return acc

def secret(ctx, flags, bn):
    for first in (False, True):
        L = opprf.Op(ctx, flags=flags); m = L.m; w = L.where(opprf.S + 'setSecret')
        cr, gone = L.crs('given'); s = L.new('server', 0x1234, cr); c = L.new('client', cr); gone()
        nm = '%s build: secret point%s' % (bn, ', replacing an earlier one' if first else '')
        if first:
            L.call('secret', s, L.anypoint('old')) ; m.g = True; m.exc[:] = []
        own = L.call('mkcurve')
        g = L.gpt('bad', 'raw'); p = L.pt(g, I.Ptr(own))
        valid = m.lit('valid', base('raw', 'bad', 'bad'), 'valid(bad)')
        verdict(L, nm, 'trysecret', (s, p), valid, w)
        if first:
            # the refused point is not used
            m.g = NOT(valid)
            L.call('message', c, 0xffff)
            L.call('prepare', s)
            prev = L.gp(L.call('result', c)); n = L.val('rounds')
            L.call('end', c, n, L.call('send', s, n, L.call('start', c, n)))
            cur = L.gp(L.call('result', c))
            bad = base('raw', 'bad', 'bad').id
            used = m.ap(lambda x: bad in x.d, cur)
            ctx.holds(m, nm + ': a refused point is not used', NOT(used), w, 'the refused point is kept', NOT(valid))
            m.g = True
        ctx.clean(m, nm, care=True); ctx.absorb(m)

def rounds(ctx, flags, bn, at):
    L = opprf.Op(ctx, flags=flags); m = L.m; w = L.where(opprf.C + ('runOTRound_end' if at else 'unmaskResult'))
    n = L.val('rounds')
    cr, gone = L.crs('given')
    s = L.new('server', 0x5a3c, cr); f = L.new('server', 0x5a3c, cr); c = L.new('client', cr)
    ga = L.anypoint('ga')
    for q in (s, f): L.call('secret', q, ga); L.call('prepare', q)
    L.call('message', c, 0x1b77)
    nm = '%s build: %s of another session' % (bn, 'masks' if at == 0 else 'round %d' % at)
    for i in range(n, 0, -1):
        pk = L.call('start', c, i); o = L.call('send', s, i, pk)
        if i == at:
            verdict(L, nm, 'tryend', (c, i, L.call('send', f, i, pk)), False, w)
            break
        L.call('end', c, i, o)
    if at == 0:
        verdict(L, nm, 'tryunmask', (c, L.call('masks', f)), False, w)
    ctx.absorb(m)

def good(ctx, flags, bn):
    L = opprf.Op(ctx, flags=flags); m = L.m
    n = L.val('rounds')
    cr, gone = L.crs('given'); s = L.new('server', 0x5a3c, cr); c = L.new('client', cr)
    L.call('secret', s, L.anypoint('ga')); L.call('prepare', s); L.call('message', c, 0x1b77)
    L.session(s, c, n)
    L.finish('%s build: a regular session' % bn)

def sym(ctx, flags, bn):
    prog = ctx.witness('aes.cpp', *aes.SRC, flags=flags)
    def thrown(m):
        t = False
        for g, kind, ty, loc in m.exc: t = OR(t, g)
        return t
    def ivlen(n):
        m = aes.machine(prog); aes.setiv(m, n)
        nm = '%s build: initialisation vector of %d bytes' % (bn, n); w = where(prog, 'aes::AES::init')
        if n < 16: ctx.holds(m, nm + ': refused', thrown(m), w, 'is accepted')
        else: ctx.noexc(m, nm)
        ctx.absorb(m)
    def key(kb, f):
        m = aes.machine(prog)
        aes.call(m, f, aes.cell(int_of(kb, 'key')[0]), aes.cell(int_of(57, 'msg')[0]))
        nm = '%s build: %s with a %d-bit key' % (bn, f, kb)
        ctx.holds(m, nm + ': refused', thrown(m), where(prog, 'aes::AES::encrypt' if f.startswith('enc') else 'aes::AES::decrypt'), 'a key that does not fit is accepted')
        ctx.absorb(m)
    aes.each(ctx, ivlen, [(n,) for n in (0, 1, 8, 15, 16, 17)])
    aes.each(ctx, key, [(k, f) for k in (129, 144, 256) for f in ('enc', 'dec', 'encC', 'decC')])

def X05(ctx):
    jobs = []
    for bn, fl in BUILDS:
        jobs.append(('%s secret' % bn, (lambda f, b: lambda: secret(ctx, f, b))(fl, bn)))
        jobs.append(('%s regular' % bn, (lambda f, b: lambda: good(ctx, f, b))(fl, bn)))
        jobs.append(('%s symmetric' % bn, (lambda f, b: lambda: sym(ctx, f, b))(fl, bn)))
        for at in ((15, 14, 8, 1, 0) if ctx.tier == 'quick' else range(16)): jobs.append(('%s round %d' % (bn, at), (lambda f, b, a: lambda: rounds(ctx, f, b, a))(fl, bn, at)))
    # extraction once, before the processes fork
    for bn, fl in BUILDS: opprf.Op(ctx, flags=fl); ctx.witness('aes.cpp', *aes.SRC, flags=fl)
    ctx.parallel(jobs)
    ctx.rule = 'each refusing operation interpreted with assertions on and off: the set of accepted inputs equals the specified one'
