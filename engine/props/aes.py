"""A01-A05: symmetric encryption over unknown bits, the cipher being an unknown
keystream per (cipher, key, iv, position)."""
from .crc import *
from ..interp import gf2_basis
NAMES = ['aes::AES::encrypt', 'aes::AES::decrypt', 'aes::AES::encryptCRC', 'aes::AES::decryptCRC']
SRC = ('src/utilities/aes.cpp', 'src/utilities/utilities.cpp')
OOB = ('out-of-bounds', 'null-deref', 'null-arith', 'uninit', 'bad-shift', 'write-const', 'evp-state', 'overflow', 'div-zero', 'missing-return')
OWN = ('double-free', 'use-after-free', 'bad-free')
def prog_of(ctx): 
    p = ctx.witness('aes.cpp', *SRC)
    for f in ('enc', 'dec', 'encC', 'decC', 'init', 'initn', 'validate', 'remove', 'again'): p.fnq('w_aes::' + f)
    return p
def each(ctx, f, runs):
    """every run is a scenario of its own"""
    for r in runs: ctx.scenario(' '.join(getattr(x, '__name__', str(x)) for x in r), (lambda r: lambda: f(*r))(r))
def machine(prog): 
    m = I.Machine(prog, absfield=False)
    m.zero_generic = False
    m.loop_limit = 20000
    return m
def call(m, f, *a): return m.call_fn(m.prog.fnq('w_aes::' + f), None, list(a), None)
def cell(v): return I.Cell(v)
def sparse_int(nbytes, name):
    """an integer of nbytes bytes with one unknown bit per byte, the others fixed"""
    bits = []
    for i in range(8 * nbytes):
        if i == 8 * nbytes - 1: bits.append(1)
        elif i % 8 == (i // 8) % 8:
            k = '%s.s%d' % (name, i); newbit_once(k)
            bits.append(1 << (BITIDX[var('bit', k, 0, 1, bit=True).id] + 1))
        else: bits.append((i * 7 // 3) & 1)
    return B(bits)
def msg(l, sparse):
    if sparse: return sparse_int(l, 'm')
    if l > 300: return B([0] * 0 + list(sparse_int((l + 7) // 8, 'm').b[:l - 1]) + [1])
    return int_of(l, 'msg%d_' % l)[0]
def thin(m, l):
    """for long texts: a keystream with one unknown bit per byte"""
    if l <= 300: return
    def ks(kid, i):
        k = 'kt%d.%d' % (kid, i); newbit_once(k)
        f = 1 << (BITIDX[var('bit', k, 0, 1, bit=True).id] + 1)
        return B([f if j == i % 8 else (i * 5 >> j) & 1 for j in range(8)])
    m.hooks['ks'] = ks
def ptpart(m, bs, z, b, name='pt'):
    """The keystream k is unknown, so for a given ciphertext c the plaintext k^c is unknown too: one case per
    position of its leading one bit (byte z, bit b; None: all zero).  c stays unknown; k is p^c."""
    ps = []
    for i, c in enumerate(bs):
        p = [0] * 8 if z is None or i < z else symbyte('%s%d' % (name, i))
        if i == z: p = [p[j] if j < b else int(j == b) for j in range(8)]
        ps.append(p)
    first = []
    def ks(kid, i):
        if not first: first.append(kid)
        if kid == first[0] and i < len(bs): return B([x ^ y for x, y in zip(ps[i], bs[i])])
        k = symbyte('kx%d.%d.' % (kid, i))
        return B(k)
    m.hooks['ks'] = ks
    return ps
def leading(n, all_):
    """the cases of the leading one bit of n bytes"""
    yield (None, 0)
    for z in range(n):
        for b in (range(8) if all_ or z in (0, n - 5) else (0, 7) if z < 6 or z > n - 7 else (3,)): yield (z, b)
def setiv(m, how):
    """the configured initialisation vector"""
    if how is None: return
    if how == 'default': call(m, 'init'); return
    bs = [symbyte('iv%d' % i) for i in range(how)]
    call(m, 'initn', I.Ptr(buf(m, bs, 0), 0), how)
def msglens(ctx, prog):
    q = ctx.tier == 'quick'
    base = set(range(1, 76 if q else 200)) | {8 * n + d for n in (12, 15, 16, 17, 31, 32, 33, 48, 64, 100, 128) for d in (-7, 0, 1)}
    if not q: base |= {8 * n + d for n in range(25, 140) for d in (-7, 0)} | {8 * n for n in (255, 256, 257, 300)}
    cs, nf = constants(prog, ['w_aes::enc', 'w_aes::dec', 'w_aes::encC', 'w_aes::decC'], 1 << (15 if q else 16))
    long = set()
    for c in cs:
        if 64 < c <= 300: base |= {8 * (c + d) for d in (-5, -4, -1, 0, 1)} | {c, c + 1, c - 1}
        elif c > 300 and c != 0xffff and c != 1 << 16: long |= {c - 4, c - 1, c, c + 1, 2 * c + 1}
    if not q: long |= {1000, 4097, 8193}
    else: long |= {515}
    return sorted(b for b in base if b > 0), sorted(long), nf
KEYS_Q = (0, 1, 7, 8, 9, 15, 16, 63, 64, 65, 112, 113, 119, 120, 121, 126, 127, 128)

def A01(ctx):
    prog = prog_of(ctx)
    ls, long, nf = msglens(ctx, prog)
    ctx.extra['message_bit_lengths'] = len(ls) + len(long)
    def trip(kb, ml, iv, crc, sparse=False, order=None):
        e, d = ('encC', 'decC') if crc else ('enc', 'dec')
        m = machine(prog); setiv(m, iv); thin(m, 8 * ml if sparse else ml)
        k = int_of(kb, 'key')[0]
        v = msg(ml, sparse)
        kc, vc = cell(k), cell(v)
        c = m.val(call(m, e, kc, vc))
        r = m.val(call(m, d, kc, cell(c)))
        nm = '%s round trip of %d-%s message under a %d-bit key%s' % ('checksummed' if crc else 'plain', ml, 'byte' if sparse else 'bit', kb, '' if iv is None else ', iv %s' % iv)
        ctx.equal(m, nm, m.ap(asbits, r), asbits(v), where(prog, 'aes::AES::%s' % ('decryptCRC' if crc else 'decrypt')))
        ctx.obligation(nm + ': arguments unchanged')
        if not dd.same(kc.v, k) or not dd.same(vc.v, v): ctx.violation(nm + ': changes its arguments', where(prog, 'aes::AES::encrypt'))
        ctx.clean(m, nm, kinds=OOB, count=False); ctx.noexc(m, nm); ctx.absorb(m)
    keys = KEYS_Q if ctx.tier == 'quick' else range(129)
    jobs = []
    def chunked(name, items, f, n=4):
        items = list(items)
        for i in range(min(n, len(items) or 1)):
            jobs.append(('%s %d' % (name, i), (lambda sl: lambda: each(ctx, f, sl))(items[i::n])))
    chunked('messages', [(128, l, None, crc) for l in ls for crc in (False, True)], trip, 8)
    chunked('keys', [(k, l, None, crc) for k in keys for l in (1, 7, 8, 9, 40, 128, 129) for crc in (False, True)], trip, 8)
    chunked('ivs', [(128, l, iv, crc) for iv in ('default', 16, 17, 32) for l in (1, 8, 9, 130, 257) for crc in (False, True)], trip, 4)
    chunked('long', [(128, l, None, crc, True) for l in long for crc in (False, True)], trip, 6)
    def twice():
        for a, b in ((1, 9), (40, 40), (130, 7), (16, 300)):
            m = machine(prog); thin(m, b)
            k, v, k2, v2 = int_of(128, 'key')[0], int_of(a, 'msg')[0], int_of(121, 'key2')[0], int_of(b, 'msg2')[0]
            r = m.val(call(m, 'again', cell(k), cell(v), cell(k2), cell(v2)))
            nm = 'second use of an object, %d then %d bits' % (a, b)
            ctx.equal(m, nm, m.ap(asbits, r), asbits(v2), where(prog, 'aes::AES::decrypt')); ctx.noexc(m, nm); ctx.absorb(m)
    jobs.append(('twice', twice))
    def huge():
        # a message longer than the integer lengths of the library: refused, or the round trip holds
        for nb in ((1 << 34) + 8, (1 << 35) + 72):
            m = machine(prog)
            big = V(var('big', nb, 1 << 400, INF, name='big%d' % nb))
            m.hooks['bitlen'] = lambda m, x, nb=nb, big=big: nb if x is big or (isinstance(x, Poly) and dkey(x.d) == dkey(big.d)) else None
            call(m, 'enc', cell(int_of(128, 'key')[0]), cell(big))
            nm = 'message of %d bits' % nb
            thrown = False
            for g, kind, ty, loc in m.exc: thrown = OR(thrown, g)
            ctx.holds(m, nm + ': refused', thrown, where(prog, 'aes::AES::encrypt'), 'is accepted although its length does not fit the lengths the cipher library takes')
    jobs.append(('huge', huge))
    ctx.parallel(jobs)

def A02(ctx):
    prog = prog_of(ctx)
    q = ctx.tier == 'quick'
    w = where(prog, 'aes::AES::decryptCRC')
    def expected(pt):
        """the specification on the plaintext bytes: the number without its checksum when that is right"""
        z = next((i for i, p in enumerate(pt) if any(p)), None)
        body = [] if z is None else pt[z:]
        if len(body) < 5: return 0, False
        cr = spec_crc([0] * 32, body[:-4]); t = body[-4] + body[-3] + body[-2] + body[-1]
        return from_bytes(body[:-4]), B([x ^ y for x, y in zip(cr, t)])
    def one_(n, z, b, kb):
        m = machine(prog)
        k = int_of(kb, 'key')[0]; c, bs = int_of(8 * n + 1, 'ct%d_' % n)
        pt = ptpart(m, bs[1:], z, b)
        nm = 'decryptCRC of any ciphertext of %d bytes under a %d-bit key, decrypting to %s' % (n, kb, 'zero' if z is None else 'a %d-bit number' % (8 * (n - z) - 7 + b))
        r = m.val(call(m, 'decC', cell(k), cell(c)))
        ctx.noexc(m, nm); ctx.clean(m, nm, kinds=OOB, count=False); ctx.absorb(m)
        val, diff = expected(pt)
        if diff is not False: val = m.ap(lambda d: ite(NOT(m.bvnz(d)), val, 0), diff)
        ctx.equal(m, nm, m.ap(asbits, r), val, w)
        d = m.val(call(m, 'dec', cell(k), cell(c)))
        ctx.equal(m, nm + ': decrypt', m.ap(asbits, d), from_bytes(pt), where(prog, 'aes::AES::decrypt'))
    def short(nb):
        # whatever is not encrypt's output of at least five bytes decrypts to nothing
        m = machine(prog)
        k, c = int_of(128, 'key')[0], int_of(nb, 'cs%d_' % nb)[0]
        nm = 'decryptCRC of any %d-bit number' % nb
        r = m.val(call(m, 'decC', cell(k), cell(c)))
        ctx.noexc(m, nm); ctx.clean(m, nm, kinds=OOB, count=False); ctx.absorb(m)
        ctx.equal(m, nm + ': no ciphertext', r, 0, w)
    ns = list(range(5, 12 if q else 40)) + [16, 17, 21, 32, 33, 65] + ([] if q else [64, 66, 100, 129, 130, 200])
    runs = [(one_, (n, z, b, kb)) for n in sorted(set(ns)) for z, b in leading(n, n < (8 if q else 20)) for kb in ((128, 97) if n in (5, 6, 9) else (128,))]
    runs += [(short, (nb,)) for nb in sorted(set(range(0, 41)) | {x for x in range(42, 140 if q else 600) if x % 8 != 1})]
    def keyuse():
        def uses(kb, f):
                m = machine(prog)
                k, c = int_of(kb, 'key')[0], int_of(8 * 9 + 1, 'ct')[0]
                call(m, f, cell(k), cell(c))
                nm = '%s uses every key bit' % ('decryptCRC' if f == 'decC' else 'encryptCRC')
                ctx.obligation(nm)
                ks = [x for x in m.consts.get('ikeys', {})]
                if not ks: ctx.violation('%s: the cipher is never keyed' % nm, w)
                for kk in ks:
                    forms = [f for by in (kk[2] or ()) for f in by]
                    n = len(gf2_basis(tuple(f & ~1 for f in forms if f > 1)))
                    if n < kb - 1: ctx.violation('%s: only %d of %d unknown key bits reach the cipher: other keys decrypt to a value whose checksum verifies' % (nm, n, kb - 1), where(prog, 'aes::AES::' + ('decrypt' if f == 'decC' else 'encrypt')))
                    if kk[1] is None or 'ecb' in kk[1]: ctx.violation('%s: no stream mode' % nm, w)
        each(ctx, uses, [(128, 'decC'), (128, 'encC')])
        def alike(kb):
            m = machine(prog)
            k = int_of(kb, 'key')[0]
            call(m, 'encC', cell(k), cell(5)); call(m, 'decC', cell(k), cell(int_of(8 * 9 + 1, 'ct')[0]))
            ctx.obligation('encryption and decryption key the cipher alike with a %d-bit key' % kb)
            ks = {x[:3] for x in m.consts.get('ikeys', {})}
            if len(ks) != 1: ctx.violation('encryption and decryption with the same %d-bit key set up different cipher keys' % kb, w)
        each(ctx, alike, [(kb,) for kb in range(0, 129, 1 if not q else 8)])
    jobs = [('ciphertexts %d' % i, (lambda sl: lambda: each(ctx, lambda f, a: f(*a), sl))(runs[i::16])) for i in range(16)]
    jobs.append(('key', keyuse))
    ctx.parallel(jobs)

def op_jobs(ctx, prog, after, setup=None, extra=()):
    """every operation over lengths; after(m, name) judges the run"""
    q = ctx.tier == 'quick'
    ls, long, nf = msglens(ctx, prog)
    runs = []
    for l in [0] + ls:
        for f in ('enc', 'encC', 'dec', 'decC'):
            if f.startswith('dec') and l % 8 == 1 and l > 8:
                n = l // 8
                if l > 300:
                    # long texts: the leading one bits of the ciphertext and of the plaintext at chosen positions
                    for zc, bc in ((0, 7), (0, 0), (1, 3), (n - 1, 2), (None, 0)):
                        for z, b in ((0, 7), (1, 0), (n - 5, 4), (n - 4, 6), (None, 0)): runs.append((f, 128, l, False, z, b, (zc, bc)))
                    continue
                for z, b in leading(n, False):
                    if n < 12 or z is None or z < 2 or z > n - 7: runs.append((f, 128, l, False, z, b))
            else: runs.append((f, 128, l, False))
    for kb in (KEYS_Q if q else range(129)):
        for f in ('enc', 'encC'): runs.append((f, kb, 73, False))
        for f in ('dec', 'decC'): runs.append((f, kb, 73, False, 0, 7))
    for l in long:
        for f in ('enc', 'encC'): runs.append((f, 128, l, True))
        for f in ('dec', 'decC'): runs.append((f, 128, 8 * l + 1, True, 0, 7))
    runs += list(extra)
    def go(f, kb, l, sp, z=0, b=-1, lead=None):
        m = machine(prog)
        if setup: setup(m)
        k = int_of(kb, 'key')[0]
        nm = '%s of %d %s under a %d-bit key' % ({'enc': 'encrypt', 'dec': 'decrypt', 'encC': 'encryptCRC', 'decC': 'decryptCRC'}[f], l, 'bytes' if sp else 'bits', kb)
        if b >= 0:
            if sp:
                v = B(list(msg(l // 8, True).b) + [1]); thin(m, l)
            else:
                v, bs = int_of(l, 'msg%d_' % l)
                if lead:
                    zc, bc = lead
                    for i in range(1, len(bs)):
                        if zc is None or i - 1 < zc: bs[i] = [0] * 8
                        elif i - 1 == zc: bs[i] = [bs[i][j] if j < bc else int(j == bc) for j in range(8)]
                    v = from_bytes(bs); nm += ', first bit of its body %s' % (None if zc is None else 8 * zc + 7 - bc)
                ptpart(m, bs[1:], z, b)
                nm += ', decrypting to %s' % ('zero' if z is None else 'a %d-bit number' % (l - 1 - 8 * z - 7 + b))
        else:
            v = msg(l, sp); thin(m, 8 * l if sp else l)
        call(m, f, cell(k), cell(v))
        after(m, nm, f, kb, l); ctx.absorb(m)
    def neg(f, x):
        m = machine(prog)
        if setup: setup(m)
        call(m, f, cell(int_of(128, 'key')[0]), cell(x))
        after(m, '%s of %d' % (f, x), f, 128, x); ctx.absorb(m)
    runs = [(go, r) for r in runs] + [(neg, (f, x)) for f in ('enc', 'dec', 'encC', 'decC') for x in (-1, -255, -256, -(1 << 40) - 3, -(1 << 130))]
    return [('operations %d' % i, (lambda sl: lambda: each(ctx, lambda f, a: f(*a), sl))(runs[i::12])) for i in range(12)]

def A03(ctx):
    prog = prog_of(ctx)
    def after(m, nm, f, kb, l): ctx.clean(m, nm, kinds=OOB + ('use-after-free',))
    jobs = op_jobs(ctx, prog, after)
    cp = ctx.witness('crc.cpp', 'src/utilities/utilities.cpp')
    jobs += crc_jobs(ctx, cp, OOB + ('use-after-free',))
    jobs += crcint_jobs(ctx, cp, OOB + ('use-after-free',))
    def raw():
        for nb in list(range(0, 140)) + [255, 256, 257, 1000]:
            for size in (None, 0, 1, 4, 16, 17, 33, 128):
                m = I.Machine(cp, absfield=False)
                v, bs = int_of(nb)
                out = I.Cell(I.NULL)
                r = m.val(m.call_fn(cp.fnq('w_crc::' + ('getraw' if size is None else 'getrawn')), None, [I.Ptr(out), I.Cell(v)] + ([] if size is None else [size]), None))
                nm = 'getRawMpz of %d bits%s' % (nb, '' if size is None else ' into %d bytes' % size)
                w = where(cp, 'utils::getRawMpz')
                ctx.clean(m, nm, kinds=OOB)
                thrown = False
                for g, kind, ty, loc in m.exc: thrown = OR(thrown, g)
                fits = size is None or len(bs) <= size
                if size is not None:
                    ctx.holds(m, nm + (': accepted' if fits else ': refused'), NOT(thrown) if fits else thrown, w, 'is refused' if fits else 'is not refused')
                if not fits:
                    ctx.obligation(nm + ': refused before memory is acquired')
                    for a in m.allocs:
                        if not isF(AND(a['g'], NOT(a['freed']))): ctx.violation('%s: memory was acquired before the refusal' % nm, w)
                elif not isT(thrown):
                    want = len(bs) if size is None else size
                    ctx.equal(m, nm + ': length', r, want, w)
                    p = m.load(out)
                    if want:
                        for g, x in leaves(p, True):
                            if not isinstance(x, I.Ptr) or len(x.o.items) < want: ctx.violation('%s: the buffer is shorter than the returned length' % nm, w)
                        ctx.equal(m, nm + ': bytes', m.ap(asbits, m.val(m.call_fn(cp.fnq('w_crc::setraw'), None, [p, want], None))), asbits(v), w)
                        ctx.clean(m, nm, kinds=OOB, count=False)
                ctx.absorb(m)
    jobs.append(('raw bytes', raw))
    def keys():
        def bigkey(kb, f):
                m = machine(prog)
                v = int_of(57, 'msg')[0]
                call(m, f, cell(int_of(kb, 'key')[0]), cell(v))
                nm = '%s with a %d-bit key' % (f, kb); w = where(prog, 'aes::AES::encrypt' if f.startswith('enc') else 'aes::AES::decrypt')
                ctx.clean(m, nm, kinds=OOB)
                thrown = False
                for g, kind, ty, loc in m.exc: thrown = OR(thrown, g)
                ctx.holds(m, nm + ': refused', thrown, w, 'a key that does not fit is accepted')
                ctx.absorb(m)
        each(ctx, bigkey, [(kb, f) for kb in (129, 130, 135, 136, 137, 144, 160, 192, 199, 200, 256, 1000) for f in ('enc', 'dec', 'encC', 'decC')])
        def ivlen(n):
            m = machine(prog)
            setiv(m, n)
            thrown = False
            for g, kind, ty, loc in m.exc: thrown = OR(thrown, g)
            nm = 'initialisation vector of %d bytes' % n; w = where(prog, 'aes::AES::init')
            if n < 16: ctx.holds(m, nm + ': refused', thrown, w, 'is accepted')
            else: ctx.noexc(m, nm)
            m.g = True; m.gone = False
            for f in ('enc', 'dec'): call(m, f, cell(int_of(128, 'key')[0]), cell(int_of(73, 'msg')[0]))
            ctx.clean(m, nm, kinds=OOB); ctx.absorb(m)
        each(ctx, ivlen, [(n,) for n in range(24)])
    jobs.append(('keys and vectors', keys))
    def huge():
        for nb in ((1 << 31) - 1, (1 << 31) + 8, (1 << 32) + 80, (1 << 34) - 7, (1 << 34) + 8, (1 << 34) + 80, (1 << 35) + 8, (1 << 35) + 1):
            for f in ('enc', 'dec'):
                m = machine(prog)
                big = V(var('big', nb, 1 << 400, INF, name='big%d' % nb))
                m.hooks['bitlen'] = lambda m, x, nb=nb, big=big: nb if isinstance(x, Poly) and dkey(x.d) == dkey(big.d) else None
                call(m, f, cell(int_of(128, 'key')[0]), cell(big))
                nm = '%s of %d bits' % (f, nb)
                ctx.clean(m, nm, kinds=OOB)
                # lengths of at most INT_MAX bits may be worked on; a longer one has to be refused untouched
                if nb > (1 << 34):
                    thrown = False
                    for g, kind, ty, loc in m.exc: thrown = OR(thrown, g)
                    ctx.holds(m, nm + ': refused', thrown if f == 'enc' or nb % 8 == 1 else True, where(prog, 'aes::AES::encrypt' if f == 'enc' else 'aes::AES::decrypt'), 'is accepted although its length does not fit the lengths the cipher library takes')
                ctx.absorb(m)
    jobs.append(('huge', huge))
    ctx.parallel(jobs)

def leak(ctx, m, nm, w, own=()):
    ctx.obligation(nm + ': everything acquired is released')
    ab = False
    for g, kind, ty, loc in m.exc:
        if kind != 'throw': ab = OR(ab, g)
    for a in m.allocs:
        bad = AND(AND(a['g'], NOT(a['freed'])), NOT(ab))
        p = facts.possible(m, bad)
        if p is not None:
            ctx.violation('%s: %s is not released on a path that %s' % (nm, {'evp': 'the cipher context', 'malloc': 'a buffer'}.get(a['how'], 'an object'), 'throws' if not isF(AND(bad, m.gone)) else 'returns'), a['loc'], 'when ' + ctx.pathstr(p), key=('leak', a['loc']))
def A04(ctx):
    prog = prog_of(ctx)
    def after(m, nm, f, kb, l):
        ctx.clean(m, nm, kinds=OWN); leak(ctx, m, nm, None)
    ex = [(f, kb, 73, False) for f in ('enc', 'dec', 'encC', 'decC') for kb in (129, 136, 137, 200)]
    jobs = op_jobs(ctx, prog, after, extra=ex)
    # the cipher library may fail at any call
    def failing():
        def go(f, l):
                m = machine(prog); fl = []
                faults(m, fl)
                call(m, f, cell(int_of(128, 'key')[0]), cell(int_of(l, 'msg')[0]))
                after(m, '%s of %d bits, failing library calls' % (f, l), f, 128, l); ctx.absorb(m)
        each(ctx, go, [(f, l) for f in ('enc', 'dec', 'encC', 'decC') for l in (1, 9, 57, 97)])
    jobs.append(('failing', failing))
    cp = ctx.witness('crc.cpp', 'src/utilities/utilities.cpp')
    jobs += crcint_jobs(ctx, cp, OWN)
    ctx.parallel(jobs)

def faults(m, out):
    n = [0]
    def h(m, name):
        n[0] += 1
        l = m.lit('fail', (n[0], name), '%s fails (library call %d)' % (name, n[0]))
        out.append((name, AND(m.g, l), m.loc()))
        return l
    m.hooks['evp_fail'] = h
def A05(ctx):
    prog = prog_of(ctx)
    q = ctx.tier == 'quick'
    def body(f, l, kb, z=0, b=-1):
        m = machine(prog); fl = []
        faults(m, fl)
        v, bs = int_of(l, 'msg%d_' % l)
        if b >= 0:
            if l > 137: bs[1] = bs[1][:7] + [1]; v = from_bytes(bs)
            ptpart(m, bs[1:], z, b)
        call(m, f, cell(int_of(kb, 'key')[0]), cell(v))
        nm = '%s of %d bits' % ({'enc': 'encrypt', 'dec': 'decrypt', 'encC': 'encryptCRC', 'decC': 'decryptCRC'}[f], l)
        for name, g, loc in fl:
            ctx.obligation('%s: no value after %s fails' % (nm, name))
            p = facts.possible(m, AND(g, NOT(m.gone)))
            if p is not None: ctx.violation('%s: returns a value although %s failed' % (nm, name), loc, 'when ' + ctx.pathstr(p), key=('fail', name, loc))
        ctx.clean(m, nm, kinds=OOB + OWN)
        ctx.absorb(m)
        return len(fl)
    def go(ls):
        def run():
            n = [0]
            def one_(f, l, *zb): n[0] += body(f, l, 128, *zb)
            rs = []
            for l in ls:
                for f in ('enc', 'encC'): rs.append((f, l))
                for f in ('dec', 'decC'):
                    if l % 8 == 1 and l > 8:
                        k = l // 8
                        for z in {x for x in (None, 0, 1, k - 6, k - 5, k - 4, k - 1) if x is None or 0 <= x < k}: rs.append((f, l, z, 5))
                    else: rs.append((f, l))
            each(ctx, one_, rs)
            ctx.extra['library_calls'] = n[0]
        return run
    a, long, nf = msglens(ctx, prog)
    ls = sorted({1, 7, 8, 9, 32, 33, 40, 41, 64, 65, 73, 121, 128, 129, 137, 257, 1025} | (set(a) if not q else {x for x in a if x > 600}) | {8 * x + 1 for x in (5, 6, 15, 16, 17, 33)})
    ctx.parallel([('operations %d' % i, go(ls[i::8])) for i in range(8)])
