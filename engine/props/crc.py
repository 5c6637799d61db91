"""K01-K03: checksum tables against their polynomials, and the checksum code as
GF(2)-linear maps of unknown bytes."""
import re
from ..lab import *
from .. import interp as I
from .fields import *
from .points import newbit_once

POLY = {'CRC-32C': 0x82F63B78, 'CRC-32': 0xEDB88320}
def basic(poly):
    t = []
    for i in range(256):
        c = i
        for _ in range(8): c = (c >> 1) ^ (poly if c & 1 else 0)
        t.append(c)
    return t
def roles():
    out = {}
    for n, p in POLY.items():
        t0 = basic(p); t = t0
        for k in range(8):
            out[(n, k)] = t
            t = [(x >> 8) ^ t0[x & 255] for x in t]
    return out
def tables(prog):
    """static arrays of 256 32-bit words with a constant initialiser"""
    out = []
    for v in prog.vars.values():
        t = v['_T'][v['t']]
        if t['k'] != 'arr' or not v.get('init'): continue
        el = v['_T'][t['to']]
        if el['k'] != 'int' or el.get('bits') != 32: continue
        ini = v['init']
        if ini['k'] != 'ilist' or not all(x and x['k'] == 'int' for x in ini['c']): continue
        if len(ini['c']) < 128: continue
        out.append((v, [int(x['v']) & 0xffffffff for x in ini['c']], t['n']))
    return out
def K01(ctx):
    prog = ctx.witness('crc.cpp', 'src/utilities/utilities.cpp')
    R = roles()
    n = 0
    for v, raw, size in tables(prog):
        name = v['qn']; w = '%s (%s)' % (v['loc'].replace(REPO + '/', ''), name)
        hint = re.search(r'o(32|40|48|56|64|72|80|88)$', name)
        best = max(R, key=lambda r: sum(a == b for a, b in zip(raw, R[r])))
        if hint and any(sum(a == b for a, b in zip(raw, R[r])) > 128 for r in R): best = (best[0], (int(hint.group(1)) - 32) // 8)
        same = sum(a == b for a, b in zip(raw, R[best]))
        if same < 64 and not hint:
            continue       # not a checksum table
        n += 1
        ctx.obligation('%s has 256 entries' % name)
        if size != 256 or len(raw) != 256: ctx.violation('%s has %d entries (%d initialised) instead of 256' % (name, size, len(raw)), w)
        for i in range(256):
            ctx.obligation('%s[%d] is the %s remainder of byte %d followed by %d zero bytes' % (name, i, best[0], i, best[1]))
            a = raw[i] if i < len(raw) else 0
            if a != R[best][i]: ctx.violation('%s[%d] is 0x%08x but %s with slice offset %d defines 0x%08x' % (name, i, a, best[0], best[1], R[best][i]), w)
    ctx.extra['tables'] = n
    if n < 9: raise ir.ExtractError('only %d checksum tables found' % n)

# ---------------------------------------------------------------- linear specification
T0 = basic(POLY['CRC-32C'])
def step(state, byte):
    """one byte of the recurrence on symbolic bits (GF(2)-affine forms)"""
    x = [s ^ b for s, b in zip(state[:8], byte)]
    out = state[8:] + [0] * 8
    for i in range(8):
        for j in range(32):
            if T0[1 << i] >> j & 1: out[j] ^= x[i]
    return out
def spec_crc(state, data):
    for b in data: state = step(state, b)
    return state
def symbyte(name):
    fs = []
    for i in range(8):
        newbit_once('%s.%d' % (name, i))
        fs.append(1 << (BITIDX[var('bit', '%s.%d' % (name, i), 0, 1, bit=True).id] + 1))
    return fs
def symword(name):
    fs = []
    for i in range(4): fs += symbyte('%s%d' % (name, i))
    return fs

def folded(x):
    """value of an integer constant expression, None when it is none"""
    if not isinstance(x, dict): return None
    k = x.get('k')
    if k == 'int':
        try: return int(x['v'])
        except ValueError: return None
    if k in ('cast', 'paren') and len(x.get('c') or []) == 1: return folded(x['c'][0])
    if k == 'bin' and x.get('op') in ('+', '-', '*', '<<', '/', '%'):
        a, b = folded(x['c'][0]), folded(x['c'][1])
        if a is None or b is None or b < 0 or x['op'] in '/%' and not b or x['op'] == '<<' and b > 64: return None
        return {'+': a + b, '-': a - b, '*': a * b, '<<': a << min(b, 64), '/': a // b if b else 0, '%': a % b if b else 0}[x['op']]
    return None
def constants(prog, names, limit=1 << 16):
    """integer constants in the functions reachable from the given ones, and in the globals these use"""
    seen, out, gs = set(), set(), set()
    gv = {v['usr']: v for v in prog.vars.values() if v.get('usr')}
    todo = [f for f in prog.fns.values() if f['qn'] in names]
    def walk(x):
        if isinstance(x, list):
            for y in x: walk(y)
        elif isinstance(x, dict):
            v = folded(x)
            if v is not None and 0 <= v <= limit: out.add(v)
            for k in ('fn', 'usr'):
                u = x.get(k)
                if isinstance(u, str):
                    if u in prog.fns: todo.append(prog.fns[u])
                    elif u in gv and u not in gs:
                        gs.add(u)
                        ini = gv[u].get('init')
                        if ini and ini.get('k') != 'ilist': walk(ini)
            for k, y in x.items():
                if k != '_T' and isinstance(y, (dict, list)): walk(y)
    while todo:
        f = todo.pop()
        if f['usr'] in seen or 'body' not in f: continue
        seen.add(f['usr'])
        walk(f['body'])
    return out, len(seen)

def lengths(ctx, prog, names, base, cap):
    cs, nf = constants(prog, names, cap)
    out = set(base)
    for c in cs:
        if c > 64:
            for d in (-1, 0, 1): out.add(c + d)
    return sorted(x for x in out if 0 <= x <= cap)

def buf(m, data, align):
    v = I.Vec([m.cell(B(b)) for b in data], 'carray', {'k': 'int', 'bits': 8, 'signed': False, 's': 'unsigned char'}, True, None)
    v.align = align
    return v

def crc_jobs(ctx, prog, kinds):
    fns = [('calc', 'calculate_crc32c'), ('single', 'singletable_crc32c'), ('multi', 'multitable_crc32c')]
    fns = [(a, b) for a, b in fns if any(f['qn'] == b for f in prog.fns.values())]
    top = 300 if ctx.tier == 'quick' else 4200
    base = range(0, 45) if ctx.tier == 'quick' else range(0, 140)
    ls = lengths(ctx, prog, ['w_crc::calc'], list(base) + ([64, 100, 128, 255, 256, 257] if ctx.tier == 'quick' else [255, 256, 257, 511, 512, 1000, 1024, 4096]), top)
    def one(align):
        def go():
            for ln in ls:
                if ln > 300 and align not in (0, 3): continue
                for wf, qn in fns:
                    if qn == 'multitable_crc32c' and 0 < ln < 4: continue      # its caller never does that
                    if ln > 45 and qn != 'calculate_crc32c' and align: continue
                    m = I.Machine(prog, absfield=False)
                    data = [symbyte('b%d' % i) for i in range(ln)]
                    st = symword('c')
                    b = buf(m, data, align)
                    r = m.call_fn(prog.fnq('w_crc::' + wf), None, [B(st), I.Ptr(b, 0), ln], None)
                    nm = '%s of %d bytes at alignment %d' % (qn, ln, align); w = where(prog, qn)
                    if kinds is None:
                        ctx.equal(m, nm, m.val(r), B(spec_crc(st, data)), w)
                        ctx.clean(m, nm, kinds=('uninit', 'missing-return'), count=False)
                        ctx.obligation(nm + ': input bytes unchanged')
                        for i, c in enumerate(b.items):
                            if not dd.same(c.v, B(data[i])): ctx.violation(nm + ': changes its input', w)
                    else: ctx.clean(m, nm, kinds=kinds)
                    ctx.absorb(m)
        return go
    def large(ln):
        # past the range of 16-bit counters: all but the last bytes are zero, so that the state stays a constant until then
        def go():
            m = I.Machine(prog, absfield=False)
            m.loop_limit = 1 << 30; m.maxsteps = 1 << 40
            tail = 20
            data = [[0] * 8] * (ln - tail) + [symbyte('b%d' % i) for i in range(tail)]
            zero = I.Vec([m.cell(0) for b in data[:-tail]] + [m.cell(B(b)) for b in data[-tail:]], 'carray', {'k': 'int', 'bits': 8, 'signed': False, 's': 'unsigned char'}, True, None)
            zero.align = 0
            r = m.call_fn(prog.fnq('w_crc::calc'), None, [1, I.Ptr(zero, 0), ln], None)
            st = 1
            for _ in range(ln - tail): st = (st >> 8) ^ T0[st & 255]
            nm = 'calculate_crc32c of %d bytes, all but the last %d zero' % (ln, tail); w = where(prog, 'calculate_crc32c')
            if kinds is None:
                ctx.equal(m, nm, m.val(r), B(spec_crc([st >> i & 1 for i in range(32)], data[-tail:])), w)
                ctx.clean(m, nm, kinds=('uninit', 'missing-return'), count=False)
            else: ctx.clean(m, nm, kinds=kinds)
            ctx.absorb(m)
        return go
    big = (65535 + 21, 8 * 65536 + 29) if ctx.tier == 'quick' else (65535, 65536, 65535 + 21, 4 * 65536 + 25, 8 * 65536 + 29, 16 * 65536 + 50)
    return [('%d bytes' % n, large(n)) for n in reversed(big)] + [('alignment %d' % a, one(a)) for a in range(8)]
def K02(ctx):
    prog = ctx.witness('crc.cpp', 'src/utilities/utilities.cpp')
    prog.fnq('w_crc::calc')
    ctx.parallel(crc_jobs(ctx, prog, None))

# ---------------------------------------------------------------- integers
def int_of(nbits, name='n'):
    """an integer of exactly nbits bits with unknown lower bits; (value, big-endian bytes as bit lists)"""
    bits = []
    for i in range(nbits - 1):
        k = '%s.%d' % (name, i)
        newbit_once(k)
        bits.append(1 << (BITIDX[var('bit', k, 0, 1, bit=True).id] + 1))
    if nbits: bits.append(1)
    v = B(bits)
    pad = bits + [0] * (-len(bits) % 8)
    bs = [pad[i:i + 8] for i in range(0, len(pad), 8)]
    return v, bs[::-1]
def from_bytes(bs):
    out = []
    for b in reversed(bs): out += b
    return B(out)
def bitlens(ctx, prog, names):
    base = list(range(0, 75)) if ctx.tier == 'quick' else list(range(0, 330))
    extra = [x for n in (12, 16, 17, 32, 33, 64) for x in (8 * n - 7, 8 * n)] + [1024]
    cs, _ = constants(prog, names, 4096)
    for c in cs:
        if c > 8 and c < 600: extra += [8 * c - 8, 8 * c - 7, 8 * c, 8 * c + 1]
    return sorted(set(base + [x for x in extra if x > 0]))
def crcint_jobs(ctx, prog, kinds):
    ls = bitlens(ctx, prog, ['appendCRC', 'validateCRC', 'removeCRC'])
    def machine(): return I.Machine(prog, absfield=False)
    def chunk(lst):
        def go():
            for nb in lst:
                v, bs = int_of(nb)
                vc = v
                K = kinds
                if nb > 0:
                    m = machine()
                    a = m.val(m.call_fn(prog.fnq('w_crc::append'), None, [I.Cell(vc)], None))
                    c = spec_crc([0] * 32, bs)
                    tail = [c[i:i + 8] for i in range(0, 32, 8)]
                    nm = 'appendCRC of %d bits' % nb; w = where(prog, 'appendCRC')
                    if K is None:
                        ctx.equal(m, nm, m.ap(asbits, a), asbits(from_bytes(bs + tail)), w)
                        ctx.clean(m, nm, kinds=('uninit', 'missing-return'), count=False); ctx.noexc(m, nm)
                    else: ctx.clean(m, nm, kinds=K); leakcheck(ctx, m, nm, K)
                    ctx.absorb(m)
                    good = from_bytes(bs + tail)
                    m = machine()
                    r = m.val(m.call_fn(prog.fnq('w_crc::validate'), None, [I.Cell(good)], None))
                    if K is None: ctx.equal(m, 'validateCRC of a checksummed %d-bit integer' % nb, r, True, where(prog, 'validateCRC')); ctx.noexc(m, 'validateCRC')
                    m = machine()
                    r = m.val(m.call_fn(prog.fnq('w_crc::remove'), None, [I.Cell(good)], None))
                    if K is None: ctx.equal(m, 'removeCRC of a checksummed %d-bit integer' % nb, m.ap(asbits, r), asbits(v), where(prog, 'removeCRC')); ctx.noexc(m, 'removeCRC')
                    ctx.absorb(m)
                # any integer
                m = machine()
                r = m.val(m.call_fn(prog.fnq('w_crc::validate'), None, [I.Cell(vc)], None))
                nm = 'validateCRC of any %d-bit integer' % nb; w = where(prog, 'validateCRC')
                if len(bs) < 5: exp = False
                else:
                    c = spec_crc([0] * 32, bs[:-4])
                    t = bs[-4] + bs[-3] + bs[-2] + bs[-1]
                    exp = NOT(m.bvnz(B([x ^ y for x, y in zip(c, t)])))
                if K is None:
                    ctx.equal(m, nm, r, exp, w)
                    ctx.clean(m, nm, kinds=('uninit', 'missing-return'), count=False); ctx.noexc(m, nm)
                else: ctx.clean(m, nm, kinds=K); leakcheck(ctx, m, nm, K)
                ctx.absorb(m)
                m = machine()
                r = m.val(m.call_fn(prog.fnq('w_crc::remove'), None, [I.Cell(vc)], None))
                nm = 'removeCRC of any %d-bit integer' % nb; w = where(prog, 'removeCRC')
                if K is None:
                    if len(bs) >= 5: ctx.equal(m, nm, m.ap(asbits, r), asbits(from_bytes(bs[:-4])), w)
                    ctx.clean(m, nm, kinds=('uninit', 'missing-return'), count=False); ctx.noexc(m, nm)
                else: ctx.clean(m, nm, kinds=K); leakcheck(ctx, m, nm, K)
                ctx.absorb(m)
        return go
    n = 8
    return [('integers %d' % i, chunk(ls[i::n])) for i in range(n)]
def asbits(x):
    if isinstance(x, int): return x
    b = bits_of(x)
    return B(b) if b is not None else x
def leakcheck(ctx, m, nm, kinds):
    pass
def K03(ctx):
    prog = ctx.witness('crc.cpp', 'src/utilities/utilities.cpp')
    for f in ('append', 'validate', 'remove'): prog.fnq('w_crc::' + f)
    ctx.parallel(crcint_jobs(ctx, prog, None))
