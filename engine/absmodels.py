"""Summaries of repository layers used one level up: field operators (decided
by F01-F03), point operators and lifting (decided by E01-E05), AES with
checksum (decided by A01, A02).  They apply only where the machine was created
with the corresponding abstraction; anything not listed is analysed from its
source."""
from . import alg, dd
from .alg import *
from .dd import N, AND, OR, NOT, isF, isT, ap, ite, leaves, DC
from . import interp as I

def A(m, e, i): return m.val(m.ev(e['c'][i]))

# ------------------------------------------------------------ access
def fe_of(m, o):
    """abstract value (DD of FE) of a field object (DD of records)"""
    def g(r):
        if r is None: return DC
        if isinstance(r, I.Cell): r = m.load(r)
        if r.dead: m.event('use-after-free', 'reads %s' % r.dead)
        p = m.modulus(r.ty)
        if 'fe' in r.f: v = m.load(r.f['fe'])
        else: v = m.ap(lambda x: x if isinstance(x, I.Undef) else to_fe(p, x), m.load(r.f['value']))
        def h(x):
            if isinstance(x, I.Undef):
                m.event('uninit', 'reads an uninitialised field element'); return fconst(p, 0)
            return x
        return m.ap(h, v)
    return m.ap(g, o)
def mkfe(m, ty, v):
    o = m.new_obj(ty)
    if 'fe' in o.f: m.store(o.f['fe'], v)
    else:
        m.store(o.f['value'], m.ap(rep, v)); m.store(o.f['p'], m.modulus(ty))
    return o
def gp_of(m, o):
    def g(r):
        if r is None: return DC
        if r.dead: m.event('use-after-free', 'reads %s' % r.dead)
        v = m.load(r.f['gp'])
        def h(x):
            if isinstance(x, I.Undef):
                m.event('uninit', 'reads an uninitialised point'); return m.ginf()
            return x
        return m.ap(h, v)
    return m.ap(g, o)
def cv_of(m, o):
    return m.ap(lambda r: m.load(r.f['curve']) if r is not None else DC, o)
def isinf(m, gp): return m.ap(m.gpeq0, gp)
def mkpt(m, ty, gp, cv):
    o = m.new_obj(ty)
    m.store(o.f['gp'], gp); m.store(o.f['curve'], cv)
    return o
def use_curve(m, cv, g, what):
    """a finite point's curve object is consulted"""
    def ok(c): return isinstance(c, I.Ptr) and not getattr(c.o, 'dead', None)
    r = ap(g, ok, cv)
    if r is True or r is DC: return
    for gg, c in leaves(cv, g):
        if isinstance(c, I.Ptr):
            d = getattr(c.o, 'dead', None)
            if d: m.event('dangling-curve', '%s of a point whose curve object is %s' % (what, d), gg)
        elif isinstance(c, I.Undef): m.event('uninit', '%s of a point with an uninitialised curve pointer' % what, gg)
        else: m.event('null-deref', '%s of a finite point without curve' % what, gg)

def inv_fe(m, f):
    p = f.p
    if fzero(f):
        m.event('div-zero', 'inverse of zero'); return f
    if fisconst(f): return fconst(p, pow(fval(f), -1, p))
    z = m.feq0(f)
    if not isF(z): m.event('div-zero', 'inverse of a possibly zero element', AND(m.g, z))
    return finv(f)

# ------------------------------------------------------------ dispatch
def lookup_abs(m, e):
    qn = e['qn']
    if m.noabs and m.noabs(m, e): return None
    k = ('_a%d%d%d%d' % (m.absfield, m.abspoint, m.absaes, m.abscrc))
    h = e.get(k, 0)
    if h == 0:
        h = e[k] = find_abs(m, e, qn)
    return h

FIELD_CLS = 'field::PrimeField::'
def find_abs(m, e, qn):
    if m.absfield and qn.startswith(FIELD_CLS):
        f = FOPS.get(qn[len(FIELD_CLS):])
        n = qn[len(FIELD_CLS):]
        if f is not None:
            if n in ('operator+', 'operator-', 'operator*', 'operator/'): return lambda m, e: f_bin(m, e, n[-1])
            if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='): return lambda m, e: f_cas(m, e, n[-2])
            return f
        return None
    if m.absfield and qn.startswith('field::') and qn.endswith('operator='): 
        if 'obj' in e: return f_asg
    if m.abspoint and qn.startswith('ecc::Point::'):
        n = qn[len('ecc::Point::'):]
        return POPS.get(n)
    if m.abspoint and qn.startswith('ecc::Point_') and qn.endswith('::operator='): return p_asg
    if m.abspoint and qn.startswith('ecc::Curve::'):
        return COPS.get(qn[len('ecc::Curve::'):])
    if m.abspoint and qn in ('ecc::operator==',): return c_eq
    if qn in ('field::operator<<', 'ecc::operator<<'): return m.models.stream_out
    if m.abscrc and qn in CRCOPS: return CRCOPS[qn]
    if m.absaes and qn.startswith('aes::AES::'):
        return AOPS.get(qn[len('aes::AES::'):])
    return None

# ------------------------------------------------------------ field
def fobj(m, e): return m.base_loc(e['obj'], e.get('arrow'))
def operand(m, e, i, p):
    """field class of an operand that is an element or an integer"""
    v = m.ev(e['c'][i])
    def g(x):
        if isinstance(x, I.Cell): x = m.load(x)
        if isinstance(x, I.Rec): return fe_of(m, x)
        if isinstance(x, N): return m.ap(g, x)
        if isinstance(x, I.Undef):
            m.event('uninit', 'uses an uninitialised integer'); return fconst(p, 0)
        return to_fe(p, m.toI(x) if not isinstance(x, bool) else int(x))
    return m.ap(g, v)
def rty(m, e):
    t = e['_rty'] if '_rty' in e else m.fr.T[e['t']]
    while t['k'] in ('ref', 'rref'): t = t['_T'][t['to']]
    return t
def one_ty(m, o):
    for g, x in leaves(o, m.g):
        if x is not None: return x.ty
def f_bin(m, e, op):
    o = fobj(m, e); a = fe_of(m, o)
    if not e['c']:
        if op == '-': return mkfe(m, rty(m, e), m.ap(fneg, a))
        return mkfe(m, rty(m, e), a)
    p = m.modulus(one_ty(m, o))
    b = operand(m, e, 0, p)
    return mkfe(m, rty(m, e), fop(m, op, a, b))
def fop(m, op, a, b):
    if op == '+': return m.ap(fadd, a, b)
    if op == '-': return m.ap(fsub, a, b)
    if op == '*': return m.ap(fmul, a, b)
    return m.ap(lambda x, y: fmul(x, inv_fe(m, y)), a, b)
def f_cas(m, e, op):
    o = fobj(m, e); a = fe_of(m, o)
    p = m.modulus(one_ty(m, o))
    b = operand(m, e, 0, p)
    put_fe(m, o, fop(m, op, a, b))
    return o
def put_fe(m, o, v):
    for g, r in leaves(o, m.g):
        if r is None: continue
        g0 = m.g; m.g = g; m.store(r.f['fe'], v); m.g = g0
def f_asg(m, e):
    o = fobj(m, e)
    p = m.modulus(one_ty(m, o))
    put_fe(m, o, operand(m, e, 0, p))
    return o
def f_eq(m, e):
    o = fobj(m, e); a = fe_of(m, o); b = operand(m, e, 0, m.modulus(one_ty(m, o)))
    return m.ap(lambda x, y: m.feq0(fsub(x, y)), a, b)
def f_raw(m, e):
    return m.cell(m.ap(rep, fe_of(m, fobj(m, e))))
def f_field(m, e):
    o = fobj(m, e)
    return m.cell(m.ap(lambda r: m.modulus(r.ty), o))
def f_inv(m, e): return mkfe(m, rty(m, e), m.ap(lambda x: inv_fe(m, x), fe_of(m, fobj(m, e))))
def f_sq(m, e): return mkfe(m, rty(m, e), m.ap(lambda x: fmul(x, x), fe_of(m, fobj(m, e))))
FOPS = {'operator+': 1, 'operator-': 1, 'operator*': 1, 'operator/': 1, 'operator+=': 1, 'operator-=': 1, 'operator*=': 1, 'operator/=': 1,
        'operator=': f_asg, 'operator==': f_eq, 'getRawValue': f_raw, 'getField': f_field, 'invert': f_inv, 'square': f_sq}

# ------------------------------------------------------------ points
def parg(m, e, i=0): return m.ev(e['c'][i])
def p_add(m, a, ca, b, cb, what):
    """group addition and the curve pointer of the result"""
    ia, ib = isinf(m, a), isinf(m, b)
    both = AND(m.g, AND(NOT(ia), NOT(ib)))
    if not isF(both): use_curve(m, ca, both, what)
    r = m.ap(gadd, a, b)
    if isF(ia) and isF(ib):
        ir = isinf(m, r)
        return r, (ca if isF(ir) else ite(ir, I.NULL, ca))
    ir = isinf(m, r)
    return r, ite(ia, cb, ite(ib, ca, ite(ir, I.NULL, ca)))
def p_bin(op):
    def h(m, e):
        o = fobj(m, e)
        if not e['c']:
            a, ca = gp_of(m, o), cv_of(m, o)
            return mkpt(m, rty(m, e), m.ap(gneg, a) if op == '-' else a, ca)
        q = parg(m, e)
        a, ca, b, cb = gp_of(m, o), cv_of(m, o), gp_of(m, q), cv_of(m, q)
        if op == '-': b = m.ap(gneg, b)
        r, c = p_add(m, a, ca, b, cb, 'addition')
        return mkpt(m, rty(m, e), r, c)
    return h
def put_pt(m, o, gp, cv):
    for g, r in leaves(o, m.g):
        if r is None: continue
        g0 = m.g; m.g = g; m.store(r.f['gp'], gp); m.store(r.f['curve'], cv); m.g = g0
def p_cas(op):
    def h(m, e):
        o = fobj(m, e); q = parg(m, e)
        a, ca, b, cb = gp_of(m, o), cv_of(m, o), gp_of(m, q), cv_of(m, q)
        if op == '-': b = m.ap(gneg, b)
        r, c = p_add(m, a, ca, b, cb, 'addition')
        put_pt(m, o, r, c)
        return o
    return h
def scalar(m, e, o):
    t = one_ty(m, o)
    n = group_order(m, t)
    return operand(m, e, 0, n)
def group_order(m, pt):
    """order of the group of a point type: modulus of its scalar field"""
    for b in [pt] + m.prog.bases(pt):
        for x in m.prog.bases(b) + [b]:
            if x.get('qn') == 'ecc::Point' and x.get('args'):
                return m.modulus(x['_T'][x['args'][3]])
    m.unsup('scalar field of %s' % pt['s'])
def p_smul(m, o, k):
    a, ca = gp_of(m, o), cv_of(m, o)
    ia = isinf(m, a)
    if not isT(ia): use_curve(m, ca, AND(m.g, NOT(ia)), 'scalar multiplication')
    r = m.ap(gmul, a, k)
    ir = isinf(m, r)
    c = ca if isF(ir) else ite(ir, ite(ia, ca, I.NULL), ca)
    return r, c
def p_mul(m, e):
    o = fobj(m, e)
    r, c = p_smul(m, o, scalar(m, e, o))
    return mkpt(m, rty(m, e), r, c)
def p_mulas(m, e):
    o = fobj(m, e)
    r, c = p_smul(m, o, scalar(m, e, o))
    put_pt(m, o, r, c)
    return o
def p_dbl(m, e):
    o = fobj(m, e); a, ca = gp_of(m, o), cv_of(m, o)
    r, c = p_add(m, a, ca, a, ca, 'doubling')
    return mkpt(m, rty(m, e), r, c)
def p_asg(m, e):
    o = fobj(m, e); q = parg(m, e)
    put_pt(m, o, gp_of(m, q), cv_of(m, q))
    return o
def p_eq(m, e):
    o = fobj(m, e); q = parg(m, e)
    a, b = gp_of(m, o), gp_of(m, q)
    ia, ib = isinf(m, a), isinf(m, b)
    both = AND(m.g, AND(NOT(ia), NOT(ib)))
    if not isF(both):
        use_curve(m, cv_of(m, o), both, 'comparison'); use_curve(m, cv_of(m, q), both, 'comparison')
    return m.ap(lambda x, y: m.gpeq0(gadd(x, gneg(y))), a, b)
def p_isinf(m, e): return isinf(m, gp_of(m, fobj(m, e)))
def p_valid(m, e):
    o = fobj(m, e); a = gp_of(m, o); c = cv_of(m, o)
    def f(x):
        r = True
        for b in x.d:
            if BASES[b].kind == 'raw': r = AND(r, m.lit('valid', BASES[b], 'valid(%s)' % BASES[b].name))
        return r
    ok = m.ap(f, a)
    has = m.ap(lambda p: isinstance(p, I.Ptr), c)
    return OR(isinf(m, a), AND(ok, has))
def pfield_ty(m, pt):
    for b in [pt] + m.prog.bases(pt):
        for x in m.prog.bases(b) + [b]:
            if x.get('qn') == 'ecc::Point' and x.get('args'): return x['_T'][x['args'][2]]
    m.unsup('coordinate field of %s' % pt['s'])
def xof(m, p, x):
    """x-coordinate class of a group element"""
    if gzero(x): return fconst(p, 0)
    if len(x.d) == 1:
        b = next(iter(x.d)); c = x.d[b]; B_ = BASES[b]
        if B_.kind == 'lift' and fisconst(c) and fval(c) in (1, x.n - 1): return B_.data
        if B_.kind == 'const' and fisconst(c) and fval(c) in (1, x.n - 1): return fconst(p, B_.data[0])
    # canonical up to sign
    k = gneg(x)
    key = x if x.k <= k.k else k
    return fvar(p, var('xof', key, 0, p - 1, name='x(%r)' % (key,)))
def unbit(x, limit=10):
    """decide the 0/1 unknowns that select between points"""
    bits = sorted({v for f in x.d.values() for v in fvars(f) if VARS[v].bit}, key=lambda v: dd.atom('bit', VARS[v], VARS[v].name).id)
    if not bits or len(bits) > limit: return x
    def rec(x, bs):
        if not bs: return x
        v = bs[0]
        def at(c): return G(x.n, {b: fsubst(f, {v: fconst(x.n, c)}) for b, f in x.d.items()})
        h, l = rec(at(1), bs[1:]), rec(at(0), bs[1:])
        if dd.same(h, l): return h
        return Sel(VARS[v], h, l)
    return rec(x, bits)
class Sel:
    __slots__ = ('v', 'h', 'l')
    def __init__(s, v, h, l): s.v = v; s.h = h; s.l = l
def each(f, x):
    """apply f to the points selected by 0/1 unknowns"""
    def rec(y):
        if isinstance(y, Sel): return ite(dd.lit(dd.atom('bit', y.v, y.v.name)), rec(y.h), rec(y.l))
        return f(y)
    return rec(unbit(x))
def p_getx(m, e):
    o = fobj(m, e); t = rty(m, e); p = m.modulus(t)
    return mkfe(m, t, m.ap(lambda x: each(lambda y: xof(m, p, y), x), gp_of(m, o)))
def p_gety(m, e):
    o = fobj(m, e); t = rty(m, e); p = m.modulus(t)
    return mkfe(m, t, m.ap(lambda x: each(lambda y: yof(p, y), x), gp_of(m, o)))
def yof(p, x):
    k = gneg(x)
    key, neg = (x, False) if x.k <= k.k else (k, True)
    f = fvar(p, var('yof', key, 0, p - 1, name='y(%r)' % (key,)))
    return fneg(f) if neg else f
def p_encx(m, e):
    o = fobj(m, e); a = gp_of(m, o)
    use_curve(m, cv_of(m, o), m.g, 'compression')
    def f(x):
        if gzero(x): m.event('encode-inf', 'compresses the point at infinity')
        return V(var('enc', x, 1, (1 << 257) - 1, name='enc(%r)' % (x,)))
    return m.cell(m.ap(lambda x: each(f, x), a))
def p_setencx(m, e):
    o = fobj(m, e); v = A(m, e, 0)
    c = cv_of(m, o)
    use_curve(m, c, m.g, 'decompression')
    t = one_ty(m, o); n = group_order(m, t)
    def f(x):
        if isinstance(x, Poly) and len(x.d) == 1:
            (k, co), = x.d.items()
            if co == 1 and len(k) == 1 and VARS[k[0]].kind == 'enc': return VARS[k[0]].data
        return gbase(n, base('dec', x, 'dec(%r)' % (x,)))
    put_pt(m, o, m.ap(f, v), c)
    return None
POPS = {'operator+': p_bin('+'), 'operator-': p_bin('-'), 'operator+=': p_cas('+'), 'operator-=': p_cas('-'),
        'operator*': p_mul, 'operator*=': p_mulas, 'pointDouble': p_dbl, 'operator=': p_asg, 'operator==': p_eq,
        'isInf': p_isinf, 'isValid': p_valid, 'getX': p_getx, 'getY': p_gety, 'getEncodedX': p_encx, 'setEncodedX': p_setencx}

def c_lift(neg):
    def h(m, e):
        o = fobj(m, e); t = rty(m, e)
        ft = pfield_ty(m, t); p = m.modulus(ft)
        x = operand(m, e, 0, p)
        n = group_order(m, t)
        q = m.hooks.get('lift')
        def f(x):
            g = gbase(n, base('lift', x, 'lift(%r)' % (x,)))
            if neg: g = gneg(g)
            ok = q(m, x) if q else m.lit('onc', x, 'on-curve(%r)' % (x,))
            return ite(ok, g, m.ginf(n))
        v = m.ap(f, x)
        cp = m.ap(lambda r: I.Ptr(r), o)
        c = m.ap(lambda g: I.NULL if gzero(g) else cp, v)
        return mkpt(m, t, v, c)
    return h
COPS = {'evaluateP': c_lift(False), 'evaluatePneg': c_lift(True)}
def c_eq(m, e):
    m.ev(e['c'][0]); m.ev(e['c'][1])
    return True

# ------------------------------------------------------------ AES with checksum
def aes_key(m, e, i):
    v = A(m, e, i)
    return v
def a_enc(crc):
    def h(m, e):
        k, x = A(m, e, 0), A(m, e, 1)
        m.enclog.append((m.g, k, x, m.loc()))
        def f(k, x):
            if isinstance(x, int) and crc and x <= 0: m.event('enc-range', 'encrypts a message outside the supported range')
            lo, hi = iv(x)
            n = INF if hi == INF else ((hi.bit_length() + 7) // 8 + 4 * crc) * 8
            return V(var('ENC' if crc else 'ENC0', (k, x), 1, INF if n == INF else (2 << n) - 1, name='ENC(%r, %r)' % (k, x)))
        return m.cell(m.ap(f, k, x))
    return h
def a_dec(crc):
    def h(m, e):
        k, c = A(m, e, 0), A(m, e, 1)
        def f(k, c):
            if isinstance(c, Poly) and len(c.d) == 1:
                (mo, co), = c.d.items()
                if co == 1 and len(mo) == 1 and VARS[mo[0]].kind == ('ENC' if crc else 'ENC0'):
                    k2, x = VARS[mo[0]].data
                    if dd.same(k, k2): return x
            if crc: return 0
            return V(var('DEC', (k, c), 0, INF, name='DEC(%r, %r)' % (k, c)))
        return m.cell(m.ap(f, k, c))
    return h
# ------------------------------------------------------------ checksums on integers (decided by K03)
def single(x, kind):
    if isinstance(x, Poly) and len(x.d) == 1:
        (mo, co), = x.d.items()
        if co == 1 and len(mo) == 1 and VARS[mo[0]].kind == kind: return VARS[mo[0]].data
def crc_append(m, e):
    def f(x):
        lo, hi = iv(x)
        if lo <= 0: m.event('enc-range', 'appends a checksum to an integer that may not be positive', AND(m.g, OR(m.ilt0(x), m.ieq0(x))))
        return V(var('CRCAPP', x, max(lo, 0) << 32 if lo != -INF else 0, INF if hi == INF else (hi + 1 << 32) - 1, name='crc(%r)' % (x,)))
    return m.cell(m.ap(f, A(m, e, 0)))
def crc_valid(m, e):
    def f(x):
        if single(x, 'CRCAPP') is not None: return True
        if isinstance(x, int): return False if x < 1 << 32 else m.lit('crcok', x, 'checksum of %r' % (x,))
        return m.lit('crcok', x, 'checksum of %r' % (x,))
    return m.ap(f, A(m, e, 0))
def crc_remove(m, e):
    def f(x):
        y = single(x, 'CRCAPP')
        if y is not None: return y
        lo, hi = iv(x)
        return V(var('CRCREM', x, 0, INF if hi == INF else max(hi, 0) >> 32, name='strip(%r)' % (x,)))
    return m.cell(m.ap(f, A(m, e, 0)))
CRCOPS = {'appendCRC': crc_append, 'validateCRC': crc_valid, 'removeCRC': crc_remove}
AOPS = {'encrypt': a_enc(False), 'encryptCRC': a_enc(True), 'decrypt': a_dec(False), 'decryptCRC': a_dec(True)}

# ------------------------------------------------------------ constructors
def abs_ctor(m, o, e, t):
    c = e['c']
    if m.absfield and m.is_field(t):
        p = m.modulus(t)
        if e.get('inhfwd'):
            m.unsup('inherited field constructor')
        if not c: m.store(o.f['fe'], fconst(p, 0)); return
        m.store(o.f['fe'], operand(m, e, 0, p))
        return
    # points
    if e.get('inhfwd'): args = [m.fr.locals[q['id']] for q in m.fr.fn['params']]
    else: args = [m.ev(x) for x in c]
    if not args:
        m.store(o.f['gp'], m.ginf(group_order(m, t))); m.store(o.f['curve'], I.NULL); return
    if len(args) == 1:
        m.store(o.f['gp'], gp_of(m, args[0])); m.store(o.f['curve'], cv_of(m, args[0])); return
    n = group_order(m, t)
    p = m.modulus(pfield_ty(m, t))
    def co(v):
        def g(x):
            if isinstance(x, I.Cell): x = m.load(x)
            if isinstance(x, I.Rec): return fe_of(m, x)
            if isinstance(x, (I.Vec, I.Ptr)):
                b = m.models.concrete(m, m.val(args[3]), 'base') if len(args) > 3 else 10
                return fconst(p, m.models.parse_int(m.models.cstring(m, x), b) or 0)
            if isinstance(x, N): return m.ap(g, x)
            return to_fe(p, m.toI(x))
        return m.ap(g, v)
    x, y, cv = co(args[0]), co(args[1]), m.val(args[2])
    def mk(x, y):
        if fisconst(x) and fisconst(y):
            return gbase(n, base('const', (fval(x), fval(y)), 'G' if m.consts.setdefault('G', (fval(x), fval(y))) == (fval(x), fval(y)) else None))
        # coordinates of a known group element
        nx = list(x.num)
        if len(nx) == 1 and len(nx[0]) == 1 and x.num[nx[0]] == 1 and VARS[nx[0][0]].kind == 'xof':
            g = VARS[nx[0][0]].data
            for h in (g, gneg(g)):
                if feq(yof(p, h), y): return h
        for b in list(BASES):
            if b.kind == 'lift' and feq(b.data, x):
                g = gbase(n, b)
                for h in (g, gneg(g)):
                    if feq(yof(p, h), y): return h
        m.unsup('point from coordinates %r, %r' % (x, y))
    m.store(o.f['gp'], m.ap(mk, x, y)); m.store(o.f['curve'], cv)
