"""Algebraic normal forms: integer polynomials over ranged unknowns, rational
functions over GF(p), linear combinations of points, GF(2)-affine bit vectors."""
import math

# ---------------------------------------------------------------- unknowns
class Var:
    __slots__ = ('id', 'kind', 'data', 'lo', 'hi', 'bit', 'name', 'deps')
    def __repr__(self): return self.name

VARS = []
_VKEY = {}

def var(kind, data, lo, hi, name=None, bit=False):
    k = (kind, data)
    v = _VKEY.get(k)
    if v is None:
        v = Var(); v.id = len(VARS); v.kind = kind; v.data = data; v.lo = lo; v.hi = hi; v.bit = bit
        v.name = name or '%s#%d' % (kind, v.id)
        VARS.append(v); _VKEY[k] = v
    return v

def reset():
    del VARS[:]; _VKEY.clear(); _PI.clear(); _FI.clear(); _GI.clear(); _BI.clear(); del BASES[:]; _BKEY.clear(); del BITS[:]; BITIDX.clear()

# ---------------------------------------------------------------- raw polys: dict mono -> coef
def mmul(a, b):
    if not a: return b
    if not b: return a
    r = sorted(a + b)
    out = []; last = -1
    for x in r:
        if x == last and VARS[x].bit: continue
        out.append(x); last = x
    return tuple(out)

def dadd(a, b, m=0, s=1):
    if len(a) < len(b) and s == 1: a, b = b, a
    r = dict(a)
    for k, c in b.items():
        n = r.get(k, 0) + s * c
        if m: n %= m
        if n: r[k] = n
        else: r.pop(k, None)
    return r

def dmul(a, b, m=0):
    r = {}
    for k1, c1 in a.items():
        for k2, c2 in b.items():
            k = mmul(k1, k2)
            r[k] = r.get(k, 0) + c1 * c2
    if m: return {k: c % m for k, c in r.items() if c % m}
    return {k: c for k, c in r.items() if c}

def dmod(a, m):
    return {k: c % m for k, c in a.items() if c % m}

def dvars(a):
    s = set()
    for k in a: s.update(k)
    return s

def dkey(a): return tuple(sorted(a.items()))

def dsubst(a, sub, m=0):
    """substitute raw polys for variables"""
    if not any(v in sub for k in a for v in k): return a
    r = {}
    for k, c in a.items():
        t = {(): c}
        rest = []
        for v in k:
            if v in sub: t = dmul(t, sub[v], m)
            else: rest.append(v)
        if rest: t = dmul(t, {tuple(rest): 1}, m)
        r = dadd(r, t, m)
    return r

def dstr(a, m=0):
    if not a: return '0'
    out = []
    for k, c in sorted(a.items(), key=lambda x: (-len(x[0]), x[0])):
        if m and c > m // 2: c -= m
        n = '*'.join(VARS[v].name for v in k)
        cs = str(c) if abs(c) < 1 << 40 else ('2^%d' % (c.bit_length() - 1) if c & (c - 1) == 0 and c > 0 else hex(c)[:12] + '..')
        out.append(n if c == 1 and n else ('-' + n if c == -1 and n else (cs + ('*' + n if n else ''))))
        if len(out) > 12: out.append('...'); break
    return ' + '.join(out)

# ---------------------------------------------------------------- integers
_PI = {}
class Poly:
    __slots__ = ('d', 'iv', 'k', '__weakref__')
    def __repr__(self): return dstr(self.d)

def P(d):
    """int or interned Poly from a raw poly"""
    if not d: return 0
    if len(d) == 1 and () in d: return d[()]
    k = dkey(d)
    r = _PI.get(k)
    if r is None:
        r = Poly(); r.d = d; r.iv = None; r.k = k; _PI[k] = r
    return r

def V(v): return P({(v.id,): 1})
def raw(a):
    if isinstance(a, Poly): return a.d
    return {(): int(a)} if a else {}
def isint(a): return isinstance(a, int)
def isI(a): return isinstance(a, (int, Poly))

def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    return P(dadd(raw(a), raw(b)))
def isub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    return P(dadd(raw(a), raw(b), 0, -1))
def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    return P(dmul(raw(a), raw(b)))
def ineg(a):
    if isinstance(a, int): return -a
    return P({k: -c for k, c in a.d.items()})

INF = float('inf')
def _mulb(a, b):
    if a == 0 or b == 0: return 0
    return a * b
def ivd(d, rng=None):
    lo = hi = 0
    for k, c in d.items():
        l, h = 1, 1
        i = 0
        while i < len(k):
            v = k[i]; n = 1
            while i + n < len(k) and k[i + n] == v: n += 1
            i += n
            if rng and v in rng: vl, vh = rng[v]
            else: vl, vh = VARS[v].lo, VARS[v].hi
            if n % 2 == 0:
                m = max(_mulb(vl, vl), _mulb(vh, vh)) if n == 2 else max(abs(vl), abs(vh)) ** n
                vl2 = 0 if vl <= 0 <= vh else min(abs(vl), abs(vh)) ** n
                vl, vh = vl2, m
            elif n > 1: vl, vh = vl ** n, vh ** n
            p = (_mulb(l, vl), _mulb(l, vh), _mulb(h, vl), _mulb(h, vh))
            l, h = min(p), max(p)
        if c > 0: lo += _mulb(c, l); hi += _mulb(c, h)
        else: lo += _mulb(c, h); hi += _mulb(c, l)
    return lo, hi

def iv(a):
    if isinstance(a, int): return a, a
    if a.iv is None: a.iv = ivd(a.d)
    return a.iv

# ---------------------------------------------------------------- field elements
_FI = {}
class FE:
    """num/den modulo p (raw polys with coefficients in [0,p))"""
    __slots__ = ('p', 'num', 'den', 'k')
    def __repr__(self):
        if self.den == {(): 1}: return dstr(self.num, self.p)
        return '(%s)/(%s)' % (dstr(self.num, self.p), dstr(self.den, self.p))

ONE = {(): 1}

def _gcdmono(ds):
    g = None
    for d in ds:
        for k in d:
            if g is None: g = list(k)
            else:
                n = []; kk = list(k)
                for x in g:
                    if x in kk: kk.remove(x); n.append(x)
                g = n
            if not g: return ()
    return tuple(g or ())

def _divmono(d, m):
    r = {}
    for k, c in d.items():
        kk = list(k)
        for x in m: kk.remove(x)
        r[tuple(kk)] = c
    return r

def ddiv_exact(a, b, p):
    """a/b over GF(p) when exact (multivariate, lex order on sorted monos), else None"""
    if not b: return None
    def key(k): return (len(k), k)
    lb = max(b, key=key); cb = b[lb]; ib = pow(cb, -1, p)
    q = {}
    r = dict(a)
    steps = 0
    while r:
        lr = max(r, key=key)
        kk = list(lr); ok = True
        for x in lb:
            if x in kk: kk.remove(x)
            else: ok = False; break
        if not ok: return None
        m = tuple(kk); c = r[lr] * ib % p
        q[m] = c
        r = dadd(r, dmul({m: c}, b, p), p, -1)
        steps += 1
        if steps > 400 or lr in r: return None
    return q

def F(p, num, den=None):
    den = den or ONE
    if not num: den = ONE
    if den != ONE:
        if len(den) == 1 and () in den:
            i = pow(den[()], -1, p); num = {k: c * i % p for k, c in num.items()}; den = ONE
        else:
            g = _gcdmono((num, den))
            if g and not any(VARS[x].bit for x in g): num, den = _divmono(num, g), _divmono(den, g)
            if len(den) == 1 and () in den:
                i = pow(den[()], -1, p); num = {k: c * i % p for k, c in num.items()}; den = ONE
            else:
                if len(num) <= 200 and len(den) <= 60:
                    q = ddiv_exact(num, den, p)
                    if q is not None and not any(VARS[x].bit for x in dvars(den)): num, den = q, ONE
                if den != ONE:
                    lead = den[max(den, key=lambda k: (len(k), k))]
                    if lead != 1:
                        i = pow(lead, -1, p)
                        num = {k: c * i % p for k, c in num.items()}; den = {k: c * i % p for k, c in den.items()}
    k = (p, dkey(num), dkey(den))
    r = _FI.get(k)
    if r is None:
        r = FE(); r.p = p; r.num = num; r.den = den; r.k = k; _FI[k] = r
    return r

def fconst(p, c):
    c %= p
    return F(p, {(): c} if c else {})
def fvar(p, v): return F(p, {(v.id,): 1})
def fadd(a, b):
    p = a.p
    if a.den == b.den: return F(p, dadd(a.num, b.num, p), a.den)
    return F(p, dadd(dmul(a.num, b.den, p), dmul(b.num, a.den, p), p), dmul(a.den, b.den, p))
def fneg(a): return F(a.p, {k: a.p - c for k, c in a.num.items()}, a.den)
def fsub(a, b): return fadd(a, fneg(b))
def fmul(a, b): return F(a.p, dmul(a.num, b.num, a.p), dmul(a.den, b.den, a.p))
def finv(a): return F(a.p, a.den, a.num)
def fpow(a, n):
    r = fconst(a.p, 1)
    while n:
        if n & 1: r = fmul(r, a)
        a = fmul(a, a); n >>= 1
    return r
def fzero(a): return not a.num
def feq(a, b):
    if a is b: return True
    if a.p != b.p: return False
    return not dadd(dmul(a.num, b.den, a.p), dmul(b.num, a.den, a.p), a.p, -1)
def fisconst(a): return a.den == ONE and (not a.num or (len(a.num) == 1 and () in a.num))
def fval(a): return a.num.get((), 0)
def fvars(a): return dvars(a.num) | dvars(a.den)

def fsubst(a, sub):
    """sub: var id -> FE (same p)"""
    if not any(v in sub for v in fvars(a)): return a
    def ev(d):
        r = fconst(a.p, 0)
        for k, c in d.items():
            t = fconst(a.p, c); rest = []
            for v in k:
                if v in sub: t = fmul(t, sub[v])
                else: rest.append(v)
            if rest: t = fmul(t, F(a.p, {tuple(rest): 1}))
            r = fadd(r, t)
        return r
    n, d = ev(a.num), ev(a.den)
    if fzero(d): return None
    return fmul(n, finv(d))

def to_fe(p, x):
    """class of the integer x modulo p"""
    if isinstance(x, FE):
        assert x.p == p
        return x
    if isinstance(x, int): return fconst(p, x)
    d = x.d
    sub = {}
    for v in dvars(d):
        vv = VARS[v]
        if vv.kind == 'mod' and vv.data.p == p: sub[v] = vv.data
    f = F(p, dmod(d, p))
    return fsubst(f, sub) if sub else f

def rep(f):
    """canonical representative in [0,p) of the class f, as an integer"""
    if fisconst(f): return fval(f)
    if f.den == ONE:
        # the polynomial itself, if it stays within [0,p)
        d = {k: (c if c <= f.p // 2 else c - f.p) for k, c in f.num.items()}
        lo, hi = ivd(d)
        if lo >= 0 and hi < f.p: return P(d)
        if all(c > 0 for c in f.num.values()):
            lo, hi = ivd(f.num)
            if lo >= 0 and hi < f.p: return P(f.num)
    return V(var('mod', f, 0, f.p - 1, name='[%r mod p%s]' % (f, str(f.p)[-4:])))

def imod(x, m):
    """x mod m in [0,m)"""
    if isinstance(x, int): return x % m
    lo, hi = iv(x)
    if lo >= 0 and hi < m: return x
    if m > (1 << 64): return rep(to_fe(m, x))
    d = dmod(x.d, m)
    y = P(d)
    lo, hi = iv(y)
    if lo >= 0 and hi < m: return y
    return V(var('smod', (y, m), 0, m - 1))

def ifdiv(x, m):
    """floor(x/m), m>0"""
    if isinstance(x, int): return x // m
    q = {}; r = {}
    for k, c in x.d.items():
        a, b = divmod(c, m)
        if a: q[k] = a
        if b: r[k] = b
    lo, hi = ivd(r)
    if 0 <= lo and hi < m: return P(q)
    # try symmetric remainders
    lo2, hi2 = iv(x)
    if lo2 != -INF and hi2 != INF and lo2 // m == hi2 // m: return lo2 // m
    y = P(r)
    lo, hi = ivd(r)
    v = V(var('fdiv', (y, m), lo // m if lo != -INF else lo, hi // m if hi != INF else hi))
    return iadd(P(q), v)

# ---------------------------------------------------------------- points
BASES = []
_BKEY = {}
class Base:
    __slots__ = ('id', 'kind', 'data', 'name')
    def __repr__(self): return self.name
def base(kind, data, name=None):
    b = _BKEY.get((kind, data))
    if b is None:
        b = Base(); b.id = len(BASES); b.kind = kind; b.data = data; b.name = name or '%s%d' % (kind, b.id)
        BASES.append(b); _BKEY[(kind, data)] = b
    return b
_GI = {}
class GP:
    __slots__ = ('n', 'd', 'k')
    def __repr__(self):
        return ' + '.join('(%r)*%s' % (c, BASES[b].name) for b, c in sorted(self.d.items())) or 'inf'
def G(n, d):
    d = {b: c for b, c in d.items() if not fzero(c)}
    k = (n, tuple(sorted((b, c.k) for b, c in d.items())))
    r = _GI.get(k)
    if r is None:
        r = GP(); r.n = n; r.d = d; r.k = k; _GI[k] = r
    return r
def gbase(n, b): return G(n, {b.id: fconst(n, 1)})
def gadd(a, b):
    d = dict(a.d)
    for k, c in b.d.items(): d[k] = fadd(d[k], c) if k in d else c
    return G(a.n, d)
def gneg(a): return G(a.n, {k: fneg(c) for k, c in a.d.items()})
def gmul(a, f): return G(a.n, {k: fmul(c, f) for k, c in a.d.items()})
def gzero(a): return not a.d
def geq(a, b):
    if a is b: return True
    x = gadd(a, gneg(b))
    return all(fzero(c) for c in x.d.values())

# ---------------------------------------------------------------- bit vectors
# a bit is an int bitmask: bit 0 = constant 1, bit i+1 = unknown bit i
BITS = []          # unknown bit -> name/Var
def newbit(name):
    v = var('bit', name, 0, 1, name=name, bit=True)
    i = BITIDX.get(v.id)
    if i is None:
        i = len(BITS); BITS.append(v)
        BITIDX[v.id] = i
    return 1 << (i + 1)
BITIDX = {}
_BI = {}
class BV:
    """non-negative integer sum(bits[i] 2^i) with GF(2)-affine bits; sign handled by C types"""
    __slots__ = ('b', 'k')
    def __repr__(self): return 'bv%d' % len(self.b)
def B(bits):
    bits = list(bits)
    while bits and bits[-1] == 0: bits.pop()
    if all(x <= 1 for x in bits):
        return sum(x << i for i, x in enumerate(bits))
    k = tuple(bits)
    r = _BI.get(k)
    if r is None:
        r = BV(); r.b = k; r.k = k; _BI[k] = r
    return r
def bits_of(x, n=None):
    if isinstance(x, BV): b = list(x.b)
    elif isinstance(x, int):
        if x < 0:
            assert n is not None
            x &= (1 << n) - 1
        b = [(x >> i) & 1 for i in range(x.bit_length())]
    elif isinstance(x, Poly):
        b = poly_bits(x)
        if b is None and n is not None: b = poly_bits(P({k: c % (1 << n) for k, c in x.d.items() if c % (1 << n)}))     # two's complement
        if b is None: return None
    else: return None
    if n is not None: b = (b + [0] * n)[:n]
    return b
def poly_bits(x):
    """recognise sum 2^i * bit"""
    if isinstance(x, int): return bits_of(x) if x >= 0 else None
    out = {}
    for k, c in x.d.items():
        if len(k) == 0:
            if c < 0: return None
            for i in range(c.bit_length()):
                if c >> i & 1:
                    if i in out: return None
                    out[i] = 1
            continue
        if len(k) != 1 or not VARS[k[0]].bit or c <= 0 or c & (c - 1): return None
        i = c.bit_length() - 1
        if i in out or k[0] not in BITIDX: return None
        out[i] = 1 << (BITIDX[k[0]] + 1)
    return [out.get(i, 0) for i in range(max(out) + 1)] if out else []
def bv_poly(x):
    """BV -> Poly when every bit is a constant or a single unknown"""
    if not isinstance(x, BV): return x
    d = {}
    for i, f in enumerate(x.b):
        if f == 0: continue
        if f == 1: d = dadd(d, {(): 1 << i}); continue
        c = f & 1; g = f & ~1
        if g & (g - 1): return None
        v = BITS[g.bit_length() - 2]
        d = dadd(d, {(v.id,): -(1 << i) if c else 1 << i})
        if c: d = dadd(d, {(): 1 << i})
    return P(d)
def bxor(a, b, n=None):
    x, y = bits_of(a, n), bits_of(b, n)
    if x is None or y is None: return None
    m = max(len(x), len(y)); x += [0] * (m - len(x)); y += [0] * (m - len(y))
    return B([p ^ q for p, q in zip(x, y)])
def band(a, b, n=None):
    x, y = bits_of(a, n), bits_of(b, n)
    if x is None or y is None: return None
    out = []
    for p, q in zip(x, y):
        if p == 0 or q == 0: out.append(0)
        elif p == 1: out.append(q)
        elif q == 1 or p == q: out.append(p)
        elif p == q ^ 1: out.append(0)
        else: return None
    return B(out)
def bor(a, b, n=None):
    x, y = bits_of(a, n), bits_of(b, n)
    if x is None or y is None: return None
    m = max(len(x), len(y)); x += [0] * (m - len(x)); y += [0] * (m - len(y))
    out = []
    for p, q in zip(x, y):
        if p == 0: out.append(q)
        elif q == 0: out.append(p)
        elif p == 1 or q == 1 or p == q ^ 1: out.append(1)
        elif p == q: out.append(p)
        else: return None
    return B(out)
