"""Models of the external functions the repository uses (GMP, gmpxx, libstdc++,
libc, libcrypto) and, on request, of whole repository layers whose own
properties are decided separately (field operators, point operators, AES)."""
from . import alg, dd
from .alg import *
from .dd import N, AND, OR, NOT, isF, isT, ap, ite, leaves, DC
from . import interp as I

# ------------------------------------------------------------ storage
def mpzcell(m, ty=None): 
    c = I.Cell(0, m.g, m.fr, ty); return c
ITER = ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::move_iterator')
EXC = ('std::exception', 'std::logic_error', 'std::runtime_error', 'std::invalid_argument', 'std::domain_error', 'std::length_error',
       'std::out_of_range', 'std::range_error', 'std::overflow_error', 'std::underflow_error', 'std::bad_alloc')
EXC_BASE = {'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::invalid_argument': 'std::logic_error',
            'std::domain_error': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
            'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error',
            'std::bad_alloc': 'std::exception'}
def targ(ty, i):
    a = ty.get('args') or []
    if i >= len(a) or not isinstance(a[i], int): return None
    return ty['_T'][a[i]]
def new_rec(m, ty):
    q = ty['qn']
    p = m.prog
    r = p.rec(ty)
    if r is None:
        if q == '__gmp_expr' or q == '__mpz_struct' or ty['s'] in ('__mpz_struct', 'struct __mpz_struct'): return mpzcell(m, ty)
        if q == 'std::basic_string':
            return I.Vec([], 'string', targ(ty, 0), m.g, m.fr)
        if q in ('std::vector', 'std::deque', 'std::initializer_list', 'std::list'):
            return I.Vec([], 'vector' if q != 'std::initializer_list' else 'ilist', targ(ty, 0), m.g, m.fr)
        if q == 'std::array':
            n = ty['args'][1]; n = int(n['i'] if isinstance(n, dict) else n)
            et = targ(ty, 0)
            return I.Vec([m.new_obj(et) for _ in range(n)], 'array', et, m.g, m.fr)
        if q in ('std::pair', 'std::tuple'):
            a = [ty['_T'][x] for x in ty.get('args', [])]
            names = ['first', 'second'] if q == 'std::pair' else [str(i) for i in range(len(a))]
            o = I.Rec(ty, {}, m.g, m.fr)
            for n, t in zip(names, a): o.f[n] = m.new_obj(t) if t['k'] not in ('ref', 'rref') else I.Cell(I.UNDEF, m.g, m.fr, t)
            return o
        if q == 'std::unique_ptr' or q == 'std::shared_ptr':
            o = I.Rec(ty, {'p': I.Cell(I.NULL, m.g, m.fr, None)}, m.g, m.fr); o.tag = 'unique_ptr'
            return o
        if q in ITER or q in m.stdlib.MAPIT: return I.Cell(I.UNDEF, m.g, m.fr, ty)
        if q == 'std::bitset': return m.stdlib.bitset_new(m, ty)
        if q == 'std::optional': return m.stdlib.opt_new(m, ty)
        if q in m.stdlib.MAPS: return m.stdlib.map_new(m, ty)
        if q == 'gmp_randclass': return I.Opq('rng', ty)
        if q in EXC: return I.Opq('exception', ty)
        if q == 'std::function': return I.Cell(I.UNDEF, m.g, m.fr, ty)
        if '(lambda' in ty['s'] or '(anonymous class)' in ty['s'] or q == '' or q.endswith('::'):
            c = I.Closure(); c.e = None; c.caps = {}; c.fr = None; c.this = None; c.T = None
            return c
        return I.Opq(q, ty)
    if m.absfield and m.is_field(ty):
        return I.Rec(ty, {'fe': I.Cell(I.UNDEF, m.g, m.fr, None)}, m.g, m.fr)
    if m.abspoint and m.is_point(ty):
        return I.Rec(ty, {'gp': I.Cell(I.UNDEF, m.g, m.fr, None), 'curve': I.Cell(I.UNDEF, m.g, m.fr, None)}, m.g, m.fr)
    o = I.Rec(ty, {}, m.g, m.fr)
    if m.is_curve(ty): o.tag = 'curve'
    for n, t in p.allfields(ty):
        if t['k'] in ('ref', 'rref'): o.f[n] = None; continue
        o.f[n] = m.new_obj(t)
    return o

# ------------------------------------------------------------ helpers
def A(m, e, i):
    """value of argument i"""
    return m.val(m.ev(e['c'][i]))
def L(m, e, i): return m.ev(e['c'][i])
def obj(m, e):
    o = m.base_loc(e['obj'], e.get('arrow'))
    return o
def one(m, o, what='object'):
    """the single object a location designates on the live paths"""
    if isinstance(o, N):
        ls = leaves(o, m.g)
        if len(ls) == 1: return ls[0][1]
        # pick a split
        m.split(what, o)
    return o
def mpzval(m, p):
    """value behind an mpz pointer"""
    if isinstance(p, N) or isinstance(p, I.Ptr):
        v = m.load(m.deref(p))
    elif isinstance(p, I.Cell): v = m.load(p)
    else:
        m.unsup('mpz operand %r' % (p,))
    if isinstance(v, I.Undef) : return 0
    return v
def concrete(m, v, what):
    if isinstance(v, N):
        ls = leaves(v, m.g)
        if len(ls) == 1: v = ls[0][1]
        else: m.split(what, v)
    if isinstance(v, BV):
        v = m.toI(v)
    if isinstance(v, Poly):
        lo, hi = iv(v)
        if lo == hi: return int(lo)
        v = refine_const(m, v)
    if not isinstance(v, int): m.unsup('symbolic %s' % what)
    return int(v)
def refine_const(m, v): return v

def bitlen(m, x):
    """bit length of |x| as an int (DD over lengths); 0 for 0"""
    if isinstance(x, int): return abs(x).bit_length()
    if isinstance(x, Poly):
        b = poly_bits(x)
        if b is not None: x = B(b)
    if isinstance(x, int): return abs(x).bit_length()
    if isinstance(x, BV):
        r = 0
        if 1 in x.b[-1:]: return len(x.b)
        out = 0
        # from the top
        res = None
        conds = []
        top = len(x.b)
        k = top
        acc = []
        while k > 0:
            f = x.b[k - 1]
            if f == 0: k -= 1; continue
            acc.append((m.bitlit(f), k))
            if f == 1: break
            if len(acc) > 20000: m.unsup('bit length')
            k -= 1
        return lenchain(m, x, acc)
    h = m.hooks.get('bitlen')
    if h:
        r = h(m, x)
        if r is not None: return r
    lo, hi = iv(x)
    if lo > 0 and hi != INF and int(lo).bit_length() == int(hi).bit_length(): return int(lo).bit_length()
    return V(var('bitlen', x, 0, int(max(abs(lo), abs(hi))).bit_length() if hi != INF and lo != -INF else INF))

# ------------------------------------------------------------ GMP C functions
def fe_sqrt_or_pow(m, b, ex, p):
    """b^ex mod p for a symbolic class b"""
    f = to_fe(p, b)
    if fisconst(f): return pow(fval(f), ex, p)
    if ex < 64: return rep(fpow(f, ex))
    if ex == p - 2:
        return ite(m.feq0(f), 0, rep(finv(f)))
    if ex == (p - 1) // 2:
        return ite(m.feq0(f), 0, ite(m.qr(f), 1, p - 1))
    if p % 4 == 3 and ex == (p + 1) // 4:
        f = m.canon(f)
        s = var('sqrt', f, 0, p - 1, name='sqrt[%r]' % f)
        return V(s)
    if ex == p - 1: return ite(m.feq0(f), 0, 1)
    if ex == p: return rep(f)
    return V(var('pow', (f, ex), 0, p - 1))
def mpz_sizeinbase(m, x, b):
    if b == 2:
        n = bitlen(m, x)
        return m.ap(lambda k: max(k, 1) if isinstance(k, int) else k, n)
    if isinstance(x, int):
        if 2 <= b <= 62 or b in (64, 128, 256):
            x, k = abs(x), 0
            if b & (b - 1) == 0: return max(1, -(-x.bit_length() // (b.bit_length() - 1)))
            # "exact or 1 too big" for the other bases: a caller has to live with either
            while x: x //= b; k += 1
            return max(1, k)
    elif 2 <= b <= 256 and b & (b - 1) == 0:
        w = b.bit_length() - 1
        return m.ap(lambda k: max(1, -(-k // w)) if isinstance(k, int) else m.arith2('/', m.arith2('+', k, w - 1, None, True), w, None, True), bitlen(m, x))
    m.unsup('mpz_sizeinbase base %r' % b)
def posdiv(m, op, x, y, mode):
    """division of integers: mode t/f/c, op q/r"""
    if y == 0:
        m.event('div-zero', 'division by zero', kill=True); return 0
    if isinstance(y, int):
        if mode == 't': return m.arith2('/' if op == 'q' else '%', x, y, None, True)
        if mode == 'f':
            if y > 0:
                if op == 'q': return m.arith2('>>', x, y.bit_length() - 1, None, True) if y & (y - 1) == 0 else (x // y if isinstance(x, int) else ifdiv(m.toI(x), y))
                return band(x, y - 1) if isinstance(x, BV) and y & (y - 1) == 0 else imod(m.toI(x), y)
            if op == 'q': return posdiv(m, op, ineg(m.toI(x)), -y, mode)
            return ineg(imod(ineg(m.toI(x)), -y))
        if mode == 'c':
            if op == 'q': return ineg(posdiv(m, 'q', ineg(m.toI(x)), y, 'f'))
            return isub(m.toI(x), imul(y, ineg(posdiv(m, 'q', ineg(m.toI(x)), y, 'f'))))
    if isinstance(y, Poly):
        # modulus known to be positive, symbolic: only if provably trivial
        m.unsup('division by a symbolic integer')
    m.unsup('division')
def ivnonneg(m, x):
    if isinstance(x, int): return x >= 0
    if isinstance(x, BV): return True
    return iv(x)[0] >= 0
def mpz_invert(m, a, p):
    """(value or None, ok guard)"""
    f = to_fe(p, m.toI(a))
    if fisconst(f):
        v = fval(f)
        if math.gcd(v, p) != 1: return None, False
        return pow(v, -1, p), True
    z = m.feq0(f)
    return rep(finv(f)), NOT(z)

def g_bin(f):
    def h(m, e):
        x = mpzval(m, A(m, e, 1)); y = argint(m, e, 2)
        v = m.ap(f, x, y)
        m.store(m.deref(A(m, e, 0)), v)
    return h
def argint(m, e, i):
    """integer argument: an mpz pointer or a machine integer"""
    v = A(m, e, i)
    if any(isinstance(x, I.Ptr) for _, x in leaves(v, m.g)): return mpzval(m, v)
    return v
GMP = {}
def gmp(*names):
    def d(f):
        for n in names: GMP['__gmpz_' + n] = f
        return f
    return d
def chkU(m, *vs):
    pass
def defbin(names, op):
    for n in names:
        def h(m, e, op=op):
            x = argint(m, e, 1); y = argint(m, e, 2)
            v = m.arith(op, x, y)
            m.store(m.deref(A(m, e, 0)), v)
        GMP['__gmpz_' + n] = h
defbin(('add', 'add_ui'), '+'); defbin(('sub', 'sub_ui', 'ui_sub'), '-'); defbin(('mul', 'mul_ui', 'mul_si'), '*')
defbin(('mul_2exp',), '<<'); defbin(('fdiv_q_2exp',), '>>'); defbin(('and',), '&'); defbin(('ior',), '|'); defbin(('xor',), '^')
def defdiv(names, op, mode):
    for n in names:
        def h(m, e, op=op, mode=mode, n=n):
            x = argint(m, e, 1); y = argint(m, e, 2)
            if n.endswith('2exp'): y = m.ap(lambda k: 1 << k, y)
            def f(a, b):
                if isinstance(b, (Poly, BV)): 
                    b2 = concrete(m, b, 'divisor')
                    b = b2
                if n == 'mod' : b = abs(b)
                return posdiv(m, op, a, b, mode)
            v = m.ap(f, x, y)
            m.store(m.deref(A(m, e, 0)), v)
            return m.ap(lambda q: q, v) if n.endswith('_ui') and op == 'r' else None
        GMP['__gmpz_' + n] = h
defdiv(('mod', 'fdiv_r', 'fdiv_r_ui', 'mod_ui'), 'r', 'f'); defdiv(('fdiv_q', 'fdiv_q_ui'), 'q', 'f')
defdiv(('tdiv_q', 'tdiv_q_ui', 'divexact', 'divexact_ui', 'tdiv_q_2exp'), 'q', 't'); defdiv(('tdiv_r', 'tdiv_r_ui'), 'r', 't')
defdiv(('cdiv_q', 'cdiv_q_ui'), 'q', 'c'); defdiv(('tdiv_r_2exp',), 'r', 't'); defdiv(('fdiv_r_2exp',), 'r', 'f')
GMP['__gmpz_mod'] = GMP['__gmpz_mod']
@gmp('neg', 'abs', 'set', 'set_ui', 'set_si', 'init_set', 'init_set_ui', 'init_set_si', 'com')
def g_un(m, e):
    n = e['qn']; x = argint(m, e, 1)
    if n == '__gmpz_neg': v = m.ap(lambda a: m.neg1(a, None), x)
    elif n == '__gmpz_abs': v = m.ap(lambda a: abs1(m, a), x)
    elif n == '__gmpz_com': v = m.ap(lambda a: isub(-1, m.toI(a)), x)
    else: v = x
    m.store(m.deref(A(m, e, 0)), v)
def abs1(m, a):
    if isinstance(a, int): return abs(a)
    if isinstance(a, BV): return a
    return ite(m.ilt0(a), ineg(a), a)
@gmp('init', 'init2')
def g_init(m, e): m.store(m.deref(A(m, e, 0)), 0)
@gmp('clear', 'realloc2')
def g_clear(m, e): A(m, e, 0)
@gmp('clears', 'inits')
def g_clears(m, e):
    for i in range(len(e['c'])):
        p = A(m, e, i)
        if e['qn'] == '__gmpz_inits' and isinstance(p, I.Ptr): m.store(m.deref(p), 0)
@gmp('swap')
def g_swap(m, e):
    a, b = m.deref(A(m, e, 0)), m.deref(A(m, e, 1))
    x, y = m.load(a), m.load(b)
    m.store(a, y); m.store(b, x)
@gmp('invert')
def g_invert(m, e):
    a = mpzval(m, A(m, e, 1)); p = mpzval(m, A(m, e, 2)); dst = m.deref(A(m, e, 0))
    old = m.load(dst)
    def f(a, p):
        p = concrete(m, p, 'modulus')
        if p == 0: m.event('div-zero', 'inverse modulo zero', kill=True); return (0, False)
        return mpz_invert(m, a, abs(p))
    r = []
    def val(a, p, o):
        v, ok = f(a, p)
        if v is None: return o
        return ite(ok, v, o)
    v = m.ap(val, a, p, old)
    ok = m.ap(lambda a, p: f(a, p)[1], a, p)
    m.store(dst, v)
    return m.ap(lambda t: int(t), ok) if not isinstance(ok, N) else ite(ok, 1, 0)
@gmp('powm', 'powm_ui', 'powm_sec')
def g_powm(m, e):
    b = mpzval(m, A(m, e, 1)); x = argint(m, e, 2); p = mpzval(m, A(m, e, 3))
    def f(b, x, p):
        x = concrete(m, x, 'exponent'); p = abs(concrete(m, p, 'modulus'))
        if p == 0: m.event('div-zero', 'power modulo zero', kill=True); return 0
        if x < 0:
            v, ok = mpz_invert(m, b, p)
            if v is None or not isT(ok): m.event('div-zero', 'negative power of a non-invertible element', NOT(ok) if v is not None else None, kill=True)
            b, x = v, -x
        if isinstance(b, int): return pow(b, x, p)
        return fe_sqrt_or_pow(m, m.toI(b), x, p)
    m.store(m.deref(A(m, e, 0)), m.ap(f, b, x, p))
@gmp('pow_ui', 'ui_pow_ui')
def g_powui(m, e):
    b = argint(m, e, 1); x = A(m, e, 2)
    def f(b, x):
        x = concrete(m, x, 'exponent')
        if isinstance(b, int) and x < 100000: return b ** x
        if x > 16: m.unsup('power')
        r = 1
        for _ in range(x): r = imul(r, m.toI(b))
        return r
    m.store(m.deref(A(m, e, 0)), m.ap(f, b, x))
@gmp('addmul', 'submul', 'addmul_ui', 'submul_ui')
def g_addmul(m, e):
    d = m.deref(A(m, e, 0)); x = argint(m, e, 1); y = argint(m, e, 2)
    m.store(d, m.arith('+' if 'add' in e['qn'] else '-', m.load(d), m.arith('*', x, y)))
def sign3(m, x, y):
    def f(a, b):
        a, b = (a, b) if not (isinstance(a, BV) or isinstance(b, BV)) else (m.toI(a), m.toI(b))
        if isinstance(a, int) and isinstance(b, int): return (a > b) - (a < b)
        eq = m.cmp1('==', a, b)
        if isT(eq): return 0
        return ite(eq, 0, ite(m.cmp1('<', a, b), -1, 1))
    def g(a, b):
        if isinstance(a, I.Undef) or isinstance(b, I.Undef):
            m.event('uninit', 'compares an uninitialised value'); return 0
        if isinstance(a, BV) or isinstance(b, BV):
            eq = m.cmp1('==', a, b)
            if isF(eq) or isT(eq): pass
            return ite(eq, 0, ite(m.cmp1('<', a, b), -1, 1)) if not isT(eq) else 0
        return f(a, b)
    return m.ap(g, x, y)
@gmp('cmp', 'cmp_ui', '_cmp_ui', 'cmp_si', '_cmp_si')
def g_cmp(m, e): return sign3(m, argint(m, e, 0), argint(m, e, 1))
GMP['__gmpz_cmp_ui'] = g_cmp
@gmp('cmpabs', 'cmpabs_ui')
def g_cmpabs(m, e):
    return sign3(m, m.ap(lambda a: abs1(m, a), argint(m, e, 0)), m.ap(lambda a: abs1(m, a), argint(m, e, 1)))
@gmp('congruent_p', 'congruent_ui_p')
def g_congr(m, e):
    a, b, p = argint(m, e, 0), argint(m, e, 1), argint(m, e, 2)
    def f(a, b, p):
        p = concrete(m, p, 'modulus')
        return m.cmp1('==', imod(m.toI(a), p), imod(m.toI(b), p))
    c = m.ap(f, a, b, p)
    return ite(c, 1, 0)
@gmp('divisible_p', 'divisible_ui_p', 'divisible_2exp_p')
def g_divis(m, e):
    a, p = argint(m, e, 0), argint(m, e, 1)
    t = e['qn'].endswith('2exp_p')
    def f(a, p):
        p = concrete(m, p, 'divisor')
        if t: p = 1 << p
        if p == 0: return m.ieq0(a)
        return m.ieq0(imod(m.toI(a), abs(p)))
    return ite(m.ap(f, a, p), 1, 0)
@gmp('congruent_2exp_p')
def g_congr2(m, e):
    a, b, k = argint(m, e, 0), argint(m, e, 1), argint(m, e, 2)
    def f(a, b, k):
        p = 1 << concrete(m, k, 'modulus')
        return m.cmp1('==', imod(m.toI(a), p), imod(m.toI(b), p))
    return ite(m.ap(f, a, b, k), 1, 0)
def defqr(mode):
    def h(m, e):
        x, y = argint(m, e, 2), argint(m, e, 3)
        def f(op): return m.ap(lambda a, b: posdiv(m, op, a, concrete(m, b, 'divisor'), mode), x, y)
        q, r = f('q'), f('r')
        m.store(m.deref(A(m, e, 0)), q); m.store(m.deref(A(m, e, 1)), r)
        return r if e['qn'].endswith('_ui') else None
    GMP['__gmpz_%sdiv_qr' % mode] = GMP['__gmpz_%sdiv_qr_ui' % mode] = h
    def u(m, e):
        x, y = argint(m, e, 0), argint(m, e, 1)
        r = m.ap(lambda a, b: posdiv(m, 'r', a, concrete(m, b, 'divisor'), mode), x, y)
        return m.ap(lambda a: abs1(m, a), r)
    GMP['__gmpz_%sdiv_ui' % mode] = u
for _mode in 'ftc': defqr(_mode)
defdiv(('cdiv_r', 'cdiv_r_ui'), 'r', 'c')
def constfn(names, f):
    def h(m, e):
        n = len(e['c'])
        xs = [argint(m, e, i) for i in range(n)]
        v = m.ap(lambda *a: f(*[concrete(m, x, e['qn'][7:] + ' operand') for x in a]), *xs)
        return v
    def hd(m, e):
        n = len(e['c'])
        xs = [argint(m, e, i) for i in range(1, n)]
        v = m.ap(lambda *a: f(*[concrete(m, x, e['qn'][7:] + ' operand') for x in a]), *xs)
        m.store(m.deref(A(m, e, 0)), v)
    for n, dst in names: GMP['__gmpz_' + n] = hd if dst else h
constfn([('gcd', 1), ('gcd_ui', 1)], lambda a, b: math.gcd(a, b))
constfn([('lcm', 1), ('lcm_ui', 1)], lambda a, b: abs(a * b) // math.gcd(a, b) if a and b else 0)
constfn([('sqrt', 1)], lambda a: math.isqrt(a))
constfn([('popcount', 0)], lambda a: bin(a).count('1'))
constfn([('perfect_square_p', 0)], lambda a: int(a >= 0 and math.isqrt(a) ** 2 == a))
constfn([('bin_uiui', 1)], lambda a, b: math.comb(a, b))
constfn([('fac_ui', 1)], lambda a: math.factorial(a))
def g_scan(m, e):
    one_ = e['qn'].endswith('1')
    def f(x, i):
        i = concrete(m, i, 'bit index')
        if isinstance(x, int):
            if x >= 0 and (x >> i == 0 if one_ else False): return (1 << 64) - 1
            while (x >> i & 1) != (1 if one_ else 0): i += 1
            return i
        m.unsup('scan of a symbolic integer')
    return m.ap(f, argint(m, e, 0), A(m, e, 1))
GMP['__gmpz_scan0'] = GMP['__gmpz_scan1'] = g_scan
@gmp('getlimbn')
def g_limb(m, e):
    x = m.ap(lambda a: abs1(m, a), argint(m, e, 0)); i = concrete(m, A(m, e, 1), 'limb index')
    return m.ap(lambda a: m.wrap1(m.arith2('>>', a, 64 * i, None, True) if i else a, 64, False), x)
@gmp('tstbit')
def g_tstbit(m, e):
    x = argint(m, e, 0); i = A(m, e, 1)
    def f(x, i):
        i = concrete(m, i, 'bit index')
        if isinstance(x, int): return x >> i & 1
        b = bits_of(x)
        if b is not None:
            f = b[i] if i < len(b) else 0
            if f <= 1: return f
            return ite(m.bitlit(f), 1, 0)
        if isinstance(x, Poly):
            v = imod(ifdiv(x, 1 << i) if i else x, 2)
            if isinstance(v, int): return v
            if v.d and len(v.d) <= 2 and all(VARS[q].bit for q in dvars(v.d)): return v
            return ite(m.ieq0(v), 0, 1)
        m.unsup('tstbit')
    return m.ap(f, x, i)
@gmp('setbit', 'clrbit', 'combit')
def g_setbit(m, e):
    d = m.deref(A(m, e, 0)); i = A(m, e, 1); n = e['qn'][7:]
    def f(x, i):
        i = concrete(m, i, 'bit index')
        if isinstance(x, int):
            if x < 0: m.unsup('setbit of a negative')
            return {'setbit': x | 1 << i, 'clrbit': x & ~(1 << i), 'combit': x ^ 1 << i}[n]
        b = bits_of(x)
        if b is not None:
            b = b + [0] * (i + 1 - len(b))
            b[i] = {'setbit': 1, 'clrbit': 0, 'combit': b[i] ^ 1}[n]
            return B(b)
        lo, hi = iv(x)
        if isinstance(x, Poly) and lo >= 0:
            r = imod(x, 2 << i)
            if isinstance(r, int):      # the bit is the same for every value
                was = r >> i & 1; now = {'setbit': 1, 'clrbit': 0, 'combit': 1 - was}[n]
                return iadd(x, (now - was) << i)
        if n in ('setbit', 'combit') and lo >= 0 and hi < 1 << i: return iadd(x, 1 << i)
        if n == 'clrbit' and lo >= 0:
            y = isub(x, 1 << i); l2, h2 = iv(y)
            if l2 >= 0 and h2 < 1 << i: return y
        m.unsup('%s of %r' % (n, x))
    m.store(d, m.ap(f, m.load(d), i))
@gmp('sizeinbase')
def g_sizeinbase(m, e):
    x = argint(m, e, 0); b = A(m, e, 1)
    return m.ap(lambda x, b: mpz_sizeinbase(m, x, b), x, b)
@gmp('size')
def g_size(m, e):
    x = argint(m, e, 0)
    return m.ap(lambda x: m.ap(lambda k: (k + 63) // 64, bitlen(m, x)), x)
@gmp('get_ui', 'get_si')
def g_getui(m, e):
    x = argint(m, e, 0); s = e['qn'].endswith('si')
    return m.ap(lambda x: m.wrap1(abs1(m, x) if not s else x, 64, s), x)
@gmp('fits_ulong_p', 'fits_slong_p', 'fits_uint_p', 'fits_sint_p', 'fits_ushort_p', 'fits_sshort_p')
def g_fits(m, e): return fits(m, argint(m, e, 0), e['qn'][7:])
def fits(m, x, n):
    hi = {'fits_ulong_p': 2**64, 'fits_slong_p': 2**63, 'fits_uint_p': 2**32, 'fits_sint_p': 2**31, 'fits_ushort_p': 2**16, 'fits_sshort_p': 2**15}[n]
    lo = -hi if '_s' in n else 0
    c = m.ap(lambda x: AND(m.cmp1('<', x, hi), NOT(m.cmp1('<', x, lo))), x)
    return ite(c, 1, 0)
@gmp('legendre', 'jacobi', 'kronecker')
def g_jac(m, e):
    x = argint(m, e, 0); p = concrete(m, argint(m, e, 1), 'modulus')
    def f(x):
        fe = to_fe(p, m.toI(x))
        if fisconst(fe):
            v = pow(fval(fe), (p - 1) // 2, p); return -1 if v == p - 1 else v
        return ite(m.feq0(fe), 0, ite(m.qr(fe), 1, -1))
    return m.ap(f, x)
@gmp('set_str', 'init_set_str')
def g_setstr(m, e):
    p = m.deref(A(m, e, 0)); s = cstring(m, A(m, e, 1)); b = A(m, e, 2)
    return setstr(m, p, s, b)
def parse_int(s, b):
    t = ''.join(s.split())
    neg = t.startswith('-')
    if neg: t = t[1:]
    if b == 0:
        b = 10
        if t[:2].lower() == '0x': b = 16; t = t[2:]
        elif t[:2].lower() == '0b': b = 2; t = t[2:]
        elif t[:1] == '0' and len(t) > 1: b = 8
    try:
        if not t or '_' in t or t[0] in '+-' or t[:2].lower() in ('0x', '0b', '0o') and b in (2, 8, 16) and not (b == 16 and t[1:2].lower() == 'b' or False): 
            if t[:2].lower() == '0x' and b == 16 or t == '' or '_' in t or t[0] in '+-': return None
        v = int(t, b)
    except ValueError: return None
    return -v if neg else v
def setstr(m, cell, s, b):
    b = concrete(m, b, 'base')
    v = parse_int(s, b)
    if v is None: return -1
    m.store(cell, v); return 0
def cstring(m, p):
    """concrete C string / std::string"""
    p = one(m, p, 'string')
    if isinstance(p, I.Ptr): o, i = p.o, p.i or 0
    else: o, i = p, 0
    if isinstance(o, I.Table):
        raw = o.raw[i:]
        return bytes(raw[:raw.index(0)]).decode('latin1')
    if isinstance(o, I.Vec):
        out = []
        for c in o.items[i:]:
            v = concrete(m, m.load(c), 'string')
            if v == 0: break
            out.append(v & 255)
        return bytes(out).decode('latin1')
    m.unsup('string %r' % (o,))
@gmp('export')
def g_export(m, e):
    dst = A(m, e, 0); cnt = A(m, e, 1)
    order, size, endian, nails = [concrete(m, A(m, e, i), 'export') for i in (2, 3, 4, 5)]
    x = argint(m, e, 6)
    if size != 1 or nails != 0 or order not in (1, -1): m.unsup('mpz_export layout')
    x = one(m, x, 'exported value')
    if isinstance(x, Poly):
        b = poly_bits(x)
        if b is not None: x = B(b)
    null = dst is I.NULL or isinstance(dst, int) and dst == 0
    if null and isinstance(x, BV): n = bytelen(m, x)
    else: n = m.ap(lambda k: (k + 7) // 8 if isinstance(k, int) else k, bitlen(m, x))
    if not null and isinstance(n, N) and isinstance(x, BV) and export_at(m, dst, cnt, order, n, x): return dst
    n = concrete(m, n, 'exported length')
    if n > BIG:
        g = m.g
        r = Lazy(n, lambda i: I.Cell(m.opaque_bits(('byte', alg.dkey(x.d), i), 8, 'big%d' % i), g, None, None))
        if dst is I.NULL or dst == 0:
            v = I.Vec(r, 'heap', None, m.g, None); v.align = 16; m.note_alloc(v, 'malloc'); p = I.Ptr(v, 0)
        else:
            p = one(m, dst)
            if not isinstance(p.o, I.Vec) or not isinstance(p.o.items, Lazy) or (p.i or 0) + n > len(p.o.items):
                m.event('out-of-bounds', 'export of %d bytes into a buffer of %d' % (n, len(p.o.items) if isinstance(p.o, I.Vec) else 1), kill=True); return dst
            o, i0 = p.o.items, p.i or 0
            f0 = o.f; o.f = lambda i: r.f(i - i0) if i0 <= i < i0 + n else f0(i)
        if cnt is not I.NULL and not (isinstance(cnt, int) and cnt == 0): m.store(m.deref(cnt), n)
        return p
    b = bits_of(abs(x) if isinstance(x, int) else x, 8 * n)
    if b is None:
        b = bits_of_int(m, x, 8 * n)
    by = [B(b[8 * i:8 * i + 8]) for i in range(n)]
    if order == 1: by.reverse()
    if dst is I.NULL or dst == 0:
        if n == 0: r = I.NULL
        else:
            v = I.Vec([I.Cell(y, m.g, None, None) for y in by], 'heap', None, m.g, None)
            v.align = m.hooks.get('malloc_align', lambda: 16)()
            m.note_alloc(v, 'malloc')
            r = I.Ptr(v, 0)
    else:
        p = one(m, dst)
        for i, y in enumerate(by):
            c = m.deref1(I.Ptr(p.o, (p.i or 0) + i))
            if c is not None: m.store(c, y)
        r = dst
    if cnt is not I.NULL and not (isinstance(cnt, int) and cnt == 0): m.store(m.deref(cnt), n)
    return r
def bytelen(m, x):
    r = 0
    n = (len(x.b) + 7) // 8
    pad = list(x.b) + [0] * (8 * n - len(x.b))
    acc = []
    for k in range(n, 0, -1):
        c = m.bvnz(B(pad[8 * k - 8:8 * k]))
        acc.append((c, k))
        if isT(c): break
    return lenchain(m, x, acc)
def lenchain(m, x, acc):
    """length from (bit or byte is non-zero, length) pairs, most significant first; 0 exactly when x is zero"""
    if not acc: return 0
    r = acc[-1][1]
    for c, k in reversed(acc[:-1]): r = ite(c, k, r)
    if isT(acc[-1][0]): return r
    return ite(m.bvnz(x), r, 0)
def export_at(m, dst, cnt, order, n, x):
    """export of a value of unknown length into given memory"""
    if cnt is not I.NULL and not (isinstance(cnt, int) and cnt == 0): m.store(m.deref(cnt), n)
    pairs = leaves(m.ap(lambda k, d: ('kd', k, d) if isinstance(k, int) and isinstance(d, I.Ptr) else None, n, dst), m.g)
    # combinations of the two lengths that cannot occur
    at = {}
    for g, v in pairs:
        if v is not None: at.setdefault((id(v[2].o), (v[2].i or 0) + (v[1] if order == 1 else 0)), []).append(g)
    if len(at) > 1:
        from . import facts
        best = max(at, key=lambda k: len(at[k]))
        pairs = [(g, v) for g, v in pairs if v is not None and (id(v[2].o), (v[2].i or 0) + (v[1] if order == 1 else 0)) == best or facts.possible(m, g) is not None]
    if any(v is None or not isinstance(v[2].o, I.Vec) for _, v in pairs): return False
    o = pairs[0][1][2].o
    if any(v[2].o is not o for _, v in pairs): return False
    top = max(v[1] for _, v in pairs)
    pad = list(x.b) + [0] * (8 * top - len(x.b))
    by = [B(pad[8 * k:8 * k + 8]) for k in range(top)]
    pos = [lambda k, v: (v[2].i or 0) + v[1] - 1 - k, lambda k, v: (v[2].i or 0) + k][order == -1]
    g0 = m.g
    for k in range(top):
        at = {}
        for g, v in pairs:
            if v[1] > k: at.setdefault(pos(k, v), []).append(g)
        for i, gs in at.items():
            if len(at) == 1 and not o.dead and 0 <= i < len(o.items) and all(pos(k, v) == i for _, v in pairs):
                old = m.load(o.items[i])
                if isinstance(old, int) and old == 0: m.store(o.items[i], by[k]); continue      # a byte beyond the length is zero
            g = False
            for y in gs: g = OR(g, y)
            m.g = g
            c = m.deref1(I.Ptr(o, i))
            m.g = g0
            if c is None: continue
            m.g = g; m.store(c, by[k]); m.g = g0
    return True
def bits_of_int(m, x, n):
    m.unsup('export of an integer whose bits are not tracked: %r' % (x,))
@gmp('import')
def g_import(m, e):
    dst = m.deref(A(m, e, 0))
    n = concrete(m, A(m, e, 1), 'import length')
    order, size, endian, nails = [concrete(m, A(m, e, i), 'import') for i in (2, 3, 4, 5)]
    p = one(m, A(m, e, 6))
    if size != 1 or nails != 0: m.unsup('mpz_import layout')
    if n == 0: m.store(dst, 0); return
    by = []
    for i in range(n):
        c = m.deref(I.Ptr(p.o, (p.i or 0) + i)) if isinstance(p, I.Ptr) else m.deref(p)
        if c is None: return
        v = m.load(c)
        if isinstance(v, I.Undef): m.event('uninit', 'reads uninitialised bytes'); v = 0
        b = bits_of(one(m, v), 8)
        if b is None: m.unsup('import of %r' % (v,))
        by.append(b)
    if order == 1: by.reverse()
    m.store(dst, B([f for y in by for f in y]))
@gmp('even_p', 'odd_p')
def g_odd(m, e): return 0

# ------------------------------------------------------------ gmpxx
def isgmp(t):
    while t['k'] in ('ref', 'rref'): t = t['_T'][t['to']]
    return t['k'] == 'rec' and t['qn'] == '__gmp_expr'
def anygmp(m, e):
    T = m.fr.T
    ts = [T[x] for x in e['pt']]
    if 'rec' in e: ts.append(T[e['rec']])
    return any(isgmp(t) for t in ts)
def as_int(m, v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, float): return int(v)
    return v
def mpz_binop(op):
    def h(m, e):
        x = m.val(obj(m, e)) if 'obj' in e else A(m, e, 0)
        y = A(m, e, 0 if 'obj' in e else 1)
        r = m.arith(op, x, y)
        if op in ('==', '!=', '<', '>', '<=', '>='): return r
        return m.cell(r)
    return h
def mpz_shift(op):
    def h(m, e):
        x = A(m, e, 0); y = A(m, e, 1)
        return m.cell(m.arith('<<' if op == '<<' else '>>', x, y))
    return h
def mpz_cassign(op):
    def h(m, e):
        o = obj(m, e); y = A(m, e, 0)
        if op == '': m.store(o, m.ap(lambda v: as_int(m, v), y))
        else: m.store(o, m.arith(op, m.load(o), y))
        return o
    return h
def mpz_unop(op):
    def h(m, e):
        x = A(m, e, 0) if e['c'] else m.val(obj(m, e))
        if op == '-': return m.cell(m.ap(lambda a: m.neg1(a, None), x))
        if op == '~': return m.cell(m.ap(lambda a: isub(-1, m.toI(a)), x))
        return m.cell(x)
    return h
def mpz_incdec(op):
    def h(m, e):
        o = obj(m, e); old = m.load(o)
        m.store(o, m.arith(op, old, 1))
        return m.cell(old) if e['c'] else o
    return h
def mpz_str(m, x, base):
    """digits of |x| as a string object (base 2: symbolic bits)"""
    base = concrete(m, base, 'base')
    x = one(m, x, 'printed value')
    out = I.Vec([], 'string', None, m.g, m.fr)
    if isinstance(x, Poly):
        b = poly_bits(x)
        if b is not None: x = B(b)
    if isinstance(x, int):
        neg = x < 0; x = abs(x); s = ''
        if x == 0: s = '0'
        D = '0123456789abcdefghijklmnopqrstuvwxyz'
        if base == 10: s = str(x)
        else:
            while x: s = D[x % base] + s; x //= base
        s = ('-' if neg else '') + s
        out.items = [m.cell(ord(c)) for c in s]
        return out
    if base == 2 and isinstance(x, BV) and x.b[-1] == 1:
        for f in reversed(x.b):
            out.items.append(m.cell(iadd(48, V(BITS[f.bit_length() - 2])) if f > 1 and f & 1 == 0 and f & (f - 1) == 0 else 48 + f if f <= 1 else bad(m)))
        return out
    h = m.hooks.get('get_str')
    if h: return h(m, x, base, out)
    m.unsup('get_str of %r' % (x,))
def bad(m): m.unsup('printed bits')

def mpz_member(m, e, n):
    o = obj(m, e)
    if n in ('get_mpz_t', '__get_mp', 'get_mpq_t'):
        return m.ap(lambda c: I.Ptr(c), o)
    if n == 'get_str': return mpz_str(m, m.val(o), A(m, e, 0) if e['c'] else 10)
    if n == 'set_str': return setstr(m, o, cstring(m, L(m, e, 0)), A(m, e, 1))
    if n in ('get_ui', 'get_si'):
        x = m.val(o); s = n == 'get_si'
        return m.ap(lambda x: m.wrap1(abs1(m, x) if not s else x, 64, s), x)
    if n.startswith('fits_'): return m.truth(fits(m, m.val(o), n))
    if n == 'operator bool': return NOT(m.ap(m.ieq0, m.val(o)))
    if n == 'swap':
        b = L(m, e, 0); x, y = m.load(o), m.load(b); m.store(o, y); m.store(b, x); return None
    return None

# ------------------------------------------------------------ lookup
def lookup(m, e):
    h = e.get('_h', 0)
    if h == 0:
        h = e['_h'] = find(m, e)
    if h is not None: return h
    if e.get('repo') and (m.absfield or m.abspoint or m.absaes):
        return lookup_abs(m, e)
    return None

def find(m, e):
    qn = e.get('qn')
    if qn is None: return None
    if e.get('repo') and not qn.startswith('__builtin_'): return None
    f = GMP.get(qn)
    if f: return f
    if qn.startswith('operator') and anygmp(m, e):
        op = qn[8:]
        if op in ('+', '-', '*', '/', '%', '&', '|', '^', '==', '!=', '<', '>', '<=', '>='):
            if len(e['c']) == 1: return mpz_unop(op)
            return mpz_binop(op)
        if op in ('<<', '>>'):
            t = m.fr.T[e['pt'][0]]
            if 'ostream' in t['s'] or 'istream' in t['s']: return stream_out
            return mpz_shift(op)
        if op == '~': return mpz_unop('~')
    if qn.startswith('__gmp_expr::'):
        n = qn[12:]
        if n.startswith('operator') and n[8:] in ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='):
            return mpz_cassign(n[8:-1])
        if n in ('operator++', 'operator--'): return mpz_incdec(n[-1])
        return lambda m, e, n=n: mpz_member(m, e, n)
    if qn in ('cmp', 'sgn', 'abs', 'gcd', 'swap') and anygmp(m, e):
        if qn == 'cmp': return lambda m, e: sign3(m, A(m, e, 0), A(m, e, 1))
        if qn == 'sgn': return lambda m, e: sign3(m, A(m, e, 0), 0)
        if qn == 'abs': return lambda m, e: m.cell(m.ap(lambda a: abs1(m, a), A(m, e, 0)))
        if qn == 'gcd':
            import math
            return lambda m, e: m.cell(math.gcd(concrete(m, A(m, e, 0), 'operand of gcd'), concrete(m, A(m, e, 1), 'operand of gcd')))
        if qn == 'swap': return swap_
    if qn in FUN: return FUN[qn]
    i = qn.rfind('::')
    if i > 0:
        cls, n = qn[:i], qn[i + 2:]
        if cls in ('std::vector', 'std::array', 'std::basic_string', 'std::initializer_list', 'std::deque', 'std::_Vector_base'):
            return lambda m, e, n=n: vec_method(m, e, n)
        if cls == 'std::bitset': return lambda m, e, n=n: m.stdlib.bitset_method(m, e, n)
        if cls == 'std::optional' or cls.startswith('std::_Optional'): return lambda m, e, n=n: m.stdlib.opt_method(m, e, n)
        if cls in m.stdlib.MAPS: return lambda m, e, n=n: m.stdlib.map_method(m, e, n)
        if cls in m.stdlib.BITREF: return lambda m, e, n=n: m.stdlib.bitref_method(m, e, n)
        if cls in ITER or cls in m.stdlib.MAPIT: return lambda m, e, n=n: iter_method(m, e, n)
        if cls in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr'): return lambda m, e, n=n: uptr_method(m, e, n)
        if cls == 'gmp_randclass': return lambda m, e, n=n: rng_method(m, e, n)
        if cls in ('std::tuple', 'std::pair') and n in ('operator=', 'swap'): return rec_assign
        if 'stream' in cls or 'ios' in cls: return stream_out
        if cls in EXC: return lambda m, e: I.Ptr(I.Table([0], None, 'what'), 0)
        if cls == 'std::function': return lambda m, e, n=n: func_method(m, e, n)
    if qn.startswith('__gnu_cxx::operator') or qn.startswith('std::operator'):
        op = qn.split('operator', 1)[1]
        ts = [m.fr.T[x]['s'] for x in e['pt']]
        if any('ostream' in s for s in ts): return stream_out
        if any('bitset' in s for s in ts): return lambda m, e, op=op: m.stdlib.bitset_bin(m, e, op)
        if any('iterator' in s for s in ts): return lambda m, e, op=op: iter_bin(m, e, op)
        if any('basic_string' in s for s in ts): return lambda m, e, op=op: str_bin(m, e, op)
        if any('vector' in s or 'array' in s for s in ts): return lambda m, e, op=op: vec_cmp(m, e, op)
        if any('tuple' in s or 'pair' in s for s in ts): return lambda m, e, op=op: tup_cmp(m, e, op)
        if any('unique_ptr' in s for s in ts): return lambda m, e, op=op: uptr_cmp(m, e, op)
    return None

def stream_out(m, e):
    if 'obj' in e:
        o = m.base_loc(e['obj'], e.get('arrow'))
        for c in e['c']: 
            try: m.ev(c)
            except I.Unsupported: raise
        return o
    r = None
    for i, c in enumerate(e['c']):
        x = m.ev(c)
        if i == 0: r = x
    return r
def rec_assign(m, e):
    o = obj(m, e); s = L(m, e, 0)
    s = one(m, s); o = one(m, o)
    if e['qn'].endswith('swap'):
        t = m.clone(o); m.copy_into(o, s); m.copy_into(s, t); return None
    # tie() targets hold references
    for (n, d), (k, x) in zip(o.f.items(), s.f.items()):
        if isinstance(d, I.Cell) and isinstance(d.ty, dict) and d.ty['k'] in ('ref', 'rref'): assign(m, d.v, deref_field(x))
        else: assign(m, d, deref_field(x))
    return o
def deref_field(x):
    if isinstance(x, I.Cell) and isinstance(x.ty, dict) and x.ty.get('k') in ('ref', 'rref'): return x.v
    return x
def assign(m, d, s):
    """element assignment (records through their operator=, conservatively bitwise)"""
    m.copy_into(d, s if not isinstance(s, (I.Cell,)) else m.val(s))

# ------------------------------------------------------------ std functions
FUN = {}
def fun(*names):
    def d(f):
        for n in names: FUN[n] = f
        return f
    return d
@fun('std::move', 'std::forward', 'std::as_const', '__builtin_expect', 'std::launder', 'std::make_move_iterator', 'std::make_reverse_iterator_')
def f_move(m, e):
    return L(m, e, 0)
@fun('__builtin_popcount', '__builtin_popcountl', '__builtin_popcountll', '__builtin_parity', '__builtin_parityl', '__builtin_parityll')
def f_popcount(m, e):
    t = m.fr.T[e['pt'][0]]
    def f(x):
        b = bits_of(x if not isinstance(x, int) else x & ((1 << t['bits']) - 1), t['bits'])
        if b is None: m.unsup('population count')
        if 'parity' in e['qn']:
            r = 0
            for q in b: r ^= q
            return B([r])
        r = 0
        for q in b:
            if q: r = iadd(r, 1 if q == 1 else m.toI(B([q])))
        return r
    return m.ap(f, A(m, e, 0))
@fun('__builtin_ctz', '__builtin_ctzl', '__builtin_ctzll', '__builtin_clz', '__builtin_clzl', '__builtin_clzll', '__builtin_ffs', '__builtin_ffsl')
def f_ctz(m, e):
    t = m.fr.T[e['pt'][0]]; x = concrete(m, A(m, e, 0), 'operand') & ((1 << t['bits']) - 1)
    if 'ffs' in e['qn']: return (x & -x).bit_length()
    if x == 0: m.event('ub', 'count of zero bits of zero'); return 0
    return (x & -x).bit_length() - 1 if 'ctz' in e['qn'] else t['bits'] - x.bit_length()
@fun('__builtin_bswap32', '__builtin_bswap64', '__builtin_bswap16')
def f_bswap(m, e):
    n = int(e['qn'][-2:])
    def f(x):
        b = bits_of(x, n)
        if b is None: m.unsup('byte swap')
        return m.wrap1(B([q for i in range(n // 8 - 1, -1, -1) for q in b[8 * i:8 * i + 8]]), n, False)
    return m.ap(f, A(m, e, 0))
@fun('std::addressof', '__builtin_addressof')
def f_addr(m, e): return m.addr_of(L(m, e, 0))
@fun('std::swap')
def swap_(m, e):
    a, b = one(m, L(m, e, 0)), one(m, L(m, e, 1))
    if isinstance(a, I.Vec) and a.kind in ('vector', 'string'):
        if not (m.uncond(a) and m.uncond(b)): m.split('swap of containers')
        a.items, b.items = b.items, a.items
        return
    t = m.clone(a); m.copy_into(a, m.val(b)); m.copy_into(b, m.val(t))
@fun('std::abs', 'abs', 'labs')
def f_abs(m, e): return m.ap(lambda a: abs1(m, a), A(m, e, 0))
@fun('std::make_tuple', 'std::make_pair', 'std::tie', 'std::forward_as_tuple')
def f_mktuple(m, e):
    t = m.fr.T[e['t']]
    o = m.new_obj(t)
    names = list(o.f)
    for n, c in zip(names, e['c']):
        v = m.ev(c)
        cell = o.f[n]
        if isinstance(cell, I.Cell) and isinstance(cell.ty, dict) and cell.ty['k'] in ('ref', 'rref'): cell.v = v
        else: put(m, o, n, v)
    return o
def put(m, o, n, v):
    c = o.f[n]
    if isinstance(c, I.Vec) and c.kind == 'string' and not isinstance(m.val(v), I.Vec):
        w = m.val(v); w = one(m, w) if isinstance(w, N) else w
        t = I.Ptr(w, 0) if isinstance(w, I.Table) else w
        c.items = [m.cell(ord(x)) for x in cstring(m, t)]; return
    if isinstance(c, I.Cell): m.store(c, m.wrapto(m.val(v), c.ty) if c.ty else m.val(v))
    else: m.copy_via_ctor(c, c.ty, v) if isinstance(c, I.Rec) else m.copy_into(c, v)
@fun('std::get')
def f_get(m, e):
    i = None
    T = m.fr.T
    for a in e.get('ta', ()):
        if isinstance(a, dict) and 'i' in a: i = int(a['i']); break
    o = L(m, e, 0)
    if i is None: m.unsup('std::get by type')
    return m.ap(lambda o: get_n(m, o, i), o)
def get_n(m, o, i):
    o = one(m, o)
    if isinstance(o, I.Vec): return m.elem(o, i)
    x = list(o.f.values())[i]
    return deref_field(x)
@fun('std::begin', 'std::cbegin', 'std::rbegin')
def f_begin(m, e):
    v = vecof(m, L(m, e, 0)); return I.Ptr(v, 0) if not e['qn'].endswith('rbegin') else I.Ptr(v, len(v.items), True)
@fun('std::end', 'std::cend', 'std::rend')
def f_end(m, e):
    v = vecof(m, L(m, e, 0))
    n = len(v.items) if isinstance(v, I.Vec) else len(v.raw)
    return I.Ptr(v, n) if not e['qn'].endswith('rend') else I.Ptr(v, 0, True)
@fun('std::size', 'std::empty')
def f_size(m, e):
    v = vecof(m, L(m, e, 0))
    n = len(v.items) if isinstance(v, I.Vec) else len(v.raw)
    return n if e['qn'] == 'std::size' else n == 0
@fun('std::next', 'std::prev', 'std::advance')
def f_next(m, e):
    p = L(m, e, 0)
    n = A(m, e, 1) if len(e['c']) > 1 else 1
    if e['qn'] == 'std::advance':
        m.store(p, m.arith('+', m.val(p), n)); return None
    return m.arith('+' if e['qn'] == 'std::next' else '-', m.val(p), n)
@fun('std::distance')
def f_distance(m, e): return m.arith('-', A(m, e, 1), A(m, e, 0))
def rng_of(m, e, i=0):
    a, b = one(m, A(m, e, i)), one(m, A(m, e, i + 1))
    if a.rev: return a.o, list(range(a.i - 1, b.i - 1, -1))
    return a.o, list(range(a.i or 0, b.i or 0))
@fun('std::random_shuffle', 'std::shuffle')
def f_shuffle(m, e):
    o, idx = rng_of(m, e)
    shuffle(m, o, idx, e)
def shuffle(m, o, idx, e):
    rec = {'o': o, 'n': len(idx), 'g': m.g, 'loc': m.loc(), 'kind': e['qn'], 'stack': m.stack()}
    h = m.hooks.get('shuffle')
    m.shuffles.append(rec)
    if h: h(m, o, idx, rec)
@fun('std::reverse')
def f_reverse(m, e):
    o, idx = rng_of(m, e)
    if not m.uncond(o): m.split('reverse')
    its = [o.items[i] for i in idx]
    for i, x in zip(idx, reversed(its)): o.items[i] = x
@fun('std::fill', 'std::fill_n')
def f_fill(m, e):
    if e['qn'] == 'std::fill':
        o, idx = rng_of(m, e); v = L(m, e, 2)
    else:
        p = one(m, A(m, e, 0)); n = concrete(m, A(m, e, 1), 'count'); o = p.o; idx = range(p.i or 0, (p.i or 0) + n); v = L(m, e, 2)
    for i in idx:
        c = m.elem(o, i)
        if c is not None: m.copy_into(c, m.val(v))
def call_any(m, f, args):
    f = m.val(f)
    if isinstance(f, I.Cell): f = m.load(f)
    return m.call_dyn(f, args, None)
def func_method(m, e, n):
    o = obj(m, e)
    if n == 'operator()': return call_any(m, o, [m.ev(c) for c in e['c']])
    if n == 'operator=': m.store(o, m.val(L(m, e, 0))); return o
    if n == 'operator bool': return True
    m.unsup('std::function::' + n)
@fun('std::make_unique', 'std::make_shared')
def f_mkuniq(m, e):
    t = m.fr.T[e['t']]
    et = targ(t, 0)
    if et['k'] == 'arr':
        el = et['_T'][et['to']] if isinstance(et['to'], int) else et['to']
        n = concrete(m, A(m, e, 0), 'size'); o = I.Vec([], 'heap', el, m.g, None)
        o.items = [dflt_elem(m, o) for _ in range(n)]
        m.note_alloc(o, 'new[]')
        u = m.new_obj(t); m.store(u.f['p'], I.Ptr(o, 0))
        return u
    o = m.new_obj(et); m.set_birth(o, m.g, None)
    if isinstance(o, I.Rec):
        if e['c']:
            args = [m.ev(c) for c in e['c']]
            construct_with(m, o, et, args)
        else:
            c = m.prog.default_ctor(et)
            if c and 'body' in c: m.call_fn(c, o, [], None)
            else: value_init(m, o); m.default_init(o, et)
    elif isinstance(o, I.Cell):
        if e['c']: m.store(o, m.wrapto(m.val(m.ev(e['c'][0])), et))
        else: m.zero_fill(o)
    elif isinstance(o, I.Vec) and e['c']: o.items = vec_from(m, o, [m.ev(c) for c in e['c']])
    m.note_alloc(o, 'new')
    u = m.new_obj(t); m.store(u.f['p'], I.Ptr(o))
    return u
def vec_from(m, o, args):
    v = m.val(args[0]); v = one(m, v) if isinstance(v, N) else v
    if isinstance(v, I.Vec) and len(args) == 1: return [mk_elem(m, o, x) for x in v.items]
    if isinstance(v, int):
        return [mk_elem(m, o, args[1]) if len(args) > 1 else dflt_elem(m, o) for _ in range(v)]
    m.unsup('make_unique of a container')
def uptr_method(m, e, n):
    o = one(m, obj(m, e))
    p = o.f['p']
    if n in ('get', 'operator->'): return m.load(p)
    if n == 'operator*': return m.deref(m.load(p))
    if n == 'operator[]': return m.deref(m.arith('+', m.load(p), A(m, e, 0)))
    if n == 'use_count': m.unsup('use_count')
    if n == 'swap':
        q = one(m, L(m, e, 0)).f['p']; a, b = m.load(p), m.load(q); m.store(p, b); m.store(q, a); return None
    if n == 'operator bool': return m.truth(m.load(p))
    if n == 'release':
        v = m.load(p); m.store(p, I.NULL); return v
    if n in ('reset', 'operator='):
        new = I.NULL
        if e['c']:
            s = L(m, e, 0); sv = m.val(s)
            if isinstance(sv, I.Rec):
                new = m.load(sv.f['p'])
                if sv is o: return o
                if sv.ty['qn'] == 'std::unique_ptr': m.store(sv.f['p'], I.NULL)
            else: new = sv
        del_uptr(m, o)
        m.store(p, new)
        return o
    m.unsup('unique_ptr::' + n)
def own_deleter(m, o):
    """the deleter of a unique_ptr that has one of its own"""
    t = targ(o.ty, 1)
    if o.ty['qn'] != 'std::unique_ptr' or t is None or 'default_delete' in (t.get('qn') or t.get('s') or ''): return None, None
    d = m.load(o.f['d']) if 'd' in o.f else None
    if t['k'] == 'rec' and m.prog.rec(t) is not None and not isinstance(d, I.Closure):
        fs = [f for f in m.prog.fns.values() if f['qn'].endswith('::operator()') and 'rec' in f and f['_T'][f['rec']].get('usr') == t.get('usr') and len(f['params']) == 1]
        if len(fs) == 1: return 'fn', (fs[0], m.new_obj(t))
        m.unsup('deleter of a unique_ptr')
    if d is None or isinstance(d, I.Undef): m.unsup('deleter of a unique_ptr')
    return 'val', d
def del_uptr(m, o):
    v = m.load(o.f['p'])
    et = targ(o.ty, 0)
    how, d = own_deleter(m, o)
    if how:
        g0 = m.g
        for g, x in leaves(v, m.g):
            if not isinstance(x, I.Ptr): continue
            m.g = g
            if how == 'fn': m.call_fn(d[0], d[1], [x], None)
            else: call_any(m, d, [x])
        m.g = g0
        return
    for g, x in leaves(v, m.g):
        if isinstance(x, I.Ptr):
            if isinstance(x.o, I.Rec):
                g0 = m.g; m.g = g
                a = m.find_alloc(x.o)
                if a and isF(AND(g, a['freed'])): m.destroy(x.o, et)
                m.g = g0
    a = None
    for g, x in leaves(v, m.g):
        if isinstance(x, I.Ptr): a = m.find_alloc(x.o)
    how = 'delete[]' if a and a['how'] == 'new[]' else 'delete'
    if a and a['how'] == 'malloc': how = 'free'
    m.free_ptr(v, how)
def uptr_cmp(m, e, op):
    vs = []
    for c in e['c']:
        v = m.val(m.ev(c)); vs.append(m.load(v.f['p']) if isinstance(v, I.Rec) else v)
    return m.arith(op, vs[0], vs[1])
def destroy_std(m, o, ty):
    if ty['qn'] == 'std::unique_ptr':
        del_uptr(m, o); return True
    return False
@fun('std::get_deleter')
def f_x(m, e): m.unsup('get_deleter')
# libc
@fun('printf', 'fprintf', 'puts', 'putchar', 'fputs', 'perror', 'fflush', 'ERR_get_error', 'ERR_error_string', 'ERR_print_errors_fp', 'std::printf', 'std::fprintf', 'ERR_print_errors')
def f_print(m, e):
    for c in e['c']: m.ev(c)
    return 0 if 'string' not in e['qn'] else I.NULL
@fun('abort', 'exit', '_exit', 'std::abort', 'std::exit', 'std::terminate', 'quick_exit', '__assert_fail', '__assert', '__builtin_unreachable', '__builtin_trap', '__builtin_abort')
def f_abort(m, e):
    m.die(m.g, 'abort')
    return None
class Lazy:
    """elements of a very large buffer, made when looked at"""
    def __init__(self, n, f): self.n = n; self.f = f; self.d = {}
    def __len__(self): return self.n
    def __getitem__(self, i):
        if isinstance(i, slice):
            r = range(*i.indices(self.n))
            if len(r) > 1 << 20: raise I.Unsupported('very large buffer')
            return [self[k] for k in r]
        if i < 0: i += self.n
        c = self.d.get(i)
        if c is None: c = self.d[i] = self.f(i)
        return c
    def __setitem__(self, i, v): self.d[i] = v
    def __iter__(self): raise I.Unsupported('traversal of a very large buffer')
BIG = 1 << 24
@fun('malloc', 'std::malloc', 'calloc', 'std::calloc', 'CRYPTO_malloc', 'CRYPTO_zalloc')
def f_malloc(m, e):
    n = A(m, e, 0)
    if 'calloc' in e['qn']: n = m.arith('*', n, A(m, e, 1))
    n = concrete(m, n, 'allocation size')
    z = 0 if 'calloc' in e['qn'] or 'zalloc' in e['qn'] else I.UNDEF
    g = m.g
    v = I.Vec(Lazy(n, lambda i: I.Cell(z, g, None, None)) if n > BIG else [I.Cell(z, m.g, None, None) for _ in range(n)], 'heap', None, m.g, None)
    v.align = m.hooks.get('malloc_align', lambda: 16)()
    m.note_alloc(v, 'malloc')
    h = m.hooks.get('malloc_fail')
    if h: return h(m, I.Ptr(v, 0))
    return I.Ptr(v, 0)
@fun('realloc', 'std::realloc')
def f_realloc(m, e):
    p = one(m, A(m, e, 0)); n = concrete(m, A(m, e, 1), 'allocation size')
    old = p.o.items if isinstance(p, I.Ptr) else []
    if isinstance(p, I.Ptr):
        if p.o.dead: m.event('use-after-free', 'reallocates %s' % p.o.dead)
    if n > BIG or isinstance(old, Lazy): m.unsup('reallocation of a very large buffer')
    v = I.Vec([I.Cell(m.load(old[i]) if i < len(old) else I.UNDEF, m.g, None, None) for i in range(n)], 'heap', None, m.g, None)
    v.align = 16
    if isinstance(p, I.Ptr): m.free_ptr(p, 'free')
    m.note_alloc(v, 'malloc')
    return I.Ptr(v, 0)
@fun('free', 'std::free', 'CRYPTO_free')
def f_free(m, e): m.free_ptr(A(m, e, 0), 'free')
@fun('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy', '__builtin_memmove', '__builtin___memcpy_chk')
def f_memcpy(m, e):
    d = one(m, A(m, e, 0)); s = one(m, A(m, e, 1)); n = concrete(m, A(m, e, 2), 'copy length')
    if n == 0: return d
    bs = read_bytes(m, s, n)
    if bs is None: return d
    write_bytes(m, d, bs)
    return d
def read_bytes(m, p, n):
    """n byte values (bit vectors) behind a pointer"""
    if not isinstance(p, I.Ptr): m.deref(p); return None
    o = p.o
    if isinstance(o, I.Cell) and p.i is None:
        v = m.load(o); t = o.ty
        w = t['bits'] // 8 if isinstance(t, dict) and t.get('k') == 'int' else 8
        if n > w: m.event('out-of-bounds', 'reads %d bytes of a %d-byte object' % (n, w), kill=True); return None
        b = bits_of(one(m, v), 8 * w)
        if b is None: m.unsup('bytes of %r' % (v,))
        return [B(b[8 * i:8 * i + 8]) for i in range(n)]
    if isinstance(o, I.Vec) and isinstance(o.ety, dict) and o.ety.get('k') == 'int' and o.ety['bits'] > 8:
        w = o.ety['bits'] // 8; out = []
        k = p.i or 0
        while len(out) < n:
            c = m.elem(o, k)
            if c is None: return None
            b = bits_of(one(m, m.load(c)), 8 * w)
            out += [B(b[8 * i:8 * i + 8]) for i in range(w)]; k += 1
        return out[:n]
    out = []
    for i in range(n):
        c = m.deref(I.Ptr(o, (p.i or 0) + i, p.rev))
        if c is None: return None
        out.append(m.load(c))
    return out
def write_bytes(m, p, bs):
    if not isinstance(p, I.Ptr): m.deref(p); return
    o = p.o
    if isinstance(o, I.Cell) and p.i is None:
        t = o.ty; w = t['bits'] // 8 if isinstance(t, dict) and t.get('k') == 'int' else 8
        if len(bs) > w: m.event('out-of-bounds', 'writes %d bytes to a %d-byte object' % (len(bs), w), kill=True); return
        old = m.load(o)
        if len(bs) < w and not isinstance(old, I.Undef): ob = bits_of(one(m, old), 8 * w)
        else: ob = [0] * (8 * w)
        nb = [f for y in bs for f in bits_of(one(m, 0 if isinstance(y, I.Undef) else y), 8)]
        m.store(o, m.wrap1(B(nb + ob[len(nb):]), 8 * w, t['signed'] if isinstance(t, dict) and 'signed' in t else False))
        return
    for i, y in enumerate(bs):
        c = m.deref(I.Ptr(o, (p.i or 0) + i))
        if c is None: return
        m.store(c, y)
@fun('memset', 'std::memset', '__builtin_memset', 'explicit_bzero', 'OPENSSL_cleanse', 'bzero')
def f_memset(m, e):
    d = one(m, A(m, e, 0))
    if e['qn'] in ('explicit_bzero', 'OPENSSL_cleanse', 'bzero'): v, n = 0, A(m, e, 1)
    else: v, n = A(m, e, 1), A(m, e, 2)
    n = concrete(m, n, 'fill length'); v = concrete(m, v, 'fill value') & 255
    write_bytes(m, d, [v] * n)
    return d
@fun('memcmp', 'std::memcmp', 'CRYPTO_memcmp')
def f_memcmp(m, e):
    a = one(m, A(m, e, 0)); b = one(m, A(m, e, 1)); n = concrete(m, A(m, e, 2), 'length')
    x = read_bytes(m, a, n); y = read_bytes(m, b, n)
    if x is None or y is None: return 0
    bx = B([f for z in x for f in bits_of(one(m, z), 8)]); by = B([f for z in y for f in bits_of(one(m, z), 8)])
    return ite(m.cmp1('==', bx, by), 0, 1)
@fun('rand', 'random', 'std::rand', 'time', 'srand', 'lrand48', 'mrand48', 'clock', 'getpid', 'srandom', 'arc4random')
def f_rand(m, e):
    for c in e['c']: m.ev(c)
    if e['qn'].startswith('srand'): return None
    v = var('weak', len(VARS), 0, 2**31 - 1, name='%s()#%d' % (e['qn'], len(VARS)))
    m.draws.append({'kind': 'weak', 'fn': e['qn'], 'v': v, 'g': m.g, 'loc': m.loc(), 'lo': 0, 'hi': 2**31})
    return V(v)
@fun('__builtin_bswap32', '__bswap_32', '__builtin_bswap16', '__builtin_bswap64', 'htonl', 'ntohl', 'htole32', 'le32toh', '__uint32_identity')
def f_bswap(m, e):
    x = A(m, e, 0)
    n = {'__builtin_bswap16': 2, '__builtin_bswap64': 8}.get(e['qn'], 4)
    if e['qn'] in ('htole32', 'le32toh', '__uint32_identity'): return x
    def f(x):
        b = bits_of(x, 8 * n)
        if b is None: m.unsup('bswap')
        return B([f for i in range(n - 1, -1, -1) for f in b[8 * i:8 * i + 8]])
    return m.ap(f, x)
@fun('strlen', 'std::strlen')
def f_strlen(m, e): return len(cstring(m, A(m, e, 0)))
@fun('std::to_string')
def f_tostring(m, e):
    return mpz_str(m, A(m, e, 0), 10)

# ------------------------------------------------------------ containers
def vecof(m, o):
    o = one(m, o, 'container')
    if isinstance(o, I.Ptr) and o.i == 0: o = o.o
    if isinstance(o, I.Cell):
        o = m.load(o)
    if not isinstance(o, (I.Vec, I.Table)): m.unsup('container %r' % (o,))
    if isinstance(o, I.Vec) and o.dead: m.event('use-after-free', 'uses %s' % o.dead)
    return o
def mutate(m, v, why):
    if not m.uncond(v): m.split('size of a container (%s)' % why)
def mk_elem(m, v, x, move=False):
    """fresh element holding a copy of x"""
    t = v.ety
    if t is None: return m.cell(m.val(x))
    o = m.new_obj(t)
    if move and isinstance(o, I.Rec) and isinstance(x, I.Rec):
        if o.tag == 'unique_ptr': m.move_into(o, x); return o
        f = m.prog._ctor(t, 'movector') if m.prog.rec(t) is not None and not absctor(m, t) else None
        if f is not None and 'body' in f: m.call_fn(f, o, [x], None); return o
    if isinstance(o, I.Rec): m.copy_via_ctor(o, t, x)
    elif isinstance(o, I.Cell): m.store(o, m.wrapto(m.val(x), t) if t['k'] != 'rec' else m.val(x))
    else: m.copy_into(o, x)
    return o
def dflt_elem(m, v):
    t = v.ety
    if t is None: return m.cell(0)
    o = m.new_obj(t)
    if isinstance(o, I.Rec):
        if m.prog.rec(t) is None: default_tuple(m, o); return o
        if absctor(m, t): lookup_ctor_abs_default(m, o, t)
        else:
            c = m.prog.default_ctor(t)
            if c and 'body' in c:
                if c.get('defaulted') or c.get('implicit'): value_init(m, o)
                m.call_fn(c, o, [], None)
            else:
                value_init(m, o); m.default_init(o, t)
    elif isinstance(o, I.Cell): m.zero_fill(o) if t['k'] != 'rec' else None
    elif isinstance(o, I.Vec) and t['k'] == 'arr': m.zero_fill(o)
    return o
def value_init(m, o):
    """zero the scalars of an object without a user-provided default constructor"""
    for x in o.f.values():
        if isinstance(x, I.Cell) and isinstance(x.ty, dict) and x.ty['k'] in ('int', 'bool', 'enum', 'ptr', 'float', 'nullptr'): m.zero_fill(x)
        elif isinstance(x, I.Vec) and x.kind == 'carray' and isinstance(x.ety, dict) and x.ety['k'] in ('int', 'bool', 'enum', 'ptr', 'float'): m.zero_fill(x)
        elif isinstance(x, I.Rec) and m.prog.rec(x.ty) is not None and not absctor(m, x.ty):
            c = m.prog.default_ctor(x.ty)
            if not c or c.get('defaulted') or c.get('implicit'): value_init(m, x)
def default_tuple(m, o):
    for n, x in o.f.items():
        if isinstance(x, I.Cell) and x.ty and x.ty['k'] != 'rec': m.zero_fill(x)
        elif isinstance(x, I.Rec):
            t = x.ty
            if absctor(m, t): lookup_ctor_abs_default(m, x, t); continue
            c = m.prog.default_ctor(t)
            if c and 'body' in c: m.call_fn(c, x, [], None)
            elif m.prog.rec(t): m.default_init(x, t)
            else: default_tuple(m, x)
def vec_method(m, e, n):
    if 'obj' not in e: m.unsup(e['qn'])
    o = obj(m, e)
    if n in ('operator[]', 'at', 'front', 'back') and isinstance(o, N):
        i = A(m, e, 0) if n in ('operator[]', 'at') else None
        return m.ap(lambda v: vec_at(m, v, n, i), o)
    v = vecof(m, o)
    items = v.items
    if n in ('operator[]', 'at', 'front', 'back'):
        i = A(m, e, 0) if n in ('operator[]', 'at') else None
        return vec_at(m, v, n, i)
    if n in ('size', 'length', 'max_size', 'capacity'): return len(items)
    if n == 'empty': return len(items) == 0
    if n in ('begin', 'cbegin', 'data', 'c_str'): return I.Ptr(v, 0)
    if n in ('end', 'cend'): return I.Ptr(v, len(items))
    if n in ('rbegin', 'crbegin'): return I.Ptr(v, len(items), True)
    if n in ('rend', 'crend'): return I.Ptr(v, 0, True)
    if n == 'reserve' or n == 'shrink_to_fit':
        for c in e['c']: m.ev(c)
        return None
    if n == 'push_back':
        x = L(m, e, 0)
        mutate(m, v, n); m.setitems(v, items + [mk_elem(m, v, x, m.fr.T[e['pt'][0]]['k'] == 'rref')]); return None
    if n == 'emplace_back':
        mutate(m, v, n)
        args = [m.ev(c) for c in e['c']]
        if len(args) == 1 and isinstance(m.val(args[0]), I.Rec) and v.ety['k'] == 'rec' and args[0].ty.get('usr') == v.ety.get('usr') and 'usr' in v.ety if isinstance(args[0] if args else None, I.Rec) else False:
            x = mk_elem(m, v, args[0], m.fr.T[e['pt'][0]]['k'] == 'rref')
        elif len(args) == 1 and (not isinstance(m.val(args[0]), I.Rec) or v.ety['k'] != 'rec' or m.val(args[0]).ty.get('usr') == v.ety.get('usr')) and not (v.ety['k'] == 'rec' and m.prog.rec(v.ety) and not isinstance(m.val(args[0]), I.Rec)):
            x = mk_elem(m, v, args[0])
        elif not args: x = dflt_elem(m, v)
        else: x = emplace(m, v.ety, args)
        m.setitems(v, items + [x]); return x
    if n == 'pop_back':
        if not items: m.event('out-of-bounds', 'pop_back of an empty container', kill=True); return None
        mutate(m, v, n); m.setitems(v, items[:-1]); return None
    if n == 'clear':
        mutate(m, v, n); m.setitems(v, []); return None
    if n == 'resize':
        k = concrete(m, A(m, e, 0), 'size'); mutate(m, v, n)
        if k <= len(items): m.setitems(v, items[:k])
        else:
            if len(e['c']) > 1:
                x = L(m, e, 1); m.setitems(v, items + [mk_elem(m, v, x) for _ in range(k - len(items))])
            else: m.setitems(v, items + [dflt_elem(m, v) for _ in range(k - len(items))])
        return None
    if n == 'assign':
        mutate(m, v, n)
        a0 = m.val(L(m, e, 0))
        if isinstance(a0, I.Ptr):
            o2, idx = rng_of(m, e); m.setitems(v, [mk_elem(m, v, m.elem(o2, i)) for i in idx])
        elif isinstance(a0, I.Vec): m.setitems(v, [mk_elem(m, v, x) for x in a0.items])
        else:
            k = concrete(m, a0, 'size'); x = L(m, e, 1)
            m.setitems(v, [mk_elem(m, v, x) for _ in range(k)])
        return v
    if n == 'operator=':
        s = L(m, e, 0)
        if isinstance(s, N): m.copy_into(v, s); return v
        s = m.val(s)
        if s is v: return v
        if isinstance(s, I.Vec):
            if v.kind == 'array' or len(v.items) == len(s.items):
                for d, x in zip(v.items, s.items): m.copy_into(d, m.val(x))
                return v
            mutate(m, v, 'assignment')
            m.setitems(v, [mk_elem(m, v, x) for x in s.items]); return v
        if isinstance(s, I.Ptr):
            mutate(m, v, 'assignment'); t = cstring(m, s)
            m.setitems(v, [m.cell(ord(c)) for c in t]); return v
        m.unsup('container assignment')
    if n == 'swap':
        w = vecof(m, L(m, e, 0)); mutate(m, v, n); mutate(m, w, n)
        v.items, w.items = w.items, v.items; return None
    if n == 'fill':
        x = L(m, e, 0)
        for c in items: m.copy_into(c, m.val(x))
        return None
    if n in ('operator+=', 'append'):
        s = m.val(L(m, e, 0)); mutate(m, v, n)
        if isinstance(s, I.Vec):
            a = concrete(m, A(m, e, 1), 'position') if len(e['c']) > 1 else 0
            k = concrete(m, A(m, e, 2), 'length') if len(e['c']) > 2 else len(s.items)
            m.setitems(v, items + [m.clone(x) for x in s.items[a:a + min(k, len(s.items))]])
        elif isinstance(s, I.Ptr) and len(e['c']) == 2:
            k = one(m, m.val(L(m, e, 1)), 'length')
            if isinstance(k, I.Ptr): k = k.i - s.i
            m.setitems(v, items + [m.cell(b) for b in (read_bytes(m, s, concrete(m, k, 'length')) or [])])
        elif isinstance(s, I.Ptr): m.setitems(v, items + [m.cell(ord(c)) for c in cstring(m, s)])
        elif isinstance(s, (int, BV, Poly)) and len(e['c']) == 1: m.setitems(v, items + [m.cell(s)])
        elif isinstance(s, int) and len(e['c']) == 2:
            x = m.val(L(m, e, 1)); m.setitems(v, items + [m.cell(x) for _ in range(s)])
        else: m.unsup('append')
        return v
    if n in ('insert', 'erase') and v.kind == 'string' and (not e['c'] or isinstance(m.val(L(m, e, 0)), int)):
        a = concrete(m, A(m, e, 0), 'position') if e['c'] else 0; mutate(m, v, n)
        if n == 'erase':
            k = concrete(m, A(m, e, 1), 'length') if len(e['c']) > 1 else len(items)
            m.setitems(v, items[:a] + items[a + min(k, len(items)):]); return v
        s = m.val(L(m, e, 1))
        if isinstance(s, int) and len(e['c']) > 2: new = [m.cell(m.val(L(m, e, 2))) for _ in range(s)]
        else: new = [m.clone(x) for x in s.items] if isinstance(s, I.Vec) else [m.cell(ord(c)) for c in cstring(m, s)]
        m.setitems(v, items[:a] + new + items[a:]); return v
    if n == 'insert':
        p = one(m, A(m, e, 0)); mutate(m, v, n)
        a1 = L(m, e, 1); k = p.i
        if len(e['c']) == 2:
            b = m.val(a1)
            if isinstance(b, I.Vec) and (b.kind == 'ilist' or 'initializer_list' in m.fr.T[e['pt'][1]]['s']): xs = [mk_elem(m, v, x) for x in b.items]
            else: xs = [mk_elem(m, v, a1)]
            m.setitems(v, items[:k] + xs + items[k:])
        else:
            b = m.val(a1)
            b = one(m, b) if isinstance(b, N) and any(isinstance(x, I.OBJ + (I.Ptr,)) for _, x in leaves(b, m.g)) else b
            if isinstance(b, I.Ptr):
                o2, idx = rng_of(m, e, 1); m.setitems(v, items[:k] + [mk_elem(m, v, m.elem(o2, i)) for i in idx] + items[k:])
            else:
                cnt = concrete(m, b, 'count'); x = L(m, e, 2); m.setitems(v, items[:k] + [mk_elem(m, v, x) for _ in range(cnt)] + items[k:])
        return I.Ptr(v, k)
    if n == 'erase':
        p = one(m, A(m, e, 0)); mutate(m, v, n)
        if len(e['c']) == 2: q = one(m, A(m, e, 1)).i
        else: q = p.i + 1
        m.setitems(v, items[:p.i] + items[q:]); return I.Ptr(v, p.i)
    if n in ('find', 'rfind', 'compare') and v.kind == 'string':
        x = m.val(L(m, e, 0)); x = one(m, x) if isinstance(x, N) else x
        ys = [ord(c) for c in cstring(m, x)] if isinstance(x, I.Ptr) else [m.load(c) for c in x.items] if isinstance(x, I.Vec) else [x]
        xs = [m.load(c) for c in items]
        if not all(isinstance(c, int) for c in xs + ys): m.unsup('search in an unknown string')
        if n == 'compare': return (xs > ys) - (xs < ys)
        p0 = concrete(m, A(m, e, 1), 'position') if len(e['c']) > 1 else 0
        ps = [i for i in range(p0, len(xs) - len(ys) + 1) if xs[i:i + len(ys)] == ys] if n == 'find' else [i for i in range(len(xs) - len(ys) + 1) if xs[i:i + len(ys)] == ys]
        return (ps[0] if n == 'find' else ps[-1]) if ps else (1 << 64) - 1
    if n == 'substr':
        a = concrete(m, A(m, e, 0), 'index') if e['c'] else 0
        k = concrete(m, A(m, e, 1), 'length') if len(e['c']) > 1 else len(items)
        return I.Vec([m.clone(x) for x in items[a:a + min(k, len(items))]], 'string', v.ety, m.g, m.fr)
    m.unsup('%s on a container' % e['qn'])
def vec_at(m, v, n, i):
    if isinstance(v, I.Cell): v = m.load(v)
    if isinstance(v, N): return m.ap(lambda w: vec_at(m, w, n, i), v)
    if v.dead: m.event('use-after-free', 'uses %s' % v.dead)
    if n == 'front': i = 0
    if n == 'back': i = len(v.items) - 1
    if n == 'at':
        def f(i):
            if isinstance(i, int) and not 0 <= i < len(v.items):
                m.die(m.g, 'throw', 'std::out_of_range'); return None
            return m.elem(v, i)
        return m.ap(f, i)
    return m.ap(lambda i: m.elem(v, i), i)
def construct_with(m, o, t, args):
    """run the constructor of t that takes these arguments on the storage o"""
    if m.prog.rec(t) is None:
        for (n, x), a in zip(o.f.items(), args): put(m, o, n, a)
        return
    if absctor(m, t):
        abs_ctor(m, o, {'c': [{'k': 'given', 'v': a} for a in args]}, t); return
    if len(args) == 1:
        a = m.val(args[0]) if isinstance(args[0], (I.Cell, N)) else args[0]
        if isinstance(a, I.Rec) and a.ty.get('usr') == t.get('usr'): m.copy_into(o, a); return
    cands = [f for f in m.prog.fns.values() if f.get('ctor') and f['_T'][f['rec']].get('usr') == t['usr'] and len(f['params']) == len(args) and not f.get('copyctor') and not f.get('movector')]
    if len(cands) != 1: m.unsup('emplace constructor')
    a2 = []
    for a, p in zip(args, cands[0]['params']):
        pt = cands[0]['_T'][p['t']]
        a2.append(a if pt['k'] in ('ref', 'rref') else m.clone(a) if pt['k'] == 'rec' else m.val(a))
    m.call_fn(cands[0], o, a2, None)
def emplace(m, t, args):
    o = m.new_obj(t)
    construct_with(m, o, t, args)
    return o
def iter_method(m, e, n):
    o = obj(m, e); p = m.val(o)
    if n in ('operator*', 'operator->'):
        if n == 'operator*': return m.deref(p)
        return m.ap(lambda q: I.Ptr(m.deref1(q)), p)
    if n in ('operator++', 'operator--'):
        m.store(o, m.arith(n[-1], p, 1))
        return p if e['c'] else o
    if n in ('operator+=', 'operator-='):
        m.store(o, m.arith(n[8], p, A(m, e, 0))); return o
    if n in ('operator+', 'operator-'): return m.arith(n[8], p, A(m, e, 0))
    if n == 'operator[]': return m.deref(m.arith('+', p, A(m, e, 0)))
    if n == 'operator=': m.store(o, A(m, e, 0)); return o
    if n == 'base': return m.ap(lambda q: I.Ptr(q.o, q.i), p)
    m.unsup('iterator ' + n)
def iter_bin(m, e, op):
    return m.arith(op, A(m, e, 0), A(m, e, 1))
def str_bin(m, e, op):
    def get(v):
        v = m.val(v)
        if isinstance(v, I.Ptr): return [ord(c) for c in cstring(m, v)]
        if isinstance(v, I.Vec): return [m.load(x) for x in v.items]
        if isinstance(v, int): return [v]
        m.unsup('string operand')
    x, y = get(L(m, e, 0)), get(L(m, e, 1))
    if op == '+': return I.Vec([m.cell(c) for c in x + y], 'string', None, m.g, m.fr)
    if op in ('<', '>', '<=', '>=') and all(isinstance(c, int) for c in x + y):
        return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
    if op in ('==', '!='):
        if len(x) != len(y): r = False
        else:
            r = True
            for a, b in zip(x, y): r = AND(r, m.arith('==', a, b))
        return r if op == '==' else NOT(r)
    m.unsup('string ' + op)
def vec_cmp(m, e, op):
    a, b = one(m, m.val(L(m, e, 0))), one(m, m.val(L(m, e, 1)))
    if not isinstance(a, I.Vec) or not isinstance(b, I.Vec): m.unsup('container comparison')
    return vec_cmp2(m, a, b, op)
def vec_cmp2(m, a, b, op):
    if op == '!=': return NOT(vec_cmp2(m, a, b, '=='))
    if op == '==':
        if len(a.items) != len(b.items): return False
        r = True
        for x, y in zip(a.items, b.items): r = AND(r, m.stdlib.eq(m, x, y))
        return r
    if op == '>': return vec_cmp2(m, b, a, '<')
    if op in ('<=', '>='): return NOT(vec_cmp2(m, b, a, '<') if op == '<=' else vec_cmp2(m, a, b, '<'))
    r = len(a.items) < len(b.items)
    for x, y in reversed(list(zip(a.items, b.items))):
        lt = m.truth(m.val(m.stdlib.prim(m, '<', [x, y]))); gt = m.truth(m.val(m.stdlib.prim(m, '<', [y, x])))
        r = OR(lt, AND(NOT(gt), r))
    return r
def tup_cmp(m, e, op):
    a, b = one(m, m.val(L(m, e, 0))), one(m, m.val(L(m, e, 1)))
    f = lambda r: I.Vec([deref_field(x) for x in r.f.values()], 'tuple')
    return vec_cmp2(m, f(a), f(b), op)
def range_items(m, r):
    o = m.val(r)
    o = one(m, o, 'range')
    if isinstance(o, I.Vec):
        if o.dead: m.event('use-after-free', 'uses %s' % o.dead)
        return list(o.items)
    if isinstance(o, I.Table): return [I.TabRef(o, i) for i in range(len(o.raw))]
    if isinstance(o, I.Map): return [m.stdlib.entry_loc(o, o.d[k]) for k in o.keys()]
    m.unsup('range %r' % (o,))

# ------------------------------------------------------------ random numbers
def draw(m, kind, lo, hi, name, src=None):
    """fresh value in [lo,hi)"""
    k = len(m.draws)
    h = m.hooks.get('draw')
    if h:
        r = h(m, kind, lo, hi, name)
        if r is not None: return r
    v = var('draw', (id(m), k), lo, hi - 1, name='%s%d' % (name, k))
    d = {'kind': kind, 'v': v, 'g': m.g, 'loc': m.loc(), 'lo': lo, 'hi': hi, 'stack': m.stack()}
    if src is not None:
        d['rng'] = src
        if not src.d.get('static') and not src.d.get('seeded'): d['kind'] = 'weak'; d['why'] = 'drawn from a generator that is constructed afresh with the default seed'
        elif src.d.get('seeded') == 'weak': d['kind'] = 'weak'; d['why'] = 'drawn from a generator seeded with a value that is not itself random'
    m.draws.append(d)
    return V(v)
def strong_seed(v):
    """the seed is determined by at least 128 bits drawn from a generator"""
    for _, x in leaves(v, True):
        if isinstance(x, FE): ids = fvars(x)
        elif isinstance(x, Poly): ids = dvars(x.d)
        else: return False
        if not any(VARS[i].kind == 'draw' and VARS[i].hi - VARS[i].lo + 1 >= 1 << 128 for i in ids): return False
    return True
def rng_method(m, e, n):
    o = obj(m, e)
    src = one(m, o, 'generator')
    if not isinstance(src, I.Opq): src = None
    if n == 'get_z_range':
        b = concrete(m, A(m, e, 0), 'range of a random number')
        if b <= 0: m.event('div-zero', 'random number from an empty range', kill=True); return m.cell(0)
        return m.cell(draw(m, 'range', 0, b, 'rnd', src))
    if n == 'get_z_bits':
        b = concrete(m, A(m, e, 0), 'number of random bits')
        return m.cell(draw(m, 'bits', 0, 1 << b, 'rb', src))
    if n == 'seed':
        vs = [m.val(m.ev(c)) for c in e['c']]
        if src is not None: src.d['seeded'] = 'strong' if vs and all(strong_seed(v) for v in vs) else 'weak'
        return None
    m.unsup('gmp_randclass::' + n)

# ------------------------------------------------------------ libcrypto
@fun('EVP_CIPHER_CTX_new')
def evp_new(m, e):
    o = I.Rec({'k': 'rec', 'qn': 'EVP_CIPHER_CTX', 's': 'EVP_CIPHER_CTX', 'usr': 'evp'}, {}, m.g, None)
    o.tag = {'st': 'new'}
    m.note_alloc(o, 'evp')
    p = I.Ptr(o)
    h = m.hooks.get('evp_fail')
    if h: 
        r = h(m, 'EVP_CIPHER_CTX_new')
        if not isF(r): return ite(r, I.NULL, p)
    return p
@fun('EVP_CIPHER_CTX_free')
def evp_free(m, e):
    m.free_ptr(A(m, e, 0), 'evp')
@fun('EVP_CIPHER_CTX_reset', 'EVP_CIPHER_CTX_init', 'EVP_CIPHER_CTX_cleanup', 'EVP_CIPHER_CTX_set_padding', 'EVP_CIPHER_CTX_ctrl')
def evp_reset(m, e):
    for c in e['c']: m.ev(c)
    return 1
@fun('EVP_aes_128_ctr', 'EVP_aes_128_cbc', 'EVP_aes_128_ecb', 'EVP_aes_256_ctr', 'EVP_aes_128_gcm', 'EVP_aes_192_ctr', 'EVP_aes_128_ofb', 'EVP_aes_128_cfb128', 'EVP_aes_256_cbc', 'EVP_chacha20')
def evp_cipher(m, e):
    o = m.consts.get(e['qn'])
    if o is None:
        o = m.consts[e['qn']] = I.Opq('cipher', None, name=e['qn'])
    return I.Ptr(o)
KEYLEN = {'EVP_aes_256_ctr': 32, 'EVP_aes_256_cbc': 32, 'EVP_aes_192_ctr': 24, 'EVP_chacha20': 32}
def evp_ctx(m, p):
    o = m.deref(p)
    o = one(m, o)
    if o is None: return None
    if getattr(o, 'tag', None) is None: m.unsup('cipher context')
    return o
def evp_result(m, name):
    h = m.hooks.get('evp_fail')
    if h:
        r = h(m, name)
        if not isF(r): return ite(r, 0, 1)
    return 1
def evp_init(enc):
    def h(m, e):
        o = evp_ctx(m, A(m, e, 0))
        cip = one(m, A(m, e, 1)); A(m, e, 2); key = one(m, A(m, e, 3)); ivp = one(m, A(m, e, 4))
        if o is None: return 0
        t = o.tag; dirn = enc
        if enc is None:
            d = concrete(m, A(m, e, 5), 'cipher direction')
            dirn = bool(d) if d >= 0 else t.get('enc', True)
        if isinstance(cip, I.Ptr): t['cipher'] = cip.o.d['name']
        kl = KEYLEN.get(t.get('cipher'), 16)
        if isinstance(key, I.Ptr):
            kb = read_bytes(m, key, kl)
            t['key'] = None if kb is None else tuple(bits_key(m, kb))
        if isinstance(ivp, I.Ptr):
            if t.get('cipher') != 'EVP_aes_128_ecb':
                ib = read_bytes(m, ivp, 16)
                t['iv'] = None if ib is None else tuple(bits_key(m, ib))
        t['st'] = 'init'; t['enc'] = dirn; t['pos'] = 0
        return evp_result(m, 'EVP_%scryptInit_ex' % ('En' if dirn else 'De'))
    return h
def bits_key(m, bs):
    out = []
    for b in bs:
        if isinstance(b, I.Undef): m.event('uninit', 'reads uninitialised key or iv bytes'); b = 0
        x = bits_of(one(m, b), 8)
        if x is None: m.unsup('byte')
        out.append(tuple(x))
    return out
FUN['EVP_EncryptInit_ex'] = FUN['EVP_EncryptInit'] = evp_init(True)
FUN['EVP_DecryptInit_ex'] = FUN['EVP_DecryptInit'] = evp_init(False)
FUN['EVP_CipherInit_ex'] = FUN['EVP_CipherInit'] = evp_init(None)
def evp_update(enc):
    def h(m, e):
        o = evp_ctx(m, A(m, e, 0))
        name = 'EVP_%scryptUpdate' % ('En' if (enc if enc is not None or o is None else o.tag.get('enc')) else 'De')
        dst = one(m, A(m, e, 1)); lenp = A(m, e, 2); src = one(m, A(m, e, 3)); n = concrete(m, A(m, e, 4), 'length')
        if o is None: return 0
        t = o.tag
        if t['st'] != 'init' or enc is not None and t['enc'] != enc:
            m.event('evp-state', '%s on a context that is not initialised for it' % name)
        if n < 0: m.event('out-of-bounds', 'negative length passed to %s' % name); return 0
        if t.get('cipher') not in ('EVP_aes_128_ctr', 'EVP_aes_256_ctr', 'EVP_aes_192_ctr', 'EVP_chacha20', 'EVP_aes_128_ofb'):
            m.unsup('cipher %s' % t.get('cipher'))
        bs = read_bytes(m, src, n) if n else []
        if bs is None: return 0
        out = []
        ks = keystream(m, t, t['pos'], n)
        for b, k in zip(bs, ks):
            if isinstance(b, I.Undef): m.event('uninit', 'encrypts uninitialised bytes'); b = 0
            out.append(bxor(one(m, b), k, 8))
        write_bytes(m, dst, out) if n else None
        t['pos'] += n
        m.store(m.deref(lenp), n)
        return evp_result(m, name)
    return h
def keystream(m, t, pos, n):
    """one unknown byte per position, a function of cipher, key and iv"""
    key = ('ks', t.get('cipher'), t.get('key'), t.get('iv'))
    d = m.consts.setdefault(('ks', intern_key(m, key)), {})
    out = []
    kid = intern_key(m, key)
    for i in range(pos, pos + n):
        if i not in d and 'ks' in m.hooks: d[i] = m.hooks['ks'](kid, i)
        if i not in d:
            d[i] = B([newbit('ks%d.%d.%d' % (kid, i, j)) for j in range(8)])
        out.append(d[i])
    return out
def intern_key(m, k):
    d = m.consts.setdefault('ikeys', {})
    return d.setdefault(k, len(d))
FUN['EVP_EncryptUpdate'] = evp_update(True); FUN['EVP_DecryptUpdate'] = evp_update(False); FUN['EVP_CipherUpdate'] = evp_update(None)
def evp_final(enc):
    def h(m, e):
        o = evp_ctx(m, A(m, e, 0)); A(m, e, 1); lenp = A(m, e, 2)
        if o is None: return 0
        if o.tag['st'] != 'init' or enc is not None and o.tag['enc'] != enc: m.event('evp-state', 'Final on a context that is not initialised for it')
        m.store(m.deref(lenp), 0)
        o.tag['st'] = 'final'
        return evp_result(m, 'EVP_%scryptFinal_ex' % ('En' if (o.tag['enc'] if enc is None else enc) else 'De'))
    return h
FUN['EVP_EncryptFinal_ex'] = FUN['EVP_EncryptFinal'] = evp_final(True)
FUN['EVP_DecryptFinal_ex'] = FUN['EVP_DecryptFinal'] = evp_final(False)
FUN['EVP_CipherFinal_ex'] = FUN['EVP_CipherFinal'] = evp_final(None)

# ------------------------------------------------------------ constructors
def absctor(m, t):
    return (m.absfield and m.is_field(t)) or (m.abspoint and m.is_point(t))
def lookup_ctor_abs_default(m, o, t):
    if m.is_field(t): m.store(o.f['fe'], fconst(m.modulus(t), 0))
    else:
        m.store(o.f['gp'], m.ginf()); m.store(o.f['curve'], I.NULL)
def lookup_ctor(m, e, t):
    if t['k'] != 'rec': return None
    r = m.prog.rec(t)
    if r is None:
        return ext_ctor
    if absctor(m, t):
        return abs_ctor
    return None
def ext_ctor(m, o, e, t):
    q = t['qn']; c = e['c']
    if q == '__gmp_expr':
        if not c: m.store(o, 0); return
        if len(c) >= 1:
            v = m.val(m.ev(c[0]))
            lv = leaves(v, m.g)
            if any(isinstance(x, (I.Ptr, I.Vec, I.Table)) for _, x in lv):
                # mpz_ptr or string
                pt = m.fr.T[e['pt'][0]]
                if isinstance(v, I.Ptr) and isinstance(v.o, I.Cell) and v.i is None: m.store(o, m.load(v.o)); return
                s = cstring(m, v)
                b = concrete(m, m.val(m.ev(c[1])), 'base') if len(c) > 1 else 0
                n = parse_int(s, b)
                if n is None: m.die(m.g, 'throw', 'std::invalid_argument'); return
                m.store(o, n); return
            m.store(o, m.ap(lambda x: as_int(m, x), v))
        return
    if q == 'std::basic_string':
        if not c: return
        a0 = m.val(m.ev(c[0]))
        a0 = one(m, a0)
        if isinstance(a0, I.Vec) and len(c) == 1: o.items = [m.clone(x) for x in a0.items]; return
        if isinstance(a0, I.Ptr) and len(c) == 1 or isinstance(a0, I.Ptr) and len(c) == 2 and m.fr.T[c[1]['t']]['k'] == 'rec':
            o.items = [m.cell(ord(x)) for x in cstring(m, a0)]; return
        if a0 is I.NULL and len(c) >= 2:                      # libstdc++: nothing from nowhere is the empty string
            if concrete(m, m.val(m.ev(c[1])), 'length'): m.die(m.g, 'throw', 'std::logic_error')
            return
        if isinstance(a0, I.Ptr) and len(c) >= 2:
            a1 = one(m, m.val(m.ev(c[1])))
            if isinstance(a1, I.Ptr) and a0.rev: o.items = [m.clone(m.elem(a0.o, i)) for i in range(a0.i - 1, a1.i - 1, -1)]; return
            if isinstance(a1, I.Ptr): a1 = a1.i - a0.i
            n = concrete(m, a1, 'length')
            bs = read_bytes(m, a0, n)
            o.items = [m.cell(b) for b in (bs or [])]; return
        if len(c) >= 2:
            n = concrete(m, a0, 'length'); ch = m.val(m.ev(c[1]))
            o.items = [m.cell(ch) for _ in range(n)]; return
        if len(c) == 1 and m.fr.T[c[0]['t']]['k'] == 'rec': return
        m.unsup('string constructor')
    if q in ('std::vector', 'std::initializer_list', 'std::deque'):
        if not c: return
        a0 = m.ev(c[0]); v0 = m.val(a0)
        if isinstance(v0, N) : v0 = one(m, v0, 'container')
        if isinstance(v0, I.Vec):
            if e.get('move') and len(c) == 1 and v0 is not o:
                o.items = v0.items
                if m.uncond(v0): v0.items = []
                else: o.items = [m.clone(x) for x in o.items]
            else: o.items = [mk_elem(m, o, x) for x in v0.items]
            return
        if isinstance(v0, I.Ptr):
            b = one(m, m.val(m.ev(c[1])))
            idx = range(v0.i - 1, b.i - 1, -1) if v0.rev else range(v0.i or 0, b.i or 0)
            its = [m.elem(v0.o, i) for i in idx]
            o.items = [mk_elem(m, o, x) for x in its]; return
        if m.fr.T[c[0]['t']]['k'] == 'rec': return     # allocator
        n = concrete(m, v0, 'size')
        if len(c) > 1 and m.fr.T[e['pt'][1]]['k'] in ('ref', 'rref') and 'allocator' not in m.fr.T[e['pt'][1]]['s'].split('<')[0]:
            x = m.ev(c[1]); o.items = [mk_elem(m, o, x) for _ in range(n)]
        else: o.items = [dflt_elem(m, o) for _ in range(n)]
        return
    if q == 'std::array':
        if not c:
            for i, x in enumerate(o.items):
                if isinstance(x, I.Rec) or isinstance(x, I.Cell) and x.ty and x.ty.get('k') == 'rec': o.items[i] = dflt_elem(m, o)
            return
        m.copy_into(o, m.ev(c[0])); return
    if q in ('std::pair', 'std::tuple'):
        if not c: default_tuple(m, o); return
        if len(c) == 1 and len(o.f) != 1 or e.get('copy') or e.get('move'):
            s = one(m, m.ev(c[0]))
            for n, k in zip(o.f, s.f): put(m, o, n, deref_field(s.f[k]))
            return
        vals = [m.ev(x) for x in c]
        if len(vals) != len(o.f): m.unsup('tuple constructor')
        for n, v in zip(o.f, vals):
            cell = o.f[n]
            if isinstance(cell, I.Cell) and isinstance(cell.ty, dict) and cell.ty['k'] in ('ref', 'rref'): cell.v = v
            else: put(m, o, n, v)
        return
    if q in ('std::unique_ptr', 'std::shared_ptr'):
        if not c: return
        v = m.val(m.ev(c[0]))
        if isinstance(v, I.Rec):
            m.store(o.f['p'], m.load(v.f['p']))
            if v.ty['qn'] == 'std::unique_ptr' or e.get('move'): m.store(v.f['p'], I.NULL)
        else: m.store(o.f['p'], v)
        if q == 'std::unique_ptr':
            if isinstance(v, I.Rec) and 'd' in v.f: o.f['d'] = m.cell(m.load(v.f['d']))
            elif len(c) > 1: o.f['d'] = m.cell(m.val(m.ev(c[1])))
            elif not isinstance(v, I.Rec) and targ(t, 1) and '(lambda' in str(targ(t, 1).get('s')): m.unsup('deleter of a unique_ptr')
        elif len(c) > 1: m.unsup('deleter of a shared_ptr')
        return
    if q == 'std::bitset':
        if not c: return
        v = m.val(m.ev(c[0])); v = one(m, v) if isinstance(v, N) and any(isinstance(x, I.OBJ + (I.Ptr,)) for _, x in leaves(v, m.g)) else v
        if isinstance(v, I.Vec) and v.kind == 'bitset': m.copy_into(o, v); return
        if isinstance(v, (I.Vec, I.Ptr)): m.unsup('bitset of a string')
        m.stdlib.bitset_set(m, o, v); return
    if q == 'std::optional':
        if c: m.stdlib.opt_assign(m, o, m.ev(c[0]))
        return
    if q in m.stdlib.MAPS: m.stdlib.map_ctor(m, o, e); return
    if q in ITER or q in m.stdlib.MAPIT:
        if not c: return
        v = m.val(m.ev(c[0]))
        if q == 'std::reverse_iterator' and isinstance(v, I.Ptr) and not v.rev: v = I.Ptr(v.o, v.i, True)
        m.store(o, v); return
    if q == 'std::function':
        if c: m.store(o, m.val(m.ev(c[0])))
        return
    if isinstance(o, I.Closure):
        if c: m.copy_into(o, m.val(m.ev(c[0])))
        return
    if isinstance(o, I.Opq):
        for x in c: m.ev(x)
        return
    m.unsup('constructor of %s' % t['s'])
def ext_global(m, e):
    q = e['qn']
    if q in ('std::cout', 'std::cerr', 'std::clog'): 
        o = m.globals[e['usr']] = I.Opq('stream'); return o
    if q in ('stdout', 'stderr', 'stdin'):
        o = m.globals[e['usr']] = I.Cell(I.Ptr(I.Opq('FILE'))); return o
    if q in ('errno',): return m.cell(0)
    if q in ('std::ignore',): return I.Opq('ignore')
    o = I.Opq('global ' + q)
    m.globals[e['usr']] = o
    return o
def by_name(m, e, args):
    q = e['qn']
    if q in FUN: return FUN[q](m, {'k': 'call', 'qn': q, 'c': [{'k': 'given', 'v': a} for a in args], 't': e.get('t')})
    m.unsup('call through pointer to %s' % q)
def catches(ht, ty):
    if ht is None: return True
    q = ht.get('qn') or ht['s']
    while ty:
        if ty == q: return True
        ty = EXC_BASE.get(ty)
    return False
def full_expr(m, f, e):
    mark = len(m.fr.temps)
    r = f(e)
    m.end_scope(mark)
    return r

# ------------------------------------------------------------ abstract layers
from . import absmodels
from .absmodels import lookup_abs, abs_ctor
