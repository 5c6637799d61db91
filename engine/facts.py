"""What a conjunction of canonical predicates entails: used to discard
combinations of conditions that cannot occur together, and to compare two
normal forms under the conditions of a path.  Rewriting only (substitution,
divisibility, interval refinement, GF(2) elimination)."""
from . import alg, dd
from .alg import *
from .dd import N, AND, OR, NOT, isF, isT, leaves
from . import interp as I

class Facts:
    def __init__(self, m, path):
        self.m = m
        self.contra = False
        self.bits = {}          # var id -> 0/1
        self.sub = {}           # p -> {var id: FE}
        self.nz = []            # FE known non-zero
        self.zs = []            # FE known zero that gave no substitution
        self.rng = {}           # var id -> (lo, hi)
        self.lin = []           # integer polys known < 0
        self.isub = {}          # var id -> raw poly
        self.inf = {}           # base id -> bool
        self.psub = {}          # base id -> {base id: constant}
        self.gf2 = {}           # pivot -> form (form == 0)
        self.gnz = []
        self.squares = set()
        for a, v in path:
            if a.kind == 'qr' and v: self.squares.add(a.data)
        todo = list(path)
        for a, v in todo:
            if a.kind == 'bit': self.bits[a.data.id] = int(v)
        for a, v in todo:
            if a.kind == 'inf': self.inf[a.data.id] = v
        for a, v in todo:
            if a.kind == 'peq' and v: self.add_peq(a.data)
        for a, v in todo:
            if a.kind == 'peq' and not v and not self.gred(a.data).d: self.contra = True
        for a, v in todo:
            if self.contra: return
            if a.kind == 'eq0' and v: self.add_zero(a.data)
            elif a.kind == 'ieq0' and v: self.add_izero(a.data)
            elif a.kind == 'lt0': self.lin.append(a.data if v else isub(-1, a.data))
            elif a.kind == 'nz' and not v:
                for f in a.data: self.add_gf2(f)
        for a, v in todo:
            if self.contra: return
            if a.kind == 'eq0' and not v: self.add_nonzero(a.data)
            elif a.kind == 'ieq0' and not v:
                x = self.ired(a.data)
                if x == 0: self.contra = True
                self.inz = getattr(self, 'inz', []) + [a.data]
            elif a.kind == 'qr':
                f = self.fred(a.data)
                if f is None: continue
                if not v:
                    if fzero(f): self.contra = True
                    elif fisconst(f):
                        if pow(fval(f), (f.p - 1) // 2, f.p) == 1: self.contra = True
                    else: self.nz.append(f)
                elif fisconst(f) and not fzero(f) and pow(fval(f), (f.p - 1) // 2, f.p) != 1: self.contra = True
            elif a.kind == 'nz' and v:
                self.gnz.append(a.data)
                if all(self.gf2red(f) == 0 for f in a.data): self.contra = True
        self.same_abscissa(todo)
        if self.contra: return
        # parity of forms with a known non-zero value: single forms are equal to one
        for a, v in todo:
            if a.kind == 'nz' and v and len(a.data) == 1: self.add_gf2(a.data[0] ^ 1)
        for fs in self.gnz:
            if all(self.gf2red(f) == 0 for f in fs): self.contra = True
        if not self.contra: self.refine()
        if not self.contra:
            for z in self.zs:
                f = self.fred(z)
                if f is None: continue
                if fisconst(f) and not fzero(f): self.contra = True
                elif not fzero(f) and self.unit_part(f): self.contra = True
            for z in self.nz:
                f = self.fred(z)
                if f is not None and fzero(f): self.contra = True
    def same_abscissa(self, todo):
        """two curve points with equal x have equal or opposite y"""
        if self.m is None or not self.m.curve_ab: return
        used = set()
        for a, v in todo:
            if a.kind == 'eq0': used |= dvars(a.data.num)
        sq = []
        for v in sorted(used):
            v = VARS[v]
            if v.kind == 'cy': sq.append((v, v.data[0], self.m.rhs(v.data[1])))
            elif v.kind == 'sqrt' and self.is_square(v.data): sq.append((v, v.data.p, v.data))
        for i in range(len(sq)):
            for j in range(i):
                p = sq[i][1]
                if sq[j][1] != p: continue
                if not self.feq(sq[i][2], sq[j][2]): continue
                y1, y2 = fvar(p, sq[i][0]), fvar(p, sq[j][0])
                d, s = fsub(y1, y2), fadd(y1, y2)
                if self.nonzero(d): self.add_zero(s)
                elif self.nonzero(s): self.add_zero(d)
    def is_square(self, f):
        k = (f, 'sq')
        if f in self.squares: return True
        return self.m is not None and isT(self.m.qr(f))
    def sqred(self, f):
        """replace squares of known square roots"""
        vs = [v for v in fvars(f) if VARS[v].kind == 'sqrt' and VARS[v].data.den == ONE]
        for v in vs:
            if not any(k.count(v) > 1 for k in list(f.num) + list(f.den)): continue
            b = VARS[v].data
            if not self.is_square(b): continue
            def sub(d):
                out = {}
                for k, c in d.items():
                    n = k.count(v)
                    if n >= 2:
                        t = {tuple(sorted([x for x in k if x != v] + [v] * (n % 2))): c}
                        for _ in range(n // 2): t = dmul(t, b.num, f.p)
                        out = dadd(out, t, f.p)
                    else: out = dadd(out, {k: c}, f.p)
                return out
            n, d = sub(f.num), sub(f.den)
            if not d: return f
            f = F(f.p, n, d)
        return f
    # ------------------------------------------------ bits
    def add_gf2(self, f):
        f = self.gf2red(f)
        if f == 0: return
        if f == 1: self.contra = True; return
        p = f.bit_length() - 1
        self.gf2[p] = f
        for q in list(self.gf2):
            if q != p and self.gf2[q] >> p & 1: self.gf2[q] ^= f
    def gf2red(self, f):
        for vid, val in self.bits.items():
            i = BITIDX.get(vid)
            if i is not None and f >> (i + 1) & 1: f ^= (1 << (i + 1)) | val
        for p, g in self.gf2.items():
            if f >> p & 1: f ^= g
        return f
    # ------------------------------------------------ field facts
    def fsubs(self, p):
        s = dict(self.sub.get(p, {}))
        for v, b in self.bits.items(): s[v] = fconst(p, b)
        return s
    def fred(self, f):
        for _ in range(8):
            s = self.fsubs(f.p)
            if not any(v in s for v in fvars(f)): break
            g = fsubst(f, s)
            if g is None: return None
            f = g
        f = self.sqred(f)
        if self.m is not None and f.p in self.m.curve_ab: f = self.m.canon(f)
        return f
    def add_zero(self, f):
        p = f.p
        f = self.fred(f)
        if f is None or fzero(f): return
        if fisconst(f): self.contra = True; return
        num = f.num
        # a variable occurring once, linearly, with a constant coefficient
        cand = None
        for k, c in num.items():
            if len(k) == 1:
                v = k[0]
                if VARS[v].bit: continue
                if any(v in k2 for k2 in num if k2 != k): continue
                if VARS[v].kind == 'mod': pr = 0
                else: pr = 1
                if cand is None or (pr, v) > cand[0]: cand = ((pr, v), v, c)
        if cand is None:
            # linear with a coefficient that is known to be non-zero
            for v in sorted(dvars(num), reverse=True):
                if VARS[v].bit: continue
                if any(k.count(v) > 1 for k in num): continue
                co = {}; rest = {}
                for k, c in num.items():
                    if v in k:
                        kk = list(k); kk.remove(v); co[tuple(kk)] = c
                    else: rest[k] = c
                cf = F(p, co)
                if self.nonzero(cf):
                    self.sub.setdefault(p, {})[v] = fmul(fneg(F(p, rest)), finv(cf))
                    return
            self.zs.append(f)
            return
        _, v, c = cand
        rest = {k: x for k, x in num.items() if k != (v,)}
        i = pow(-c, -1, p)
        self.sub.setdefault(p, {})[v] = F(p, {k: x * i % p for k, x in rest.items()})
        # other recorded facts
        zs, self.zs = self.zs, []
        for z in zs: self.add_zero(z)
    def add_nonzero(self, f):
        g = self.fred(f)
        if g is None: return
        if fzero(g): self.contra = True
        self.nz.append(g)
    def unit_part(self, f):
        """f is a product of things known to be non-zero"""
        num = f.num
        for _ in range(20):
            if len(num) == 1 and () in num: return True
            hit = False
            for z in self.nz:
                if z.p != f.p: continue
                z = self.fred(z)
                if z is None or fisconst(z): continue
                q = ddiv_exact(num, z.num, f.p)
                if q is not None: num = q; hit = True; break
            if not hit: return False
        return False
    def nonzero(self, f):
        f = self.fred(f)
        if f is None or fzero(f): return False
        return fisconst(f) or self.unit_part(f)
    def fzero(self, f):
        f = self.fred(f)
        if f is None: return False
        if fzero(f): return True
        if fisconst(f): return False
        for z in self.zs:
            z = self.fred(z)
            if z is None or z.p != f.p: continue
            # f divides z up to units, or z divides f
            if ddiv_exact(f.num, z.num, f.p) is not None: return True
            q = ddiv_exact(z.num, f.num, f.p)
            if q is not None and self.unit_part(F(f.p, q)): return True
        return False
    def feq(self, a, b):
        if a.p != b.p: return False
        d = fsub(a, b)
        return self.fzero(F(a.p, d.num)) if not fzero(d) else True
    # ------------------------------------------------ integers
    def ired(self, x):
        if isinstance(x, int): return x
        s = {v: ({(): b} if b else {}) for v, b in self.bits.items()}
        s.update(self.isub)
        for v, (l, h) in self.rng.items():
            if l == h: s[v] = {(): l} if l else {}
        for _ in range(6):
            if isinstance(x, int) or not any(v in s for v in dvars(x.d)): return x
            x = P(dsubst(x.d, s))
        return x
    def add_izero(self, x):
        x = self.ired(x)
        if x == 0: return
        if isinstance(x, int): self.contra = True; return
        ps = {VARS[v].data.p for v in dvars(x.d) if VARS[v].kind == 'mod'}
        for k, c in x.d.items():
            if len(k) == 1 and abs(c) == 1 and not any(k[0] in k2 for k2 in x.d if k2 != k):
                rest = {k2: (-c2 if c == 1 else c2) for k2, c2 in x.d.items() if k2 != k}
                self.isub[k[0]] = rest
                lo, hi = ivd(rest)
                v = VARS[k[0]]
                if hi < v.lo or lo > v.hi: self.contra = True
                return
        self.lin.append(isub(x, 1)); self.lin.append(isub(ineg(x), 1))
    def refine(self):
        lin = [self.ired(x) for x in self.lin]
        for _ in range(4):
            ch = False
            for x in lin:
                if isinstance(x, int):
                    if x >= 0: self.contra = True; return
                    continue
                lo, hi = ivd(x.d, self.rng)
                if lo >= 0: self.contra = True; return
                # bound each linear variable: c*v < -(rest)
                for k, c in x.d.items():
                    if len(k) != 1: continue
                    v = k[0]
                    if any(v in k2 for k2 in x.d if k2 != k): continue
                    rest = {k2: c2 for k2, c2 in x.d.items() if k2 != k}
                    rl, _ = ivd(rest, self.rng)
                    if rl == -INF or rl != rl: continue
                    l, h = self.rng.get(v, (VARS[v].lo, VARS[v].hi))
                    # c*v <= -1 - rl
                    b = -1 - rl
                    if b == INF: continue
                    if c > 0: nh = min(h, b // c); nl = l
                    else: nl = max(l, -((b) // (-c))); nh = h
                    if (nl, nh) != (l, h):
                        self.rng[v] = (nl, nh); ch = True
                        if nl > nh: self.contra = True; return
            if not ch: break
        # one interval per linear form
        iv = {}
        def form(x):
            c0 = x.d.get((), 0)
            body = {k: c for k, c in x.d.items() if k}
            s = 1 if body[max(body, key=lambda k: (len(k), k))] > 0 else -1
            if s < 0: body = {k: -c for k, c in body.items()}
            kk = dkey(body)
            if kk not in iv: iv[kk] = list(ivd(body, self.rng)) + [set()]
            return iv[kk], s, c0
        for x in lin:
            if isinstance(x, int): continue
            f, s, c0 = form(x)
            if s > 0: f[1] = min(f[1], -c0 - 1)      # body + c0 < 0
            else: f[0] = max(f[0], c0 + 1)           # -body + c0 < 0
        for x in getattr(self, 'inz', []):
            x = self.ired(x)
            if isinstance(x, int):
                if x == 0: self.contra = True; return
                continue
            if isinstance(x, BV): continue
            f, s, c0 = form(x)
            f[2].add(-c0 * s)
        for lo, hi, ex in iv.values():
            while lo in ex: lo += 1
            while hi in ex: hi -= 1
            if lo > hi: self.contra = True; return
        for x in getattr(self, 'inz', []):
            if self.ired(x) == 0: self.contra = True
    def izero(self, x):
        x = self.ired(x)
        if isinstance(x, int): return x == 0
        if isinstance(x, BV): return self.bzero(x)
        lo, hi = ivd(x.d, self.rng)
        if lo == hi == 0: return True
        mods = {I.mod_of(VARS[v]) for v in dvars(x.d)}; mods.discard(None)
        if len(mods) == 1:
            p = mods.pop()
            if lo > -p and hi < p: return self.fzero(to_fe(p, x))
        return False
    def bzero(self, x):
        return all(self.gf2red(f) == 0 for f in bits_of(x))
    def ieq(self, a, b):
        if isinstance(a, BV) or isinstance(b, BV):
            x, y = bits_of(a), bits_of(b)
            if x is None or y is None: return False
            n = max(len(x), len(y)); x += [0] * (n - len(x)); y += [0] * (n - len(y))
            return all(self.gf2red(p ^ q) == 0 for p, q in zip(x, y))
        return self.izero(isub(a, b))
    # ------------------------------------------------ points
    def add_peq(self, x):
        """a linear relation between given points"""
        x = self.gred(x)
        if not x.d: return
        if len(x.d) == 1:
            b = next(iter(x.d))
            if BASES[b].kind != 'case' or self.inf.get(b) is False: self.contra = True
            else: self.inf[b] = True
            return
        lead = min(x.d, key=lambda b: (BASES[b].kind == 'const', b))
        i = fneg(finv(x.d[lead]))
        row = {b: fmul(c, i) for b, c in x.d.items() if b != lead}
        for q in list(self.psub): 
            c = self.psub[q].pop(lead, None)
            if c is not None:
                for b, k in row.items(): self.psub[q][b] = fadd(self.psub[q].get(b, fconst(x.n, 0)), fmul(c, k))
        self.psub[lead] = row
    def gred(self, x):
        if self.psub and any(b in self.psub for b in x.d):
            d = {}
            for b, c in x.d.items():
                for b2, k in (self.psub[b].items() if b in self.psub and not self.inf.get(b) else ((b, None),)):
                    t = c if k is None else fmul(c, k)
                    d[b2] = fadd(d[b2], t) if b2 in d else t
            x = G(x.n, d)
        d = {}
        for b, c in x.d.items():
            if self.inf.get(b): continue
            c = self.fred(c)
            d[b] = c
        return G(x.n, d)
    def gpeq(self, a, b):
        x = self.gred(gadd(a, gneg(b)))
        return all(self.fzero(c) for c in x.d.values())
    def eq(self, a, b):
        if dd.same(a, b): return True
        if isinstance(a, FE) and isinstance(b, FE): return self.feq(a, b)
        if isinstance(a, GP) and isinstance(b, GP): return self.gpeq(a, b)
        if isinstance(a, (int, Poly, BV)) and isinstance(b, (int, Poly, BV)): return self.ieq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return False

def feasible(m, path): return not Facts(m, path).contra

def show(path):
    return ' and '.join(('' if v else 'not ') + a.name for a, v in path) or 'always'

class Limit(Exception): pass
def diff(m, care, actual, expected, limit=4000):
    """paths on which two gated values may differ: [(path, actual, expected)]"""
    def leaf(c, a, e):
        if not c: return True
        if dd.same(a, e): return True
        return (a, e)
    class Pair:
        __slots__ = ('a', 'e')
        def __init__(s, a, e): s.a = a; s.e = e
    memo = {}
    def f(a, e):
        if a is dd.DC or e is dd.DC: return True
        if isinstance(a, bool) or isinstance(e, bool):
            if isinstance(a, (int, bool)) and isinstance(e, (int, bool)): return True if int(a) == int(e) else mkp(a, e)
        if dd.same(a, e): return True
        if isinstance(a, GP) and isinstance(e, GP):
            from .absmodels import each
            x = gadd(a, gneg(e))
            if any(VARS[v].bit for c in x.d.values() for v in fvars(c)): return each(lambda y: True if gzero(y) else mkp(a, e), x)
        return mkp(a, e)
    def mkp(a, e):
        k = (dd.lkey(a), dd.lkey(e))
        if k not in memo: memo[k] = Pair(a, e)
        return memo[k]
    if isF(care): return []
    d = dd.ap(care, f, actual, expected)
    if d is dd.DC or d is True: return []
    bad = dd.ite(care, d, True)
    out = []
    n = 0
    def walk(v, path):
        nonlocal n
        if not isinstance(v, N):
            if v is True or v is dd.DC: return
            n += 1
            if n > limit: raise Limit('more than %d undecided paths' % limit)
            fx = Facts(m, path)
            if fx.contra: return
            if fx.eq(v.a, v.e): return
            out.append((list(path), v.a, v.e))
            return
        a = dd.ATOMS[v.a]
        # prune infeasible prefixes now and then
        if len(path) > 3 and len(path) % 4 == 0 and not feasible(m, path): return
        if len(out) >= 5: return
        path.append((a, True)); walk(v.hi, path); path.pop()
        path.append((a, False)); walk(v.lo, path); path.pop()
    walk(bad, [])
    return out

def possible(m, guard, limit=4000):
    """some feasible path of a guard, or None"""
    r = diff(m, True, guard, False, limit)
    return r[0][0] if r else None
