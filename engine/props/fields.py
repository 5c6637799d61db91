"""F01, F02, F03 (fields): the operators of the four prime fields, interpreted
from their source on unknown canonical residues."""
from ..lab import *
from .. import interp as I

FIELDS = ('bn254_p', 'bn254_n', 'secp256r1_p', 'secp256r1_n')
SRC = ('src/fields/field_bn254.cpp', 'src/fields/field_secp256r1.cpp')
UN = ('neg', 'sq', 'inv', 'copy', 'assign')
BIN = ('add', 'sub', 'mul', 'div')

class FieldLab:
    def __init__(self, ctx, fld):
        self.ctx = ctx; self.fld = fld
        self.prog = ctx.witness('fields.cpp', *SRC)
        self.ns = 'w_%s::' % fld
        f = self.fn('add')
        self.E = f['_T'][f['rt']]
        self.m = I.Machine(self.prog, absfield=False)
        self.p = self.m.modulus(self.E)
    def fn(self, n): return self.prog.fnq(self.ns + n)
    def fresh(self): self.m = I.Machine(self.prog, absfield=False); return self.m
    def elem(self, name):
        o = self.m.new_obj(self.E)
        o.f['p'].v = self.p
        v = var('resid', (self.p, self.fld + name), 0, self.p - 1, name=name)
        o.f['value'].v = V(v)
        return o
    def integer(self, name):
        return I.Cell(V(var('int', self.fld + name, -INF, INF, name=name)))
    def cls(self, name): return fvar(self.p, var('resid', (self.p, self.fld + name), 0, self.p - 1, name=name))
    def icls(self, name): return to_fe(self.p, V(var('int', self.fld + name, -INF, INF, name=name)))
    def call(self, n, args): return self.m.call_fn(self.fn(n), None, args, None)
    def val(self, r):
        if isinstance(r, N): return self.m.ap(lambda x: self.m.load(x.f['value']), r)
        return self.m.load(r.f['value'])
    def fld_of(self, r): return self.m.load(r.f['p'])
    def where(self, op): return where(self.prog, 'field::PrimeField::' + op)

OPSRC = {'add': 'operator+', 'sub': 'operator-', 'mul': 'operator*', 'mulz': 'operator*', 'div': 'operator/', 'neg': 'operator-', 'sq': 'square',
         'inv': 'invert', 'copy': 'operator=', 'assign': 'operator=', 'chain': 'operator=', 'assignself': 'operator=', 'asg': 'operator=', 'eq': 'operator==', 'eqself': 'operator==', 'raw': 'getRawValue', 'mod': 'getField',
         'addas': 'operator+=', 'subas': 'operator-=', 'mulas': 'operator*=', 'mulasz': 'operator*=', 'divas': 'operator/=',
         'addself': 'operator+=', 'subself': 'operator-=', 'mulself': 'operator*=', 'divself': 'operator/=',
         'from': 'PrimeField', 'conv': 'PrimeField', 'fromint': 'PrimeField', 'dflt': 'PrimeField'}
def wh(L, n):
    try: return L.where(OPSRC[n])
    except ir.ExtractError: return L.fn(n)['loc']

def nzcare(L, b): return NOT(L.m.feq0(b))

def runs(L):
    """(operation, arguments, abstract result, expected class, care)"""
    a, b, z = 'a', 'b', 'z'
    def go(n, args):
        L.fresh()
        objs = []
        for x in args:
            if x in ('a', 'b'): objs.append(L.elem(x))
            else: objs.append(L.integer(x))
        r = L.call(n, objs)
        return objs, r
    A = L.cls('a'); B = L.cls('b'); Z = L.icls('z')
    yield ('dflt',) + go('dflt', []) + (fconst(L.p, 0), True)
    for n in ('from', 'conv', ): yield (n,) + go(n, ['z']) + (Z, True)
    # int argument
    L.fresh()
    iv_ = V(var('int', L.fld + 'i', -2 ** 31, 2 ** 31 - 1, name='i'))
    yield 'fromint', [], L.call('fromint', [iv_]), to_fe(L.p, iv_), True
    yield ('copy',) + go('copy', ['a']) + (A, True)
    yield ('assign',) + go('assign', ['a']) + (A, True)
    yield ('asg',) + go('asg', ['b', 'a']) + (A, True)
    yield ('neg',) + go('neg', ['a']) + (fneg(A), True)
    yield ('sq',) + go('sq', ['a']) + (fmul(A, A), True)
    o, r = go('inv', ['a']); yield 'inv', o, r, finv(A), nzcare(L, A)
    yield ('add',) + go('add', ['a', 'b']) + (fadd(A, B), True)
    yield ('sub',) + go('sub', ['a', 'b']) + (fsub(A, B), True)
    yield ('mul',) + go('mul', ['a', 'b']) + (fmul(A, B), True)
    yield ('mulz',) + go('mulz', ['a', 'z']) + (fmul(A, Z), True)
    o, r = go('div', ['a', 'b']); yield 'div', o, r, fmul(A, finv(B)), nzcare(L, B)
    yield ('addas',) + go('addas', ['a', 'b']) + (fadd(A, B), True)
    yield ('subas',) + go('subas', ['a', 'b']) + (fsub(A, B), True)
    yield ('mulas',) + go('mulas', ['a', 'b']) + (fmul(A, B), True)
    yield ('mulasz',) + go('mulasz', ['a', 'z']) + (fmul(A, Z), True)
    o, r = go('divas', ['a', 'b']); yield 'divas', o, r, fmul(A, finv(B)), nzcare(L, B)
    yield ('addself',) + go('addself', ['a']) + (fadd(A, A), True)
    yield ('subself',) + go('subself', ['a']) + (fconst(L.p, 0), True)
    yield ('mulself',) + go('mulself', ['a']) + (fmul(A, A), True)
    o, r = go('divself', ['a']); yield 'divself', o, r, fconst(L.p, 1), nzcare(L, A)
    yield ('assignself',) + go('assignself', ['a']) + (A, True)

def each(ctx, body):
    for fld in FIELDS:
        def go():
            L = FieldLab(ctx, fld)
            body(L)
        ctx.scenario(fld, go)

def F01(ctx):
    def body(L):
        for n, objs, r, exp, care in runs(L):
            m = L.m; v = L.val(r); nm = 'Field_%s %s' % (L.fld, n)
            w = wh(L, n)
            ctx.holds(m, nm + ': 0 <= value', NOT(m.ap(m.ilt0, v)), w, 'the raw value can be negative')
            ctx.holds(m, nm + ': value < p', m.ap(lambda x: m.ilt0(isub(x, L.p)), v), w, 'the raw value can reach the modulus or exceed it')
            ctx.equal(m, nm + ': modulus', m.ap(lambda x: x, L.fld_of(r)), L.p, w)
            ctx.clean(m, nm, kinds=('uninit', 'missing-return'), care=care)
            for o, k in zip(objs, 'ab'):
                if isinstance(o, I.Rec):
                    ctx.equal(m, nm + ': modulus of operand ' + k, m.load(o.f['p']), L.p, w)
            ctx.absorb(m)
        m = L.fresh()
        a = L.elem('a')
        ctx.equal(m, 'Field_%s getField' % L.fld, m.val(L.call('mod', [a])), L.p, wh(L, 'mod'))
        ctx.equal(m, 'Field_%s getRawValue' % L.fld, m.val(L.call('raw', [a])), V(var('resid', (L.p, L.fld + 'a'), 0, L.p - 1)), wh(L, 'raw'))
        ctx.absorb(m)
    each(ctx, body)

def F02(ctx):
    def body(L):
        for n, objs, r, exp, care in runs(L):
            if n in ('copy', 'assign', 'assignself', 'asg'): continue
            m = L.m; nm = 'Field_%s %s' % (L.fld, n)
            v = m.ap(lambda x: x if isinstance(x, I.Undef) else to_fe(L.p, x), L.val(r))
            ctx.equal(m, nm, v, exp, wh(L, n), care)
            ctx.clean(m, nm, care=care, count=False)
            ctx.noexc(m, nm, care=care)
            ctx.absorb(m)
    each(ctx, body)

PLAIN = {'addas': 'add', 'subas': 'sub', 'mulas': 'mul', 'mulasz': 'mulz', 'divas': 'div', 'addself': 'add', 'subself': 'sub', 'mulself': 'mul', 'divself': 'div'}
def F03(ctx):
    def body(L):
        for n, objs, r, exp, care in runs(L):
            m = L.m; nm = 'Field_%s %s' % (L.fld, n); w = wh(L, n)
            mod = 0 if n in PLAIN or n in ('assignself', 'asg') else None
            for i, o in enumerate(objs):
                if i == mod:
                    ctx.obligation(nm + ': returns the assigned object')
                    for g, x in leaves(r, m.g):
                        if x is not o: ctx.violation('%s: the returned reference is not the assigned object' % nm, w)
                    continue
                if isinstance(o, I.Rec):
                    k = 'ba'[i] if n == 'asg' else 'ab'[i]
                    ctx.equal(m, '%s: operand %s unchanged' % (nm, k), m.load(o.f['value']), V(var('resid', (L.p, L.fld + k), 0, L.p - 1)), w)
                    ctx.equal(m, '%s: modulus of operand %s unchanged' % (nm, k), m.load(o.f['p']), L.p, w)
                elif isinstance(o, I.Cell):
                    ctx.equal(m, '%s: integer operand unchanged' % nm, m.load(o), V(var('int', L.fld + 'z', -INF, INF)), w)
            if n in PLAIN:
                res = L.val(r)
                # the plain operator on the same operands
                m2 = L.fresh()
                pn = PLAIN[n]
                args = [L.elem('a')] + ([L.integer('z')] if pn == 'mulz' else [L.elem('a')] if n.endswith('self') else [L.elem('b')])
                if n.endswith('self'): args[1] = args[0]
                pr = L.call(pn, args)
                # equal residues, and the representative is the canonical one (F01 for the plain operator)
                fe = lambda k, v: k.ap(lambda x: x if isinstance(x, I.Undef) else to_fe(L.p, x), v)
                c2 = AND(m.g, m2.g) if care is True else AND(care, AND(m.g, m2.g))
                ctx.equal(m2, nm + ': same result as the plain operator', fe(m, res), fe(m2, L.val(pr)), w, c2)
                inr = m2.ap(lambda x: False if isinstance(x, I.Undef) else AND(NOT(m2.ilt0(x)), m2.ilt0(isub(x, L.p))), res)
                ctx.holds(m2, nm + ': same representative as the plain operator', inr, w, 'the raw value is not the canonical one', c2)
            ctx.absorb(m)
        m = L.fresh()
        a, b = L.elem('a'), L.elem('b')
        L.call('eq', [a, b]); L.call('raw', [a]); L.call('mod', [b])
        for o, k in ((a, 'a'), (b, 'b')):
            ctx.equal(m, 'Field_%s accessors leave %s unchanged' % (L.fld, k), m.load(o.f['value']), V(var('resid', (L.p, L.fld + k), 0, L.p - 1)), wh(L, 'eq'))
    each(ctx, body)
    from . import points
    points.F03_points(ctx)

def V01_fields(ctx):
    def body(L):
        m = L.m; A, B_ = L.cls('a'), L.cls('b'); w = wh(L, 'eq'); nm = 'Field_%s' % L.fld
        a, b = L.elem('a'), L.elem('b')
        same = m.feq0(fsub(A, B_))
        ctx.equal(m, nm + ' equality', m.val(L.call('eq', [a, b])), same, w)
        ctx.equal(m, nm + ' equality is symmetric', m.val(L.call('eq', [b, a])), same, w)
        ctx.equal(m, nm + ' equals itself', m.val(L.call('eqself', [a])), True, w)
        c = L.elem('a'); c.f['p'].v = L.p - 2
        ctx.equal(m, nm + ' elements of different fields differ', m.val(L.call('eq', [a, c])), False, w)
        ctx.equal(m, nm + ' elements of different fields differ (2)', m.val(L.call('eq', [c, a])), False, w)
        ctx.clean(m, nm + ' equality'); ctx.noexc(m, nm + ' equality'); ctx.absorb(m)
    each(ctx, body)
def V02_fields(ctx):
    def body(L):
        for n, objs, r, exp, care in runs(L):
            if n not in ('copy', 'assign', 'asg', 'assignself', 'dflt', 'from'): continue
            m = L.m; nm = 'Field_%s %s' % (L.fld, n); w = wh(L, n)
            ctx.equal(m, nm + ': value', m.ap(lambda x: x if isinstance(x, I.Undef) else to_fe(L.p, x), L.val(r)), exp, w)
            ctx.equal(m, nm + ': modulus', L.fld_of(r), L.p, w)
            src = objs[-1] if objs else None
            if isinstance(src, I.Rec): ctx.equal(m, nm + ': source unchanged', to_fe(L.p, m.load(src.f['value'])), exp, w)
            ctx.clean(m, nm); ctx.absorb(m)
        m = L.fresh(); a, b = L.elem('a'), L.elem('b')
        r = L.call('chain', [a, b])
        for k, o in (('result', r), ('middle', b), ('source', a)):
            ctx.equal(m, 'Field_%s chained assignment: %s' % (L.fld, k), to_fe(L.p, m.load(o.f['value'])), L.cls('a'), wh(L, 'assign'))
        # assignment transfers the modulus as well
        m = L.fresh(); a, b = L.elem('a'), L.elem('b'); a.f['p'].v = L.p - 2
        r = L.call('asg', [b, a])
        ctx.equal(m, 'Field_%s assignment transfers the modulus' % L.fld, m.load(r.f['p']), L.p - 2, wh(L, 'assign'))
        r = L.call('copy', [a])
        ctx.equal(m, 'Field_%s copy transfers the modulus' % L.fld, m.load(r.f['p']), L.p - 2, wh(L, 'assign'))
        ctx.absorb(m)
    each(ctx, body)

def V01(ctx):
    from . import points, dme
    V01_fields(ctx); points.V01_points(ctx); dme.V01_dme(ctx)
def V02(ctx):
    from . import points, dme
    V02_fields(ctx); points.V02_points(ctx); dme.V02_dme(ctx)
