"""Further models of the standard library: algorithms, bitset, map, set, optional."""
from . import interp as I
from .alg import *
from .dd import AND, OR, NOT, isF, isT, ite, leaves, N
from . import models as M
from .models import FUN, fun, A, L, obj, one, concrete, rng_of, call_any, vecof, mk_elem, dflt_elem, mutate, put, targ

# ------------------------------------------------------------ positions
def seq(m, p, n):
    """n consecutive element locations from iterator p"""
    p = one(m, p)
    if not isinstance(p, I.Ptr): m.unsup('iterator %r' % (p,))
    if isinstance(p.o, I.Map): m.unsup('algorithm on an associative container')
    return [m.deref(m.arith('+', p, k)) for k in range(n)]
def rlocs(m, e, i=0):
    a = one(m, A(m, e, i))
    if isinstance(a, I.Ptr) and isinstance(a.o, I.Map):
        b = one(m, A(m, e, i + 1)); ks = a.o.keys(); x = ks.index(a.i) if a.i in ks else len(ks); y = ks.index(b.i) if b.i in ks else len(ks)
        return [a.o.d[k] if a.o.vt else a.o.d[k].f['first'] for k in ks[x:y]], [I.Ptr(a.o, k) for k in ks[x:y]] + [b], a
    o, idx = rng_of(m, e, i)
    ls = [m.elem(o, j) for j in idx]
    b = one(m, A(m, e, i + 1))
    its = [I.Ptr(o, j + 1 if a.rev else j, a.rev) for j in idx] + [b]
    return ls, its, a
class Sink:
    """where an algorithm writes: positions behind an iterator, or an inserter"""
    def __init__(self, m, it):
        self.m = m; self.it = one(m, it); self.k = 0
    def put(self, x):
        m, it = self.m, self.it
        if isinstance(it, I.Opq) and it.kind == 'inserter':
            v = it.d['v']
            if isinstance(v, I.Map): map_insert(m, v, x); return
            mutate(m, v, 'insertion'); pos = it.d.get('pos')
            el = mk_elem(m, v, x)
            if pos is None: m.setitems(v, v.items + [el])
            else: m.setitems(v, v.items[:pos] + [el] + v.items[pos:]); it.d['pos'] = pos + (0 if it.d.get('front') else 1)
            return
        d = m.deref(m.arith('+', it, self.k)); self.k += 1
        if d is not None: M.assign(m, d, x) if not isinstance(d, I.Rec) else rec_assign(m, d, x)
    def end(self): return self.m.arith('+', self.it, self.k) if isinstance(self.it, I.Ptr) else self.it
def rec_assign(m, d, x):
    t = d.ty
    m.copy_into(d, x)
@fun('std::back_inserter', 'std::inserter', 'std::front_inserter')
def f_inserter(m, e):
    v = one(m, L(m, e, 0)); n = e['qn'][5:]
    if n == 'back_inserter': return I.Opq('inserter', None, v=v)
    if n == 'front_inserter': return I.Opq('inserter', None, v=v, pos=0, front=True)
    if isinstance(v, I.Map): return I.Opq('inserter', None, v=v)
    return I.Opq('inserter', None, v=v, pos=one(m, A(m, e, 1)).i)
def fobj(m, e, i, dflt=None):
    if i >= len(e['c']): return dflt
    f = m.val(L(m, e, i))
    return f
ARI = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'modulus': '%', 'bit_xor': '^', 'bit_and': '&', 'bit_or': '|',
       'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!='}
def call(m, f, args):
    if isinstance(f, str): return prim(m, f, args)
    if isinstance(f, I.Opq) and f.kind.startswith('std::'):
        n = f.kind[5:]
        if n in ARI: return prim(m, ARI[n], args)
        if n == 'negate': return m.arith('-', 0, m.val(args[0]))
        if n == 'logical_not': return NOT(m.truth(m.val(args[0])))
        m.unsup('function object ' + f.kind)
    return call_any(m, f, args)
def prim(m, op, args):
    a, b = m.val(args[0]), m.val(args[1])
    a1, b1 = [one(m, x) if isinstance(x, N) and any(isinstance(y, I.OBJ) for _, y in leaves(x, m.g)) else x for x in (a, b)]
    if isinstance(a1, I.Rec) or isinstance(b1, I.Rec):
        return overloaded(m, op, args)
    if isinstance(a1, I.Vec) and isinstance(b1, I.Vec): return M.vec_cmp2(m, a1, b1, op)
    return m.arith(op, a, b)
def overloaded(m, op, args):
    """the repository's operator for objects"""
    x, y = one(m, m.val(args[0])), one(m, m.val(args[1]))
    if not isinstance(x, I.Rec): m.unsup('operator%s of a number and an object in an algorithm' % op)
    up, todo = set(), [x.ty]
    while todo:
        t = todo.pop()
        if t.get('usr') in up: continue
        up.add(t.get('usr')); todo += m.prog.bases(t)
    def fits(p, v):
        if isinstance(v, I.Rec): return p.get('usr') == v.ty.get('usr')
        return p['k'] == 'int' or 'mpz_class' in p['s'] or '__gmp_expr' in p['s']
    c = []
    for f in m.prog.fns.values():
        if f['qn'].split('::')[-1] != 'operator' + op: continue
        T = f['_T']; ps = [T[p['t']] for p in f['params']]
        ps = [T[p['to']] if p['k'] in ('ref', 'rref') else p for p in ps]
        if 'rec' in f and not f.get('static'):
            if T[f['rec']].get('usr') in up and len(ps) == 1 and fits(ps[0], y): c.append((f, True))
        elif len(ps) == 2 and fits(ps[0], x) and fits(ps[1], y): c.append((f, False))
    if len(c) != 1:
        h = None
        if isinstance(y, I.Rec) and y.ty.get('usr') == x.ty.get('usr'):
            for q in ('field::PrimeField::', 'ecc::Point::'):      # an operator only the algorithm instantiates
                if any(b.get('qn') == q[:-2] for b in all_bases(m, x.ty)):
                    s = synth(q + 'operator' + op, args, x.ty); h = M.lookup_abs(m, s)
        if h is not None: return h(m, s)
        m.unsup('operator%s of objects in an algorithm' % op)
    f, mem = c[0]
    s = synth(f['qn'], args, f['_T'][f['ret']] if 'ret' in f else x.ty, mem); h = M.lookup_abs(m, s)
    if h is not None: return h(m, s)
    if mem: return m.call_fn(f, x, [args[1]], None)
    return m.call_fn(f, None, list(args), None)
def all_bases(m, t):
    r, todo = [], [t]
    while todo:
        t = todo.pop()
        if any(t is y for y in r): continue
        r.append(t); todo += m.prog.bases(t)
    return r
def synth(qn, args, rt, mem=True):
    c = [{'k': 'given', 'v': a} for a in args]
    while rt['k'] in ('ref', 'rref'): rt = rt['_T'][rt['to']]
    return {'k': 'call', 'qn': qn, 'c': c[1:] if mem else c, '_rty': rt, **({'obj': c[0]} if mem else {})}
def eq(m, a, b): return m.truth(m.val(prim(m, '==', [a, b])))
@fun('std::accumulate', 'std::reduce')
def f_acc(m, e):
    ls, _, _ = rlocs(m, e)
    t = m.fr.T[e['t']]
    acc = L(m, e, 2) if len(e['c']) > 2 else 0
    f = fobj(m, e, 3, '+')
    rec = t['k'] == 'rec' and m.prog.rec(t) is not None
    cur = m.copy_construct(t, acc) if t['k'] == 'rec' else m.cell(m.wrapto(m.val(acc), t), t)
    for x in ls:
        r = call(m, f, [cur, x])
        if t['k'] == 'rec': cur = r if isinstance(r, (I.Rec, I.Vec)) else m.cell(m.val(r), t)
        else: cur = m.cell(m.wrapto(m.val(r), t), t)
    return cur if t['k'] == 'rec' else m.load(cur)
@fun('std::inner_product')
def f_inner(m, e):
    ls, _, _ = rlocs(m, e); l2 = seq(m, A(m, e, 2), len(ls)); t = m.fr.T[e['t']]
    cur = m.val(L(m, e, 3)); f, g = fobj(m, e, 4, '+'), fobj(m, e, 5, '*')
    for x, y in zip(ls, l2): cur = m.val(call(m, f, [cur, call(m, g, [x, y])])); cur = m.wrapto(cur, t)
    return cur
@fun('std::transform')
def f_transform(m, e):
    ls, _, _ = rlocs(m, e)
    if len(e['c']) == 4:
        s = Sink(m, A(m, e, 2)); f = fobj(m, e, 3)
        for x in ls: s.put(call(m, f, [x]))
    else:
        l2 = seq(m, A(m, e, 2), len(ls)); s = Sink(m, A(m, e, 3)); f = fobj(m, e, 4)
        for x, y in zip(ls, l2): s.put(call(m, f, [x, y]))
    return s.end()
@fun('std::generate', 'std::generate_n')
def f_generate(m, e):
    if e['qn'].endswith('_n'):
        n = concrete(m, A(m, e, 1), 'count'); s = Sink(m, A(m, e, 0)); f = fobj(m, e, 2)
        for _ in range(n): s.put(call(m, f, []))
        return s.end()
    ls, _, _ = rlocs(m, e); f = fobj(m, e, 2)
    for d in ls: M.assign(m, d, call(m, f, []))
@fun('std::iota')
def f_iota(m, e):
    ls, _, _ = rlocs(m, e); c = m.val(L(m, e, 2))
    for d in ls:
        t = d.ty if isinstance(d, I.Cell) and isinstance(d.ty, dict) else None
        m.store(d, m.wrapto(c, t) if t else c); c = m.arith('+', c, 1)
@fun('std::copy', 'std::copy_n', 'std::copy_if', 'std::remove_copy_if', 'std::move_backward', 'std::copy_backward', 'std::reverse_copy')
def f_copy(m, e):
    n = e['qn'][5:]
    if n == 'copy_n':
        k = concrete(m, A(m, e, 1), 'count'); ls = seq(m, A(m, e, 0), k); s = Sink(m, A(m, e, 2))
    else:
        ls, _, _ = rlocs(m, e)
        if n in ('move_backward', 'copy_backward'):
            d = one(m, A(m, e, 2)); s = Sink(m, m.arith('-', d, len(ls)))
            vals = [m.clone(x) for x in ls]
            for v in vals: s.put(v)
            return m.arith('-', d, len(ls))
        s = Sink(m, A(m, e, 2))
        if n == 'reverse_copy': ls = ls[::-1]
    f = fobj(m, e, 3) if n.endswith('_if') else None
    if isinstance(s.it, I.Ptr): ls = [m.clone(x) for x in ls] if f is None else ls
    for x in ls:
        if f is not None:
            c = m.truth(m.val(call(m, f, [x])))
            c = m.decide(c, 'copy_if') if hasattr(m, 'decide') else c
            if n.startswith('remove'): c = NOT(c)
            if isF(AND(m.g, c)): continue
            if not isF(AND(m.g, NOT(c))): m.split('copy_if', c)
        s.put(x)
    return s.end()
@fun('std::for_each', 'std::for_each_n', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::find_if_not', 'std::count_if', 'std::find', 'std::count')
def f_foreach(m, e):
    n = e['qn'][5:]
    if n == 'for_each_n':
        ls = seq(m, A(m, e, 0), concrete(m, A(m, e, 1), 'count')); f = fobj(m, e, 2)
        for x in ls: call(m, f, [x])
        return None
    ls, its, _ = rlocs(m, e)
    if n in ('find', 'count'):
        y = L(m, e, 2); t = lambda x: eq(m, x, y)
    else:
        f = fobj(m, e, 2); t = lambda x: m.truth(m.val(call(m, f, [x])))
    if n == 'for_each':
        for x in ls: call(m, f, [x])
        return f
    g0 = m.g; cs = []
    for x in ls:
        c = t(x)
        if n == 'find_if_not': c = NOT(c)
        cs.append(c)
        if not isF(m.gone): m.g = AND(m.g, NOT(m.gone))
        if n in ('any_of', 'none_of', 'find_if', 'find_if_not', 'find'): m.g = AND(m.g, NOT(c))
        elif n == 'all_of': m.g = AND(m.g, c)
        if isF(m.g): break
    m.g = g0 if isF(m.gone) else AND(g0, NOT(m.gone))
    if n in ('any_of', 'none_of'):
        r = False
        for c in cs: r = OR(r, c)
        return r if n == 'any_of' else NOT(r)
    if n == 'all_of':
        r = True
        for c in cs: r = AND(r, c)
        return r
    if n in ('count', 'count_if'):
        r = 0
        for c in cs: r = m.arith('+', r, ite(c, 1, 0))
        return r
    r = its[-1]
    for it, c in reversed(list(zip(its, cs))): r = ite(c, it, r)
    return r
@fun('std::max_element', 'std::min_element')
def f_maxel(m, e):
    ls, its, _ = rlocs(m, e)
    if not ls: return its[-1]
    f = fobj(m, e, 2, '<'); r = its[0]; best = m.val(ls[0])
    for x, it in zip(ls[1:], its[1:]):
        v = m.val(x)
        c = m.truth(m.val(call(m, f, [best, v] if e['qn'].endswith('max_element') else [v, best])))
        r = ite(c, it, r); best = ite(c, v, best)
    return r
@fun('std::min', 'std::max')
def f_minmax(m, e):
    if len(e['c']) == 1 or len(e['c']) == 2 and isinstance(one(m, m.val(L(m, e, 0))), I.Vec):
        v = vecof(m, L(m, e, 0)); ls = list(v.items); f = fobj(m, e, 1, '<')
    else: ls = [L(m, e, 0), L(m, e, 1)]; f = fobj(m, e, 2, '<')
    best = m.val(ls[0])
    for x in ls[1:]:
        v = m.val(x)
        c = m.truth(m.val(call(m, f, [best, v] if e['qn'].endswith('max') else [v, best])))
        best = ite(c, v, best)
    return m.cell(best)
@fun('std::minmax')
def f_minmax2(m, e):
    if len(e['c']) != 2: m.unsup('minmax')
    a, b = L(m, e, 0), L(m, e, 1)
    c = m.truth(m.val(call(m, fobj(m, e, 2, '<'), [b, a])))
    o = m.new_obj(m.fr.T[e['t']])
    for n, v in (('first', ite(c, m.val(b), m.val(a))), ('second', ite(c, m.val(a), m.val(b)))):
        cell = o.f[n]
        if isinstance(cell, I.Cell) and isinstance(cell.ty, dict) and cell.ty['k'] in ('ref', 'rref'): cell.v = m.cell(v)
        else: m.store(cell, v)
    return o
@fun('std::clamp')
def f_clamp(m, e):
    v, lo, hi = [m.val(L(m, e, i)) for i in range(3)]
    return m.cell(ite(m.arith('<', v, lo), lo, ite(m.arith('<', hi, v), hi, v)))
@fun('std::sort', 'std::stable_sort')
def f_sort(m, e):
    ls, _, a = rlocs(m, e); f = fobj(m, e, 2, '<')
    o, idx = rng_of(m, e)
    if not m.uncond(o): m.split('sort')
    import functools
    def lt(x, y):
        c = m.truth(m.val(call(m, f, [x, y])))
        if isF(AND(m.g, c)): return False
        if isF(AND(m.g, NOT(c))): return True
        m.split('order of elements', c)
    s = sorted(ls, key=functools.cmp_to_key(lambda x, y: -1 if lt(x, y) else 1 if lt(y, x) else 0))
    its = list(o.items)
    for i, x in zip(idx, s): its[i] = x
    m.setitems(o, its)
@fun('std::equal')
def f_equal(m, e):
    ls, _, _ = rlocs(m, e)
    n = 3
    if len(e['c']) >= 4 and 'iterator' in m.fr.T[e['pt'][3]]['s'] or len(e['c']) >= 4 and m.fr.T[e['pt'][3]]['k'] == 'ptr':
        l2, _, _ = rlocs(m, e, 2); n = 4
        if len(l2) != len(ls): return False
    else: l2 = seq(m, A(m, e, 2), len(ls))
    f = fobj(m, e, n); r = True
    for x, y in zip(ls, l2): r = AND(r, m.truth(m.val(call(m, f, [x, y]))) if f is not None else eq(m, x, y))
    return r
def remove(m, e, pred, n):
    ls, its, a = rlocs(m, e); o, idx = rng_of(m, e)
    if not m.uncond(o): m.split('remove')
    keep = []
    for x in ls:
        c = pred(x, keep)
        if isF(AND(m.g, c)): keep.append(x); continue
        if not isF(AND(m.g, NOT(c))): m.split(n, c)
    vals = [m.clone(x) for x in keep]
    for d, v in zip(ls, vals): M.assign(m, d, v)
    return its[len(keep)]
@fun('std::remove')
def f_remove(m, e):
    y = L(m, e, 2); yv = m.cell(m.val(y)) if not isinstance(m.val(y), (I.Rec, I.Vec)) else m.clone(y)
    return remove(m, e, lambda x, k: eq(m, x, yv), 'remove')
@fun('std::remove_if')
def f_removeif(m, e):
    f = fobj(m, e, 2); return remove(m, e, lambda x, k: m.truth(m.val(call(m, f, [x]))), 'remove_if')
@fun('std::unique')
def f_unique(m, e):
    f = fobj(m, e, 2, '=='); return remove(m, e, lambda x, k: m.truth(m.val(call(m, f, [k[-1], x]))) if k else False, 'unique')
@fun('std::rotate')
def f_rotate(m, e):
    a, b, c = [one(m, A(m, e, i)) for i in range(3)]; o = a.o
    if a.rev or not isinstance(o, I.Vec): m.unsup('rotate')
    if not m.uncond(o): m.split('rotate')
    i, j, k = a.i or 0, b.i or 0, c.i or 0
    m.setitems(o, o.items[:i] + o.items[j:k] + o.items[i:j] + o.items[k:])
    return I.Ptr(o, i + k - j)
@fun('std::swap_ranges')
def f_swapr(m, e):
    ls, _, _ = rlocs(m, e); s = A(m, e, 2)
    for x, y in zip(ls, seq(m, s, len(ls))):
        t = m.clone(x); m.copy_into(x, m.val(y)); m.copy_into(y, m.val(t))
    return m.arith('+', one(m, s), len(ls))
@fun('std::iter_swap')
def f_iswap(m, e):
    x, y = m.deref(A(m, e, 0)), m.deref(A(m, e, 1))
    t = m.clone(x); m.copy_into(x, m.val(y)); m.copy_into(y, m.val(t))
@fun('std::exchange')
def f_exchange(m, e):
    x = one(m, L(m, e, 0)); old = m.clone(x); M.assign(m, x, L(m, e, 1))
    return old if isinstance(old, (I.Rec, I.Vec)) else m.val(old)
@fun('std::partial_sum', 'std::adjacent_difference')
def f_psum(m, e):
    ls, _, _ = rlocs(m, e); s = Sink(m, A(m, e, 2)); ps = e['qn'].endswith('sum'); f = fobj(m, e, 3, '+' if ps else '-')
    ls = [m.clone(x) for x in ls]; cur = None
    for k, x in enumerate(ls):
        if cur is None: cur = x; s.put(x); continue
        if ps: cur = m.cell(m.val(call(m, f, [cur, x]))); s.put(cur)
        else: s.put(call(m, f, [x, cur])); cur = x
    return s.end()
@fun('std::lower_bound', 'std::upper_bound', 'std::binary_search')
def f_bound(m, e):
    ls, its, _ = rlocs(m, e); y = L(m, e, 2); f = fobj(m, e, 3, '<'); n = e['qn'][5:]
    if n == 'binary_search':
        r = False
        for x in ls: r = OR(r, AND(NOT(m.truth(m.val(call(m, f, [x, y])))), NOT(m.truth(m.val(call(m, f, [y, x]))))))
        return r
    r = its[-1]
    for x, it in reversed(list(zip(ls, its))):
        c = NOT(m.truth(m.val(call(m, f, [x, y])))) if n == 'lower_bound' else m.truth(m.val(call(m, f, [y, x])))
        r = ite(c, it, r)
    return r

# ------------------------------------------------------------ bitset, vector<bool>
def bitset_new(m, ty):
    n = ty['args'][0]; n = int(n['i'] if isinstance(n, dict) else n)
    return I.Vec([m.cell(False, {'k': 'bool', 's': 'bool'}) for _ in range(n)], 'bitset', {'k': 'bool', 's': 'bool'}, m.g, m.fr)
def bit_at(m, v, i):
    return m.ap(lambda x: ite(x, 1, 0) if isinstance(x, N) else int(x) if isinstance(x, bool) else x, m.truth(m.arith('&', m.arith('>>', v, i), 1)))
def bitset_set(m, o, v):
    v = m.val(v)
    for i, c in enumerate(o.items): m.store(c, m.truth(m.arith('&', m.arith('>>', v, i), 1)))
def bv(m, o): return [m.truth(m.load(x)) for x in o.items]
def from_bools(m, bs, like):
    return I.Vec([m.cell(b, {'k': 'bool', 's': 'bool'}) for b in bs], 'bitset', like.ety, m.g, m.fr)
def to_int(m, bs):
    r = 0
    for i, b in enumerate(bs): r = m.arith('+', r, ite(b, 1 << i, 0))
    return r
def shifted(bs, op, k):
    n = len(bs)
    if op == '<<': return [bs[i - k] if i >= k else False for i in range(n)]
    return [bs[i + k] if i + k < n else False for i in range(n)]
def bop(op, a, b):
    return AND(a, b) if op == '&' else OR(a, b) if op == '|' else OR(AND(a, NOT(b)), AND(NOT(a), b))
def bitset_method(m, e, n):
    o = one(m, obj(m, e)); 
    if not isinstance(o, I.Vec): m.unsup('bitset')
    if n in ('operator[]', 'test'):
        i = A(m, e, 0)
        if n == 'test' and isinstance(i, int) and not 0 <= i < len(o.items): m.die(m.g, 'throw', 'std::out_of_range'); return False
        x = m.ap(lambda i: m.elem(o, i), i)
        return x if n == 'operator[]' and m.fr.T[e['t']]['k'] == 'rec' else m.load(x)
    bs = bv(m, o)
    if n in ('to_ulong', 'to_ullong'): return to_int(m, bs)
    if n == 'size': return len(bs)
    if n == 'count':
        r = 0
        for b in bs: r = m.arith('+', r, ite(b, 1, 0))
        return r
    if n in ('any', 'none', 'all'):
        r = False
        for b in bs: r = OR(r, NOT(b) if n == 'all' else b)
        return r if n == 'any' else NOT(r)
    if n in ('set', 'reset', 'flip'):
        if not e['c']:
            for c, b in zip(o.items, bs): m.store(c, True if n == 'set' else False if n == 'reset' else NOT(b))
            return o
        x = m.ap(lambda i: m.elem(o, i), A(m, e, 0))
        m.store(x, (m.truth(A(m, e, 1)) if len(e['c']) > 1 else True) if n == 'set' else False if n == 'reset' else NOT(m.truth(m.load(x))))
        return o
    if n in ('operator<<', 'operator>>'): return from_bools(m, shifted(bs, n[8:], concrete(m, A(m, e, 0), 'shift')), o)
    if n in ('operator<<=', 'operator>>='):
        for c, b in zip(o.items, shifted(bs, n[8:10], concrete(m, A(m, e, 0), 'shift'))): m.store(c, b)
        return o
    if n in ('operator&=', 'operator|=', 'operator^='):
        for c, a, b in zip(o.items, bs, bv(m, one(m, L(m, e, 0)))): m.store(c, bop(n[8], a, b))
        return o
    if n == 'operator~': return from_bools(m, [NOT(b) for b in bs], o)
    if n in ('operator==', 'operator!='):
        r = True
        for a, b in zip(bs, bv(m, one(m, L(m, e, 0)))): r = AND(r, NOT(bop('^', a, b)))
        return r if n == 'operator==' else NOT(r)
    if n == 'operator=': m.copy_into(o, L(m, e, 0)); return o
    m.unsup('std::bitset::' + n)
def bitset_bin(m, e, op):
    a, b = one(m, m.val(L(m, e, 0))), one(m, m.val(L(m, e, 1)))
    x, y = bv(m, a), bv(m, b)
    if op in ('&', '|', '^'): return from_bools(m, [bop(op, p, q) for p, q in zip(x, y)], a)
    r = True
    for p, q in zip(x, y): r = AND(r, NOT(bop('^', p, q)))
    return r if op == '==' else NOT(r)
def bitref_method(m, e, n):
    o = obj(m, e)
    if n.startswith('operator bool'): return m.truth(m.load(o))
    if n == 'operator=':
        m.store(o, m.truth(m.val(L(m, e, 0)))); return o
    if n == 'operator~': return NOT(m.truth(m.load(o)))
    if n == 'flip': m.store(o, NOT(m.truth(m.load(o)))); return o
    if n in ('operator|=', 'operator&=', 'operator^='): m.store(o, bop(n[8], m.truth(m.load(o)), m.truth(A(m, e, 0)))); return o
    if n in ('operator==', 'operator<'):
        a, b = m.truth(m.load(o)), m.truth(m.val(L(m, e, 0)))
        return NOT(bop('^', a, b)) if n[8] == '=' else AND(NOT(a), b)
    m.unsup('bit reference ' + n)

# ------------------------------------------------------------ optional
def opt_new(m, ty):
    return I.Rec(ty, {'has': I.Cell(False, m.g, m.fr, {'k': 'bool', 's': 'bool'}), 'v': m.new_obj(targ(ty, 0))}, m.g, m.fr)
def opt_set(m, o, x):
    t = targ(o.ty, 0)
    if isinstance(o.f['v'], I.Rec): m.copy_via_ctor(o.f['v'], t, x)
    else: m.copy_into(o.f['v'], m.wrapto(m.val(x), t) if t['k'] != 'rec' else x)
    m.store(o.f['has'], True)
def is_nullopt(x): return isinstance(x, I.Opq) and 'nullopt' in x.kind
def opt_assign(m, o, s):
    v = m.val(s)
    if is_nullopt(v): m.store(o.f['has'], False); return
    if isinstance(v, I.Rec) and v.ty.get('qn') == 'std::optional':
        if isF(AND(m.g, m.truth(m.load(v.f['has'])))): m.store(o.f['has'], False); return
        m.copy_into(o.f['v'], v.f['v']); m.store(o.f['has'], m.load(v.f['has'])); return
    opt_set(m, o, s)
def opt_method(m, e, n):
    o = one(m, obj(m, e)); has = m.truth(m.load(o.f['has']))
    if n in ('operator bool', 'has_value'): return has
    if n in ('operator*', 'operator->', 'value'):
        bad = AND(m.g, NOT(has))
        if not isF(bad):
            if n == 'value': m.die(bad, 'throw', 'std::bad_optional_access')
            else: m.event('uninit', 'reads an empty optional', bad)
        return I.Ptr(o.f['v']) if n == 'operator->' else o.f['v']
    if n == 'value_or': return ite(has, m.val(o.f['v']), m.val(L(m, e, 0)))
    if n == 'operator=': opt_assign(m, o, L(m, e, 0)); return o
    if n == 'reset': m.store(o.f['has'], False); return None
    if n == 'emplace' and len(e['c']) == 1: opt_set(m, o, L(m, e, 0)); return o.f['v']
    m.unsup('std::optional::' + n)
@fun('std::make_optional')
def f_mkopt(m, e):
    o = m.new_obj(m.fr.T[e['t']]); opt_set(m, o, L(m, e, 0)); return o

# ------------------------------------------------------------ map, set
def map_new(m, ty):
    o = I.Map(); o.ty = ty; o.d = {}; o.birth = m.g; o.owner = m.fr; o.dead = None
    o.kt = targ(ty, 0); o.vt = targ(ty, 1) if ty['qn'] in ('std::map', 'std::unordered_map') else None
    return o
def mkey(m, x):
    v = m.val(x)
    if isinstance(v, N): v = one(m, v, 'key')
    if isinstance(v, (BV, Poly)): return concrete(m, v, 'key of a map')
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, I.Vec):
        return tuple(mkey(m, c) for c in v.items)
    if isinstance(v, I.Rec) and v.f and m.prog.rec(v.ty) is None: return tuple(mkey(m, c) for c in v.f.values())
    if isinstance(v, I.Ptr) and isinstance(v.o, I.Table): return tuple(ord(c) for c in M.cstring(m, v))
    m.unsup('key of a map')
def map_entry(m, o, k, kx, make=True):
    r = o.d.get(k)
    if r is None and make:
        if not m.uncond(o): m.split('insertion into a map')
        if m.journal is not None: m.unsup('insertion into a map in a summarised loop')
        fs = {'first': m.new_obj(o.kt)}
        put_key(m, fs['first'], kx)
        if o.vt:
            v = I.Vec([], 'vector', o.vt); fs['second'] = dflt_elem(m, v)
        r = I.Rec({'k': 'rec', 'qn': 'std::pair', 's': 'std::pair', 'usr': 'pair'}, fs, m.g, None)
        o.d = dict(o.d); o.d[k] = r
    return r
def put_key(m, d, kx):
    v = m.val(kx); v = one(m, v) if isinstance(v, N) else v
    if isinstance(d, I.Vec) and isinstance(v, I.Ptr): d.items = [m.cell(ord(c)) for c in M.cstring(m, v)]
    elif isinstance(d, I.Vec): d.items = [m.clone(x) for x in v.items]
    else: m.copy_into(d, v)
def map_insert(m, o, x):
    x = one(m, m.val(x)) if not isinstance(x, I.Rec) else x
    if o.vt:
        k0, v0 = list(x.f.values())[:2]; k0, v0 = M.deref_field(k0), M.deref_field(v0)
    else: k0, v0 = x, None
    k = mkey(m, k0); had = k in o.d
    r = map_entry(m, o, k, k0)
    if not had and v0 is not None: r.f['second'] = mk_elem(m, I.Vec([], 'vector', o.vt), v0)
    return k, not had
def entry_loc(o, r): return r if o.vt else r.f['first']
def map_method(m, e, n):
    o = one(m, obj(m, e))
    if n in ('erase', 'clear', 'operator=') and m.journal is not None: m.unsup('change of a map in a summarised loop')
    if not isinstance(o, I.Map): m.unsup('map')
    ks = o.keys()
    if n in ('size', 'empty'): return len(ks) if n == 'size' else not ks
    if n in ('begin', 'cbegin'): return I.Ptr(o, ks[0] if ks else 'end')
    if n in ('end', 'cend'): return I.Ptr(o, 'end')
    if n in ('operator[]', 'at'):
        k = mkey(m, L(m, e, 0))
        if n == 'at' and k not in o.d: m.die(m.g, 'throw', 'std::out_of_range'); return None
        return map_entry(m, o, k, L(m, e, 0)).f['second']
    if n == 'find':
        k = mkey(m, L(m, e, 0)); return I.Ptr(o, k if k in o.d else 'end')
    if n in ('count', 'contains'): return int(mkey(m, L(m, e, 0)) in o.d)
    if n == 'clear':
        if not m.uncond(o): m.split('map')
        o.d = {}; return None
    if n == 'erase':
        if not m.uncond(o): m.split('map')
        a = L(m, e, 0); v = m.val(a); v = one(m, v) if isinstance(v, N) else v
        if isinstance(v, I.Ptr) and v.o is o:
            ks2 = ks + ['end']; nx = ks2[ks2.index(v.i) + 1]; o.d = {k: x for k, x in o.d.items() if k != v.i}; return I.Ptr(o, nx)
        k = mkey(m, a); r = int(k in o.d); o.d = {q: x for q, x in o.d.items() if q != k}; return r
    if n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
        if n == 'insert' and len(e['c']) == 1:
            v = m.val(L(m, e, 0)); v = one(m, v) if isinstance(v, N) else v
            if isinstance(v, I.Vec) and v.kind == 'ilist':
                for x in v.items: map_insert(m, o, x)
                return None
            k, new = map_insert(m, o, v if isinstance(v, I.Rec) else L(m, e, 0))
        elif len(e['c']) == 2 and o.vt and n != 'insert':
            k0, v0 = L(m, e, 0), L(m, e, 1); k = mkey(m, k0); new = k not in o.d; r = map_entry(m, o, k, k0)
            if new or n == 'insert_or_assign': r.f['second'] = mk_elem(m, I.Vec([], 'vector', o.vt), v0)
        elif len(e['c']) == 1: k, new = map_insert(m, o, L(m, e, 0))
        else: m.unsup('std::map::' + n)
        t = m.fr.T[e['t']]
        if t['k'] == 'rec' and t['qn'] == 'std::pair':
            p = m.new_obj(t); m.store(p.f['first'], I.Ptr(o, k)); m.store(p.f['second'], new); return p
        return I.Ptr(o, k)
    if n == 'operator=':
        s = one(m, m.val(L(m, e, 0)))
        if not m.uncond(o): m.split('map')
        if isinstance(s, I.Map): o.d = {k: m.clone(v) for k, v in s.d.items()}; return o
        o.d = {}
        for x in s.items: map_insert(m, o, x)
        return o
    m.unsup('%s::%s' % (e['qn'].rsplit('::', 1)[0], n))
def map_ctor(m, o, e):
    c = e['c']
    if not c: return
    v = one(m, m.val(m.ev(c[0])))
    if isinstance(v, I.Map): o.d = {k: m.clone(x) for k, x in v.d.items()}; return
    if isinstance(v, I.Vec):
        for x in v.items: map_insert(m, o, x)
        return
    if isinstance(v, I.Ptr) and len(c) >= 2:
        for x in rlocs(m, e)[0]: map_insert(m, o, x)
        return
    m.unsup('map constructor')
def map_next(m, p, d):
    ks = p.o.keys() + ['end']
    if p.i not in ks: m.event('use-after-free', 'uses an iterator to an erased element', kill=True); return p
    j = ks.index(p.i) + d
    if not 0 <= j < len(ks): m.event('out-of-bounds', 'iterator of a map out of range', kill=True); return p
    return I.Ptr(p.o, ks[j])
def map_deref(m, p):
    r = p.o.d.get(p.i)
    if r is None: m.event('out-of-bounds', 'dereferences an iterator past the end of a map', kill=True); return None
    return entry_loc(p.o, r)
MAPIT = ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator')
BITREF = ('std::_Bit_reference', 'std::bitset::reference')
MAPS = ('std::map', 'std::set')
