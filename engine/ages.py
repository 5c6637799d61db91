"""Histories: a counter that only ever grows and is only ever compared with
constants takes, after enough operations, every value.  The checks are repeated
with the first increment of such a counter standing for all the operations that
bring it near each of those constants."""
def strip(e):
    while e['k'] in ('cast', 'paren', 'const') and e.get('c'): e = e['c'][0]
    return e
def key_of(e, T):
    e = strip(e)
    if e['k'] == 'ref' and e.get('r') == 'global' and e.get('repo'): return e['usr']
    if e['k'] == 'mem':
        o = T[e['own']]
        if o.get('repo'): return (o['usr'], e['n'])
    return None
def const_of(prog, e):
    e = strip(e)
    if e['k'] == 'un' and e['op'] == '-':
        v = const_of(prog, e['c'][0]); return None if v is None else -v
    if e['k'] == 'int': return int(e['v'])
    if e['k'] == 'ref' and e.get('r') == 'enumc': return int(e['v'])
    if e['k'] == 'ref' and e.get('r') == 'global':
        d = prog.vars.get(e['usr'])
        if d and d['_T'][d['t']].get('const') and d.get('init'): return const_of(prog, d['init'])
    if e['k'] == 'bin' and e['op'] in ('+', '-', '*', '<<'):
        a, b = (const_of(prog, x) for x in e['c'])
        if a is not None and b is not None and abs(b) < 64 | (1 << 20) * (e['op'] != '<<'):
            return {'+': a + b, '-': a - b, '*': a * b, '<<': a << max(b, 0)}[e['op']]
    return None
CMP = ('==', '!=', '<', '>', '<=', '>=')
class Info:
    def __init__(self): self.ok = True; self.inc = 0; self.consts = set(); self.ty = None; self.name = ''; self.loc = ''
def scan(prog):
    out = {}
    for f in prog.fns.values():
        if not f.get('body') and not f.get('inits'): continue
        walk(prog, f, f['_T'], f, [], out)
    for d in prog.vars.values():
        if isinstance(d.get('init'), dict): walk(prog, d['init'], d['_T'], None, [], out)
    res = {}
    for k, i in out.items():
        if not i.ok or not i.inc or i.ty is None: continue
        bits = i.ty['bits']; vals = []
        hi = (1 << bits) - 1 if not i.ty['signed'] else (1 << bits - 1) - 1
        if i.inc < 0: vals += [1, 2]
        cs = sorted(c for c in i.consts if 3 <= abs(c) < 1 << 48)
        for dl in (0, -1, 1): vals += [c + dl for c in cs[:4]]
        if bits <= 16: vals += [hi, 0]
        elif bits <= 32 and 0 in i.consts: vals.append(hi)
        if i.ty['k'] == 'int': vals = [v for v in dict.fromkeys(vals) if (0 if not i.ty['signed'] else -hi) <= v <= hi]
        if vals: res[k] = (i.name, vals[:9])
    return res
def walk(prog, e, T, fn, up, out):
    if isinstance(e, list):
        for x in e: walk(prog, x, T, fn, up, out)
        return
    if not isinstance(e, dict): return
    if e.get('k') in ('ref', 'mem') and (e['k'] == 'mem' or e.get('r') == 'global'):
        k = key_of(e, T)
        if k is not None:
            ty = T[e['t']]
            while ty['k'] in ('ref', 'rref'): ty = T[ty['to']]
            if ty['k'] == 'int' and ty.get('bits', 0) >= 8:
                i = out.setdefault(k, Info()); i.ty = ty; i.name = e.get('qn') or e['n']
                use(prog, i, k, e, T, up)
    up.append(e)
    for n, x in e.items():
        if n in ('_T', 't', 'ct', 'clt') or not isinstance(x, (dict, list)): continue
        walk(prog, x, T, fn, up, out)
    up.pop()
def mentions(e, k, T):
    if isinstance(e, list): return any(mentions(x, k, T) for x in e)
    if not isinstance(e, dict): return False
    if e.get('k') in ('ref', 'mem') and key_of(e, T) == k: return True
    return any(mentions(x, k, T) for n, x in e.items() if n not in ('_T', 't', 'ct', 'clt') and isinstance(x, (dict, list)))
def leaves_fn(e):
    if isinstance(e, list): return any(leaves_fn(x) for x in e)
    if not isinstance(e, dict): return False
    if e.get('k') in ('return', 'throw', 'break', 'continue', 'goto'): return True
    return any(leaves_fn(x) for n, x in e.items() if n not in ('_T', 't', 'ct', 'clt') and isinstance(x, (dict, list)))
def gated(up, e, k, T):
    """does the counter's own value decide whether this increment happens"""
    cur = e
    for p in reversed(up):
        c = p.get('cond')
        if isinstance(c, dict) and c is not cur and mentions(c, k, T): return True
        if p.get('k') == 'bin' and p['op'] in ('&&', '||') and p['c'][1] is cur and mentions(p['c'][0], k, T): return True
        if p.get('k') == 'cond' and p['c'][0] is not cur and mentions(p['c'][0], k, T): return True
        for l in p.values():
            if isinstance(l, list):
                for s in l:
                    if s is cur: break
                    if isinstance(s, dict) and s.get('k') == 'if' and mentions(s['cond'], k, T) and leaves_fn(s): return True
        cur = p
    return False
def use(prog, i, k, e, T, up):
    use1(prog, i, k, e, T, up)
    if i.ok and gated(up, e, k, T) and writes(e, up): i.ok = False
def writes(e, up):
    cur = e
    for p in reversed(up):
        q = p.get('k')
        if q in ('cast', 'paren'): cur = p; continue
        return q == 'un' and p['op'] in ('++', '--') or q in ('assign', 'cassign') and p['c'][0] is cur
    return False
def use1(prog, i, k, e, T, up):
    cur = e
    for p in reversed(up):
        q = p.get('k')
        if q in ('cast', 'paren'):
            if p.get('ck') in ('IntegralToBoolean',): return
            if p.get('ck') not in (None, 'LValueToRValue', 'IntegralCast', 'NoOp'): i.ok = False; return
            cur = p; continue
        if q == 'un' and p['op'] in ('++', '--'):
            i.inc = i.inc or (1 if p['op'] == '++' else -1)
            if i.inc != (1 if p['op'] == '++' else -1): i.ok = False; return
            cur = p; continue
        if q == 'un' and p['op'] == '!': return
        if q == 'cassign':
            c = const_of(prog, p['c'][1])
            if p['c'][0] is not cur or p['op'] not in ('+=', '-=') or c is None or c <= 0: i.ok = False; return
            s = 1 if p['op'] == '+=' else -1
            i.inc = i.inc or s
            if i.inc != s: i.ok = False; return
            cur = p; continue
        if q == 'assign':
            lhs, rhs = p['c']
            if lhs is cur:
                r = strip(rhs)
                if key_of(rhs, T) == k: return                         # copied from another object
                if up[0].get('ctor') and const_of(prog, rhs) is not None: return
                if r['k'] == 'bin' and r['op'] == '+' and key_of(r['c'][0], T) == k and (const_of(prog, r['c'][1]) or 0) > 0:
                    i.inc = i.inc or 1; return
                i.ok = False; return
            if key_of(lhs, T) == k: return
            i.ok = False; return
        if q == 'bin':
            a, b = p['c']
            o = b if a is cur else a
            if p['op'] in ('&&', '||'): return
            c = const_of(prog, o)
            if p['op'] == ',': 
                if a is cur: return
                cur = p; continue
            if c is None: i.ok = False; return
            i.consts.add(1 << c if p['op'] in ('>>',) and 0 <= c < 48 else c)
            if p['op'] in CMP: return
            if p['op'] in ('%', '&', '>>', '+', '-', '/'): cur = p; continue
            i.ok = False; return
        if q in ('if', 'while', 'for', 'do'):
            return
        if q == 'cond' and p['c'][0] is cur: return
        if q == 'expr': return                                          # value unused
        if q is None and p.get('m') == e.get('n'): return                # a constructor copying the object
        i.ok = False; return
    # a constructor's own initialiser, a default copy: neither grows it
