"""X03 and X04: the scenarios of the other checks, interpreted again under a
further rule that applies to everything they reach."""
import os, re
from .proto import *
from . import life, units
from .. import registry, ir
UNDEF = ('uninit', 'missing-return')
QUICK = ('F01', 'F02', 'F03', 'V01', 'V02', 'E01', 'E02', 'E04', 'E05', 'E06', 'K02', 'K03', 'D01', 'D02', 'D03', 'D04', 'M01', 'G01', 'O01', 'O02', 'P01', 'P02', 'S01', 'Q02', 'A01', 'A05', 'R01', 'X05', 'D05')
HEAVY = ('A02', 'A03', 'A04', 'E03', 'Q01', 'Q03', 'Q04', 'S02', 'X02')

class Sub(Ctx):
    """the context of another check's scenarios: only this property's rule is decided"""
    def __init__(self, ctx, rule): 
        self.__dict__ = dict(ctx.__dict__)
        self.main = ctx; self.applied = rule
    def undecide(self, name, why):
        # the functions only such a scenario would reach are left to the syntactic rule
        self.extra.setdefault('_left', []).append('%s: %s' % (name, why))
    def violation(self, *a, **k): pass
    def equal(self, *a, **k): return True
    def holds(self, *a, **k): return True
    def noexc(self, *a, **k): return True
    def obligation(self, name): pass
    def clean(self, m, name, kinds=None, care=True, count=True):
        if self.applied == 'X04':
            self.obl.append(name)
            ok = True
            for e in m.events:
                if e.kind not in UNDEF: continue
                p = facts.possible(m, AND(care, e.guard))
                if p is not None:
                    Ctx.violation(self, '%s: %s: %s' % (name, e.kind, e.msg), e.loc, 'called from %s, when %s' % (' < '.join(e.stack), self.pathstr(p)), key=(e.kind, e.msg, e.loc)); ok = False
            return ok
        return True
    def absorb(self, m):
        Ctx.absorb(self, m)
        if self.applied == 'X03': state(self, m)

def vloc(d):
    l = d['loc'].rsplit(':', 1)[0]
    return '%s (%s)' % (units.rel(l), d['qn'])
def statics(m):
    """ids of every object that is part of a static object"""
    out = set(); st = list(m.globals.values())
    while st:
        o = st.pop()
        if o is None or id(o) in out: continue
        out.add(id(o))
        if isinstance(o, I.Rec): st += list(o.f.values())
        elif isinstance(o, I.Vec): st += list(o.items)
        elif isinstance(o, I.Map): st += list(o.d.values())
    return out
def pointers(o, out, seen):
    if isinstance(o, N):
        for _, x in leaves(o, True): pointers(x, out, seen)
    elif isinstance(o, I.Ptr): out.append(o.o)
    elif isinstance(o, I.Cell): pointers(o.v, out, seen)
    elif isinstance(o, (I.Rec, I.Vec, I.Map)):
        if id(o) in seen: return
        seen.add(id(o))
        for x in (o.f.values() if isinstance(o, I.Rec) else o.items if isinstance(o, I.Vec) else o.d.values()): pointers(x, out, seen)
def contents(o):
    from .opprf import unknowns
    return unknowns(None, o)
def state(ctx, m):
    mine = lambda d: d['loc'].startswith(REPO)
    for d, a, b in m.hidden_state():
        if not mine(d): continue
        Ctx.violation(ctx, 'the static object %s is changed by an operation' % d['qn'], vloc(d), '', key=('state', d['qn']))
    ids = None
    for u, heap in m.gfirst:
        d = m.prog.vars.get(u); o = m.globals[u]
        if d is None or not mine(d): continue
        un = [VARS[i] for i in contents(o)]
        un = [v for v in un if v.kind in ('int', 'resid', 'bit', 'cy', 'draw', 'sqrt')]
        if un: Ctx.violation(ctx, 'the static object %s keeps a value of the first call (%s)' % (d['qn'], ', '.join(sorted({v.name or v.kind for v in un})[:3])), vloc(d), '', key=('first', d['qn']))
        if ids is None: ids = statics(m)
        ps = []; pointers(o, ps, set())
        own = set()
        for h in heap:
            st = [h]
            while st:
                x = st.pop()
                if x is None or id(x) in own: continue
                own.add(id(x)); st += list(x.f.values()) if isinstance(x, I.Rec) else list(x.items) if isinstance(x, I.Vec) else []
        for q in ps:
            if isinstance(q, (I.Rec, I.Vec, I.Cell)) and id(q) not in ids and id(q) not in own:
                if isinstance(q, I.Vec) and q.kind in ('string literal', 'literal'): continue
                Ctx.violation(ctx, 'the static object %s keeps a pointer to an object of the first call' % d['qn'], vloc(d), '', key=('firstptr', d['qn']))
        ctx.extra.setdefault('_first', []).append((d['qn'], vloc(d), repr_of(m.ginit[u][1])))
    n = len(m.ginit)
    ctx.obl.append('%d static objects compared' % n)
    names = ctx.extra.setdefault('static_objects', [])
    for d, _ in m.ginit.values():
        if mine(d) and d['qn'] not in names: names.append(d['qn'])
def repr_of(f):
    """contents without the identity of objects"""
    if isinstance(f, tuple):
        if f and f[0] == 'ptr': return '(ptr)'
        return '(%s)' % ','.join(repr_of(x) for x in f)
    return repr(f)

def corpus(ctx, rule):
    out = []
    quick = ctx.tier == 'quick'
    for pid in QUICK + (() if quick else HEAVY):
        def go(pid=pid):
            q = Sub(ctx, rule)
            registry.load(pid)(q)
            for k in ('undecided', 'seen', 'notes', 'usrs'): pass
            ctx.extra = q.extra
        out.append(('scenarios of ' + pid, go))
    return out
def lives(ctx, rule):
    q = Sub(ctx, rule)
    l = [(n, lambda f=f: sub_job(ctx, q, f)) for n, f in life.jobs(q)]
    if ctx.tier == 'quick': l = [j for i, j in enumerate(l) if (j[0].startswith('OPPRF 9 ') if 'OPPRF' in j[0] else i % 2 == 0)]
    return l
def sub_job(ctx, q, f):
    # in the process of this job: report to its context
    q.__dict__.update({k: v for k, v in ctx.__dict__.items() if k != 'main'})
    try: f()
    except (I.Unsupported, I.Budget, facts.Limit) as e: q.undecide('life cycle', str(e))
    ctx.extra = q.extra
def run(ctx, rule, extra=()):
    # the other checks fork themselves: a few at a time
    ctx.parallel(corpus(ctx, rule), procs=5)
    ctx.parallel(lives(ctx, rule) + list(extra))
    ctx.undecided[:] = sorted(set(ctx.undecided))
    left = sorted(set(ctx.extra.pop('_left', [])))
    if left: ctx.extra['left_to_syntactic_rule'] = left
    if len(left) > len(ctx.obl) // 4: ctx.undecide('scenarios', 'too many could not be interpreted: ' + '; '.join(left[:3]))

# ------------------------------------------------------------ functions no scenario reaches
def unreached(ctx):
    """(program, functions of the repository not interpreted but part of the interface or called)"""
    with units.Tmp() as t:
        hs = units.headers(); srcs = units.sources()
        inc = ''.join('#include "%s"\n' % x for x in hs)
        base = ir.Program([t.put(inc), VERIF + '/witness/units.cpp'], ())
        insts = sorted({r['_T'][r['t']]['s'] for r in base.recs.values() if r['loc'].startswith(REPO) and '<' in r['_T'][r['t']]['s'] and '(' not in r['_T'][r['t']]['s']})
        ip = t.put(inc + ''.join('template class %s;\n' % s for s in insts))
        prog = ir.Program(srcs + [ip], ())
        called = set()
        def walk(x, me):
            if isinstance(x, dict):
                u = x.get('fn')
                if isinstance(u, str) and u != me: called.add(u)
                for k, y in x.items():
                    if k not in ('_T',): walk(y, me)
            elif isinstance(x, (list, tuple)):
                for y in x: walk(y, me)
        fns = [f for f in prog.fns.values() if f['loc'].startswith(REPO)]
        for f in fns: walk([f.get('body'), f.get('inits')], f['usr'])
        live = [f for f in fns if f.get('body') is not None and not f.get('implicit') and (f.get('access') in (0, 3, None) or f['usr'] in called)]
        return prog, live, [f for f in live if f['usr'] not in ctx.usrs], srcs

def X03(ctx):
    ctx.rule = 'static objects compared before and after every operation of every scenario; initialisers of function-local statics may not depend on the call; direct writes elsewhere'
    run(ctx, 'X03')
    first = {}
    ctx.extra['static_objects'] = sorted(set(ctx.extra.get('static_objects', ())))
    for qn, w, r in ctx.extra.pop('_first', []):
        first.setdefault((qn, w), set()).add(r)
    for (qn, w), rs in first.items():
        ctx.obligation('%s: initialised the same way by every first call' % qn)
        if len(rs) > 1: ctx.violation('the static object %s keeps a value that depends on the first call' % qn, w)
    prog, live, rest, srcs = unreached(ctx)
    names = []
    names = [f['qn'] for f in rest]
    for f in live:
        if f['qn'].endswith('aes::AES::init'): continue
        ctx.obligation('%s writes no static object' % f['qn'])
        for qn, loc in writes(prog, f): ctx.violation('%s writes the static object %s' % (f['qn'], qn), where(prog, f['qn']), key=('write', f['qn'], qn))
    ctx.extra['syntactic_only'] = sorted(set(names))
def writes(prog, f):
    """static objects assigned, incremented or modified through a non-const member, by syntax"""
    out = []
    def base_of(e):
        while isinstance(e, dict):
            if e['k'] in ('mem', 'index', 'cast', 'paren') and e.get('c'): e = e['c'][0]
            elif e['k'] == 'un' and e.get('op') == '*' and e.get('c'): e = e['c'][0]
            elif e['k'] == 'call' and last(e) in ('operator[]', 'at', 'back', 'front', 'begin', 'end', 'data', 'operator*', 'operator->') and obj_of(e) is not None: e = obj_of(e)
            else: break
        return e
    def last(e): return e.get('qn', '').rsplit('::', 1)[-1]
    def obj_of(e): return e.get('obj') or (e['c'][0] if e.get('c') and e.get('op') else None)
    def glob(e):
        e = base_of(e)
        if isinstance(e, dict) and e['k'] == 'ref' and e.get('r') == 'global':
            d = prog.vars.get(e['usr'])
            if d is None or not d['loc'].startswith(REPO): return None
            t = d['_T'][d['t']]
            if t.get('const') or t.get('qn') == 'gmp_randclass' or 'rand' in t.get('s', '') or 'mersenne' in t.get('s', ''): return None
            return e['qn']
        return None
    def walk(x):
        if isinstance(x, dict):
            k = x.get('k')
            q = None
            if (k in ('assign', 'cassign') or k == 'un' and x.get('op') in ('++', '--')) and x.get('c'): q = glob(x['c'][0])
            elif k == 'call':
                n = last(x); o = obj_of(x)
                if o is not None and (n.startswith('operator') and n.endswith('=') and n not in ('operator==', 'operator!=', 'operator<=', 'operator>=')
                                      or n in ('operator++', 'operator--') or n in MUTATORS or n == 'operator[]' and 'map' in x.get('qn', '')): q = glob(o)
            if q: out.append((q, x.get('l')))
            for n, y in x.items():
                if n != '_T': walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x: walk(y)
    walk([f.get('body'), f.get('inits')])
    return out
MUTATORS = ('push_back', 'emplace_back', 'emplace', 'insert', 'insert_or_assign', 'try_emplace', 'resize', 'clear', 'assign', 'erase', 'pop_back', 'swap', 'push_front', 'pop_front', 'push', 'pop', 'append', 'reset', 'store', 'fetch_add')

def X04(ctx):
    ctx.rule = 'every value read, copied or returned was stored on every path (all scenarios, strict); unreached functions: definite return and initialisation diagnostics of the front end'
    I.Machine.strict = True
    from . import defined
    run(ctx, 'X04', defined.jobs(ctx))
    I.Machine.strict = False
    prog, live, rest, srcs = unreached(ctx)
    ks = {}
    for f in prog.fns.values():
        if f['loc'].startswith(REPO):
            p, l = f['loc'].rsplit(':', 1)
            ks.setdefault(p, []).append((int(l), f))
    for l in ks.values(): l.sort(key=lambda x: x[0])
    byusr = {f['usr'] for f in rest}; names = []
    for f in rest: ctx.obligation('%s: definite initialisation and return (front end)' % f['qn']); names.append(f['qn'])
    ctx.extra['front_end_only'] = sorted(set(names))
    with units.Tmp() as t:
        hs = units.headers(); inc = ''.join('#include "%s"\n' % x for x in hs)
        base = ir.Program([t.put(inc), VERIF + '/witness/units.cpp'], ())
        insts = sorted({r['_T'][r['t']]['s'] for r in base.recs.values() if r['loc'].startswith(REPO) and '<' in r['_T'][r['t']]['s'] and '(' not in r['_T'][r['t']]['s']})
        ip = t.put(inc + ''.join('template class %s;\n' % s for s in insts))
        import subprocess
        from concurrent.futures import ThreadPoolExecutor
        def diag(p):
            r = subprocess.run(['clang++', '-std=gnu++17', '-fsyntax-only', '-DNDEBUG', '-I' + REPO + '/includes', '-Wno-everything', '-Wreturn-type', '-Wuninitialized', p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            return r.stderr
        with ThreadPoolExecutor(8) as ex: errs = list(ex.map(diag, srcs + [ip]))
    for err in errs:
        for l in err.splitlines():
            q = re.match(r'(\S+?):(\d+):\d+: warning: (.*)', l)
            if not q or not q.group(1).startswith(REPO): continue
            own = None
            for ln, f in ks.get(q.group(1), []):
                if ln <= int(q.group(2)): own = f
            if own is not None and own['usr'] in byusr:
                ctx.violation('%s: %s' % (own['qn'], re.sub(r' \[-W.*', '', q.group(3))), '%s:%s (%s)' % (units.rel(q.group(1)), q.group(2), own['qn']))
