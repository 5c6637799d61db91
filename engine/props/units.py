"""X01: headers stand alone and combine, every template member compiles, and
every declared public operation has exactly one definition."""
import os, glob, tempfile, shutil, itertools, re
from concurrent.futures import ThreadPoolExecutor
from .. import ir
from ..lab import VERIF, REPO

def rel(p): return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p
def locf(e): return rel(e['loc'].rsplit(':', 1)[0])
def headers(): return sorted(rel(p)[len('includes/'):] for p in glob.glob(REPO + '/includes/**/*.h*', recursive=True))
def sources(): return sorted(glob.glob(REPO + '/src/**/*.c*', recursive=True) and [p for p in glob.glob(REPO + '/src/**/*', recursive=True) if re.search(r'\.(cpp|cc|cxx|c)$', p)])
class Tmp:
    def __enter__(self): self.d = tempfile.mkdtemp(prefix='verif-units-'); self.n = 0; return self
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
    def put(self, text):
        self.n += 1; p = '%s/u%d.cpp' % (self.d, self.n); open(p, 'w').write(text); return p
def firsterr(err):
    for l in err.splitlines():
        if 'error:' in l:
            l = l.strip()
            m = re.match(r'(\S+?):(\d+):\d+: (.*)', l)
            return (rel(m.group(1)) + ':' + m.group(2), m.group(3)) if m else ('?', l)
    return ('?', err.strip()[-300:])
def front(path, *flags):
    """front end only: parse, name lookup, overload resolution, template instantiation"""
    import subprocess
    r = subprocess.run(['clang++-18' if shutil.which('clang++-18') else 'clang++', '-std=gnu++17', '-fsyntax-only', '-w', '-I' + REPO + '/includes'] + list(flags) + [path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode, r.stderr

def X01(ctx):
    ctx.rule = 'front end on every header, combination and source; explicit instantiation of every class template; one definition per declared public operation over all translation units'
    hs = headers(); srcs = sources()
    with Tmp() as t:
        jobs = []
        inc = lambda xs: ''.join('#include "%s"\n' % x for x in xs)
        for h in hs:
            for fl in ((), ('-DNDEBUG',)):
                jobs.append(('header %s alone%s' % (h, ' (release)' if fl else ''), t.put(inc([h])), fl))
            jobs.append(('header %s included twice' % h, t.put(inc([h, h])), ()))
        jobs.append(('all headers', t.put(inc(hs)), ()))
        jobs.append(('all headers, reverse order', t.put(inc(reversed(hs))), ()))
        pairs = list(itertools.permutations(hs, 2))
        if ctx.tier == 'quick':
            # each header directly before and directly after every other one occurs in some rotation
            for i in range(1, len(hs)): jobs.append(('all headers, rotation %d' % i, t.put(inc(hs[i:] + hs[:i])), ()))
        else:
            for a, b in pairs: jobs.append(('%s then %s' % (a, b), t.put(inc([a, b])), ()))
        for s in srcs:
            for fl in ((), ('-DNDEBUG',)): jobs.append(('source %s%s' % (rel(s), ' (release)' if fl else ''), s, fl))
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: front(j[1], *j[2]), jobs))
        for (nm, p, fl), (rc, err) in zip(jobs, res):
            ctx.obligation(nm + ' compiles')
            if rc:
                w, msg = firsterr(err)
                ctx.violation('%s does not compile: %s' % (nm, msg), w, key=('compile', w, msg))
        ctx.extra['front_end_runs'] = len(jobs)
        if ctx.violations: return
        # templates
        base = ir.Program([VERIF + '/witness/units.cpp'] + [t.put(inc(hs))], ())
        for f, e in base.errors: ctx.violation('a template member does not compile: %s' % firsterr(e)[1], firsterr(e)[0]); return
        insts = sorted({r['_T'][r['t']]['s'] for r in base.recs.values() if r['loc'].startswith(REPO) and '<' in r['_T'][r['t']]['s'] and '(' not in r['_T'][r['t']]['s']})
        text = inc(hs) + ''.join('template class %s;\n' % s for s in insts)
        ip = t.put(text)
        for s in insts: ctx.obligation('every member of %s compiles' % s)
        rc, err = front(ip)
        if rc:
            for l in err.splitlines():
                if 'error:' in l:
                    w, msg = firsterr(l); ctx.violation('a member of a class template does not compile: %s' % msg, w)
            return
        ctx.extra['class_template_instances'] = insts
        # one definition
        prog = ir.Program(srcs + [VERIF + '/witness/units.cpp', ip], ())
        for f, e in prog.errors: ctx.violation('%s does not compile: %s' % (rel(f), firsterr(e)[1]), firsterr(e)[0])
        def inhdr(e): return e['loc'].startswith(REPO + '/includes/')
        n = 0
        for u, p in sorted(prog.protos.items(), key=lambda x: x[1]['qn']):
            if not inhdr(p) or p.get('deleted') or p.get('pure') or p.get('defaulted') or p.get('implicit'): continue
            if p.get('method') and p.get('access') not in (0, 3) : continue
            n += 1; ctx.obligation('%s is defined' % p['qn'])
            if not prog.alldefs.get(u):
                ctx.violation('%s%s is declared but has no definition' % (p['qn'], sig(p)), locf(p))
        for u, ds in sorted(prog.alldefs.items(), key=lambda x: x[1][0]['qn']):
            d = ds[0]
            if not d['loc'].startswith(REPO) or d.get('linkage') != 'ext' or d.get('inst') or d.get('inline') or d.get('implicit') or d.get('defaulted'): continue
            if d['e'] == 'var' and d.get('staticlocal'): continue
            n += 1; ctx.obligation('%s has one definition' % d['qn'])
            tus = sorted({rel(x['_tu']) for x in ds})
            if len(tus) > 1:
                ctx.violation('%s has %s: it is defined, not inline, in every translation unit that includes or contains it' % (d['qn'], 'several definitions'), locf(d), ', '.join(tus[:6]))
        for u, v in prog.vars.items():
            if v['loc'].startswith(REPO + '/includes/') and v.get('linkage') == 'ext' and not v['def'] and not v.get('staticlocal') and not v.get('hasinit'):
                n += 1; ctx.obligation('%s is defined' % v['qn'])
                ctx.violation('%s is declared but has no definition' % v['qn'], locf(v))
        ctx.extra['declared_operations'] = n
        for f in prog.fns.values():
            if f['loc'].startswith(REPO): ctx.functions[f['qn']] = ctx.functions.get(f['qn'], 0) + 1
def sig(p): return '(%s)' % ', '.join(p['_T'][x['t']]['s'] for x in p['params'])
