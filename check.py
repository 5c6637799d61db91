#!/usr/bin/env python3
"""check.py ID: decides property ID for /repo's current sources.
Exit 0: it held on everything analysed. Exit 1: VIOLATION line. Exit 2: the
analysis could not be carried out (no verdict)."""
import sys, os, json, time, traceback
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 << 20)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, txt = rest.partition(' :: ')
                out.append((key.strip(), txt.strip()))
    return out

def short(x):
    if isinstance(x, dict): return {k: short(v) for k, v in list(x.items())[:200]}
    if isinstance(x, (list, tuple)): return [short(v) for v in list(x)[:200]]
    if isinstance(x, (int, float, bool, type(None))): return x
    x = str(x)
    return x if len(x) <= 600 else x[:600] + ' ...'

def aged(ctx, check):
    """the same obligations after histories that bring the counters of the code near the constants they are compared with"""
    from engine import interp as I
    if ctx.violations or ctx.undecided or not I.TOUCHED: return
    runs = [(k, v) for k, (n, vals) in sorted(I.TOUCHED.items(), key=str) for v in vals]
    cost = time.time() - ctx.t0; done = []
    for k, v in runs[:18]:
        if time.time() - ctx.t0 + 1.2 * cost > 600: break
        I.AGES.clear(); I.AGES[k] = v
        try: check(ctx)
        except Exception as e: ctx.undecided.append('%s' % e)
        done.append('%s = %d%s' % (I.TOUCHED[k][0], v, ', undecided' if ctx.undecided else ''))
        ctx.undecided = []
        if ctx.violations: break
    I.AGES.clear()
    ctx.extra['counters_aged'] = done

def main():
    from engine import ir
    if sys.argv[1] == '--setup':
        print('extractor:', ir.ensure_extractor()); return 0
    from engine import lab, registry
    ir.share()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    ctx = lab.Ctx(pid, tier, seed)
    c = registry.CHECKS[pid]
    broken = None
    try:
        registry.load(pid)(ctx)
        aged(ctx, registry.load(pid))
    except Exception as e:
        broken = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    kf = known_findings(pid)
    new, old = [], []
    for v in ctx.violations:
        k = next((t for s, t in kf if s in v['what'] or s in v['where']), None)
        (old if k else new).append((v, k))
    wall = round(time.time() - ctx.t0, 2)
    n = len(ctx.obl)
    cov = {'explanation': c['explain'] if 'explain' in c else c['note'], 'rule': ctx.rule or c['technique'],
           'obligations': n, 'discharged': n - len(ctx.violations) if n >= len(ctx.violations) else 0,
           'functions_analysed': len(ctx.functions), 'function_analyses': sum(ctx.functions.values()),
           'functions': sorted(ctx.functions)[:80], 'samples': ctx.samples[:12],
           'undecided': ctx.undecided[:20], 'known_findings': len(old)}
    cov.update(ctx.extra)
    if broken: cov['broken'] = broken
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': c.get('level', 'other'), 'coverage': short(cov),
               'assumptions': ctx.assume, 'wall_s': wall, 'violations': len(new)},
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    stale = os.path.join(ev, pid + '.violation.txt')
    if not new and os.path.exists(stale): os.unlink(stale)
    for k in sorted({k for _, k in old}): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if new:
        rep = os.path.join('evidence', pid + '.violation.txt')
        with open(os.path.join(ev, pid + '.violation.txt'), 'w') as f:
            for v, _ in new: f.write('%s\n  at %s\n  %s\n\n' % (v['what'], v['where'], v['detail']))
        for v, _ in new[:10]: print('%s: %s\n    %s' % (v['where'], v['what'][:600], v['detail'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if broken or ctx.undecided or not n:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, broken or '; '.join(ctx.undecided[:5]) or 'no obligation'))
        return 2
    print('ok property=%s obligations=%d functions=%d wall=%.1fs' % (pid, n, len(ctx.functions), wall))
    return 0

rc = [2]
def run():
    try: rc[0] = main()
    except BaseException:
        traceback.print_exc(); rc[0] = 2
t = threading.Thread(target=run); t.start(); t.join()
sys.stdout.flush(); os._exit(rc[0])
