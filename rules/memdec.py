"""shared by C01 and C02: obligations of engine/decmem.py"""
import re
import decmem

IN, OUT = 'in', 'out'
def side(kind):
    if kind == 'write' or kind.endswith(' out') or kind == 'point step': return (OUT,)
    if kind in ('count', 'adaptive'): return (IN, OUT)
    return (IN,)
SAY = {'read': 'reads stay inside the object they start in', 'write': 'writes stay inside the object they start in', 'view in': 'views handed on are valid', 'view out': 'views handed on are valid',
       'view size out': 'a field decoder gets a whole point', 'point step': 'the stride is the point step', 'count': 'point counts are bounded', 'invariant': 'the view that remains is valid', 'invariant out': 'the view that remains is valid', 'result': 'the returned view is valid',
       'adaptive': 'adaptive fields keep their offset and width'}

def report(ctx, want, units):
    seen = {}
    for k, o in units:
        ctx.need(o.err is None, '%s: the analysis gave up: %s' % (o.unit, o.err))
        ctx.need(not o.unknown, '%s: accesses through pointers of unknown origin: %s' % (o.unit, o.unknown[:3]))
        ctx.need(not o.leaks, '%s: pointers into a view are handed to code that is not analysed: %s' % (o.unit, o.leaks[:3]))
        ctx.need(not o.indirect, '%s: unresolved indirect calls: %s' % (o.unit, o.indirect[:3]))
        ctx.need(o.rets or k == 'layout', '%s: no path reaches the end' % o.unit)
        ctx.count('functions analysed'); ctx.count('loops with inferred invariants', o.loops); ctx.count('virtual codec calls', len(o.virtual))
        for r in o.recs:
            if want not in side(r.kind): continue
            ctx.count('accesses decided')
            g = seen.setdefault((k, o.unit, r.fn, r.kind, r.loc), [0, True, None]); g[0] += 1
            if not r.ok and g[1]: g[1] = False; g[2] = r.why
    for (k, u, fn, kind, loc), (n, ok, why) in sorted(seen.items(), key=str):
        w = u if fn is None or str(fn).endswith(u) else '%s (in %s)' % (u, fn)
        ctx.ob(SAY.get(kind, kind), '%s: %s' % (w, kind), ok, 'at %s: %s' % (loc, why) if not ok else '%s, %d path(s)' % (loc, n))
