"""shared by C03 and C04: obligations of engine/encmem.py"""
SAY = {'read': 'reads stay inside the object they start in', 'write': 'writes stay inside the object they start in', 'view in': 'views handed on are valid', 'view out': 'views handed on are valid',
       'whole point': 'a field encoder gets a whole point', 'point step': 'the point step is not zero', 'whole cloud': 'the cloud is a whole number of points', 'points taken': 'a stage takes no more points than asked for',
       'capacity checked': 'nothing is written unless the output holds the worst case', 'stage capacity': 'the stage buffer holds the worst case', 'layout': 'layouts with a field outside the point are refused',
       'adaptive': 'adaptive fields keep their offset and width', 'rest': 'the view that remains is the rest of the output', 'returned': 'the size returned is the size written', 'sum': 'the bound of a point is the sum over its fields',
       'room': 'a large output is no reason to fail', 'worst case': 'the maximum compressed size covers every chunk', 'header': 'the maximum compressed size covers the header', 'invariant': 'the view that remains is valid', 'invariant out': 'the view that remains is valid'}

def common(ctx, units, info, kinds):
    ctx.need(not info['missing'], 'a factory builds an object that is not understood: %s' % (info['missing'][:2],))
    ctx.need(all(k[0] for k in info['objects']), 'a factory builds an object of unknown class')
    n = {k: sum(1 for x, o in units if x == k) for k in kinds}
    need = {'enc': 8, 'stage': 2, 'collect': 6, 'chunk': 2, 'encode': 12, 'plan': 1, 'ctor': 40, 'sum': 40, 'room': 2}
    for k in kinds: ctx.need(n[k] >= need[k], 'only %d units of kind %s' % (n[k], k))
    ctx.count('objects built by the factories', info['built'])

def report(ctx, units, want):
    seen = {}
    for k, o in units:
        ctx.need(o.err is None, '%s: the analysis gave up: %s' % (o.unit, o.err))
        ctx.need(not o.unknown, '%s: accesses through pointers of unknown origin: %s' % (o.unit, o.unknown[:3]))
        ctx.need(not o.leaks, '%s: pointers into a view are handed to code that is not analysed: %s' % (o.unit, o.leaks[:3]))
        ctx.need(o.rets, '%s: no path reaches the end' % o.unit)
        ctx.count('functions analysed'); ctx.count('loops with inferred invariants', o.loops)
        for r in o.recs:
            if not want(k, r.kind): continue
            ctx.count('obligations decided')
            g = seen.setdefault((k, o.unit, r.fn, r.kind, r.loc), [0, True, None]); g[0] += 1
            if not r.ok and g[1]: g[1] = False; g[2] = r.why
    for (k, u, fn, kind, loc), (n, ok, why) in sorted(seen.items(), key=str):
        w = u if fn is None or str(fn).endswith(u) else '%s (in %s)' % (u, fn)
        ctx.ob(SAY.get(kind, kind), '%s: %s' % (w, kind), ok, 'at %s: %s' % (loc, why) if not ok else '%s, %d path(s)' % (loc, n))
