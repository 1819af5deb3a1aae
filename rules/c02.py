"""C02: decoders never write outside the caller's buffer, nor the points' bytes."""
import re
import decmem
from rules import memdec

EXPLAIN = ("Abstract interpretation as for C01; the obligations are the stores: every store, memcpy destination and output view handed to a callee lies inside the object it was derived from. A field "
 "decoder is analysed for every object the factories build, once with each of its offsets being kDecodeButSkipStore (no store may then be possible: any would lie outside the point) and once with an "
 "offset that leaves room for the field; decode() is analysed for every field type to show that no chunk is decoded unless that holds for every field, and the call sites show that the view handed to "
 "a field decoder has point_step bytes inside the output.")

def run(ctx):
    units, objs, built = decmem.run(('fn', 'dec', 'layout'))
    q = [o.unit for k, o in units]
    for need in (r'PointcloudDecoder::decode$', r'DecompressChunk$', r'DecodeV4Stage1Chunk$', r'DecodeV5Stage1Chunk$'):
        ctx.need(any(re.search(need, x) for x in q), 'no function matches %s' % need)
    ctx.need(decmem.M['sections'], 'no decoder of adaptive sections found')
    ctx.need(all(v is not None for v in objs.values()), 'a factory builds an object of unknown class')
    ctx.need(sum(1 for k, o in units if k == 'dec') >= 8, 'fewer field decoders than field types')
    ctx.count('objects built by the factories', built)
    memdec.report(ctx, memdec.OUT, units)
    for k, o in units:
        if k != 'layout': continue
        ctx.need(o.sites, '%s: no chunk is decoded' % o.unit)
        for (loc, fn), bad in sorted(o.sites.items()):
            ctx.ob('fields lie inside the point before anything is decoded', o.unit, not bad, 'at %s: %s' % (loc, bad) if bad else 'at %s' % loc)
