"""C04: worst-case size bounds really bound every encoder."""
import re
import encmem
from rules import memenc

EXPLAIN = ("Every field encoder object the factories build (19 classes and member layouts over all field types, options, versions) is run in the abstract interpreter of C01 with an output of exactly the declared "
 "MaxSerializedFieldSize bytes (evaluated on the IR for the same configuration): every write lies inside, the output left is the rest, the returned size is what was written, flush() writes nothing more; members that "
 "encode() changes have any value, so every history is covered. Writers of one number are bounded the same way (10 bytes). MaxSerializedPointSize >= the sum over the fields; the capacity of the stage buffer at "
 "every stage call >= points x bound (V5: + one byte per field and point + 16 per field); MaxCompressedSize >= 4 bytes per chunk + the stage bound, or the compressor's own bound of it, symbolically for one "
 "chunk and for four longer clouds; the header it counts >= the header EncodeHeader writes. "
 "CompressChunk has a path that succeeds when the output is larger than the compressor can address.")

def run(ctx):
    units, info = encmem.run(('enc', 'sum', 'pipe'))
    memenc.common(ctx, units, info, ('enc', 'sum', 'encode', 'room'))
    size = encmem.run_size()
    ctx.need(sum(1 for k, o in size if k == 'size') >= 30, 'MaxCompressedSize was not found')
    keep = [(k, o) for k, o in units if k in ('enc', 'sum', 'encode', 'room')]
    memenc.report(ctx, keep + size, lambda k, kind: k in ('sum', 'size', 'header', 'room') or (k == 'enc' and kind in ('write', 'rest', 'returned')) or (k == 'encode' and kind in ('stage capacity', 'capacity checked')))
    for mg, (q, o) in sorted(info['limits'].items()):
        ctx.need(o.err is None, '%s: %s' % (q, o.err))
        ctx.ob('a number is written in at most 10 bytes', q, o.limit is not None and o.limit <= 10, 'at most %s bytes' % o.limit)
