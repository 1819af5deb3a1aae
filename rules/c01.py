"""C01: decoders never read outside the bytes they were given."""
import re
import decmem
from rules import memdec

EXPLAIN = ("Abstract interpretation of the compiler IR of every decoding function (header, chunk loop, decompression, both stage decoders, the adaptive-section decoder, every field decoder "
 "the factories build, the CDR reader): pointers are (object, linear offset), integers are linear forms over symbols with a set of linear inequalities decided by an exact rational simplex; loop "
 "invariants are inferred (affine equalities, conditions seen in the loop) and checked inductive. Every load, memcpy/memcmp source and view handed to a callee is an obligation: 0 <= offset and "
 "offset + size <= size of the view it was derived from. Functions are linked by contracts: callees assume valid views, every call site proves them.")

def run(ctx):
    units, objs, built = decmem.run(('fn', 'dec'))
    cdr = decmem.run_cdr()
    q = [o.unit for k, o in units]
    for need in (r'DecodeHeader$', r'PointcloudDecoder::decode$', r'DecompressChunk$', r'DecodeV4Stage1Chunk$', r'DecodeV5Stage1Chunk$'):
        ctx.need(any(re.search(need, x) for x in q), 'no function matches %s' % need)
    ctx.need(decmem.M['sections'], 'no decoder of adaptive sections found')
    ctx.need(all(v is not None for v in objs.values()), 'a factory builds an object of unknown class')
    ctx.need(sum(1 for k, o in units if k == 'dec') >= 8, 'fewer field decoders than field types')
    ctx.need(sum(1 for k, o in cdr if k == 'cdr') >= 4 and any(k == 'msg' for k, o in cdr), 'CDR reader not found')
    ctx.count('objects built by the factories', built)
    memdec.report(ctx, memdec.IN, units + cdr)
