"""C03: encoding never reads outside the cloud nor writes outside the output."""
import re
import encmem
from rules import memenc

EXPLAIN = ("Abstract interpretation of the compiler IR as for C01: pointers are (object, linear offset), integers linear forms under linear inequalities, loop invariants inferred and checked inductive. Units: "
 "the constructor, for every field type, option and version (at every return the field lies inside the point step: ps - offset - width >= 0 follows from the conditions passed); every field encoder the factories "
 "build (reads stay inside the point, writes inside the declared bound); both first stages and the collectors of adaptive values (every view handed to a codec is a whole point inside the cloud, and no stage takes "
 "more points than the chunk holds); encode(), for every combination of header, compression and threads (a stage runs and the output is written to only if the output is at least the worst case; the cloud is "
 "a whole number of points; stage buffer and capacity belong together, also after the two buffers are exchanged); WriteStage1Chunk and CompressChunk. Functions are linked by contracts proved at the call sites.")

def run(ctx):
    units, info = encmem.run(('enc', 'pipe', 'ctor'))
    memenc.common(ctx, units, info, ('enc', 'stage', 'collect', 'chunk', 'encode', 'plan', 'ctor'))
    memenc.report(ctx, units, lambda k, kind: kind not in ('returned', 'stage capacity', 'room'))
