"""C17: the wire format of released versions is frozen."""
import re
from multiprocessing import Pool
import build, vg, vgstd, cfactory, chunkloop
from vg import K, P, atom, isk, VG, St, same, norm, to_ptr
from rules import c05
import lin

EXPLAIN = ("Released values are compared with what the code computes: enumerator values from debug information; the first twelve bytes "
 "written by EncodeHeader and the decision of DecodeHeader for every pair of version bytes and every corrupted magic byte (value "
 "graphs over the LLVM IR with constant leading bytes and unknown rest); the codec selected for every type, option and version "
 "(conditional constant propagation through the factories); the version gate and chunk arithmetic of decode() for each version; "
 "the bytes of the variable-length integers for each encoded length and the bit layout of the lossless doubles.")

ENUMS = {
 'Cloudini::FieldType': dict(UNKNOWN=0, INT8=1, UINT8=2, INT16=3, UINT16=4, INT32=5, UINT32=6, FLOAT32=7, FLOAT64=8, INT64=9, UINT64=10),
 'Cloudini::EncodingOptions': dict(NONE=0, LOSSY=1, LOSSLESS=2),
 'Cloudini::CompressionOption': dict(NONE=0, LZ4=1, ZSTD=2)}

def codec(t, r, opt, v):
    """released codec of one field that is not part of a leading group: (class name parts, value type)"""
    if opt == 0: return 'Copy'
    if t in (1, 2): return 'Copy'
    if t in (3, 4, 5, 6, 9, 10): return 'adaptive' if v >= 5 and opt == 1 else 'Int_' + {3: 's', 4: 't', 5: 'i', 6: 'j', 9: 'l', 10: 'm'}[t]
    if t == 7: return 'Lossy_f' if opt == 1 and r else 'XOR_f' if opt == 2 else 'Copy'
    if t == 8: return 'Lossy_d' if opt == 1 and r else 'Gorilla_d' if v >= 4 and not r else 'XOR_d'
    return None

def expected(c):
    f = list(c.fields)
    if any(t == 0 for t, r in f) and c.opt: return None
    out = []; ad = []; i = 0
    if c.opt == 1:
        n = 0
        while n < len(f) and f[n] == (7, 1): n += 1
        # the release groups a leading run of exactly three or four lossy floats
        if n in (3, 4): out.append('FloatN%d' % n); i = n
    for t, r in f[i:]:
        k = codec(t, r, c.opt, c.version)
        if k is None: return None
        if k == 'adaptive': ad.append(k)
        else: out.append(k)
    return out, len(ad)

def kind(x):
    c = x[0]
    if 'FloatN' in c: return 'FloatN%d' % len(x[1])
    m = re.search(r'I(\w)E', c)
    t = m.group(1) if m else ''
    for k, n in (('Copy', 'Copy'), ('Gorilla', 'Gorilla_'), ('XOR', 'XOR_'), ('Lossy', 'Lossy_'), ('Int', 'Int_')):
        if k in c: return n + t if n[-1] == '_' else n
    return c

def work(c):
    try:
        d = c05.desc(c); r = []
        g, _ = cfactory.gate(c05.M['g'], c05.M['ctor'], c)
        gd, _ = cfactory.gate(c05.M['g'], c05.M['chunk'], c)
        v5 = any(q.endswith('DecodeV5Stage1Chunk') for q in gd)
        r.append(('chunks have adaptive sections from version 5 with the lossy option', d, v5 == (c.version >= 5 and c.opt == 1 and any(t in (3, 4, 5, 6, 9, 10) for t, _ in c.fields)), 'decoded as V5: %s' % v5))
        Kk = (('arg', 'codecs'), lin.ZERO)
        if v5:
            de = c05.side(c05.M['dec5'], c, Kk, c05.M['decbase'], old=1)
            ad = cfactory.run_fn(c05.M['f'], c05.M['adap'], c)
            n = [c05.adaptive(s, (('arg', 'ret'), lin.ZERO)) for s in ad[0]]
            nad = len(n[0]) if len(n) == 1 and n[0] is not None else None if n else 0
            if not n: de = [None]
        else: de = c05.side(c05.M['dec4'], c, Kk, c05.M['decbase'], old=1); nad = 0
        acc = [x for x in de if x is not None]
        want = expected(c)
        if want is None: r.append(('unknown types are refused', d, not acc, 'accepted'))
        elif len(acc) != 1: r.append(('released codec of every field', d, False, 'no single list of decoders: %s' % de))
        else:
            got = ([kind(x) for x in acc[0]], nad)
            r.append(('released codec of every field', d, got == (want[0], want[1]), 'decoders %s, released %s' % (got, want)))
        return ('ok', r)
    except Exception as e: return ('error', repr(c), '%s: %s' % (type(e).__name__, e))

def header_module():
    return build.module('core', [r'^Cloudini::DecodeHeader', r'^Cloudini::EncodeHeader\([^)]*\)$'], noinline=[r'EncodingInfoToYAML', r'EncodingInfoFromYAML', r'ComputeHeaderSize'])

def run_decode(m, D, hdr):
    st = St()
    for a in D.args: st.env[a['i']] = P(('arg', 'ret')) if a.get('sret') else P(('arg', 'in'))
    st.mem[('arg', 'in')] = [(K(64, 0), 8, P(('data',))), (K(64, 8), 8, atom(64, ('n',)))]
    st.mem[('data',)] = [(K(64, i), 1, K(8, c)) for i, c in enumerate(hdr)]
    e = VG(D, models=vgstd.VEC + vgstd.MODELS)
    return e, e.run(st)

_H = {}
def versions(a):
    m, D = _H['m'], _H['D']; out = []
    EI = cfactory.members(m, 'Cloudini::EncodingInfo')
    for b in range(256):
        e, r = run_decode(m, D, b'CLOUDINI_V' + bytes([a, b]))
        vs = set()
        for k, s, v in r: vs.add(norm(s, e.load(s, ('arg', 'ret'), K(64, EI['version'][1]), 1, 'i8', 8)))
        out.append((a, b, bool(r), vs))
    return out

def run(ctx):
    c05.load(); cm = c05.M['f']
    # 1. enumerators
    for n, want in ENUMS.items():
        got = cm.enum(n)
        ctx.need(got, 'enumeration %s not found' % n)
        for k, v in want.items(): ctx.ob('released numeric codes', '%s::%s' % (n, k), dict(got).get(k) == v, '%s instead of %s' % (dict(got).get(k), v))
    # 2. header bytes
    m = header_module()
    EI = cfactory.members(m, 'Cloudini::EncodingInfo')
    E = [f for f in m.roots if 'EncodeHeader' in f.q]; D = [f for f in m.roots if 'DecodeHeader' in f.q]
    ctx.need(len(E) == 1 and len(D) == 1, 'header functions not found')
    E, D = E[0], D[0]
    for enc, nm in ((0, 'BINARY'), (1, 'YAML')):
        for v in (2, 3, 4, 5):
            st = St()
            for a, d, part in cfactory.params(E):
                st.env[a['i']] = P(('arg', 'header')) if 'EncodingInfo' in d else P(('arg', 'output')) if 'vector' in d else K(32, dict(m.enum('Cloudini::HeaderEncoding') or {}).get(nm, enc))
            st.mem[('arg', 'header')] = [(K(64, EI['version'][1]), 1, K(8, v))]
            vgstd.setvec(st, P(('arg', 'header'), K(64, EI['fields'][1])), P(('fields',)), 0, 48)
            vgstd.setvec(st, P(('arg', 'output')), P(('out',)), atom(64, ('old',)), 1)
            e = VG(E, models=vgstd.VEC + vgstd.MODELS); rr = e.run(st)
            ctx.need(rr, 'EncodeHeader has no returning path')
            for k, s, _ in rr:
                b = [e.byte(s, ('out',), K(64, i)) for i in range(12)]
                b = bytes(x[2] for x in b) if all(isk(x) for x in b) else None
                ctx.ob('header starts with the magic and two version digits', 'EncodeHeader %s version %d' % (nm, v), b == b'CLOUDINI_V%02d' % v, 'writes %r' % (b,))
    # 3. versions accepted by the reader
    _H.update(m=m, D=D)
    digits = set(b'0123456789')
    first = sorted(digits | {0, 0x20, 0x2f, 0x3a, 0x41, 0x5f, 0x80, 0xff}) if ctx.tier != 'thorough' else range(256)
    with Pool(8) as p: res = p.map(versions, list(first), chunksize=1)
    for lst in res:
        for a, b, acc, vs in lst:
            n = (a - 48) * 10 + b - 48 if a in digits and b in digits else None
            good = n is not None and 2 <= n <= 5
            ctx.ob('versions 2 to 5 are readable and nothing else', 'DecodeHeader version bytes %r' % bytes([a, b]), acc == good and (not good or vs == {K(8, n)}), 'accepted: %s, version %s' % (acc, [vg.show(x, 60) for x in vs]))
    ctx.set('version byte pairs decided', 256 * len(list(first)))
    for i in range(10):
        for delta in (1, 0x20, 0x80):
            h = bytearray(b'CLOUDINI_V05'); h[i] ^= delta
            e, r = run_decode(m, D, bytes(h))
            ctx.ob('a wrong magic is refused', 'DecodeHeader byte %d' % i, not r, 'accepts %r' % bytes(h))
    # 4. codecs
    cs = c05.configs(ctx.tier)
    with Pool(8) as p: res = p.map(work, cs, chunksize=16)
    err = [r for r in res if r[0] == 'error']
    ctx.set('codec configurations', len(cs))
    for r in res:
        if r[0] == 'ok':
            for o in r[1]: ctx.ob(*o)
    ctx.need(not err, 'evaluation failed for %d configurations, e.g. %s' % (len(err), err[:1]))
    # encoder: versions it writes
    for v in list(range(0, 8)) + [255]:
        c = cfactory.Config([(1, 0)], 1, v)
        g, ec = cfactory.gate(c05.M['g'], c05.M['ctor'], c)
        takes = any(o[0] == 'ret' for o in ec.outcomes)
        ctx.ob('the encoder writes versions 3 to 5 only', 'PointcloudEncoder version %d' % v, takes == (3 <= v <= 5), 'accepted: %s' % takes)
    # 5. chunks
    for v in (2, 3, 4, 5):
        for rule, where, ok, detail in chunkloop.describe(v): ctx.ob(rule, where, ok, detail)
    em = c05.M['g']; n = 0
    for f in em.roots:
        if f.q.endswith('::encode'):
            for b in f.blocks:
                for ins in b:
                    q = em.fn_q.get(ins.get('f')) or ''
                    if ins['o'] in ('call', 'invoke') and re.search(r'::EncodeV\dStage1', q):
                        ks = [a[2] if len(a) > 2 else a[1] for a in ins['args'] if a[0] in ('c', 'k', 'i') ] if 'args' in ins else []
                        n += 1
                        ctx.ob('the encoder fills chunks of 32768 points', '%s in encode()' % q.split('::')[-1], 32768 in consts(ins), 'constant arguments: %s' % consts(ins))
    ctx.need(n >= 2, 'calls of the chunk encoders not found')

def consts(ins):
    out = []
    def walk(x):
        if isinstance(x, (list, tuple)):
            if len(x) >= 2 and x[0] in ('c', 'k', 'i', 'int') and isinstance(x[1], int): out.append(x[1])
            for y in x: walk(y)
        elif isinstance(x, dict):
            for k, y in x.items():
                if k not in ('dbg', 'loc', 'b', 'k', 'l'): walk(y)
        elif isinstance(x, int) and not isinstance(x, bool): out.append(x)
        elif isinstance(x, str) and re.fullmatch(r'-?\d+', x): out.append(int(x))
    walk({k: v for k, v in ins.items() if k not in ('b', 'k', 'i', 'o', 'dbg', 'loc', 'line')})
    return out
