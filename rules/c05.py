"""C05: the codec sequences built by the two sides from the same header are equal, for every option, version and type."""
import re
from multiprocessing import Pool
import build, lin
from lin import const, ZERO
from cfactory import *

EXPLAIN = ("The factory functions of both sides and the functions that choose between the per-point codecs and the adaptive "
 "sections are evaluated by conditional constant propagation over their LLVM IR, with constant field types, presence of a "
 "resolution, option and version and with symbolic offsets and resolutions.  The abstract object lists (codec class, offset "
 "term, resolution term, copied size) of the two sides are compared for every configuration of the enumerated finite space: "
 "every type with and without resolution alone, behind 2 to 5 leading lossy floats, and mixed lists, for every option and readable version.")

WIDTH = {0: 0, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 4, 8: 8, 9: 8, 10: 8}
NOINL = [r'^Cloudini::detail::(Encode|Decode)V\dStage1', r'^Cloudini::detail::BuildV\dEncoders', r'^Cloudini::detail::BuildV\dDecoders', r'^Cloudini::EncodeHeader$', r'^std::thread::',
         r'V5StageBufferSize', r'MaxSerializedPointSize', r'MaxCompressedSize', r'MaxStage1', r'DecompressChunk$', r'waitForCompr', r'WriteStage1', r'ValidateFieldLayout', r'::EncodingInfo::EncodingInfo']
M = {}

def one(l, what):
    from check import NoAnswer
    if len(l) != 1: raise NoAnswer('%s: %d candidates' % (what, len(l)))
    return l[0]

def load():
    fm = build.module('core', [r'^Cloudini::detail::BuildV\d', r'buildV5Plan', r'getV5AdaptiveFields'])
    gm = build.module('core', [r'^Cloudini::PointcloudEncoder::PointcloudEncoder\(Cloudini::EncodingInfo', r'^Cloudini::PointcloudEncoder::encode\(.*bool', r'^Cloudini::PointcloudDecoder::(updateDecoders|decodeChunk)\('], noinline=NOINL)
    enc, dec, plan, adap, uses = factory_roots(fm)
    M['enc'] = one(enc, 'function building the per-point encoders'); M['plan'] = one(plan, 'function building the V5 plan'); M['adap'] = one(adap, 'function listing the adaptive fields of the decoder')
    M['dec4'] = one([f for f in dec if 'V4' in f.q], 'function building the V4 decoders'); M['dec5'] = one([f for f in dec if 'V5' in f.q], 'function building the V5 decoders')
    M['f'] = fm; M['g'] = gm
    r = {f.q.split('::')[-1]: f for f in gm.roots}
    M['ctor'] = r.get('PointcloudEncoder'); M['encode'] = r.get('encode'); M['upd'] = r.get('updateDecoders'); M['chunk'] = r.get('decodeChunk')
    for k in ('ctor', 'encode', 'upd', 'chunk'): one([M[k]] if M[k] else [], k)
    M['at'] = members(gm, 'Cloudini::PointcloudEncoder')['info_'][1]
    M['decbase'] = fm.type('Cloudini::FieldDecoder')['size']

def strip(v):
    while isinstance(v, tuple) and len(v) > 1 and v[0] == 'o' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('fpext', 'fptrunc'): v = v[1][-1]
    return v

def resform(v):
    v = strip(v)
    if v[0] == 'o' and isinstance(v[1], tuple):
        t = v[1]
        if t[0] == 'resolution of field': return (t[1], 'r')
        if t[0] == 'fdiv' and strip(t[2]) == ('o', ('fp', '1')):
            w = resform(t[3])
            if w and w[1] == 'r': return (w[0], '1/r')
        if 'resolution of field' in repr(v): return ('?', repr(v)[:120])
    return None

def cls(c):
    c = c or '?'
    c = re.sub(r'^N8Cloudini\d+Field(En|De)coder', '', c)
    return c

def norm(objs, base):
    out = []
    for c, cells in objs or []:
        offs, ress, cs = [], [], []
        for o, (sz, v) in sorted(cells.items()):
            if v[0] == 'i' and any(isinstance(A.keys[a], tuple) and A.keys[a][0] == 'field offset' for a, _ in v[1][1]): offs.append(lin.show(v[1]).strip())
            elif v[0] == 'i' and lin.is_const(v[1]) and o >= base and sz == 8 and v[1][0]: cs.append(v[1][0])
            else:
                r = resform(v)
                if r: ress.append(r)
        k = cls(c)
        if not ('Copy' in k or len(offs) > 1): cs = []
        out.append((k, tuple(offs), tuple(ress), tuple(sorted(cs))))
    return out

def adaptive(st, key):
    o = st.objs.get(key)
    if o is None: return []
    if not lin.is_const(o[2]): return None
    out = []; ty = members(M['f'], 'V5AdaptiveIntField') if M['f'].type('V5AdaptiveIntField') else {}
    for i in range(o[2][0]):
        offs = [lin.show(c[1][1]).strip() for k, c in sorted(st.mem.items(), key=str) if k[0] == o[1] and lin.is_const(k[1]) and o[3] * i <= k[1][0] < o[3] * (i + 1)
                and c[1][0] == 'i' and any(isinstance(A.keys[a], tuple) and A.keys[a][0] == 'field offset' for a, _ in c[1][1][1])]
        d = []
        for n in ('type', 'bytes_per_value'):
            if n in ty:
                c = st.mem.get((o[1], const(o[3] * i + ty[n][1])))
                d.append((n, lin.show(c[1][1]).strip() if c and c[1][0] == 'i' else '?'))
        out.append(('adaptive', tuple(offs), tuple(d)))
    return out

def side(mod_fn, cfg, key, base, old=0, adapt=None):
    """list of possible results: None when refused"""
    st, eng, _ = run_fn(M['f'], mod_fn, cfg, old)
    if not st: return [None]
    out = []
    for s in st:
        l = norm(objects(M['f'], eng, s, key), base) if objects(M['f'], eng, s, key) is not None else ['unknown']
        if adapt is not None: l = (l, adaptive(s, adapt))
        if l not in out: out.append(l)
    return out

def work(c):
    try: return work1(c)
    except Exception as e:
        return ('error', repr(c), '%s: %s' % (type(e).__name__, e))

def desc(c): return 'fields=%s option=%d version=%d' % (','.join('%d%s' % (t, 'r' if r else '') for t, r in c.fields), c.opt, c.version)

def work1(c):
    r = []
    d = desc(c)
    g = {}
    g['ctor'], ec = gate(M['g'], M['ctor'], c); takes = any(o[0] == 'ret' for o in ec.outcomes); g['encode'], _ = gate(M['g'], M['encode'], c, M['at'])
    g['updateDecoders'], _ = gate(M['g'], M['upd'], c); g['decodeChunk'], _ = gate(M['g'], M['chunk'], c)
    def has(k, s): return any(q.endswith(s) for q in g[k])
    e5, e4 = has('encode', 'EncodeV5Stage1'), has('encode', 'EncodeV4Stage1Chunk')
    b4 = has('ctor', 'BuildV4Encoders')
    u5, u4 = has('updateDecoders', 'BuildV5Decoders'), has('updateDecoders', 'BuildV4Decoders')
    d5, d4 = has('decodeChunk', 'DecodeV5Stage1Chunk'), has('decodeChunk', 'DecodeV4Stage1Chunk')
    v = dict(encode=('V5' if e5 else '') + ('V4' if e4 else ''), build=('V5' if u5 else '') + ('V4' if u4 else ''), decode=('V5' if d5 else '') + ('V4' if d4 else ''))
    same = (not takes or (e5, e4) == (d5, d4)) and (d5, d4) == (u5, u4) and d5 != d4 and (b4 or not e4 or not takes)
    r.append(('same codec path on both sides', d, same, 'stage used by encode(): %s, decoders built: %s, chunk decoded as: %s, encoders built in the constructor: %s' % (v['encode'], v['build'], v['decode'], b4)))
    K = (('arg', 'codecs'), ZERO)
    if d5 and not d4:
        en = side(M['plan'], c, (('arg', 'ret'), ZERO), 0, adapt=(('arg', 'ret'), const(24)))
        de = side(M['dec5'], c, K, M['decbase'], old=1)
        ad = run_fn(M['f'], M['adap'], c)
        adl = [adaptive(s, (('arg', 'ret'), ZERO)) for s in ad[0]] or [None]
        de = [None if (x is None or y is None) else (x, y) for x in de for y in adl]
    else:
        en = side(M['enc'], c, K, 0); de = side(M['dec4'], c, K, M['decbase'], old=1)
        en = [x if x is None else (x, []) for x in en]; de = [x if x is None else (x, []) for x in de]
    acc_e = [x for x in en if x is not None]; acc_d = [x for x in de if x is not None]
    r.append(('both sides support the same field types', d, not takes or bool(acc_e) == bool(acc_d), 'encoder %s, decoder %s' % ('accepts' if acc_e else 'refuses', 'accepts' if acc_d else 'refuses')))
    if acc_e and acc_d and takes:
        ok = len(acc_e) == 1 and len(acc_d) == 1
        a, b = acc_e[0], acc_d[0]
        diff = ''
        if not ok: diff = 'the result depends on more than the configuration'
        else:
            ka = [(x[0], x[1], tuple(i for i, _ in x[2]), x[3]) for x in a[0]]; kb = [(x[0], x[1], tuple(i for i, _ in x[2]), x[3]) for x in b[0]]
            forms = [w for x in a[0] + b[0] for w in x[2]]
            if ka != kb: diff = 'per-point codecs differ: encoder %s / decoder %s' % (ka, kb)
            elif any(f not in ('r', '1/r') for _, f in forms): diff = 'resolution is altered: %s' % forms
            elif a[1] != b[1]: diff = 'adaptive fields differ: encoder %s / decoder %s' % (a[1], b[1])
        r.append(('same sequence of codecs', d, not diff, diff or '%d codecs' % (len(a[0]) + len(a[1] or []))))
        offs = [o for x in a[0] for o in x[1]] + [o for x in (a[1] or []) for o in x[1]]
        want = sorted(lin.show(var(off_atom(i))).strip() for i in range(len(c.fields)))
        r.append(('every field is encoded once with its own offset', d, sorted(offs) == want, 'offsets used: %s' % offs))
        bad = []
        for x in a[0] + b[0]:
            if 'Copy' in x[0] and len(x[1]) == 1:
                i = [k for k in range(len(c.fields)) if lin.show(var(off_atom(k))).strip() == x[1][0]]
                if i and x[3] != (WIDTH[c.fields[i[0]][0]],) and c.fields[i[0]][0]: bad.append((x, c.fields[i[0]]))
        r.append(('copied size is the size of the type', d, not bad, bad))
    return ('ok', r)

def configs(tier):
    T = [(t, r) for t in range(0, 11) for r in (0, 1)]
    F = (7, 1)
    lists = [(t,) for t in T]
    for k in (2, 3, 4, 5): lists += [(F,) * k] + [(F,) * k + (t,) for t in T if t != F]
    mixed = [((8, 1), (3, 0), (7, 1), (2, 0), (8, 0), (10, 0)), ((7, 0), F, F, F, (4, 0)), (F, F, (3, 0), F, (9, 0)), (F, F, F, (5, 0), F, (6, 0), (8, 1), (1, 0), (8, 0), (7, 0)), ((3, 0), F, F, F), ((2, 0), (1, 0)), ()]
    lists += mixed
    if tier == 'thorough': lists += [(a, b) for a in T for b in T] + [(F, F, F, a, b) for a in T for b in T if a != F]
    return [Config(l, o, v) for l in lists for o in (0, 1, 2) for v in (2, 3, 4, 5)]

def run(ctx):
    load()
    cs = configs(ctx.tier)
    with Pool(8) as p: res = p.map(work, cs, chunksize=16)
    err = [r for r in res if r[0] == 'error']
    ctx.set('configurations', len(cs)); ctx.set('configurations evaluated', len(cs) - len(err))
    ctx.set('functions', [M[k].q for k in ('enc', 'plan', 'dec4', 'dec5', 'adap', 'ctor', 'encode', 'upd', 'chunk')])
    for r in res:
        if r[0] == 'ok':
            for o in r[1]: ctx.ob(*o)
    if err: ctx.need(False, 'evaluation failed for %d configurations, e.g. %s %s' % (len(err), err[0][1], err[0][2]))
