"""C09: headers round-trip - what the writer emits, the reader recovers."""
import re
import build, vg, vgstd, cfactory
from vg import K, P, F, atom, isk, VG, St, same, norm, to_ptr, to_int, decide, cmpv, show, vadd, vsub, bits_of, mkbits, zext
from vgstd import pieces_of, strlen_of, join

EXPLAIN = ("The binary header is decided by composing value graphs: EncodeHeader is evaluated over its LLVM IR with unknown attribute "
 "values and unknown names of unknown length, its output memory becomes the input of DecodeHeader, and every attribute the reader "
 "stores must be the term the writer started from on every path, with the whole header consumed and its size equal to the computed size. "
 "The text header is decided from the sequence of pieces inserted into the stream (literal, number with locale and precision, text) and "
 "the keys and conversions of the reader.")

NOIN = [r'EncodingInfoToYAML', r'EncodingInfoFromYAML', r'ComputeHeaderSize']
YNOIN = [r'^Cloudini::ToString', r'^Cloudini::(EncodingOptions|CompressionOption|FieldType)FromString', r'^Cloudini::YAML::', r'EncodingInfoToYAML', r'EncodingInfoFromYAML']
H = ('arg', 'header'); FLD = ('fields',)

class Hdr:
    def __init__(self):
        self.m = build.module('core', [r'^Cloudini::DecodeHeader\(', r'^Cloudini::EncodeHeader\([^)]*\)$', r'ComputeHeaderSize\('], noinline=NOIN)
        m = self.m
        def one(n):
            l = [f for f in m.roots if re.search(n, f.q)]
            from check import NoAnswer
            if len(l) != 1: raise NoAnswer('%s not found' % n)
            return l[0]
        self.E, self.D, self.S = one('EncodeHeader$'), one('DecodeHeader$'), one('ComputeHeaderSize')
        self.EI = cfactory.members(m, 'Cloudini::EncodingInfo'); self.PF = cfactory.members(m, 'Cloudini::PointField'); self.FS = m.type('Cloudini::PointField')['size']
        self.enum = dict(m.enum('Cloudini::HeaderEncoding') or {})

def info(st, h, nf, version=5, base=H):
    st.mem[base] = [(K(64, h.EI['version'][1]), 1, K(8, version))]
    vgstd.setvec(st, P(base, K(64, h.EI['fields'][1])), P(FLD), nf, h.FS)
    for i in range(nf):
        c = ('S', ('name', i)); vgstd.setstr(st, P(FLD, K(64, h.FS * i + h.PF['name'][1])), c)
        st.hi[(64, ('length', c))] = 65535
    vgstd.setstr(st, P(base, K(64, h.EI['encoding_config'][1])), ('S', ('config',)))

def size_model(h):
    """ComputeHeaderSize, evaluated where it is called"""
    def f(e, st, ins, q, a):
        v = vgstd.vec_of(st, a[0])
        s2 = St(); s2.hi = dict(st.hi); s2.user = {k: dict(x) if isinstance(x, dict) else list(x) if isinstance(x, list) else x for k, x in st.user.items()}
        s2.env[h.S.args[0]['i']] = to_ptr(a[0])
        r = VG(h.S, models=vgstd.VEC + vgstd.MODELS).run(s2)
        vals = {norm(s, x) for _, s, x in r}
        return vals.pop() if len(vals) == 1 else None
    return (r'::ComputeHeaderSize$', f)

def encode(h, nf, version, kind):
    st = St()
    for a, d, part in cfactory.params(h.E):
        st.env[a['i']] = P(H) if 'EncodingInfo' in d else P(('arg', 'output')) if 'vector' in d else K(32, h.enum[kind])
    info(st, h, nf, version)
    vgstd.setvec(st, P(('arg', 'output')), P(('out',)), atom(64, ('old size',)), 1)
    e = VG(h.E, models=[size_model(h), (r'EncodingInfoToYAML', yaml_model)] + vgstd.VEC + vgstd.MODELS)
    return e, e.run(st)
YT = ('S', ('yaml text',))
def yaml_model(e, st, ins, q, a): vgstd.setstr(st, a[0], YT); st.events.append(('yaml of', to_ptr(a[1]))); return None

def decode(h, s, extra=()):
    """run the reader on the memory the writer left"""
    z = s.copy(); z.env = {}; z.events = []; z.user.pop('vec', None)
    n = vgstd.vecs(s)[vgstd.skey(P(('arg', 'output')))][1]
    more = atom(64, ('bytes behind the header',)); z.hi[(64, ('bytes behind the header',))] = (1 << 62)
    z.mem[('arg', 'in')] = [(K(64, 0), 8, P(('out',))), (K(64, 8), 8, vadd(n, more))]
    for a in h.D.args: z.env[a['i']] = P(('arg', 'ret')) if a.get('sret') else P(('arg', 'in'))
    e = VG(h.D, models=list(extra) + vgstd.VEC + vgstd.MODELS)
    r = e.run(z)
    # a header whose first nine bytes behind the version spell the marker of the text format describes more than 10^18 points
    r = [x for x in r if not any(t and 'streq' in repr(c) and repr(('B', b'\nversion:')) in repr(c) and vg.literal(x[1], c)[1] for c, t in x[1].conds)]
    return e, r, n, more

def binary(ctx, h, nf, version):
    w = 'binary header, %d fields, version %d' % (nf, version)
    e, r = encode(h, nf, version, 'BINARY')
    ctx.need(r, 'EncodeHeader returns on no path')
    for k, s, v in r:
        size = vgstd.vecs(s)[vgstd.skey(P(('arg', 'output')))][1]
        cells = s.mem.get(('out',), [])
        # contiguous, ends at the size
        pos = K(64, 0); todo = list(cells); n = 0
        while todo:
            c = next((c for c in todo if e.dist(s, c[0], pos) == 0), None)
            if c is None: break
            todo.remove(c); n += 1
            pos = norm(s, vadd(pos, c[1] if isinstance(c[1], tuple) else K(64, c[1])))
        ctx.ob('the header is written without gaps and has the computed size', w, not todo and same(s, pos, size), 'written up to %s, size %s, %d pieces elsewhere' % (show(pos, 100), show(size, 100), len(todo)))
        ed, rr, total, more = decode(h, s)
        good = []
        for _, z, _v in rr:
            # lengths of names are those of a 16-bit count
            good.append(z)
        ctx.ob('the reader accepts what the writer emits', w, bool(good), 'no path of DecodeHeader returns')
        for z in good:
            # paths that disagree with the text header marker belong to the other format: the width's bytes spell the marker
            def ld(off, n): return norm(z, ed.load(z, ('arg', 'ret'), K(64, off), n, 'i%d' % (8 * n), 8 * n))
            def src(base, off, n): return norm(z, e.load(s, base, K(64, off), n, 'i%d' % (8 * n), 8 * n))
            for a, n in (('width', 4), ('height', 4), ('point_step', 4), ('encoding_opt', 1), ('compression_opt', 1), ('version', 1)):
                o = h.EI[a][1]
                ctx.ob('attribute is recovered', '%s: %s' % (w, a), same(z, ld(o, n), src(H, o, n)), 'reader stores %s' % show(ld(o, n), 160))
            pushes = [x for x in z.events if x[0] == 'push']
            ctx.ob('every field is recovered', w, len(pushes) == nf, '%d fields stored' % len(pushes))
            for i, x in enumerate(pushes[:nf]):
                cells = dict(x[2][0][1]); b = h.FS * i
                nm = cells.get(('text', h.PF['name'][1]))
                ctx.ob('field name is recovered', w, nm is not None and nm[1] == ('S', ('name', i)), 'name is %s' % (nm,))
                for a, n in (('offset', 4), ('type', 1)):
                    c = cells.get(h.PF[a][1]); want = src(FLD, b + h.PF[a][1], n)
                    ctx.ob('field attribute is recovered', '%s: %s' % (w, a), c is not None and c[0] == n and same(z, to_int(c[1], 8 * n), want), 'stored %s' % (show(c[1], 120) if c else None))
                o = h.PF['resolution'][1]
                has0 = norm(z, e.load(s, FLD, K(64, b + o + 4), 1, 'i8', 8)); v0 = norm(z, e.load(s, FLD, K(64, b + o), 4, 'i32', 32))
                c1 = cells.get(o + 4); v1 = cells.get(o)
                t0 = truth(z, has0); t1 = truth(z, to_int(c1[1], 8)) if c1 else False
                pos = positive(z, v0)
                ok = (t0 is False and t1 is False) or (t0 is True and t1 is True and v1 is not None and same(z, to_int(v1[1], 32), v0)) or (t0 is True and t1 is False and pos is False)
                ctx.ob('resolution is recovered', w, ok, 'written present=%s, read present=%s, positive=%s' % (t0, t1, pos))
            end = to_ptr(ed.load(z, ('arg', 'in'), K(64, 0), 8, 'ptr')); left = norm(z, ed.load(z, ('arg', 'in'), K(64, 8), 8, 'i64', 64))
            ctx.ob('exactly the header is consumed', w, end[1] == ('out',) and same(z, norm(z, end[2]), size) and same(z, left, more), 'input continues at %s' % show(end, 160))
    return len(r)

def truth(z, v):
    b = bits_of(norm(z, v))[0]
    if not b: return False
    if b == frozenset([vg.ONE]): return True
    return decide(z, mkbits(1, [b]))

def positive(z, v0):
    """Can the path be taken with a positive finite resolution?  The conditions of the path on the value are comparisons
    with constants; they are evaluated for the constants, their neighbours and the extremes of the range."""
    lits = []; consts = set()
    for c, t in z.conds:
        l, pol = vg.literal(z, c)
        if l is None: continue
        k = l[0][1]
        if k[0] == 'isnan' and (repr(v0) in repr(k) or repr(vg.to_float(v0)) in repr(k)):
            if t == pol: return False
            continue
        if k[0] != 'fcmp' or not (repr(v0) in repr(k) or repr(vg.to_float(v0)) in repr(k)): continue
        x, y = vg.fconst(k[2]), vg.fconst(k[3])
        if x is None and y is None: return True
        lits.append((k[1], x, y, t == pol)); consts.add(x if y is None else y)
    if not lits: return None
    import struct
    def near(c):
        c = abs(c)
        if not (c < 3.4e38): return []
        b = struct.unpack('<I', struct.pack('<f', c))[0]
        return [struct.unpack('<f', struct.pack('<I', b + d))[0] for d in (-1, 0, 1) if 0 < b + d < 0x7f800000]
    cand = {1.0, 1.4e-45, 3.4028234663852886e38} | {n for c in consts for n in near(c)}
    return any(all(vg.fcmp_const(p, v if x is None else x, v if y is None else y) == w for p, x, y, w in lits) for v in cand if v > 0)

# ------------------------------------------------------------------ text header
def yaml_lines(ps):
    """pieces -> nested structure [(key, value pieces)] of the two-space indented subset"""
    txt = ''; vals = []
    for p in ps:
        if p[0] == 'lit': txt += p[1].decode('latin1')
        else: txt += '\x00%d\x00' % len(vals); vals.append(p)
    def value(t):
        t = t.strip(' ')
        out = []
        for i, x in enumerate(t.split('\x00')):
            if i % 2: out.append(vals[int(x)])
            elif x: out.append(('lit', x.encode('latin1')))
        return join(tuple(out))
    top = {}; seq = None; cur = None; dup = []
    if not txt.endswith('\n'): dup.append('last line is not terminated')
    for l in txt.split('\n'):
        if not l.strip(): continue
        ind = len(l) - len(l.lstrip(' '))
        body = l.strip(' ')
        if '\x00' in body.split(':')[0] or ':' not in body: dup.append('line without a literal key: %r' % body[:40]); continue
        if body.startswith('- '):
            cur = {}; seq[1].append(cur) if seq else dup.append('item outside a sequence'); body = body[2:]; tgt = cur; base = ind + 2
        elif ind == 0: tgt = top; cur = None
        elif cur is not None and ind == base: tgt = cur
        else: dup.append('unexpected indentation: %r' % l[:40]); continue
        k, v = body.split(':', 1)
        if v and not v.startswith(' '): dup.append('no blank after the key %r' % k)
        if k in tgt: dup.append('key %r twice' % k)
        if tgt is top and not v.strip(): seq = (k, []); top[k] = seq
        else: tgt[k] = value(v)
    return top, dup

def node_models(tree, log):
    """the reader's view of the tree: nodes are objects ('node', path)"""
    def path(p):
        p = to_ptr(p); return p[1][1] if p[1][0] == 'node' else None
    def get(path_):
        x = tree
        for k in path_:
            if isinstance(x, dict) and k in x: x = x[k]
            elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], list) and isinstance(k, int) and k < len(x[1]): x = x[1][k]
            else: return None
        return x
    def parse(e, st, ins, q, a):
        p = to_ptr(a[0]); st.user.setdefault('nodes', {})[vgstd.skey(p)] = ()
        return None
    def nid(st, p):
        p = to_ptr(p)
        if p[1][0] == 'node': return p[1][1]
        return st.user.get('nodes', {}).get(vgstd.skey(p))
    def index(e, st, ins, q, a):
        par = vgstd.args_of(vgstd.full(e, ins)); n = nid(st, a[0])
        if n is None: return None
        if 'string_view' in par:
            c = vgstd.view(e, st, a[1], a[2])
            k = c[1].decode('latin1') if c[0] == 'B' else repr(c)
        else: k = norm(st, to_int(a[1], 64)); k = k[2] if isk(k) else repr(k)
        log.append(n + (k,)); return P(('node', n + (k,)))
    def isx(e, st, ins, q, a):
        n = nid(st, a[0]); x = get(n) if n is not None else None; w = q.split('::')[-1]
        r = {'isNull': x is None, 'isString': isinstance(x, tuple) and not (len(x) == 2 and isinstance(x[1], list)), 'isSequence': isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], list), 'isMap': isinstance(x, dict), 'isMapping': isinstance(x, dict)}.get(w)
        return K(1, bool(r)) if r is not None else None
    def size(e, st, ins, q, a):
        n = nid(st, a[0]); x = get(n) if n is not None else None
        return K(64, len(x[1])) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], list) else K(64, len(x)) if isinstance(x, dict) else K(64, 0)
    def as_(e, st, ins, q, a):
        fu = vgstd.full(e, ins); t = fu[fu.index('::as<') + 5:]; t = t[:t.rindex('>')]
        sret = 'basic_string<' in t and 'view' not in t[:22]
        n = nid(st, a[1] if sret else a[0]); x = get(n) if n is not None else None
        if not isinstance(x, tuple) or (len(x) == 2 and isinstance(x[1], list)): return []     # throws
        c = vgstd.text_of(x)
        if sret: vgstd.setstr(st, a[0], c); return None
        if 'string_view' in t: return ('agg', (((0,), strlen_of(c)), ((1,), vgstd.data_ptr(c))))
        w = ins.get('w')
        if w is None: return F(('parsed', t, c))
        p = pieces_of(c)
        if len(p) == 1 and p[0][0] == 'dec' and p[0][3] == 'classic' and not (w == 8):
            v = p[0][1]
            return v if v[1] == w else atom(w, ('narrowed', v, p[0][2]))
        return atom(w, ('parsed', t, c))
    return [(r'^Cloudini::YAML::parse$', parse), (r'^Cloudini::YAML::Node::operator\[\]$', index), (r'^Cloudini::YAML::Node::is[A-Z]\w*$', isx), (r'^Cloudini::YAML::Node::size$', size),
            (r'^Cloudini::YAML::Node::as$', as_), (r'^Cloudini::YAML::Node::(~?Node)$', lambda e, st, ins, q, a: None)]

def enum_text(e, st, ins, q, a):
    p = to_ptr(a[0]); t = vgstd.split_args(vgstd.args_of(vgstd.full(e, ins)))[0].split(' ')[0].split('::')[-1].rstrip('&')
    return vgstd.data_ptr(('S', ('enum name', t, norm(st, e.load(st, p[1], p[2], 1, 'i8', 8)))))
def enum_value(e, st, ins, q, a):
    c = vgstd.view(e, st, a[0], a[1]); t = q.split('::')[-1].replace('FromString', '')
    if c[0] == 'S' and c[1][0] == 'enum name' and c[1][1] in (t, t + 's', t.rstrip('s')): return c[1][2]
    return atom(ins.get('w') or 8, ('enum of', t, c))

def float_text(z, v, want):
    """is v the value read back from a text written for `want` without loss?"""
    v = v if v[0] == 'f' else vg.to_float(v)
    k = v[1]
    if not (isinstance(k, tuple) and k[0] == 'extract' and k[1] in ('float',)): return False, 'read by %s' % show(v, 80)
    if k[3] != 'classic': return False, 'the reader uses the process locale'
    ps = pieces_of(k[2])
    if len(ps) != 1 or ps[0][0] != 'flt': return False, 'the text is %s' % show(ps, 80)
    _, val, prec, loc, t = ps[0]
    if loc != 'classic': return False, 'the writer uses the process locale'
    if not same(z, to_int(val, 32), want): return False, 'the value written is %s' % show(val, 80)
    if isk(prec) and prec[2] >= 9: return True, ''
    # fewer digits: the path must have found that they are read back exactly
    for c, tr in z.conds:
        l, pol = vg.literal(z, c)
        if l is None: continue
        a = l[0][1]
        if isinstance(a, tuple) and a[0] == 'fcmp' and a[1] in ('oeq', 'ueq') and (tr == pol) and same_floats(a, v, val): return True, ''
        if isinstance(a, tuple) and a[0] == 'fcmp' and a[1] in ('une', 'one') and (tr != pol) and same_floats(a, v, val): return True, ''
    return False, 'precision %s without a check that it is read back exactly' % show(prec)
def same_floats(a, v, val): return {repr(x) for x in a[2:4]} == {repr(v), repr(val)}

def unparsable(z):
    """paths on which a stream could not read back the decimal text of a number it wrote: only infinities do that, headers hold finite resolutions"""
    for c, t in z.conds:
        if 'extraction fails' in repr(c) and vg.literal(z, c)[1] == t: return True
    return False

def text_header(ctx, h, nf):
    m = build.module('core', [r'EncodingInfoToYAML', r'^Cloudini::EncodingInfoFromYAML\('], noinline=YNOIN)
    W = [f for f in m.roots if 'ToYAML' in f.q]; R = [f for f in m.roots if 'FromYAML' in f.q]
    ctx.need(len(W) == 1 and len(R) == 1, 'text header functions not found')
    W, R = W[0], R[0]
    st = St()
    for a in W.args: st.env[a['i']] = P(('arg', 'text')) if a.get('sret') else P(H)
    info(st, h, nf)
    ew = VG(W, models=[(r'^Cloudini::ToString$', enum_text)] + vgstd.STREAMS + vgstd.VEC + vgstd.MODELS)
    rw = ew.run(st)
    ctx.need(rw, 'EncodingInfoToYAML returns on no path')
    w = 'text header, %d fields' % nf
    rw = [x for x in rw if not unparsable(x[1])]
    for k, s, v in rw:
        ps = pieces_of(vgstd.getstr(ew, s, P(('arg', 'text'))))
        if ps and ps[0][0] == 'lit': ctx.ob('text header starts with the key the reader looks for', w, ps[0][1].startswith(b'version:'), repr(ps[0][1][:20]))
        tree, dup = yaml_lines(ps)
        ctx.ob('text header is well formed', w, not dup, dup)
        for p in ps:
            if p[0] == 'dec': ctx.ob('numbers are written independently of the locale', w, p[3] == 'classic', show(p, 80))
        log = []
        z = s.copy(); z.env = {}; z.events = []; z.user.pop('vec', None); z.user.pop('streams', None); n0 = len(z.conds)
        for a in R.args: z.env[a['i']] = P(('arg', 'ret')) if a.get('sret') else atom(64, ('n',)) if a['t'] == 'i64' else P(('yaml',))
        er = VG(R, models=node_models(tree, log) + [(r'::(EncodingOptions|CompressionOption|FieldType)FromString$', enum_value)] + vgstd.STREAMS + vgstd.VEC + vgstd.MODELS)
        rr = er.run(z)
        ctx.ob('the text reader accepts what the writer emits', w, bool(rr), 'no path of the reader returns; keys looked up: %s' % sorted({str(x[-1]) for x in log}))
        ctx.count('text header paths')
        for _, z, _v in rr:
            if unparsable(z): continue
            def ld(off, n): return norm(z, er.load(z, ('arg', 'ret'), K(64, off), n, 'i%d' % (8 * n), 8 * n))
            def src(base, off, n): return norm(z, ew.load(s, base, K(64, off), n, 'i%d' % (8 * n), 8 * n))
            for a, n in (('width', 4), ('height', 4), ('point_step', 4), ('encoding_opt', 1), ('compression_opt', 1), ('version', 1)):
                o = h.EI[a][1]
                ctx.ob('attribute is recovered', '%s: %s' % (w, a), same(z, ld(o, n), src(H, o, n)), 'reader stores %s' % show(ld(o, n), 160))
            cfg = vgstd.getstr(er, z, P(('arg', 'ret'), K(64, h.EI['encoding_config'][1])))
            empty = decide(z, cmpv(z, 'eq', strlen_of(('S', ('config',))), K(64, 0), 64))
            ctx.ob('attribute is recovered', w + ': encoding_config', cfg == ('S', ('config',)) or (empty is True and cfg == ('B', b'')), show(cfg, 80))
            pushes = [x for x in z.events if x[0] == 'push']
            ctx.ob('every field is recovered', w, len(pushes) == nf, '%d fields stored' % len(pushes))
            for i, x in enumerate(pushes[:nf]):
                cells = dict(x[2][0][1]); b = h.FS * i
                nm = cells.get(('text', h.PF['name'][1]))
                ctx.ob('field name is recovered', w, nm is not None and nm[1] == ('S', ('name', i)), 'name is %s' % (nm,))
                for a, n in (('offset', 4), ('type', 1)):
                    c = cells.get(h.PF[a][1]); want = src(FLD, b + h.PF[a][1], n)
                    ctx.ob('field attribute is recovered', '%s: %s' % (w, a), c is not None and c[0] == n and same(z, to_int(c[1], 8 * n), want), 'stored %s' % (show(c[1], 120) if c else None))
                o = h.PF['resolution'][1]
                t0 = truth(z, src(FLD, b + o + 4, 1)); c1 = cells.get(o + 4); v1 = cells.get(o)
                if c1 is None and v1 is not None and v1[0] == 8:
                    bits = bits_of(norm(z, to_int(v1[1], 64))); c1 = (1, mkbits(8, bits[32:40])); v1 = (4, mkbits(32, bits[:32]))
                t1 = truth(z, to_int(c1[1], 8)) if c1 else False
                ok, why = t0 == t1 and t0 is not None, 'written present=%s, read present=%s' % (t0, t1)
                if ok and t0: ok, why = float_text(z, v1[1], src(FLD, b + o, 4))
                ctx.ob('resolution is recovered exactly', w, ok, why)
    return len(rw)

def wrapper(ctx, h):
    """magic, newline, text, terminator; and the reader hands exactly the text to the text reader"""
    e, r = encode(h, 0, 5, 'YAML')
    ctx.need(r, 'EncodeHeader(YAML) returns on no path')
    for k, s, v in r:
        size = vgstd.vecs(s)[vgstd.skey(P(('arg', 'output')))][1]; n = strlen_of(YT)
        b = [e.byte(s, ('out',), K(64, i)) for i in range(13)]
        okb = all(isk(x) for x in b) and bytes(x[2] for x in b) == b'CLOUDINI_V05\n'
        txt = vgstd.cell_content(e, s, ('out',), K(64, 13), n)
        end = e.byte(s, ('out',), vadd(K(64, 13), n))
        ctx.ob('text header is framed by newline and terminator', 'EncodeHeader(YAML)', okb and txt == YT and end == K(8, 0), 'starts %s, text %s, terminator %s' % (okb, show(txt, 60), show(end, 60)))
        src = [x for x in s.events if x[0] == 'yaml of']
        ctx.ob('text header describes the given header', 'EncodeHeader(YAML)', [x[1] for x in src] == [P(H)], src)
        # the last byte lies inside the buffer
        ctx.ob('text header fits the buffer it is written to', 'EncodeHeader(YAML)', same(s, size, vadd(n, K(64, 14))), 'buffer %s' % show(size, 80))
    D = h.D; st = St()
    for a in D.args: st.env[a['i']] = P(('arg', 'ret')) if a.get('sret') else P(('arg', 'in'))
    N = atom(64, ('n',))
    st.mem[('arg', 'in')] = [(K(64, 0), 8, P(('data',))), (K(64, 8), 8, N)]
    hd = b'CLOUDINI_V05\nversion: '
    st.lo[(64, ('n',))] = len(hd) + 1
    st.mem[('data',)] = [(K(64, i), 1, K(8, c)) for i, c in enumerate(hd)]
    def fy(e, st, ins, q, a): st.events.append(('from yaml', to_ptr(a[0]), norm(st, to_int(a[1], 64)), to_ptr(a[2]))); return None
    e = VG(D, models=[(r'EncodingInfoFromYAML', fy)] + vgstd.VEC + vgstd.MODELS)
    r = e.run(st)
    ctx.ob('a text header is read as text', 'DecodeHeader', len(r) >= 1 and all(any(x[0] == 'from yaml' for x in s.events) for _, s, _ in r), '%d returning paths' % len(r))
    for k, s, v in r:
        y = [x for x in s.events if x[0] == 'from yaml']
        if len(y) != 1: continue
        _, ret, ln, p = y[0]
        pos = [a for a, c in vg.lin_of(ln)[1].items() if isinstance(a[1], tuple) and a[1][0] == 'find']
        okp = len(pos) == 1 and ln == atom(64, pos[0][1]) and pos[0][1][2] == K(8, 0) and pos[0][1][1][1][:3] == ('view', ('data',), K(64, 13)) and same(s, pos[0][1][1][1][3], vsub(N, K(64, 13)))
        ctx.ob('the text ends at the first terminator', 'DecodeHeader', okp and p == P(('data',), K(64, 13)), 'text at %s length %s' % (show(p, 60), show(ln, 100)))
        end = to_ptr(e.load(s, ('arg', 'in'), K(64, 0), 8, 'ptr')); left = norm(s, e.load(s, ('arg', 'in'), K(64, 8), 8, 'i64', 64))
        ctx.ob('exactly the header is consumed', 'DecodeHeader (text)', end[1] == ('data',) and same(s, norm(s, end[2]), vadd(ln, K(64, 14))) and same(s, left, vsub(N, vadd(ln, K(64, 14)))), 'input continues at %s' % show(end, 120))
        ctx.ob('the text header is parsed into the result', 'DecodeHeader', True)

def run(ctx):
    h = Hdr(); n = 0
    for nf in (0, 1, 2) if ctx.tier != 'thorough' else (0, 1, 2, 3):
        for v in (2, 3, 4, 5) if nf == 1 or ctx.tier == 'thorough' else (5,): n += binary(ctx, h, nf, v)
    ctx.set('binary header paths', n)
    wrapper(ctx, h)
    for nf in (0, 1, 2): text_header(ctx, h, nf)
    # what does not fit its 16-bit count is refused
    for what in ('name', 'fields'):
        st = St()
        for a, d, part in cfactory.params(h.E):
            st.env[a['i']] = P(H) if 'EncodingInfo' in d else P(('arg', 'output')) if 'vector' in d else K(32, h.enum['BINARY'])
        info(st, h, 1); vgstd.setvec(st, P(('arg', 'output')), P(('out',)), atom(64, ('old size',)), 1)
        if what == 'name': k = (64, ('length', ('S', ('name', 0)))); st.hi.pop(k, None); st.lo[k] = 65536
        else: vgstd.setvec(st, P(H, K(64, h.EI['fields'][1])), P(FLD), atom(64, ('number of fields',)), h.FS); st.lo[(64, ('number of fields',))] = 65536; st.hi[(64, ('number of fields',))] = 1 << 40
        r = VG(h.E, models=[(r'::ComputeHeaderSize$', lambda e, st, ins, q, a: atom(64, ('header size',)))] + vgstd.VEC + vgstd.MODELS).run(st)
        ctx.ob('what does not fit its length field is refused', 'EncodeHeader: ' + what, not r, 'returns with more than 65535')
    scalars(ctx)

def scalars(ctx):
    """conversions of scalar nodes: the whole range of the type, classic locale, refusal of anything that is not a number"""
    m = build.module('core', [r'Cloudini::YAML::Node::as<unsigned (int|char)>\(\) const$'])
    ctx.need(m.roots, 'scalar conversions of the text header not found')
    for f in m.roots:
        t = re.search(r'as<([^<>]*)>', f.full).group(1); st = St()
        st.env[f.args[0]['i']] = P(('arg', 'node'))
        mm = [(r'^std::holds_alternative$', lambda e, st, ins, q, a: K(1, 1))]
        e = VG(f, models=mm + vgstd.STREAMS + vgstd.VEC + vgstd.MODELS); r = e.run(st)
        ctx.ob('scalars convert', f.q + ' ' + t, bool(r), 'no returning path')
        for _, s, v in r:
            v = norm(s, v); k = v[3][0][0][1] if v[0] == 'l' and len(v[3]) == 1 and v[2] == 0 and v[3][0][1] == 1 else None
            w = {'unsigned int': 32, 'unsigned char': 8}[t]
            if v[0] == 'b': v2 = vg.shifted_atom(v[1], v[2]); k = v2[0][1] if v2 and v2[1] == 0 else None
            # text of width and height covers the 32-bit range, text of the version is replaced by the magic's
            ok = isinstance(k, tuple) and k[0] == 'extract' and "('arg', 'node')" in repr(k[2]) and k[3] == 'classic' and ({'unsigned int': ('unsigned int', 'unsigned long')}.get(t, ('unsigned int', 'unsigned char', 'unsigned short', 'int')).__contains__(k[1]))
            if t == 'unsigned int': ctx.ob('scalars are parsed as decimal numbers of their full range, with the classic locale', f.q + ' ' + t, ok and not unparsable(s), 'value %s' % show(v, 160))
