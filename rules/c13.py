"""C13: messages are written and read with the same layout, and conversions keep what they must."""
import re, signal
import build, vg, vgstd, cfactory, par
from vg import K, P, F, atom, isk, VG, St, same, norm, to_ptr, to_int, decide, cmpv, show, vadd, vsub, vscale, bits_of, mkbits, trunc, zext
from vgstd import strlen_of

EXPLAIN = ("The layout of a PointCloud2 message (items, widths, alignment relative to the byte behind the encapsulation header, byte order) "
 "is built independently as a symbolic memory with unknown values, unknown text and unknown lengths (one case for every residue of the "
 "lengths modulo the alignment).  The writer (both conversions) and the reader are evaluated as value graphs over their LLVM IR: every "
 "byte the writer produces must be the byte of that layout, the payload must lie where its size announces it, also after the size was "
 "patched, the vector must end with the last item, and the reader must recover every item from that memory, for both byte orders and "
 "zero to three fields.  toEncodingInfo must pass dimensions and fields on unchanged.")
OUT = 'out'; MSG = ('arg', 'message'); FLD = ('fields',); IN = ('in',)
FRAME = ('S', ('frame id',))
def NAME(i): return ('S', ('name', i))
QH = 1 << 20
NOIN = [r'MaxCompressedSize$', r'PointcloudEncoder::', r'PointcloudDecoder::', r'Cloudini::DecodeHeader$', r'EncodingInfo::(~?EncodingInfo|operator=)$']

class Mod:
    def __init__(self):
        self.m = m = build.module('core', [r'cloudini_ros::convertPointCloud2ToCompressedCloud\(', r'cloudini_ros::convertCompressedCloudToPointCloud2\(', r'cloudini_ros::getDeserializedPointCloudMessage\([^$]*$', r'cloudini_ros::toEncodingInfo\('], noinline=NOIN)
        def one(n):
            from check import NoAnswer
            l = [f for f in m.roots if re.search(n, f.q)]
            if len(l) != 1: raise NoAnswer('%s not found' % n)
            return l[0]
        self.C, self.D, self.R, self.T = one('convertPointCloud2ToCompressedCloud$'), one('convertCompressedCloudToPointCloud2$'), one('getDeserializedPointCloudMessage$'), one('toEncodingInfo$')
        self.RP = cfactory.members(m, 'cloudini_ros::RosPointCloud2'); self.RH = cfactory.members(m, 'cloudini_ros::RosHeader'); self.CH = cfactory.members(m, 'nanocdr::CdrHeader')
        self.PF = cfactory.members(m, 'Cloudini::PointField'); self.FS = m.type('Cloudini::PointField')['size']; self.EI = cfactory.members(m, 'Cloudini::EncodingInfo')
        self.end = dict(m.enum('nanocdr::Endianness') or {}); self.enc = dict(m.enum('nanocdr::EncodingFlag') or {}); self.ver = dict(m.enum('nanocdr::CdrVersion') or {})

class Case:
    def __init__(self, nf, rf, rn, big, rs=0): self.nf, self.rf, self.rn, self.big, self.rs = nf, rf, rn, big, rs
    def __str__(self): return '%d fields, text lengths %s mod 4, %s-endian' % (self.nf, (self.rf,) + self.rn, 'big' if self.big else 'little')
    def length(self, st, c, r):
        """the length of a text: 4q + r"""
        q = atom(64, ('quarter', c)); st.hi[(64, ('quarter', c))] = QH
        L = vadd(vscale(q, 4), K(64, r)); st.sub[(64, ('length', c))] = L; st.hi[(64, ('length', c))] = 4 * QH + 3
        return L

class Layout:
    """position arithmetic of the format: 4 bytes of encapsulation, items aligned to their width behind it"""
    def __init__(self, case, st): self.case, self.st, self.pos, self.res, self.items = case, st, K(64, 4), 0, []
    def adv(self, n, r): self.pos = vadd(self.pos, n if isinstance(n, tuple) else K(64, n)); self.res = (self.res + r) & 3
    def num(self, what, n, v):
        pad = -self.res & (n - 1); self.adv(pad, pad)
        self.items.append((what, 'num', self.pos, n, v)); self.adv(n, n)
    def text(self, what, c, r):
        L = self.case.length(self.st, c, r) if c[0] == 'S' else strlen_of(c)
        self.num('length of ' + what, 4, trunc(norm(self.st, vadd(L, K(64, 1))), 32, self.st)); self.items.append((what, 'text', self.pos, L, c)); self.adv(L, r)
        self.items.append(('terminator of ' + what, 'num', self.pos, 1, K(8, 0))); self.adv(1, 1)
    def data(self, what, n, r, v): self.num('size of ' + what, 4, trunc(norm(self.st, n), 32, self.st)); self.items.append((what, 'data', self.pos, n, v)); self.adv(n, r)

def order(case, v):
    """the bytes of a value as they are transmitted"""
    b = bits_of(v); b = [mkbits(8, b[i:i + 8]) for i in range(0, len(b), 8)]
    return b[::-1] if case.big else b

def attr(name, n): return atom(8 * n, ('attribute', name))
def common(L, case, nf):
    L.num('stamp seconds', 4, attr('sec', 4)); L.num('stamp nanoseconds', 4, attr('nsec', 4)); L.text('frame id', FRAME, case.rf)
    L.num('height', 4, attr('height', 4)); L.num('width', 4, attr('width', 4)); L.num('number of fields', 4, K(32, nf))
    for i in range(nf):
        L.text('name of field %d' % i, NAME(i), case.rn[i]); L.num('offset of field %d' % i, 4, attr(('offset', i), 4)); L.num('type of field %d' % i, 1, attr(('type', i), 1))
        L.num('count of field %d' % i, 4, None)
    L.num('byte order of the data', 1, attr('bigendian', 1)); L.num('point step', 4, attr('point step', 4)); L.num('row step', 4, attr('row step', 4))

def message(M, case, st):
    """the message object with unknown attributes"""
    e = VG(M.C)
    def put(off, n, v): e.store(st, MSG, K(64, off), n, v)
    h = M.RP['cdr_header'][1]
    put(h + M.CH['endianness'][1], 1, K(8, M.end['CDR_BIG_ENDIAN' if case.big else 'CDR_LITTLE_ENDIAN']))
    put(h + M.CH['encoding'][1], 1, K(8, M.enc['PLAIN_CDR'])); put(h + M.CH['version'][1], 1, K(8, M.ver['DDS_CDR']))
    r = M.RP['ros_header'][1]
    put(r + M.RH['stamp_sec'][1], 4, attr('sec', 4)); put(r + M.RH['stamp_nsec'][1], 4, attr('nsec', 4)); vgstd.setstr(st, P(MSG, K(64, r + M.RH['frame_id'][1])), FRAME)
    for a, n, k in (('height', 4, 'height'), ('width', 4, 'width'), ('point_step', 4, 'point step'), ('row_step', 4, 'old row step'), ('is_bigendian', 1, 'bigendian'), ('is_dense', 1, 'dense')): put(M.RP[a][1], n, attr(k, n))
    vgstd.setvec(st, P(MSG, K(64, M.RP['fields'][1])), P(FLD), case.nf, M.FS)
    for i in range(case.nf):
        b = M.FS * i; vgstd.setstr(st, P(FLD, K(64, b + M.PF['name'][1])), NAME(i))
        e.store(st, FLD, K(64, b + M.PF['offset'][1]), 4, attr(('offset', i), 4)); e.store(st, FLD, K(64, b + M.PF['type'][1]), 1, attr(('type', i), 1))
    d = M.RP['data'][1]; put(d, 8, P(('points',))); put(d + 8, 8, atom(64, ('data size',)))

# ---------------------------------------------------------------- storage that moves when it grows
def vkey(p): return vgstd.skey(to_ptr(p))
def grow(e, st, p, n, old):
    """storage that may have to grow is another storage afterwards"""
    d, sz, z = vgstd.vecs(st)[vkey(p)]
    if d[1][0] != OUT: return d
    st.user['gen'] = [st.user.get('gen', [0])[0] + 1]; nb = (OUT, st.user['gen'][0])
    st.mem[nb] = list(st.mem.pop(d[1], [])); st.ver[nb] = st.ver.get(d[1], 0)
    return P(nb)
def resize(e, st, ins, q, a):
    v = vgstd.vec_of(st, a[0])
    if not v or v[0][1][0] != OUT: return vgstd._vresize(e, st, ins, q, a)
    n = norm(st, to_int(a[1], 64)); old = norm(st, v[1]); d = v[0]
    k = e.dist(st, n, old)
    if decide(st, cmpv(st, 'ule', n, old, 64)) is not True and not (k is not None and k <= 0):
        d = grow(e, st, a[0], n, old)
        if k is not None and k <= 64:
            for i in range(k): e.store(st, d[1], vadd(old, K(64, i)), 1, K(8, 0))
    vgstd.vecs(st)[vkey(a[0])] = (d, n, v[2]); return None
def reserve(e, st, ins, q, a):
    v = vgstd.vec_of(st, a[0])
    if v and v[0][1][0] == OUT: vgstd.vecs(st)[vkey(a[0])] = (grow(e, st, a[0], None, None), v[1], v[2])
    return None
def pushback(e, st, ins, q, a):
    v = vgstd.vec_of(st, a[0])
    if not v or v[0][1][0] != OUT: return vgstd._push(e, st, ins, q, a)
    d = grow(e, st, a[0], None, None); p = to_ptr(a[1]); x = e.load(st, p[1], p[2], 1, 'i8', 8)
    e.store(st, d[1], norm(st, v[1]), 1, x); vgstd.vecs(st)[vkey(a[0])] = (d, vadd(v[1], K(64, 1)), v[2]); return None
def vctor(e, st, ins, q, a):
    if len(a) == 1 and 'unsigned char' in q: vgstd.setvec(st, a[0], P(('storage', to_ptr(a[0])[1], show(to_ptr(a[0])[2]))), 0, 1)
    return None
def swap(e, st, ins, q, a):
    m = re.search(r'swap<([^<>]*)>', e.mod.fn_full.get(ins.get('f')) or '')
    n = {'unsigned char': 1, 'char': 1, 'signed char': 1, 'unsigned short': 2, 'short': 2, 'unsigned int': 4, 'int': 4, 'float': 4, 'unsigned long': 8, 'long': 8, 'double': 8}.get(m and m.group(1))
    x, y = to_ptr(a[0]), to_ptr(a[1])
    if n is None: return None
    u, v = e.load(st, x[1], x[2], n, 'i%d' % (8 * n), 8 * n), e.load(st, y[1], y[2], n, 'i%d' % (8 * n), 8 * n)
    e.store(st, x[1], x[2], n, v); e.store(st, y[1], y[2], n, u); return None
def nop(e, st, ins, q, a): return None
def erase(e, st, ins, q, a):
    """erasing up to the end shortens the storage"""
    v = vgstd.vec_of(st, a[0])
    if not v or v[0][1][0] != OUT or len(a) < 3: return None
    x, y = to_ptr(a[-2]), to_ptr(a[-1]); n = norm(st, x[2])
    if x[1] != v[0][1] or y[1] != v[0][1] or not same(st, y[2], v[1]): return None
    vgstd.vecs(st)[vkey(a[0])] = (v[0], n, v[2]); return x

class Ops:
    def __init__(self, M, case): self.M, self.case = M, case
    def max_(self, e, st, ins, q, a): return atom(64, ('bound',))
    def encode(self, e, st, ins, q, a):
        if 'std::vector' in (e.mod.fn_full.get(ins.get('f')) or ''): st.events.append(('other encode',)); return None
        n = atom(64, ('encoded size',)); o = to_ptr(a[3])
        src = (to_ptr(a[1]), norm(st, to_int(a[2], 64)))
        p = to_ptr(e.load(st, o[1], o[2], 8, 'ptr')); room = norm(st, e.load(st, o[1], vadd(o[2], K(64, 8)), 8, 'i64', 64))
        st.events.append(('encode', src, p, room, a[4] if len(a) > 4 else None))
        vg.assume(st, cmpv(st, 'ule', n, room, 64), True)
        e.store(st, p[1], p[2], norm(st, n), ('f', ('mem', ('payload',), K(64, 0), norm(st, n), 0)))
        return n
    def header(self, e, st, ins, q, a):
        ret, v = to_ptr(a[0]), to_ptr(a[1])
        p = to_ptr(e.load(st, v[1], v[2], 8, 'ptr')); n = norm(st, e.load(st, v[1], vadd(v[2], K(64, 8)), 8, 'i64', 64))
        for x in ('width', 'height', 'point_step'): e.store(st, ret[1], vadd(ret[2], K(64, self.M.EI[x][1])), 4, attr('inner ' + x, 4))
        st.events.append(('header', p, n)); e.store(st, v[1], v[2], 8, P(('rest',))); e.store(st, v[1], vadd(v[2], K(64, 8)), 8, atom(64, ('rest size',))); return None
    def decode(self, e, st, ins, q, a):
        i = to_ptr(a[1]); o = to_ptr(a[4]); n = norm(st, to_int(a[5], 64))
        st.events.append(('decode', (to_ptr(a[2]), norm(st, to_int(a[3], 64))), o, n))
        e.store(st, o[1], o[2], n[2] if isk(n) else n, ('f', ('mem', ('payload',), K(64, 0), n, 0))); return None
    def models(self):
        return [(r'MaxCompressedSize$', self.max_), (r'PointcloudEncoder::encode$', self.encode), (r'PointcloudDecoder::decode$', self.decode), (r'Cloudini::DecodeHeader$', self.header),
                (r'Pointcloud(En|De)coder::', nop), (r'EncodingInfo::', nop), (r'^std::vector<.*>::resize$', resize), (r'^std::vector<.*>::reserve$', reserve), (r'^std::vector<.*>::(push_back|emplace_back)$', pushback), (r'^std::vector<.*>::erase$', erase),
                (r'^std::vector<.*>::vector$', vctor), (r'^std::vector<.*>::~', nop), (r'^std::swap$', swap)] + vgstd.VEC + vgstd.MODELS

class Late(Exception): pass
def paths(log, e, st, secs=12):
    """the finished paths; when there is no end in sight, those that are finished so far"""
    def late(*a): raise Late()
    old = signal.signal(signal.SIGVTALRM, late); signal.setitimer(signal.ITIMER_VIRTUAL, secs)
    try: return e.run(st)
    except (Late, vg.TooMany, vg.Stop, RecursionError) as x: log.late = '%s %s' % (type(x).__name__, str(x)[:200]); return list(e.done)
    finally: signal.setitimer(signal.ITIMER_VIRTUAL, 0); signal.signal(signal.SIGVTALRM, old)

class Log:
    """obligations of a worker"""
    def __init__(self): self.o = []; self.c = {}; self.late = None
    def ob(self, *a): self.o.append(a); return bool(a[2])
    def count(self, k, n=1): self.c[k] = self.c.get(k, 0) + n

def write(M, case, compress):
    log = Log(); st = St(); f = M.C if compress else M.D; w = '%s, %s' % (f.q.split('::')[-1], case)
    message(M, case, st)
    for a, d, part in cfactory.params(f):
        st.env[a['i']] = P(MSG) if 'RosPointCloud2' in d else P(('arg', 'info')) if 'EncodingInfo' in d else P(('arg', 'output'))
    vgstd.setvec(st, P(('arg', 'output')), P((OUT, 0)), atom(64, ('old size',)), 1)
    L = Layout(case, st)
    common(L, case, case.nf)
    if compress:
        q = atom(64, ('quarter', 'payload')); st.hi[(64, ('quarter', 'payload'))] = 1 << 28
        n = vadd(vscale(q, 4), K(64, case.rs)); st.sub[(64, ('encoded size',))] = n
    pre = (list(L.items), L.pos, L.res)
    e = VG(f, models=Ops(M, case).models())
    r = paths(log, e, st)
    if not log.late: log.ob('the conversion succeeds on some path', w, bool(r), 'no returning path')
    kinds = set()
    for k, s, v in r:
        L.items, L.pos, L.res = list(pre[0]), pre[1], pre[2]; L.st = s
        en = [x for x in s.events if x[0] == ('encode' if compress else 'decode')]; hd = [x for x in s.events if x[0] == 'header']
        full = bool(en); kinds.add(full)
        wh = w + (', cloud' if full else ', no points')
        if compress:
            if full:
                n = norm(s, atom(64, ('encoded size',)))
                log.ob('the whole cloud is encoded with its header', wh, len(en) == 1 and en[0][1] == (P(('points',)), atom(64, ('data size',))) and (en[0][4] is None or isk(en[0][4]) and en[0][4][2] & 1 == 1), 'encodes %s' % show(en[0][1], 100))
            else:
                n = K(64, 0)
                log.ob('only a cloud without data has no payload', wh, decide(s, cmpv(s, 'eq', atom(64, ('data size',)), K(64, 0), 64)) is True, 'nothing was encoded')
        else:
            p = None
            for c in ([en[0][3]] if full else [K(64, 0)]): n = c
            pr = product(s, [attr(x, 4) for x in ('width', 'height', 'point step')])
            if full:
                log.ob('the decoded cloud has the size of the dimensions', wh, sorted((norm(s, x) for x in factors(norm(s, n))), key=vg.okey) == pr, 'decodes %s bytes' % show(n, 120))
                log.ob('the data of the message is decoded', wh, len(hd) == 1 and hd[0][1] == P(('points',)) and same(s, hd[0][2], atom(64, ('data size',))) and en[0][1] == (P(('rest',)), atom(64, ('rest size',))), 'header read from %s, %s decoded' % (show(hd[0][1], 40) if hd else None, show(en[0][1], 60)))
                for x, y in (('width', 'width'), ('height', 'height'), ('point_step', 'point step')):
                    log.ob('dimensions of the compressed data are those of the message', wh + ': ' + x, decide(s, cmpv(s, 'eq', attr('inner ' + x, 4), attr(y, 4), 32)) is True or same(s, attr('inner ' + x, 4), attr(y, 4)), 'not compared')
            else: log.ob('only a cloud without points has no payload', wh, zero_product(s, pr), 'nothing was decoded')
        L.data('payload', n, case.rs if compress and full else 0, ('payload',))
        L.num('density', 1, attr('dense', 1))
        if compress:
            if full or True: L.text('format', ('B', b'cloudini'), 0)
        check(log, M, case, e, s, L, wh, full)
    if not log.late: log.ob('clouds with and without points are converted', w, kinds == {True, False}, 'kinds %s' % kinds)
    log.count('writer paths', len(r))
    return log

def factors(v):
    if v[0] == 'l' and v[2] == 0 and len(v[3]) == 1 and v[3][0][1] == 1:
        a = v[3][0][0]
        if isinstance(a[1], tuple) and a[1][0] == 'mul': return sorted(factors(a[1][1]) + factors(a[1][2]), key=vg.okey)
    return [v]
def product(st, dims): return sorted((norm(st, zext(d, 64)) for d in dims), key=vg.okey)
def zero_product(s, pr):
    """a condition of the path says that the product is zero"""
    for (a, i), v in s.facts.items():
        if isinstance(a[1], tuple) and a[1][0] == 'eq0' and v:
            d = a[1][1]
            for x in (d, vg.vneg(d)):
                if factors(x) == pr or [x] == pr[:1] or x in pr: return True
    return any(decide(s, cmpv(s, 'eq', x, K(64, 0), 64)) is True or isk(norm(s, x)) and norm(s, x)[2] == 0 for x in pr + [prod_term(pr)])
def prod_term(pr):
    v = pr[0]
    for x in pr[1:]: v = vg.vbin(None, 'mul', v, x, 64)
    return v

def check(log, M, case, e, s, L, w, full):
    data, size, _ = vgstd.vecs(s)[vkey(P(('arg', 'output')))]; base = data[1]
    def byte(off): return norm(s, e.byte(s, base, norm(s, off)))
    enc = [byte(K(64, i)) for i in range(4)]
    want = [0, M.enc['PLAIN_CDR'] | M.end['CDR_BIG_ENDIAN' if case.big else 'CDR_LITTLE_ENDIAN'], 0, 0]
    log.ob('the encapsulation header announces the byte order', w, all(isk(b) and b[2] == x for b, x in zip(enc, want)), 'bytes %s' % [show(b, 20) for b in enc])
    for what, kind, pos, n, v in L.items:
        if kind == 'num':
            got = [byte(vadd(pos, K(64, i))) for i in range(n)]
            if what.startswith('count of'): exp = order(case, K(32, 1))
            elif what == 'row step':
                exp = order(case, vg.opaque(32, 'mul', *sorted((attr('point step', 4), attr('width', 4)), key=vg.okey)))
            else: exp = order(case, v)
            log.ob('item is written where and as the format says', '%s: %s' % (w, what), all(same(s, g, x) for g, x in zip(got, exp)), 'at %s: %s, expected %s' % (show(pos, 60), [show(g, 40) for g in got], [show(x, 40) for x in exp]))
        elif kind == 'text':
            got = vgstd.cell_content(e, s, base, pos, norm(s, n)) if v[0] == 'S' else None
            if v[0] == 'B':
                bs = [byte(vadd(pos, K(64, i))) for i in range(len(v[1]))]; got = v if all(isk(b) and b[2] == x or b == norm(s, e.byte(s, ('text', v), K(64, i))) for i, (b, x) in enumerate(zip(bs, v[1]))) else None
            log.ob('text is written where and as the format says', '%s: %s' % (w, what), got == v, 'at %s: %s' % (show(pos, 60), show(got, 60)))
        elif full:
            got = None
            for o, sz, x in reversed(s.mem.get(base, ())):
                if e.dist(s, pos, o) == 0 and sz is not None and same(s, sz if isinstance(sz, tuple) else K(64, sz), n): got = x; break
                if not e.apart(s, o, sz, pos, norm(s, n)): got = ('overlapped by', show(o, 60), show(x, 60)); break
            log.ob('the payload lies where its size announces it', w, got is not None and got[0] == 'f' and got[1][:3] == ('mem', ('payload',), K(64, 0)), 'at %s: %s' % (show(pos, 60), show(got, 100)))
    log.ob('the message ends with its last item', w, same(s, size, L.pos), 'size %s, last item ends at %s' % (show(norm(s, size), 100), show(norm(s, L.pos), 100)))

def read(M, case):
    """the reader on a memory with exactly the layout of the format"""
    log = Log(); st = St(); f = M.R; w = '%s, %s' % (f.q.split('::')[-1], case)
    L = Layout(case, st); common(L, case, case.nf)
    q = atom(64, ('quarter', 'payload')); st.hi[(64, ('quarter', 'payload'))] = 1 << 28
    n = vadd(vscale(q, 4), K(64, case.rs)); st.lo[(64, ('quarter', 'payload'))] = 0
    L.data('payload', n, case.rs, ('payload',)); dpos = L.items[-1][2]
    L.num('density', 1, attr('dense', 1))
    e = VG(f, models=Ops(M, case).models())
    for i, b in enumerate((0, M.enc['PLAIN_CDR'] | M.end['CDR_BIG_ENDIAN' if case.big else 'CDR_LITTLE_ENDIAN'], 0, 0)): e.store(st, IN, K(64, i), 1, K(8, b))
    for what, kind, pos, k, v in L.items:
        pos = norm(st, pos)
        if kind == 'num':
            if v is None: v = atom(8 * k, ('unused', what))
            for i, b in enumerate(order(case, v)): e.store(st, IN, vadd(pos, K(64, i)), 1, norm(st, b))
        elif kind == 'text': e.store(st, IN, pos, norm(st, k), ('f', ('mem', ('text', v), K(64, 0), norm(st, k), 0)))
        else: e.store(st, IN, pos, norm(st, k), ('f', ('mem', ('payload',), K(64, 0), norm(st, k), 0)))
    more = atom(64, ('bytes behind the message',)); st.hi[(64, ('bytes behind the message',))] = 1 << 40
    ints = 0
    for a in f.args:
        if a.get('sret'): st.env[a['i']] = P(('arg', 'ret'))
        elif a['t'] == 'ptr': st.env[a['i']] = P(IN)
        else: st.env[a['i']] = norm(st, vadd(L.pos, more)); ints += 1
    RET = ('arg', 'ret')
    r = paths(log, e, st)
    if not log.late: log.ob('the reader accepts a message of this layout', w, bool(r), 'no returning path')
    log.count('reader paths', len(r))
    for k, s, v in r:
        def ld(off, n): return norm(s, e.load(s, RET, K(64, off), n, 'i%d' % (8 * n), 8 * n))
        def item(what, off, n, want): log.ob('item is recovered', '%s: %s' % (w, what), same(s, ld(off, n), want), 'reader stores %s' % show(ld(off, n), 100))
        h = M.RP['cdr_header'][1]
        item('byte order of the message', h + M.CH['endianness'][1], 1, K(8, M.end['CDR_BIG_ENDIAN' if case.big else 'CDR_LITTLE_ENDIAN'])); item('encapsulation', h + M.CH['encoding'][1], 1, K(8, M.enc['PLAIN_CDR']))
        rh = M.RP['ros_header'][1]
        item('stamp seconds', rh + M.RH['stamp_sec'][1], 4, attr('sec', 4)); item('stamp nanoseconds', rh + M.RH['stamp_nsec'][1], 4, attr('nsec', 4))
        fid = vgstd.getstr(e, s, P(RET, K(64, rh + M.RH['frame_id'][1]))); fid = content(e, s, fid)
        log.ob('text is recovered', w + ': frame id', fid == FRAME or empty(s, FRAME, fid), 'reader stores %s' % show(fid, 100))
        for a, n, x in (('height', 4, 'height'), ('width', 4, 'width'), ('point_step', 4, 'point step'), ('row_step', 4, 'row step'), ('is_bigendian', 1, 'bigendian'), ('is_dense', 1, 'dense')): item(x, M.RP[a][1], n, attr(x, n))
        d = M.RP['data'][1]
        p = to_ptr(e.load(s, RET, K(64, d), 8, 'ptr'))
        log.ob('the data view is the payload', w, p[1] == IN and same(s, p[2], dpos) and same(s, ld(d + 8, 8), norm(s, n_of(case))), 'view of %s bytes at %s' % (show(ld(d + 8, 8), 80), show(p, 80)))
        pushes = [x for x in s.events if x[0] in ('push', 'made')]
        log.ob('every field is recovered', w, len(pushes) == case.nf, '%d fields stored' % len(pushes))
        for i, x in enumerate(pushes[:case.nf]):
            cells = dict(x[2][0][1]) if x[0] == 'push' else vgstd.snapshot(e, s, x[2]); nm = cells.get(('text', M.PF['name'][1])); nm = content(e, s, nm[1]) if nm else None
            log.ob('text is recovered', '%s: name of field %d' % (w, i), nm == NAME(i) or empty(s, NAME(i), nm), 'reader stores %s' % show(nm, 100))
            for a, n in (('offset', 4), ('type', 1)):
                c = stored(cells, M.PF[a][1], n)
                log.ob('item is recovered', '%s: %s of field %d' % (w, a, i), c is not None and same(s, c, attr((a, i), n)), 'stored %s' % (show(c, 100) if c else None))
    return log
def n_of(case): return vadd(vscale(atom(64, ('quarter', 'payload')), 4), K(64, case.rs))
def stored(cells, off, n):
    """the integer stored at an offset of a snapshot, possibly in several pieces"""
    bits = []
    while len(bits) < 8 * n:
        c = cells.get(off + len(bits) // 8)
        if c is None or len(bits) + 8 * c[0] > 8 * n: return None
        bits += bits_of(to_int(c[1], 8 * c[0]))
    return mkbits(8 * n, bits)
def content(e, s, c): return c
def empty(s, c, got):
    """both are the empty text"""
    return (got == ('B', b'') or got is not None and same(s, strlen_of(got), strlen_of(c))) and decide(s, cmpv(s, 'eq', strlen_of(c), K(64, 0), 64)) is True

def info(ctx, M):
    f = M.T; st = St(); case = Case(2, 0, (0, 0), False); message(M, case, st)
    for a in f.args: st.env[a['i']] = P(('arg', 'ret')) if a.get('sret') else P(MSG)
    cop = []
    def vassign(e, s, ins, q, a):
        v = vgstd.vec_of(s, a[1])
        if v: vgstd.vecs(s)[vkey(a[0])] = v
        return to_ptr(a[0])
    def ictor(e, s, ins, q, a):
        if len(a) == 1: vgstd.setvec(s, P(to_ptr(a[0])[1], vadd(to_ptr(a[0])[2], K(64, M.EI['fields'][1]))), P(('no fields',)), 0, M.FS)
        return None
    e = VG(f, models=[(r'^std::vector<.*>::operator=$', vassign), (r'EncodingInfo::EncodingInfo$', ictor), (r'^std::vector<.*>::vector$', nop)] + vgstd.VEC + vgstd.MODELS)
    r = e.run(st)
    ctx.ob('the description of a message is built', f.q, bool(r), 'no returning path')
    for k, s, v in r:
        for a, x in (('width', 'width'), ('height', 'height'), ('point_step', 'point step')):
            g = norm(s, e.load(s, ('arg', 'ret'), K(64, M.EI[a][1]), 4, 'i32', 32)); ctx.ob('the description has the dimensions of the message', '%s: %s' % (f.q, a), same(s, g, attr(x, 4)), 'stored %s' % show(g, 100))
        fv = vgstd.vec_of(s, P(('arg', 'ret'), K(64, M.EI['fields'][1])))
        pushes = [x for x in s.events if x[0] == 'push']
        ctx.ob('the description has the fields of the message', f.q, (fv is not None and fv[0] == P(FLD) and fv[1] == K(64, 2)) or len(pushes) == 2, 'fields %s' % (fv,))

def run(ctx):
    M = Mod()
    ctx.need(len(M.end) >= 2 and M.enc, 'the encapsulation enumerations were not found')
    jobs = []
    cases = []
    R4 = range(4); th = ctx.tier == 'thorough'
    for big in (False, True):
        for rf in R4:
            cases.append(Case(0, rf, (), big, rf))
            for a in R4: cases.append(Case(1, rf, (a,), big, (rf + a) & 3))
            for a in R4 if th else (rf,):
                for b in R4 if th else (0, 1, 2, 3): cases.append(Case(2, rf, (a, b), big, (a + 2 * b) & 3))
        cases.append(Case(3, 1, (3, 0, 2), big, 1))
    for c in cases:
        jobs.append(lambda c=c: write(M, c, True)); jobs.append(lambda c=c: write(M, c, False)); jobs.append(lambda c=c: read(M, c))
    late = bad = None
    for log in par.run(jobs):
        late = late or log.late; bad = bad or not all(o[2] for o in log.o)
        for o in log.o: ctx.ob(*o)
        for k, n in log.c.items(): ctx.count(k, n)
    info(ctx, M)
    ctx.need(bad or not late, 'a case was not finished: %s' % late)
    ctx.count('layouts', len(cases))
