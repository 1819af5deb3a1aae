"""C12: the C interface never lets an exception out and writes only what fits."""
import re
import build, vg, vgstd, cfactory
from vg import K, P, F, atom, isk, VG, St, same, norm, to_ptr, to_int, decide, cmpv, show, vadd, vsub, trunc, zext, bits_of

EXPLAIN = ("Two analyses over the LLVM IR of the exported functions.  (1) Exception flow: the set of exception types that may leave every "
 "function of the library is the least fixpoint over the call graph (what it throws, what its callees may throw minus what the landing "
 "pads catch; standard functions without a body may throw anything derived from std::exception, indirect calls anything the library "
 "throws besides); it must be empty for every exported function, and no library exception may reach a boundary that terminates.  "
 "(2) Value graphs of each exported function along every normal and exceptional path, with the library's entry points as opaque "
 "operations: a path that caught an exception returns zero; every write behind the caller's output pointer (copy, output view handed "
 "to the encoder or decoder) is bounded by the size the function was told or, for decoding, is exactly the 64-bit product of the "
 "dimensions of the same header that drives decoding, within 32 bits, and is the size that is returned and that the size query computes.")

ANY = 'std::exception or derived'
STD_BASE = {  # the standard hierarchy
 '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
 '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
 '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt12system_error': '_ZTISt13runtime_error',
 '_ZTISt19bad_optional_access': '_ZTISt9exception', '_ZTISt18bad_variant_access': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
 '_ZTISt12bad_any_cast': '_ZTISt8bad_cast', '_ZTINSt8ios_base7failureB5cxx11E': '_ZTISt12system_error', '_ZTISt10bad_typeid': '_ZTISt9exception', '_ZTISt13bad_exception': '_ZTISt9exception'}

def bases(m, t, seen=()):
    if t in seen: return set()
    r = {t}
    for b in list((m.typeinfo or {}).get(t, ())) + ([STD_BASE[t]] if t in STD_BASE else []): r |= bases(m, b, seen + (t,))
    return r

class Flow:
    """which exception types may leave which function"""
    def __init__(self, m):
        self.m = m; self.fn = {f.name: f for f in m.roots}
        self.lib = set()
        for f in m.roots:
            for b in f.blocks:
                for i in b:
                    if i.get('f') == '__cxa_throw': self.lib.add(self.thrown(i))
        self.out = {n: frozenset() for n in self.fn}
        users = {}
        for n, f in self.fn.items():
            for b in f.blocks:
                for i in b:
                    if i.get('f') in self.fn: users.setdefault(i['f'], set()).add(n)
        todo = set(self.fn)
        while todo:
            n = todo.pop(); s = self.leave(self.fn[n])
            if s != self.out[n]:
                self.out[n] = s; todo |= users.get(n, set())
    def thrown(self, i):
        a = i['a'][1]
        return a[1] if isinstance(a, list) and a[0] == 'g' else 'unknown type'
    def callee(self, i):
        """types a call may let out"""
        f = i.get('f')
        if i.get('nt'): return frozenset()
        if f is None: return frozenset(self.lib | {ANY})
        if f == '__cxa_throw': return frozenset([self.thrown(i)])
        if f == '__cxa_rethrow': return frozenset(self.lib | {ANY})
        if f.startswith(('llvm.', '__cxa_', '__clang_', '_Unwind')): return frozenset()
        if f in self.fn: return self.out[f]
        if re.match(r'_Zn[wa]', f): return frozenset(['_ZTISt9bad_alloc'])
        if f.startswith('_Z'): return frozenset([ANY])
        return frozenset()          # a C function
    def passes(self, t, pad):
        """an exception of type t goes on behind this landing pad"""
        for c in pad['clauses']:
            if c and c[0] in ('n', 'z') or c == ['c', '0', 64]: return False
            if c and c[0] == 'g':
                if t == ANY:
                    if c[1] == '_ZTISt9exception': return False
                elif t != 'unknown type' and c[1] in bases(self.m, t): return False
        return True
    def pad(self, f, i): return next(x for x in f.blocks[i['u']] if x['o'] == 'landingpad')
    def escapes(self, f, i):
        s = self.callee(i)
        if i['o'] == 'invoke' and s:
            p = self.pad(f, i); s = frozenset(t for t in s if self.passes(t, p))
        return s
    def leave(self, f):
        r = set()
        for b in f.blocks:
            for i in b:
                if i['o'] in ('call', 'invoke'): r |= self.escapes(f, i)
        return frozenset(r)
    def terminates(self, f, i):
        """the landing pad of this call ends the program"""
        if i['o'] != 'invoke': return False
        b, seen = i['u'], set()
        while b not in seen:
            seen.add(b)
            for x in f.blocks[b]:
                if x.get('f') == '__clang_call_terminate': return True
                if x['o'] in ('call', 'invoke') and not (x.get('f') or '').startswith('llvm.'): return False
            t = f.blocks[b][-1]
            if t['o'] != 'br' or len(t['s']) != 1: return False
            b = t['s'][0]
        return False

def pretty(ts): return ', '.join(sorted(ts))

def flow(ctx, m):
    fl = Flow(m)
    api = [f for f in m.roots if re.match(r'cldn_\w+$', f.name)]
    ctx.need(len(api) >= 9, 'only %d exported functions found' % len(api))
    reach = set(); todo = [f.name for f in api]
    while todo:
        n = todo.pop()
        if n in reach or n not in fl.fn: continue
        reach.add(n)
        for b in fl.fn[n].blocks:
            for i in b:
                if i.get('f'): todo.append(i['f'])
                for a in i.get('a', ()):
                    if isinstance(a, list) and a and a[0] == 'F': todo.append(a[1])
    ctx.count('functions whose exceptions are propagated', len(reach)); sites = 0
    ctx.set('types thrown by the library', sorted(fl.lib))
    for f in api:
        for b in f.blocks:
            for i in b:
                if i['o'] not in ('call', 'invoke') or not fl.callee(i): continue
                sites += 1; e = fl.escapes(f, i)
                ctx.ob('no exception leaves an exported function', '%s: call of %s' % (f.q, i.get('q') or 'a function pointer'), not e, '%s: %s may let out %s' % (f.loc(i), i.get('q'), pretty(e)))
    nb = 0
    for n in sorted(reach):
        f = fl.fn[n]
        if '~' in f.q.split('::')[-1] or not f.file.startswith(build.REPO): continue
        for b in f.blocks:
            for i in b:
                if i['o'] in ('call', 'invoke') and fl.terminates(f, i):
                    nb += 1; s = fl.callee(i) & fl.lib if f not in api else fl.callee(i)
                    ctx.ob('no exception reaches a boundary that ends the program', '%s: call of %s' % (f.q, i.get('q')), not s, '%s: %s' % (f.loc(i), pretty(s)))
    ctx.count('call sites of exported functions that may throw', sites); ctx.count('terminating boundaries', nb)

# ---------------------------------------------------------------- values
NOIN = [r'Cloudini::DecodeHeader$', r'getDeserializedPointCloudMessage$', r'EncodingInfo(To|From)YAML$', r'::toEncodingInfo$', r'MaxCompressedSize$', r'PointcloudEncoder::', r'PointcloudDecoder::',
        r'convertCompressedCloudToPointCloud2$', r'convertPointCloud2ToCompressedCloud$', r'EncodingInfo::(~?EncodingInfo|operator=)$', r'RosPointCloud2::', r'RosHeader::', r'PointField::']
OUT = ('arg', 'output'); IN = ('arg', 'input')
API = ['cldn_GetHeaderAsYAML', 'cldn_GetHeaderAsYAMLFromDDS', 'cldn_ComputeCompressedSize', 'cldn_GetDecompressedSize', 'cldn_ConvertCompressedMsgToPointCloud2Msg',
       'cldn_DecodeCompressedMessage', 'cldn_DecodeCompressedData', 'cldn_EncodePointcloudMessage', 'cldn_EncodePointcloudData']

def serial(st, what): st.user['n'] = dict(st.user.get('n') or {}); st.user['n'][what] = st.user['n'].get(what, 0) + 1; return st.user['n'][what]

class Models:
    def __init__(self, m):
        self.EI = cfactory.members(m, 'Cloudini::EncodingInfo'); self.RP = cfactory.members(m, 'cloudini_ros::RosPointCloud2'); self.m = m
        self.es = m.type('Cloudini::EncodingInfo')['size']; self.rs = m.type('cloudini_ros::RosPointCloud2')['size']
    def sc(self, e, st, p, mem, name, v, n): e.store(st, p[1], vadd(p[2], K(64, mem[name][1])), n, v)
    def fill(self, e, st, p, tag):
        """an EncodingInfo with unknown content"""
        p = to_ptr(p)
        for a in ('width', 'height', 'point_step'): self.sc(e, st, p, self.EI, a, atom(32, (tag, a)), 4)
        vgstd.setvec(st, P(p[1], vadd(p[2], K(64, self.EI['fields'][1]))), P((tag, 'fields')), 0, 48)
    def span(self, a, k): return to_ptr(a[k]), to_int(a[k + 1], 64)
    def header(self, e, st, ins, q, a):
        ret, v = to_ptr(a[0]), to_ptr(a[1])
        p = to_ptr(e.load(st, v[1], v[2], 8, 'ptr')); n = norm(st, e.load(st, v[1], vadd(v[2], K(64, 8)), 8, 'i64', 64))
        tag = ('header of', p[1], show(p[2], 200), show(n, 200))
        self.fill(e, st, ret, tag)
        st.events.append(('header', p, n, tag))
        e.store(st, v[1], v[2], 8, P((tag, 'payload'))); e.store(st, v[1], vadd(v[2], K(64, 8)), 8, atom(64, (tag, 'payload size')))
        return None
    def message(self, e, st, ins, q, a):
        ret = to_ptr(a[0]); p, n = self.span(a, 1); tag = ('message', p[1], show(p[2], 200), show(n, 200))
        for x in ('width', 'height', 'point_step'): self.sc(e, st, ret, self.RP, x, atom(32, (tag, x)), 4)
        d = self.RP['data'][1]
        e.store(st, ret[1], vadd(ret[2], K(64, d)), 8, P((tag, 'data'))); e.store(st, ret[1], vadd(ret[2], K(64, d + 8)), 8, atom(64, (tag, 'data size')))
        st.events.append(('message', p, n, tag)); return None
    def toinfo(self, e, st, ins, q, a):
        src = to_ptr(a[1]); ret = to_ptr(a[0])
        tag = ('info of', src[1])
        self.fill(e, st, ret, tag)
        for x in ('width', 'height', 'point_step'): self.sc(e, st, ret, self.EI, x, e.load(st, src[1], vadd(src[2], K(64, self.RP[x][1])), 4, 'i32', 32), 4)
        return None
    def fromyaml(self, e, st, ins, q, a): self.fill(e, st, a[0], ('info of text', serial(st, 'yaml'))); return None
    def toyaml(self, e, st, ins, q, a): vgstd.setstr(st, a[0], ('S', ('yaml', to_ptr(a[1])[1]))); return None
    def maxsize(self, e, st, ins, q, a): return atom(64, ('bound', serial(st, 'max')))
    def assign(self, e, st, ins, q, a):
        if len(a) == 1: self.default(e, st, a[0]); return None
        d, s = to_ptr(a[0]), to_ptr(a[1])
        for x in ('width', 'height', 'point_step'): self.sc(e, st, d, self.EI, x, e.load(st, s[1], vadd(s[2], K(64, self.EI[x][1])), 4, 'i32', 32), 4)
        vgstd.setvec(st, P(d[1], vadd(d[2], K(64, self.EI['fields'][1]))), P(('fields of', d[1])), 0, 48)
        return d
    def default(self, e, st, p):
        p = to_ptr(p)
        for x, v in (('width', 0), ('height', 1), ('point_step', 0)): self.sc(e, st, p, self.EI, x, atom(32, ('default', x)), 4)
    def encode(self, e, st, ins, q, a):
        """encode(data view, vector&) or encode(data view, output view&, bool)"""
        k = 1; data = self.span(a, k); out = to_ptr(a[k + 2]); full = e.mod.fn_full.get(ins.get('f')) or ''
        r = atom(64, ('encoded size', serial(st, 'enc'))); st.events.append(('data', data[0], norm(st, data[1])))
        if 'std::vector' in full:
            vgstd.setvec(st, out, P((r, 'bytes')), r, 1); st.events.append(('encode to vector', r)); return r
        p = to_ptr(e.load(st, out[1], out[2], 8, 'ptr')); n = norm(st, e.load(st, out[1], vadd(out[2], K(64, 8)), 8, 'i64', 64))
        st.events.append(('write', 'encoder', p, n, r))
        c = cmpv(st, 'ule', r, n, 64); vg.assume(st, c, True)
        return r
    def decode(self, e, st, ins, q, a):
        """decode(this, info, data view, output view)"""
        i = to_ptr(a[1]); d, o = self.span(a, 2), self.span(a, 4)
        dims = tuple(norm(st, e.load(st, i[1], vadd(i[2], K(64, self.EI[x][1])), 4, 'i32', 32)) for x in ('width', 'height', 'point_step'))
        st.events.append(('write', 'decoder', o[0], norm(st, o[1]), None)); st.events.append(('decode', dims, d, o)); return None
    def convert(self, e, st, ins, q, a):
        n = atom(64, ('converted size', serial(st, 'conv'))); vgstd.setvec(st, a[1], P((n, 'bytes')), n, 1); return None
    def memcpy(self, e, st, ins, q, a):
        d, s, n = to_ptr(a[0]), to_ptr(a[1]), norm(st, to_int(a[2], 64))
        if d[1] == OUT: st.events.append(('write', 'copy', d, n, s)); return d
        e.copy(st, d, s, n); return d
    def stdcopy(self, e, st, ins, q, a):
        n = vsub(to_ptr(a[1])[2], to_ptr(a[0])[2]) if to_ptr(a[0])[1] == to_ptr(a[1])[1] else None
        if n is None: return None
        self.memcpy(e, st, ins, q, [a[2], a[0], n]); d = to_ptr(a[2]); return P(d[1], vadd(d[2], n))
    def copyn(self, e, st, ins, q, a): n = to_int(a[1], 64); self.memcpy(e, st, ins, q, [a[2], a[0], n]); d = to_ptr(a[2]); return P(d[1], vadd(d[2], n))
    def delegate(self, e, st, ins, q, a):
        r = atom(32, ('result of', q, serial(st, 'del')))
        st.events.append(('delegate', q, tuple(norm(st, x) if x[0] in 'klb' else to_ptr(x) for x in a), r)); return r
    def nop(self, e, st, ins, q, a): return None
    def all(self):
        return [(r'Cloudini::DecodeHeader$', self.header), (r'getDeserializedPointCloudMessage$', self.message), (r'::toEncodingInfo$', self.toinfo), (r'EncodingInfoFromYAML$', self.fromyaml),
                (r'EncodingInfoToYAML$', self.toyaml), (r'MaxCompressedSize$', self.maxsize), (r'PointcloudEncoder::encode$', self.encode), (r'PointcloudDecoder::decode$', self.decode),
                (r'Pointcloud(En|De)coder::~?Pointcloud(En|De)coder$', self.nop), (r'convertCompressedCloudToPointCloud2$', self.convert), (r'EncodingInfo::(EncodingInfo|operator=)$', self.assign),
                (r'(EncodingInfo|RosPointCloud2|RosHeader|PointField)::~', self.nop), (r'^(llvm\.)?(memcpy|memmove)(\.|$)|^std::memcpy', self.memcpy), (r'^cldn_\w+$', self.delegate), (r'^std::copy$', self.stdcopy), (r'^std::copy_n$', self.copyn),
                (r'^std::vector<.*>::vector$', self.vctor), (r'^std::vector<.*>::~', self.nop), (r'^emscripten_|^__cxa_guard', self.guard)] + vgstd.VEC + vgstd.MODELS
    def vctor(self, e, st, ins, q, a):
        if len(a) == 1: vgstd.setvec(st, a[0], P(('storage', to_ptr(a[0])[1])), 0, 1)
        return None
    def guard(self, e, st, ins, q, a): return K(ins['w'], 0) if ins.get('w') else None

def factors(v):
    """the factors of a product of 64-bit values"""
    if v[0] == 'l' and v[2] == 0 and len(v[3]) == 1 and v[3][0][1] == 1:
        a = v[3][0][0]
        if isinstance(a[1], tuple) and a[1][0] == 'mul': return sorted(factors(a[1][1]) + factors(a[1][2]), key=vg.okey)
    return [v]
def product(st, dims): return sorted((norm(st, zext(d, 64)) for d in dims), key=vg.okey)
def short(st, v):
    """a 64-bit term seen through truncation to 32 bits and extension"""
    return trunc(norm(st, v), 32)

def values(ctx, m):
    M = Models(m); npaths = 0
    fns = {f.name: f for f in m.roots}
    for name in API:
        f = fns.get(name); ctx.need(f, '%s not found' % name)
        st = St(); ints = []
        for k, a in enumerate(f.args):
            t = a['t']
            if t == 'ptr' or t == 'i64': st.env[a['i']] = P(IN) if k == (1 if name == 'cldn_EncodePointcloudData' else 0) else P(OUT) if k else P(('arg', 'text'))
            elif t == 'i32': st.env[a['i']] = atom(32, ('size',)); ints.append(st.env[a['i']])
            elif t == 'float': st.env[a['i']] = F(('resolution',))
            else: ctx.need(False, '%s: parameter of type %s' % (name, t))
        ctx.need(len(ints) == 1, '%s: the size parameter was not recognised' % name)
        size = ints[0]
        e = VG(f, models=M.all(), unwind=True)
        res = e.run(st)
        npaths += len(res)
        got = False
        for kind, s, v in res:
            if kind != 'ret': continue
            v = norm(s, to_int(v, 32))
            caught = [x for x in s.events if x[0] == 'unwound']
            if caught:
                ctx.ob('a caught exception makes the function return zero', '%s: exception from %s' % (name, caught[0][1]), isk(v) and v[2] == 0, 'returns %s at %s' % (show(v, 120), f.loc(caught[0][2])))
                continue
            got |= not (isk(v) and v[2] == 0)
            one(ctx, M, e, name, s, v, size)
        ctx.ob('the function has a path that succeeds', name, got, 'every path returns zero')
    ctx.count('paths of exported functions', npaths)

def cells_out(s): return [c for c in s.mem.get(OUT, ())]

def one(ctx, M, e, name, s, v, size):
    w = name; cap = norm(s, zext(size, 64))
    writes = [x for x in s.events if x[0] == 'write' and x[2][1] == OUT]
    zero = isk(v) and v[2] == 0
    ctx.ob('the output is only written by bounded copies and views', w, not cells_out(s) and not any(x[0] == 'call' and any(a[0] == 'p' and a[1] == OUT for a in x[2]) for x in s.events),
           'other writes behind the output pointer: %s' % [x[1] for x in s.events if x[0] == 'call'][:4])
    for x in writes: ctx.ob('writes start at the output pointer', w, isk(x[2][2]) and x[2][2][2] == 0, 'written at %s' % show(x[2][2], 100))
    heads = [x for x in s.events if x[0] == 'header']; msgs = [x for x in s.events if x[0] == 'message']
    inputs = lambda p, n: p[1] == IN and isk(p[2]) and p[2][2] == 0 and same(s, n, cap)
    mg = msgs[-1] if msgs else None
    def inside(p, n):
        """the data of the message"""
        z = atom(64, (mg[3], 'data size')) if mg else None
        return mg is not None and p[1] == (mg[3], 'data') and isk(p[2]) and p[2][2] == 0 and (same(s, n, z) or same(s, n, zext(trunc(z, 32), 64)))
    source = inside if name in ('cldn_DecodeCompressedMessage', 'cldn_GetHeaderAsYAMLFromDDS', 'cldn_GetDecompressedSize') else inputs
    for x in s.events:
        if x[0] == 'data': ctx.ob('what is encoded lies within the input', w, (inputs if name == 'cldn_EncodePointcloudData' else inside)(x[1], x[2]), 'encodes %s bytes' % show(x[2], 100))
    for x in heads: ctx.ob('the header is read from the start of the data', w, source(x[1], x[2]), 'reads %s bytes' % show(x[2], 100))
    for x in msgs: ctx.ob('the message is the whole input', w, inputs(x[1], x[2]), 'reads %s bytes' % show(x[2], 100))
    def dims(h): return [atom(32, (h[3], d)) for d in ('width', 'height', 'point_step')]
    if name in ('cldn_EncodePointcloudMessage', 'cldn_EncodePointcloudData'):
        for x in writes:
            ctx.ob('what is written fits the size the function was told', '%s: %s' % (w, x[1]), decide(s, cmpv(s, 'ule', x[3], cap, 64)) is True, '%s bytes written, capacity %s' % (show(x[3], 120), show(cap, 80)))
            want = x[4] if x[1] == 'encoder' else x[3]
            ctx.ob('the returned size is what was written', '%s: %s' % (w, x[1]), same(s, v, short(s, want)), 'returns %s' % show(v, 120))
        ctx.ob('a result other than zero means that something was written', w, zero or bool(writes), 'returns %s' % show(v, 120))
        return
    if name in ('cldn_DecodeCompressedData', 'cldn_DecodeCompressedMessage'):
        dec = [x for x in s.events if x[0] == 'decode']
        for x, d in zip(writes, dec):
            h = heads[-1] if heads else None
            ctx.ob('decoding uses the header that was read', w, h is not None and all(same(s, a, b) for a, b in zip(d[1], dims(h))), 'decodes with %s' % show(d[1][0], 100))
            ctx.ob('decoding reads what follows the header', w, h is not None and d[2][0][1] == (h[3], 'payload') and same(s, d[2][1], atom(64, (h[3], 'payload size'))), 'decodes %s' % show(d[2][0], 100))
            ctx.ob('the output view is the 64-bit product of the dimensions of the header', w, h is not None and factors(x[3]) == product(s, dims(h)), 'view of %s bytes' % show(x[3], 160))
            ctx.ob('sizes that do not fit 32 bits are refused', w, fits32(s, x[3]), 'a view of %s bytes is written' % show(x[3], 160))
            ctx.ob('the returned size is what was written', w, same(s, v, short(s, x[3])), 'returns %s' % show(v, 120))
        ctx.ob('a result other than zero means that something was written', w, zero or len(writes) == 1 == len(dec), 'returns %s' % show(v, 120)); return
    if name == 'cldn_GetDecompressedSize':
        ctx.ob('a size query writes nothing', w, not writes, '')
        if zero: return
        h = heads[-1] if heads else None
        ctx.ob('the size comes from the header that drives decoding', w, h is not None, 'returns %s' % show(v, 160))
        if h is None: return
        pr = product(s, dims(h))
        cand = [c for c in consts_of(s, v)]
        ctx.ob('the size is the 64-bit product of the dimensions of the header', w, any(factors(c) == pr for c in cand), 'returns %s' % show(v, 160))
        ctx.ob('sizes that do not fit 32 bits are refused', w, any(factors(c) == pr and fits32(s, c) for c in cand), 'returns %s' % show(v, 160)); return
    if name == 'cldn_ComputeCompressedSize':
        ctx.ob('a size query writes nothing', w, not writes, '')
        en = [x for x in s.events if x[0] == 'encode to vector']
        ctx.ob('the result is the size of the encoded cloud', w, zero or bool(en) and same(s, v, short(s, en[-1][1])), 'returns %s' % show(v, 120)); return
    # the caller is told the size only afterwards: exactly the result, and the size that is returned
    for x in writes: ctx.ob('the returned size is what was written', '%s: %s' % (w, x[1]), same(s, v, short(s, x[3])), 'returns %s, copies %s' % (show(v, 100), show(x[3], 100)))
    ctx.ob('a result other than zero means that something was written', w, zero or len(writes) == 1, 'returns %s' % show(v, 120))

def fits32(s, v):
    if decide(s, cmpv(s, 'ule', v, K(64, 0xFFFFFFFF), 64)) is True: return True
    return decide(s, cmpv(s, 'eq', vg.vbin(s, 'lshr', norm(s, v), K(64, 32), 64), K(64, 0), 64)) is True or decide(s, cmpv(s, 'eq', zext(trunc(norm(s, v), 32), 64), norm(s, v), 64)) is True

def consts_of(s, v):
    """64-bit products of which v is the truncation"""
    out = []
    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 64 and isinstance(x[1], tuple) and x[1] and x[1][0] == 'mul':
                c = atom(64, x[1])
                if same(s, trunc(c, 32), v): out.append(c)
                return
            for y in x: walk(y)
        elif isinstance(x, frozenset):
            for y in x: walk(y)
    walk(v)
    return out

def run(ctx):
    flow(ctx, build.module('core', [r'.'], noinline=[r'.']))
    values(ctx, build.module('core', [r'^cldn_\w+$'], noinline=NOIN))
