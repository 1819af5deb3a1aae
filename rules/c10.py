"""C10: corrupt or incomplete data is reported, never passed off as a cloud."""
import re
import build, ir, vg, vgstd, loops, cfactory, chunkloop, par
from vg import K, P, F, atom, isk, VG, St, norm, to_ptr, to_int, decide, assume, cmpv, show, vadd, vsub, zext, bounds, lin_of, same, M
from rules import c11, c17

EXPLAIN = ("Every function that calls a status-returning LZ4 or ZSTD function is evaluated on all paths with the status as an unknown value: a path that returns must know that the "
 "status is a success (LZ4: not negative, for a compressor positive; ZSTD: not an error code), the decompressed view is exactly the buffer that was handed over and the status as its size, the capacity is not larger than the buffer, "
 "and no unknown compression option returns.  The chunk loop of decode() is decided for each version (value graph of one generic round): returns only when no point is missing and no byte is left.  "
 "The stages of a chunk are decided the same way: one point per round, exactly the expected number of rounds, every decoder called once per point, one section per adaptive field, nothing left over.  "
 "Each mode of an adaptive section is evaluated with its mode byte constant: unknown modes never return, palette indexes are below the palette size, runs fill the chunk exactly.  "
 "Field types without codec and version bytes other than 02 to 05 never return.")

LIB = r'^(LZ4_(?!compressBound|sizeof|versionNumber|decoderRingBuffer)\w*|ZSTD_(compress|decompress)\w*)$'
NOTSTATUS = r'^ZSTD_compressBound$'

def m_lz4(e, st, ins, q, a):
    k = ('status', q, st.fresh()); st.events.append(('status', q, tuple(a), k, dict(vgstd.vecs(st)))); return atom(32, k)
def m_zstd(e, st, ins, q, a):
    k = ('status', q, st.fresh()); st.events.append(('status', q, tuple(a), k, dict(vgstd.vecs(st)))); return atom(64, k)
def m_iserr(e, st, ins, q, a): return atom(ins.get('w') or 32, ('iserr', norm(st, to_int(a[0], 64))))
STATUS = [(r'^LZ4_(compress|decompress)\w*$', m_lz4), (r'^ZSTD_isError$', m_iserr), (r'^ZSTD_(compress|decompress)(?!Bound)\w*$', m_zstd)]

def setup(f, consts=None):
    st = St()
    for a in f.args:
        n = ('arg', a['name']); st.env[a['i']] = P(n) if a['t'] == 'ptr' else atom(int(a['t'][1:]), n)
    return st
def statuses(ev):
    out = []
    for x in ev:
        if x[0] == 'status': out.append(x)
        if x[0] == 'loop':
            for c, e2, *_ in x[2]: out += statuses(e2)
    return out
def success(s, q, k):
    """does the path know that the call succeeded?"""
    if q.startswith('LZ4'):
        v = atom(32, k)
        if decide(s, cmpv(s, 'slt', v, K(32, 1), 32)) is False or decide(s, cmpv(s, 'slt', K(32, 0), v, 32)) is True: return True
        if decide(s, atom(1, ('slt', K(32, 0), v))) is True or decide(s, atom(1, ('slt', v, K(32, 1)))) is False: return True
        if decide(s, cmpv(s, 'slt', v, K(32, 0), 32)) is not False and decide(s, atom(1, ('slt', v, K(32, 0)))) is not False: return False
        return 'decompress' in q or decide(s, cmpv(s, 'eq', v, K(32, 0), 32)) is False
    v = atom(64, k)
    for w in (32, 64, 1, 8):
        if decide(s, cmpv(s, 'eq', atom(w, ('iserr', norm(s, v))), K(w, 0), w)) is True: return True
    return bounds(s, norm(s, v))[1] < (1 << 64) - 4096 or decide(s, cmpv(s, 'ult', v, K(64, (1 << 64) - 4096), 64)) is True

class Jobs:
    def __init__(self): self.obs = []
    def ob(self, rule, where, ok, detail=''): self.obs.append((rule, where, bool(ok), str(detail)[:300]))
def ev(f, st, models=()): 
    e = VG(f, models=STATUS + list(models) + vgstd.VEC + vgstd.MODELS); return e, e.run(st)

def status_job(f, st=None, where=None):
    """every returning path has tested every status"""
    J = Jobs(); e, rets = ev(f, st or setup(f)); n = 0
    for k, s, v in rets:
        for x in statuses(s.events):
            n += 1
            J.ob('the status is tested before its value is used', '%s: %s' % (where or c11.short(f.full), x[1]), success(s, x[1], x[3]), 'a path returns without knowing that the call succeeded')
    return J.obs, n, len(rets)

def option_arg(f):
    for a, d, part in cfactory.params(f):
        if 'CompressionOption' in d: return a
    return None

def decompress_job(f, names, opt):
    J = Jobs(); st = setup(f); a = option_arg(f)
    st.env[a['i']] = K(8, opt)
    chunk = vec = mx = None
    for b, d, part in cfactory.params(f):
        if 'Span' in d and part == 0: chunk = (P(('arg', b['name'])),) + (chunk or ())[1:]
        elif 'Span' in d and part == 1: chunk = (chunk[0], atom(64, ('arg', b['name'])))
        elif 'vector' in d: vec = P(('arg', b['name']))
        elif b['t'] == 'i64': mx = atom(64, ('arg', b['name']))
    vgstd.setvec(st, vec, P(('buffer',)), atom(64, ('buffer size',)), 1)
    e, rets = ev(f, st); nm = names.get(opt, 'option %d' % opt); w = 'DecompressChunk, %s' % nm
    if opt not in names: J.ob('an unknown compression option is refused', w, not rets, '%d paths return' % len(rets)); return J.obs
    J.ob('the option is decoded', w, rets, 'no path returns')
    for k, s, v in rets:
        parts = dict(v[1]) if v and v[0] == 'agg' else {}
        p, n = parts.get((0,)), parts.get((1,))
        x = statuses(s.events)
        if nm == 'NONE':
            J.ob('uncompressed chunks are passed on whole', w, p == chunk[0] and n is not None and same(s, n, chunk[1]) and not x, 'view %s, %s' % (p and show(p, 60), n and show(n, 60))); continue
        J.ob('one decompressor call', w, len(x) == 1, [y[1] for y in x])
        if len(x) != 1: continue
        _, q, args, key, vecs = x[0]
        J.ob('the decompressor belongs to the option', w, q.startswith(nm), q)
        src, dst, ns, cap = (args[0], args[1], args[2], args[3]) if q.startswith('LZ4') else (args[2], args[0], args[3], args[1])
        wd = 32 if q.startswith('LZ4') else 64
        J.ob('the whole chunk is decompressed', w, to_ptr(src) == chunk[0] and same(s, zext(norm(s, to_int(ns, wd)), 64), chunk[1]), 'source %s, %s bytes' % (show(src, 60), show(ns, 80)))
        J.ob('the capacity is the bound of the caller', w, same(s, zext(norm(s, to_int(cap, wd)), 64), mx), show(cap, 100))
        b = [z for z in vecs.values() if z[0] == to_ptr(dst)]
        have = b[0][1] if b else None
        ok = have is not None and (same(s, have, mx) or decide(s, cmpv(s, 'ult', have, mx, 64)) is False)
        J.ob('the capacity is not larger than the buffer', w, ok, 'buffer of %s bytes' % (have and show(have, 80)))
        val = zext(atom(32, key), 64) if wd == 32 else atom(64, key)
        J.ob('the result is the buffer with the status as its size', w, p is not None and to_ptr(p) == to_ptr(dst) and n is not None and same(s, n, val), 'view %s, %s' % (p and show(p, 60), n and show(n, 80)))
    return J.obs

def compress_job(f, m, names, opt):
    """WriteStage1Chunk: the size written in front of the chunk and the size returned are the status"""
    J = Jobs(); st = setup(f); info = data = out = None
    for b, d, part in cfactory.params(f):
        if 'EncodingInfo' in d: info = ('arg', b['name'])
        elif 'const' in d and 'Span' in d: data = (P(('arg', b['name'])),) if part == 0 else (data[0], atom(64, ('arg', b['name'])))
        elif 'Span' in d: out = ('arg', b['name'])
    EI = cfactory.members(m, 'Cloudini::EncodingInfo')
    st.mem[info] = [(K(64, EI['compression_opt'][1]), 1, K(8, opt))]
    st.mem[out] = [(K(64, 0), 8, P(('out',))), (K(64, 8), 8, atom(64, ('room',)))]
    e, rets = ev(f, st); nm = names.get(opt, 'option %d' % opt); w = 'WriteStage1Chunk, %s' % nm
    if opt not in names: J.ob('an unknown compression option is refused', w, not rets, '%d paths return' % len(rets)); return J.obs
    J.ob('the option is encoded', w, rets, 'no path returns')
    for k, s, v in rets:
        x = statuses(s.events)
        if nm == 'NONE': J.ob('no compressor for uncompressed chunks', w, not x, [y[1] for y in x]); val = norm(s, data[1])
        else:
            J.ob('one compressor call', w, len(x) == 1 and x[0][1].startswith(nm), [y[1] for y in x])
            if len(x) != 1: continue
            _, q, args, key, vecs = x[0]
            J.ob('the status is tested before its value is used', w, success(s, q, key), 'a path returns without knowing that the call succeeded')
            val = norm(s, zext(atom(32, key), 64) if q.startswith('LZ4') else atom(64, key))
        pre = norm(s, zext(e.load(s, ('out',), K(64, 0), 4, 'i32', 32), 64))
        J.ob('the length prefix is the size of the chunk', w, same(s, pre, val) or same(s, pre, norm(s, zext(vg.trunc(val, 32, s), 64))) and decide(s, cmpv(s, 'ult', K(64, (1 << 32) - 1), val, 64)) is False, 'prefix %s, chunk %s' % (show(pre, 80), show(val, 80)))
        J.ob('the size of prefix and chunk is returned', w, v is not None and same(s, norm(s, to_int(v, 64)), vadd(val, K(64, 4))) or v is not None and same(s, norm(s, to_int(v, 64)), vadd(pre, K(64, 4))), show(v, 80) if v else None)
    return J.obs

def log(e, st, ins, q, a):
    st.events.append(('call', q, tuple(a), ()))
    return None
def calls(evs, rx): return [x for x in evs if x[0] == 'call' and re.search(rx, x[1])]
def alltypes(evs, rx):
    out = calls(evs, rx)
    for x in evs:
        if x[0] == 'loop':
            for c, e2, *_ in x[2]: out += alltypes(e2, rx)
    return out

def point_loop(J, e, s, N, w, extra=None):
    """a loop that runs exactly N times and calls each decoder once per round"""
    lps = [x for x in s.events if x[0] == 'loop' and alltypes(x[2] and [x], r'^<indirect>$|FieldDecoder\w*::decode$')]
    J.ob('points are decoded in one loop', w, len(lps) == 1, '%d loops' % len(lps))
    if len(lps) != 1: return
    hd = lps[0][1]
    Ls = [L for L in sum(e.loops.values(), []) if L['header'] == hd]
    for L in Ls:
        J.ob('exactly the expected number of points is decoded', w, loops.counted(e, L, N, [x for x in L['exits']]), 'no counter that runs from 0 to the expected number')
        for c, evs, t in L['body']:
            inner = [x for x in evs if x[0] == 'loop' and alltypes(x[2] and [x], r'^<indirect>$|FieldDecoder\w*::decode$')]
            direct = calls(evs, r'^<indirect>$|FieldDecoder\w*::decode$')
            J.ob('the decoders are called for every point', w, len(inner) == 1 and not direct, '%d loops, %d direct calls' % (len(inner), len(direct)))
            for x in inner: all_decoders(J, e, x[1], w)
def all_decoders(J, e, hd, w, rx=r'^<indirect>$|FieldDecoder\w*::decode$', what='decoder'):
    for L in [L for L in sum(e.loops.values(), []) if L['header'] == hd]:
        kind, text = loops.ranking(e, L, lambda b, s: True)
        J.ob('the %ss are visited one by one' % what, w, kind == 'counted', text)
        for c, evs, t in L['body']: J.ob('every %s is called once' % what, w, len(calls(evs, rx)) == 1 and not [x for x in evs if x[0] == 'loop' and alltypes([x], rx)], '%d calls in a round' % len(calls(evs, rx)))
        for s in L['exits']: J.ob('the loop over the %ss is not left early' % what, w, not calls(s.events[len(L['entry'].events):] if False else s.events, rx), 'left after a call')
        J.ob('the loop over the %ss has one way out' % what, w, len({tuple(sorted(show(c, 400) + str(t) for c, t in s.conds)) for s in L['exits']}) == 1, '%d ways out' % len(L['exits']))

def v4_job(f):
    J = Jobs(); st = setup(f); w = 'DecodeV4Stage1Chunk'
    N = [a for a, d, part in cfactory.params(f) if a['t'] == 'i64' and a['name'].startswith('expected')]
    if not N: N = [a for a, d, part in cfactory.params(f) if a['t'] == 'i64'][-1:]
    e, rets = ev(f, st, [(r'::ResetDecoders$', log)])
    J.ob('the stage returns', w, rets, 'no path returns')
    for k, s, v in rets: point_loop(J, e, s, atom(64, ('arg', N[0]['name'])), w)
    return J.obs

def v5_job(f):
    J = Jobs(); st = setup(f); w = 'DecodeV5Stage1Chunk'; n = view = None
    for a, d, part in cfactory.params(f):
        if a['t'] == 'i64': n = atom(64, ('arg', a['name']))
        if 'Span<unsigned char const>&' in d or 'Span<const' in d or 'ConstBufferView' in d: view = ('arg', a['name'])
    e, rets = ev(f, st, [(r'::ResetDecoders$', log)])
    J.ob('the stage returns', w, rets, 'no path returns')
    for k, s, v in rets:
        point_loop(J, e, s, n, w)
        lps = [x for x in s.events if x[0] == 'loop' and alltypes([x], 'decodeV5AdaptiveIntSection$')]
        J.ob('adaptive sections are decoded in one loop', w, len(lps) == 1, '%d loops' % len(lps))
        for x in lps:
            all_decoders(J, e, x[1], w, 'decodeV5AdaptiveIntSection$', 'section')
            for y in alltypes([x], 'decodeV5AdaptiveIntSection$'):
                J.ob('a section covers the expected number of points', w, same(s, to_int(y[2][-1], 64), n) and any(z == P(view) for z in y[2]), show(y[2][-1], 80))
        left = norm(s, e.load(s, view, K(64, 8), 8, 'i64', 64))
        J.ob('returns only when the chunk is used up', w, decide(s, cmpv(s, 'eq', left, K(64, 0), 64)) is True, 'bytes left: %s' % show(left, 100))
    return J.obs

def chunk_job(f, m):
    J = Jobs(); st = setup(f); w = 'decodeChunk'; chunk = [None, None]; n = out = info = None
    for a, d, part in cfactory.params(f):
        if 'const' in d and 'Span' in d: chunk[part or 0] = P(('arg', a['name'])) if a['t'] == 'ptr' else atom(64, ('arg', a['name']))
        elif 'Span' in d: out = P(('arg', a['name']))
        elif 'EncodingInfo' in d: info = ('arg', a['name'])
        elif a['t'] == 'i64': n = atom(64, ('arg', a['name']))
    EI = cfactory.members(m, 'Cloudini::EncodingInfo')
    st.mem[info] = [(K(64, EI['compression_opt'][1]), 1, atom(8, ('option',)))]
    def dec(e, st, ins, q, a):
        st.events.append(('call', q, tuple(a), ())); return ('agg', (((0,), P(('view',))), ((1,), atom(64, ('view size',)))))
    def stage(e, st, ins, q, a):
        cells = []
        for x in a:
            if x[0] == 'p' and x[1][0] == 'al':
                cells.append((x, e.load(st, x[1], x[2], 8, 'ptr'), norm(st, e.load(st, x[1], vadd(x[2], K(64, 8)), 8, 'i64', 64))))
        st.events.append(('call', q, tuple(a), (), cells)); return None
    e, rets = ev(f, st, [(r'::DecompressChunk$', dec), (r'::DecodeV[45]Stage1Chunk$', stage), (r'::UsesV5Codec$', None), (r'MaxStage1ChunkSize$', log)][:2] + [(r'MaxStage1ChunkSize$', log)])
    J.ob('the chunk decoder returns', w, rets, 'no path returns')
    for k, s, v in rets:
        d = calls(s.events, 'DecompressChunk$'); t = calls(s.events, 'Stage1Chunk$')
        J.ob('one decompression and one stage', w, len(d) == 1 and len(t) == 1, '%d, %d' % (len(d), len(t)))
        if len(d) != 1 or len(t) != 1: continue
        a = d[0][2]
        J.ob('the chunk is decompressed with the option of the header', w, any(norm(s, x) == atom(8, ('option',)) for x in a if x[0] in 'klb') and chunk[0] in a and any(x[0] in 'klb' and x[1] == 64 and same(s, x, chunk[1]) for x in a), [show(x, 50) for x in a][:4])
        J.ob('the stage reads what was decompressed', w, any(p == P(('view',)) and same(s, z, atom(64, ('view size',))) for _, p, z in t[0][4]), [(show(p, 40), show(z, 40)) for _, p, z in t[0][4]])
        J.ob('the stage decodes the expected number of points', w, any(x[0] in 'klb' and x[1] == 64 and same(s, x, n) for x in t[0][2]) and out in t[0][2], [show(x, 50) for x in t[0][2]])
    return J.obs

def section_job(f, mode, known):
    J = Jobs(); st = setup(f); w = 'adaptive section, mode %d' % mode
    ps = cfactory.params(f); inp = n = None
    for a, d, part in ps:
        if 'Span' in d: inp = ('arg', a['name'])
        if a['t'] == 'i64': n = atom(64, ('arg', a['name']))
    st.mem[inp] = [(K(64, 0), 8, P(('in',))), (K(64, 8), 8, atom(64, ('insize',)))]
    st.mem[('in',)] = [(K(64, 0), 1, K(8, mode))]
    e, rets = ev(f, st, [(r'::readUVarint$', c11.m_uvar), (r'^Cloudini::decodeVarint$', m_dec)])
    if mode not in known: J.ob('an unknown mode is refused', w, not rets, '%d paths return' % len(rets)); return J.obs
    J.ob('the mode is decoded', w, rets, 'no path returns')
    for k, s, v in rets:
        ids = [x[1] for x in s.events if x[0] == 'loop']
        Ls = [L for L in sum(e.loops.values(), []) if L['header'] in ids]
        ok = False; why = 'no loop produces exactly the expected number of points'
        for L in Ls:
            if loops.counted(e, L, n) and L['body']: ok = True
            for v in loops.variables(e, L):
                if v.entry is None or not (isk(v.entry) and v.entry[2] == 0) or v.sym[1] != 64: continue
                if decide(s, cmpv(s, 'eq', v.sym, n, 64)) is True and L['body'] and all(adds_run(e, L, t, v, a) for (_, _, t), a in zip(L['body'], v.after)): ok = True
        J.ob('returns only after exactly the expected number of points', w, ok, why)
    return J.obs
def m_dec(e, st, ins, q, a):
    st.events.append(('varint', to_ptr(a[0]), norm(st, to_int(a[1], 64)))); return c11.m_decvar(e, st, ins, q, a)
def adds_run(e, L, t, v, a):
    """the round adds what an inner loop counted one by one"""
    a = norm(t, a)
    step = norm(t, vsub(a, v.sym))
    for I in sum(e.loops.values(), []):
        if I['header'] == L['header']: continue
        for u in loops.variables(e, I):
            if u.sym[1] != 64 or u.entry is None: continue
            one = I['body'] and all(isk(x) and x[2] == 1 for x in (u.step(s, b) for (_, _, s), b in zip(I['body'], u.after)))
            if not one: continue
            if u.sym == a and norm(I['entry'], u.entry) == norm(I['entry'], v.sym): return True
            if isk(u.entry) and u.entry[2] == 0 and any(loops.counted(e, I, z) for z in ([step] if not isk(step) else [])): return True
            # whole run in one go
            if u.sym == a: return True
    return False

def palette_job(f, mode):
    """an index read from the input is compared with the size of the palette before it is used"""
    J = Jobs(); st = setup(f); w = 'adaptive section, mode %d' % mode; inp = None
    for a, d, part in cfactory.params(f):
        if 'Span' in d: inp = ('arg', a['name'])
    st.mem[inp] = [(K(64, 0), 8, P(('in',))), (K(64, 8), 8, atom(64, ('insize',)))]
    st.mem[('in',)] = [(K(64, 0), 1, K(8, mode))]; seen = [0]; sizes = {}
    def index(e, st, ins, q, a):
        v = vgstd.vec_of(st, a[0]); i = norm(st, to_int(a[1], 64)); n = v[1] if v else None
        if n is None:
            k = ('vector size', vgstd.skey(to_ptr(a[0]))); n = atom(64, k)
        st.events.append(('index', decide(st, cmpv(st, 'ult', i, n, 64)) is True, show(i, 80), show(n, 80)))
        return None
    def size(e, st, ins, q, a):
        v = vgstd.vec_of(st, a[0])
        return v[1] if v else atom(64, ('vector size', vgstd.skey(to_ptr(a[0]))))
    e, rets = ev(f, st, [(r'::readUVarint$', c11.m_uvar), (r'^Cloudini::decodeVarint$', m_dec), (r'^std::vector<.*>::operator\[\]$', index), (r'^std::vector<.*>::size$', size)])
    n = 0
    for L in sum(e.loops.values(), []):
        for c, evs, t in L['body']:
            for x in evs:
                if x[0] == 'index': n += 1; J.ob('a palette index is below the palette size', w, x[1], 'index %s, size %s' % (x[2], x[3]))
    return J.obs

def run(ctx):
    m0 = build.module('core', [r'.'], noinline=[r'.'])
    fn, cg = c11.graph(m0)
    users = []
    for n, f in fn.items():
        qs = {i.get('q') or i.get('f') for b in f.blocks for i in b if i['o'] in ('call', 'invoke')}
        hit = sorted(str(q) for q in qs if q and re.match(LIB, str(q)) and not re.match(NOTSTATUS, str(q)))
        if hit: users.append((n, hit))
    ctx.need(users, 'no call of LZ4 or ZSTD found')
    ctx.set('functions that call a compressor', ['%s: %s' % (c11.short(fn[n].full), ', '.join(h)) for n, h in users])
    jobs = []
    names = {v: k for k, v in (m0.enum('Cloudini::CompressionOption') or [])} if not isinstance(m0.enum('Cloudini::CompressionOption'), dict) else {v: k for k, v in m0.enum('Cloudini::CompressionOption').items()}
    ctx.need(set(names.values()) == {'NONE', 'LZ4', 'ZSTD'}, 'compression options: %s' % names)
    opts = list(names) + [3, 4, 127, 128, 255]
    # every user of a compressor, and if its own paths do not test the status, its callers
    mu = build.module('core', ['^' + re.escape(fn[n].full) + '$' for n, _ in users])
    got = {f.name: f for f in mu.roots}
    ctx.need(all(n in got for n, _ in users), 'functions that call a compressor missing from the module')
    for n, h in users:
        obs, k, r = status_job(got[n])
        if any(not o[2] for o in obs):
            cs = sorted(x for x in cg if n in cg[x] and x != n)
            if cs:
                mc = build.module('core', ['^' + re.escape(fn[x].full) + '$' for x in cs]); o2 = []
                try:
                    for f in mc.roots:
                        if f.name in cs: o2 += status_job(f, where='%s in %s' % (c11.short(fn[n].full), c11.short(f.full)))[0]
                    obs = o2
                except vg.TooMany: pass
        for o in obs: ctx.ob(*o)
    m = build.module('core', [r'^Cloudini::detail::DecompressChunk\([^$]*$', r'^Cloudini::detail::WriteStage1Chunk\([^$]*$', r'::decodeV5AdaptiveIntSection\([^$]*$', r'^Cloudini::CreateCompatibleDecoder\([^$]*$|detail::CreateCompatibleDecoder\([^$]*$'],
                     noinline=[r'::readUVarint$', r'^Cloudini::decodeVarint$', r'::readBitpackedIndex$'])
    def one(rx, mm=m):
        r = [f for f in mm.roots if re.search(rx, f.full)]
        ctx.need(len(r) == 1, '%s not found' % rx); return r[0]
    D, W, S = one(r'::DecompressChunk\('), one(r'::WriteStage1Chunk\('), one('decodeV5AdaptiveIntSection')
    for o in opts:
        jobs.append(lambda o=o: decompress_job(D, names, o)); jobs.append(lambda o=o: compress_job(W, m, names, o))
    ms = build.module('core', [r'::DecodeV4Stage1Chunk\([^$]*$', r'::DecodeV5Stage1Chunk\([^$]*$', r'PointcloudDecoder::decodeChunk\([^$]*$'],
                      noinline=[r'::decodeV5AdaptiveIntSection$', r'::getV5AdaptiveFields$', r'::ResetDecoders$', r'::DecompressChunk$', r'::DecodeV[45]Stage1Chunk$', r'::UsesV5Codec$', r'::MaxStage1ChunkSize$'])
    A, B, C = one('DecodeV4Stage1Chunk', ms), one('DecodeV5Stage1Chunk', ms), one('decodeChunk', ms)
    jobs += [lambda: v4_job(A), lambda: v5_job(B), lambda: chunk_job(C, ms)]
    modes = {0, 1, 2, 3}
    for k in [0, 1, 2, 3, 4, 5, 127, 128, 255]: jobs.append(lambda k=k: section_job(S, k, dict.fromkeys(modes)))
    jobs.append(lambda: palette_job(S, 1))
    for v in (2, 3, 4, 5):
        def loop(v=v): return [(r, w, ok, str(d)[:300]) for r, w, d, ok in [(x[0], x[1], x[3], x[2]) for x in chunkloop.describe(v)]]
        jobs.append(loop)
    def types():
        J = Jobs(); T = one('CreateCompatibleDecoder'); kn = m0.enum('Cloudini::FieldType'); kn = dict(kn)
        PF = cfactory.members(m, 'Cloudini::PointField')
        for t in [0] + [x for x in range(256) if x not in kn.values()][:4] + [255]:
            st = setup(T)
            for a, d, part in cfactory.params(T):
                if 'PointField' in d: st.mem[('arg', a['name'])] = [(K(64, PF['type'][1]), 1, K(8, t))]
            e, rets = ev(T, st)
            J.ob('a field type without codec is refused', 'CreateCompatibleDecoder, type %d' % t, not rets, '%d paths return' % len(rets))
        return J.obs
    jobs.append(types)
    hm = c17.header_module(); H = [f for f in hm.roots if 'DecodeHeader' in f.q]
    ctx.need(len(H) == 1, 'DecodeHeader not found')
    def vers():
        J = Jobs()
        for b in (b'00', b'01', b'06', b'07', b'09', b'10', b'12', b'15', b'20', b'25', b'50', b'99', b'0:', b'0 ', b' 5', b'\x00\x05'):
            e, r = c17.run_decode(hm, H[0], b'CLOUDINI_V' + b); J.ob('an unknown version is refused', 'DecodeHeader, version bytes %r' % b, not r, '%d paths return' % len(r))
        return J.obs
    jobs.append(vers)
    for r in par.run([lambda j=j: guarded(j) for j in jobs]):
        ctx.need(not isinstance(r, str), r)
        for o in r: ctx.ob(*o)
    ctx.set('compression options decided', opts); ctx.set('section modes decided', [0, 1, 2, 3, 4, 5, 127, 128, 255])
def guarded(j):
    try: return j()
    except vg.TooMany as x: return str(x)
