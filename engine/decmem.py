"""Bounds of every memory access of the decoding side: assume/guarantee between functions.

 * A view (pointer, length) received by a function is valid; every view handed on must be valid.
 * A field decoder gets the view of one point (>= point step bytes); it was built by the factory for fields whose offset is
   kDecodeButSkipStore or leaves room for the field in the point (this is what decode() must have established).
"""
import re, time, itertools
import lin, build, memsafe, cfactory, par, stdmodels
from lin import A, const, var, add, sub, scale, addc, entails, is_const, ZERO
from absint import Eng, St, P, I, U, Unsupported
from memsafe import Mem, setup, SKIP, WIDTH, is_span, params, members

def dt(fn, k): return next((d for a, d, part in params(fn) if a is fn.args[k]), '')
class Views(Mem):
    """pointers into a view that are handed to code which is not analysed"""
    def on_call(self, eng, st, ins, q, f, args):
        r = super().on_call(eng, st, ins, q, f, args)
        callee = next((x for x in M['n'].roots if x.name == f), None) if 'n' in M else None
        if callee is not None:
            for k, a in enumerate(callee.args):
                if (a.get('name') or '').endswith('.coerce0') and is_span(dt(callee, k)): self.view_ok(eng, st, ins, eng.as_ptr(args[k]), eng.as_int(args[k + 1], 64), 'view handed to the reader', side='in')
        elif r is None and not eng.silent and (eng.model(q) is None or (re.match(r'std::(copy|copy_n|fill|fill_n)$', q or '') and not stdmodels.range_copy(eng, ins))) and not re.search(STAGE, q or '') and not (f and f in self.sections):
            ps = [v for v in args if v[0] == 'p' and v[1][0] == 'bytes']
            if ps and not re.search(r'DecompressChunk$|EncodingInfoFromYAML$|::FieldDecoder', q or ''): self.leaks[(ins['b'], ins['k'])] = (q, eng.fn.locfn(ins))
        return r
    leaks = {}
class Pipe(Views):
    def on_call(self, eng, st, ins, q, f, args):
        if re.search(STAGE, q or ''):
            callee = next((x for x in self.mod.roots if x.name == f), None)
            if callee is not None:
                pos = [k for k, a in enumerate(callee.args) if a['t'] == 'i64' and 'coerce' not in (a.get('name') or '')]
                span = [k for k, a in enumerate(callee.args) if (a.get('name') or '').endswith('.coerce0')]
                ps = self.point_step(eng, st)
                same = lambda x, y: x == y or (entails(st.cons, sub(x, y)) and entails(st.cons, sub(y, x)))
                if not any('EncodingInfo' in d for _, d, _ in params(callee)):
                    k = M['stride'].get(callee.name)
                    v = eng.as_int(args[pos[k or 0]], 64)
                    eng.obligation(ins, 'point step', same(v, ps), 'stride handed to the stage decoder is %s, the point step is %s' % (lin.show(v), lin.show(ps)))
                else:
                    n = eng.as_int(args[pos[-1]], 64)
                    eng.obligation(ins, 'count', entails(st.cons, sub(const(1 << 32), n)), 'number of points handed to the stage decoder is not bounded by 2^32', None, 'count')
                for k in span:
                    self.view_ok(eng, st, ins, eng.as_ptr(args[k]), eng.as_int(args[k + 1], 64), 'view handed to the stage decoder (%d)' % k, side='in' if 'const' in dt(callee, k) else 'out')
                for k, (a, d, part) in enumerate(params(callee)):
                    if part is None and a['t'] == 'ptr' and is_span(d) and d.endswith('&'):
                        v = eng.as_ptr(args[k])
                        dd = eng.load(st, v[1], v[2], 8, 'ptr'); nn = eng.load(st, v[1], addc(v[2], 8), 8, 'i64', 64)
                        self.view_ok(eng, st, ins, eng.as_ptr(dd), eng.as_int(nn, 64), 'view handed to the stage decoder (%s)' % k, side='in' if 'const' in d else 'out')
                for k, (a, d, part) in enumerate(params(callee)):
                    if part is None and a['t'] == 'ptr' and is_span(d) and d.endswith('&'):
                        v = eng.as_ptr(args[k]); self.consume(eng, st, (v[1], v[2]), ('stage', ins['b'], ins['k'], k))
                return ('states', [(st, None)])
            else: eng.obligation(ins, 'count', False, 'callee %s is not analysed' % q)
        if re.search(r'DecompressChunk$', q or ''):
            callee = next((x for x in self.mod.roots if x.name == f), None)
            for k, (a, d, part) in enumerate(params(callee) if callee else ()):
                if part == 0 and is_span(d): self.view_ok(eng, st, ins, eng.as_ptr(args[k]), eng.as_int(args[k + 1], 64), 'view handed to DecompressChunk', side='in')
            at = (ins['b'], ins['k'], eng.iterid)
            if ('bytes', 'decompressed', at) in st.ext: at += (eng.bumpserial(),)
            b = ('bytes', 'decompressed', at); n = var(A.get(('decompressed size', at), hi=U(62))); st.ext[b] = n
            return ('val', ('agg', (((0,), P(b)), ((1,), I(n)))))       # DecompressChunk returns a valid view (shown for its own returns)
        return super().on_call(eng, st, ins, q, f, args)

class Rec:
    """one obligation, picklable"""
    __slots__ = ('unit', 'kind', 'loc', 'fn', 'ok', 'why', 'base', 'n')
    def __init__(self, unit, o):
        self.unit = unit; self.kind = o.kind; self.loc = o.loc; self.fn = o.fn; self.ok = o.ok; self.why = o.why; self.n = o.n
        self.base = lin.name(o.base) if o.base is not None else ''

class Out:
    def __init__(self, unit): self.unit = unit; self.recs = []; self.err = None; self.unknown = []; self.opaque = {}; self.virtual = []; self.leaks = []; self.indirect = []; self.rets = 0; self.loops = 0; self.time = 0
    def take(self, e, h=None):
        self.recs += [Rec(self.unit, o) for o in e.obs.values()]
        for u in e.unknown_access.values(): self.unknown.append(tuple(str(x) for x in u) if isinstance(u, tuple) else (str(u),))
        for k, v in e.opaque_calls.items(): self.opaque[k] = self.opaque.get(k, 0) + v
        if h is not None:
            self.virtual += list(h.virtual.values()); self.leaks += list(h.leaks.values()); self.indirect += h.calls.get('indirect', [])
        self.rets += sum(1 for o in e.outcomes if o[0] == 'ret'); self.loops += len(e.loopinfo)
        return self

STAGE = r'::Decode(V4|V5)Stage1Chunk$'
M = {}
def load():
    if M: return M
    i0 = build.module('core', [])
    sd = memsafe.section_decoders(i0); M['sections'] = sd
    names = [e for e in i0.index if e[0] in sd]
    NI = memsafe.NOINLINE_STD + [r'BuildV.Decoders$', r'EncodingInfoFromYAML$', STAGE, r'DecompressChunk$'] + ['^' + re.escape(e[1]) + '$' for e in names]
    M['m'] = build.module('core', [r'^Cloudini::detail::Decode(V4|V5)Stage1Chunk\(', r'^Cloudini::PointcloudDecoder::decode', r'^Cloudini::DecodeHeader\(', r'DecompressChunk\(']
                          + ['^' + re.escape(e[2]) + '$' for e in names], noinline=NI)
    M['c'] = build.module('core', [r'^Cloudini::FieldDecoder\w*(<.*>)?::(decode|reset)\(', r'^Cloudini::detail::BuildV.Decoders'] + [r'getV5AdaptiveFields'])
    return M

# ---------------------------------------------------------------- functions of the pipeline
def unit_fn(full, stride=0):
    m = M['m']; sd = M['sections']; fn = next(f for f in m.roots if f.full == full); t = time.time()
    out = Out(fn.q)
    psoff = members(m, 'Cloudini::EncodingInfo')['point_step'][1]
    st = St(); h = Pipe(m); h.leaks = {}; h.adaptive = memsafe.adaptive_layout(m); h.sections = sd
    h.point_step = lambda eng, st: eng.load(st, ('arg', 'info'), const(psoff), 4, 'i32', 32)[1]
    views = setup(m, fn, st, h)
    counts = [st.env[a['i']][1] for a in fn.args if a['t'] == 'i64' and 'coerce' not in (a.get('name') or '') and not a.get('sret')]
    if fn.name in sd:
        inp, outp, ints = sd[fn.name]
        h.adaptive_arg = st.env[fn.args[0]['i']][1]; step = st.env[fn.args[ints[0]]['i']][1]
        X = lin.mul(step, st.env[fn.args[ints[1]]['i']][1]); st.ext[st.env[fn.args[outp]['i']][1]] = X; st.addc(sub(const(1 << 62), X))
        h.point_step = lambda eng, st: step
    elif re.search(STAGE, fn.q) and not any('EncodingInfo' in d for _, d, _ in params(fn)):
        h.point_step = lambda eng, st: counts[stride]   # checked at the call sites
    if fn.name in sd or (re.search(STAGE, fn.q) and any('EncodingInfo' in d for _, d, _ in params(fn))):
        for c in counts: st.addc(sub(const(1 << 32), c))
    e = Eng(fn, hooks=h, models=[], time_limit=400)
    e.given = [a for c in counts for a, _ in c[1]]
    try: e.run(st)
    except Unsupported as ex: out.err = str(ex)
    out.take(e, h); out.time = time.time() - t
    for nm, key in views:                # a view that is passed by reference is consumed from the front
        if key is None: continue
        d = next(d for a, d, part in params(fn) if a.get('name') == nm)
        for o in e.outcomes:
            if o[0] != 'ret': continue
            dd, nn = memsafe.span_cells(o[1], key); old = var(A.get(('len', nm), hi=U(62)))
            ok = dd is not None and nn is not None and dd[0] == 'p' and dd[1] == ('bytes', nm) and nn[0] == 'i' and entails(o[1].cons, dd[2]) and entails(o[1].cons, nn[1]) \
                and entails(o[1].cons, sub(sub(old, dd[2]), nn[1])) and entails(o[1].cons, sub(add(dd[2], nn[1]), old))
            r = Rec.__new__(Rec); r.unit = out.unit; r.kind = 'invariant' if 'const' in d else 'invariant out'; r.loc = fn.locfn(o[2])[0] if o[2] else ''; r.fn = fn.q; r.ok = ok; r.base = ''; r.n = 1
            r.why = None if ok else '%s is not the rest of the view it was: %s' % (nm, [(x[0], lin.name(x[1]) if x[0] == 'p' else lin.show(x[1]), lin.show(x[2]) if x[0] == 'p' else '') if x else None for x in (dd, nn)])
            out.recs.append(r)
    if re.search(r'DecompressChunk$', fn.q):
        for o in e.outcomes:
            if o[0] != 'ret': continue
            d = dict(o[3][1]) if o[3] and o[3][0] == 'agg' else {}
            d = {(k[0] if isinstance(k, tuple) else k): v for k, v in d.items()}
            pv, nv = d.get(0), d.get(1); ext = e.getext(o[1], pv[1]) if pv and pv[0] == 'p' else None
            ok = ext is not None and nv is not None and nv[0] == 'i' and entails(o[1].cons, pv[2]) and entails(o[1].cons, sub(sub(ext, pv[2]), nv[1]))
            r = Rec.__new__(Rec); r.unit = out.unit; r.kind = 'result'; r.loc = fn.locfn(o[2])[0] if o[2] else ''; r.fn = fn.q; r.ok = ok; r.base = ''; r.n = 1
            r.why = None if ok else 'the returned view has %s bytes of %s' % (lin.show(nv[1]) if nv and nv[0] == 'i' else '?', lin.show(ext) if ext is not None else 'an unknown buffer')
            out.recs.append(r)
    return out

# ---------------------------------------------------------------- field decoders
def configs():
    out = []
    for ver in (3, 4, 5):
        for opt in (0, 1, 2):
            for ty in range(1, 11):
                for has in ((0, 1) if ty in (7, 8) else (0,)): out.append(cfactory.Config([(ty, has)], opt, ver))
            for n in (2, 3, 4, 5): out.append(cfactory.Config([(7, 1)] * n, opt, ver))
    return out

def decoder_objects():
    m = M['c']; enc, dec, plan, adap, uses = cfactory.factory_roots(m)
    seen = {}; built = 0
    for cfg in configs():
        for f in dec:
            if ('V5' in f.q) != (cfg.version >= 5): continue
            try: sts, eng, _ = cfactory.run_fn(m, f, cfg)
            except Unsupported: continue
            for s in sts:
                for cl, cells in cfactory.objects(m, eng, s, (('arg', 'codecs'), ZERO)) or []:
                    built += 1
                    if cl is None: seen.setdefault((None, f.q, str(cfg.key())), None); continue
                    offs = {}; cc = []
                    for o, (sz, v) in sorted(cells.items()):
                        if v[0] == 'i':
                            ix = [A.keys[a][1] for a, _ in v[1][1] if isinstance(A.keys[a], tuple) and A.keys[a][0] == 'field offset']
                            if len(ix) == 1 and v[1] == var(off_of(ix[0])): offs[o] = WIDTH[cfg.fields[ix[0]][0]]; cc.append((o, sz, 'off', offs[o])); continue
                            if is_const(v[1]): cc.append((o, sz, 'const', v[1][0])); continue
                        cc.append((o, sz, 'any', None))
                    seen.setdefault((cl, tuple(cc)), (f.q, str(cfg.key())))
    return seen, built
def off_of(i): return cfactory.off_atom(i)

def unit_decoder(cl, cc, origin):
    m = M['c']; t = time.time()
    short = re.sub(r'^N8Cloudini\d+', '', cl)
    out = Out('%s built by %s' % (pretty(m, cl), origin[0].split('::')[-1]))
    slots = memsafe.vslots(m)['FieldDecoder']
    so = {v: k for k, v in slots.items()}
    vt = m.vtables.get('_ZTV' + cl) or []
    def meth(n):
        i = so.get(n)
        f = vt[2 + i // 8] if i is not None and 2 + i // 8 < len(vt) else None
        return next((x for x in m.roots if x.name == f), None)
    dec, rst = meth('decode'), meth('reset')
    if dec is None: out.err = 'decode() of %s was not found' % cl; return out
    stored = set()
    def attempt(case, fn):
        st = St(); h = Views(m); h.leaks = {}; setup(m, fn, st, h)
        this = ('arg', 'this'); st.ext[this] = const(1 << 16)
        PS = var(A.get(('point_step',), hi=U(32)))
        for a, d, part in params(fn):
            if part == 1 and is_span(d): st.ext[('bytes', a['name'].split('.')[0])] = PS; st.env[a['i']] = I(PS)
        k = 0; lossoff = []
        for o, sz, kind, v in cc:
            if any(o < so_ + ss and so_ < o + sz for so_, ss in stored): continue
            if kind == 'const': st.mem[(this, const(o))] = (sz, I(const(v)))
            elif kind == 'off':
                a = var(off_of(k))
                if case[k]: st.mem[(this, const(o))] = (sz, I(const(SKIP)))
                else: st.mem[(this, const(o))] = (sz, I(a)); st.addc(sub(sub(PS, a), const(v)))
                k += 1
        e = Eng(fn, hooks=h, models=[], time_limit=200, unroll=40)
        e.run(st)
        return e, h
    noff = sum(1 for x in cc if x[2] == 'off')
    try:
        while True:                      # members written by decode()/reset() have any value at the start of decode()
            new = set()
            for fn in [dec] + ([rst] if rst else []):
                e, h = attempt((0,) * noff, fn)
                for o, sz in h.stores.items(): new.add((o, sz or 8) if isinstance(o, int) else (0, 1 << 16))
            if new <= stored: break
            stored |= new
        if any(x[2] == 'off' and any(x[0] < o + s and o < x[0] + x[1] for o, s in stored) for x in cc): out.err = 'the offset of the field is modified by decode() or reset()'
        for case in itertools.product((0, 1), repeat=noff):
            e, h = attempt(case, dec); out.take(e, h)
    except Unsupported as ex: out.err = str(ex)
    out.time = time.time() - t
    return out

def pretty(m, cl):
    for e in m.index:
        if e[0].startswith('_ZN') and e[0][3:].startswith(cl.lstrip('N').rstrip('E')): return e[1].rsplit('::', 1)[0]
    return cl

# ---------------------------------------------------------------- layout is validated before anything is decoded
def unit_adaptive():
    """elements of the list of adaptive fields: offset and width of the field they stand for"""
    m = M['c']; out = Out('list of adaptive fields'); lay = memsafe.adaptive_layout(m)
    fns = cfactory.factory_roots(m)[3]
    if not fns or not lay: out.err = 'no function returns the adaptive fields'; return out
    size, oo, bo = lay
    for fn in fns:
        for t in range(1, 11):
            for u in (None, 5):
                cfg = cfactory.Config([(t, 0)] + ([(u, 0)] if u else []), 2, 5)
                try: sts, eng, _ = cfactory.run_fn(m, fn, cfg)
                except Unsupported as ex: out.err = str(ex); return out
                for s in sts:
                    o = s.objs.get((('arg', 'ret'), ZERO))
                    bad = None if o is not None and is_const(o[2]) and o[3] == size else 'the list is not known'
                    for i in range(o[2][0] if bad is None else 0):
                        a = s.mem.get((o[1], const(size * i + oo))); b = s.mem.get((o[1], const(size * i + bo)))
                        ok = a and b and a[1][0] == 'i' and b[1][0] == 'i' and is_const(b[1][1]) and any(a[1][1] == var(off_of(j)) and b[1][1][0] == WIDTH[cfg.fields[j][0]] for j in range(len(cfg.fields)))
                        if not ok: bad = 'element %d: offset %s, width %s' % (i, lin.show(a[1][1]) if a and a[1][0] == 'i' else '?', lin.show(b[1][1]) if b and b[1][0] == 'i' else '?')
                        elif not 2 <= b[1][1][0] <= 8: bad = 'element %d has width %d' % (i, b[1][1][0])
                    r = Rec.__new__(Rec); r.unit = out.unit; r.kind = 'adaptive'; r.loc = fn.q; r.fn = '%s(%s)' % (fn.q.split('::')[-1], ','.join(str(x) for x, _ in cfg.fields)); r.ok = bad is None; r.why = bad; r.base = ''; r.n = 1
                    out.recs.append(r); out.rets += 1
    return out

class Layout(Mem):
    def __init__(self, mod, cfg): super().__init__(mod); self.cfg = cfg; self.sites = {}
    def on_call(self, eng, st, ins, q, f, args):
        if re.search(STAGE, q or '') and not eng.silent:
            ps = var(A.get(('info', 'point_step'), hi=U(32)))
            i = self.case; o = var(off_of(i)); ty = self.cfg.fields[i][0]
            bad = None if entails(st.cons, sub(sub(ps, o), const(WIDTH[ty]))) or lin.infeasible(st.cons, [o, ps]) else 'a field of type %d may lie outside the point' % ty
            loc, fn = eng.fn.locfn(ins)
            k = (loc, fn); self.sites[k] = self.sites.get(k) or bad
        return None

def unit_layout(full, cfg):
    m = M['m']; fn = next(f for f in m.roots if f.full == full)
    out = Out('%s, field types %s' % (fn.q, ','.join(str(t) for t, _ in cfg.fields)))
    out.sites = {}
    for i in range(len(cfg.fields)):           # field i has a real offset, the others any
        st = St(); h = Layout(m, cfg); h.leaks = {}; h.case = i; h.sites = out.sites; setup(m, fn, st, h)
        st.addc(sub(const(SKIP - 1), var(off_of(i))))
        for a, d, part in params(fn):
            if 'EncodingInfo' in d and a.get('name') != 'this' and a['t'] == 'ptr': cfactory.put_info(m, st, ('arg', a['name']), cfg)
        e = Eng(fn, hooks=h, models=[(re.compile(r'^Cloudini::EncodingInfo::EncodingInfo$'), cfactory.copy_info(cfg))], time_limit=300, unroll=8)
        try: e.run(st)
        except Unsupported as ex: out.err = str(ex)
    return out

def run(which=('fn', 'dec', 'layout')):
    load(); jobs = []; M['stride'] = {}; ready = []
    if 'fn' in which:
        lambdas = lambda f: re.search(r'::\{lambda|\$_\d|operator\(\)', f.full)
        todo = [f for f in M['m'].roots if not lambdas(f) and not re.search(r'PointcloudDecoder::(?!decode$)', f.q)]
        free = [f for f in todo if re.search(STAGE, f.q) and not any('EncodingInfo' in d for _, d, _ in params(f))]
        for f in free:                    # which of its numbers is the point step?  (the call sites are checked against the answer)
            n = sum(1 for a in f.args if a['t'] == 'i64' and 'coerce' not in (a.get('name') or ''))
            tries = par.run([(lambda k=k: unit_fn(f.full, k)) for k in range(n)])
            k = min(range(n), key=lambda k: (tries[k].err is not None, sum(not r.ok for r in tries[k].recs)))
            M['stride'][f.name] = k; ready.append(('fn', tries[k]))
        jobs.append(lambda: ('adapt', unit_adaptive()))
        jobs += [(lambda f=f.full: ('fn', unit_fn(f))) for f in todo if f not in free]
    if 'layout' in which:
        cfgs = [cfactory.Config([(t, 0)], 2, v) for t in range(1, 11) for v in (4, 5)] + [cfactory.Config([(t, 0), (u, 0)], 2, 5) for t, u in ((7, 8), (10, 1))]
        jobs += [(lambda f=f.full, c=c: ('layout', unit_layout(f, c))) for f in M['m'].roots if re.search(r'PointcloudDecoder::decode$', f.q) for c in cfgs]
    objs, built = {}, 0
    if 'dec' in which:
        objs, built = decoder_objects()
        jobs += [(lambda k=k, v=v: ('dec', unit_decoder(k[0], k[1], v))) for k, v in objs.items() if v is not None]
    return ready + par.run(jobs), objs, built

# ---------------------------------------------------------------- CDR reader: its buffer member is always a valid view of the message
def load_cdr():
    if 'n' in M: return
    M['n'] = build.module('core', [r'nanocdr::Decoder::'])
    M['nd'] = build.module('core', [r'^cloudini_ros::getDeserializedPointCloudMessage\('], noinline=memsafe.NOINLINE_STD + [r'^nanocdr::Decoder::'])

def unit_cdr(full):
    m = M['n']; fn = next(f for f in m.roots if f.full == full); t = time.time()
    out = Out('nanocdr::Decoder: ' + full.split('nanocdr::')[-1])
    ty = members(m, 'nanocdr::Decoder')
    bo = next((x[1] for x in ty.values() if is_span(x[3])), None); og = [x[1] for x in ty.values() if x[3].endswith('*')]
    if bo is None: out.err = 'nanocdr::Decoder has no view member'; return out
    ctor = fn.q.endswith('::Decoder'); const_ = full.endswith(' const')
    st = St(); h = Views(m); h.leaks = {}; views = setup(m, fn, st, h)
    this = ('arg', 'this'); st.ext[this] = const(m.type('nanocdr::Decoder')['size'])
    base = ('bytes', 'this buffer')
    if not ctor:
        d = var(A.get(('cursor',), hi=U(62))); n = var(A.get(('left',), hi=U(62)))
        st.mem[(this, const(bo))] = (8, P(base, d)); st.mem[(this, const(bo + 8))] = (8, I(n)); st.ext[base] = add(d, n)
        for o in og: st.mem[(this, const(o))] = (8, P(base, var(A.get(('origin', o), hi=U(62)))))
    for a, dt, part in params(fn):
        if part is None and a['t'] == 'ptr' and a.get('name') != 'this' and not is_span(dt):
            w = {'int': 4, 'unsigned int': 4, 'float': 4, 'unsigned char': 1, 'signed char': 1, 'char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2}.get((dt or '').rstrip('&').strip(), 8)
            if 'basic_string' in (dt or ''): continue
            st.ext[('arg', a['name'])] = const(w)
    e = Eng(fn, hooks=h, models=[], time_limit=200)
    try: e.run(st)
    except Unsupported as ex: out.err = str(ex)
    out.take(e, h)
    def check(s, key, what):
        dd, nn = memsafe.span_cells(s, key[0], const(key[1]))
        ok = dd is not None and nn is not None and dd[0] == 'p' and nn[0] == 'i' and e.getext(s, dd[1]) is not None
        if ok:
            ok = entails(s.cons, dd[2]) and entails(s.cons, sub(sub(e.getext(s, dd[1]), dd[2]), nn[1]))
            why = '%s: offset %s, size %s, of %s bytes' % (what, lin.show(dd[2]), lin.show(nn[1]), lin.show(e.getext(s, dd[1])))
        else: why = '%s is not a view of the message any more' % what
        r = Rec.__new__(Rec); r.unit = out.unit; r.kind = 'invariant'; r.loc = '%s:%s' % (fn.file, fn.line) if hasattr(fn, 'file') else full; r.fn = fn.q; r.ok = ok; r.why = None if ok else why; r.base = ''; r.n = 1
        out.recs.append(r)
    for o in e.outcomes:
        if o[0] != 'ret' or const_: continue
        check(o[1], (this, bo), 'buffer of the reader after %s' % full.split('nanocdr::')[-1])
        for a, dt, part in params(fn):
            if part is None and is_span(dt) and dt.endswith('&'): check(o[1], (('arg', a['name']), 0), 'the view returned in %s' % a['name'])
    out.time = time.time() - t
    return out

def unit_msg(full):
    m = M['nd']; fn = next(f for f in m.roots if f.full == full); t = time.time()
    out = Out(fn.q); st = St(); h = Views(m); h.leaks = {}; setup(m, fn, st, h); e = Eng(fn, hooks=h, models=[], time_limit=200)
    try: e.run(st)
    except Unsupported as ex: out.err = str(ex)
    out.time = time.time() - t
    return out.take(e, h)

def run_cdr():
    load_cdr()
    used = {i.get('f') for f in M['nd'].roots for b in f.blocks for i in b if i['o'] in ('call', 'invoke')}      # helpers that only the reader itself uses have no contract
    return par.run([(lambda f=f.full: ('cdr', unit_cdr(f))) for f in M['n'].roots if f.name in used] + [(lambda f=f.full: ('msg', unit_msg(f))) for f in M['nd'].roots])
