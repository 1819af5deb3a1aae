"""Encoding side: what a field encoder reads of the point and how many bytes it emits, per object the factories build."""
import re, time, itertools
import lin, build, memsafe, cfactory, par
from lin import A, const, var, add, sub, addc, entails, is_const, ZERO
from absint import Eng, St, P, I, U, T, Unsupported
from memsafe import setup, WIDTH, is_span, params, members
from decmem import Views, Out, Rec, configs, off_of, pretty

M = {}
def varint_writers(i0):
    """functions (integer, byte pointer) -> integer: writers of one number"""
    out = []
    for mg, q, full in (x[:3] for x in i0.index):
        m = re.search(r'\((.*)\)$', full)
        if m and re.fullmatch(r'(unsigned )?(long|int), unsigned char\*', m.group(1)) and q.startswith('Cloudini::'): out.append((mg, q, full))
    return out
def load():
    if M: return M
    i0 = build.module('core', [])
    M['vw'] = varint_writers(i0)
    NI = ['^' + re.escape(q) + '$' for q in sorted({x[1] for x in M['vw']})]
    M['c'] = build.module('core', [r'^Cloudini::FieldEncoder\w*(<.*>)?::(encode|reset|flush)\(', r'^Cloudini::detail::Build', r'buildV5Plan', r'MaxSerializedFieldSize\(', r'MaxSerializedPointSize\('], noinline=NI)
    M['w'] = build.module('core', ['^' + re.escape(x[2]) + '$' for x in M['vw']])
    return M

def mk(unit, kind, loc, fn, ok, why):
    r = Rec.__new__(Rec); r.unit = unit; r.kind = kind; r.loc = loc; r.fn = fn; r.ok = ok; r.why = why; r.base = ''; r.n = 1
    return r

# ---------------------------------------------------------------- writers of one number: how many bytes at most
def unit_varint(full):
    m = M['w']; fn = next(f for f in m.roots if f.full == full); out = Out(fn.q); t = time.time()
    out.limit = None
    for limit in (5, 10, 11, 12, 16, 32):
        st = St(); h = Views(m); h.leaks = {}; setup(m, fn, st, h)
        for a in fn.args:
            if a['t'] == 'ptr': st.ext[st.env[a['i']][1]] = const(limit)
            elif a['t'] == 'i64': st.env[a['i']] = I(var(A.get(('signed', a['i']), lo=-(1 << 63), hi=(1 << 63) - 1)))
        e = Eng(fn, hooks=h, models=[], time_limit=60, unroll=40)
        try: e.run(st)
        except Unsupported as ex: out.err = str(ex); return out
        rets = [o for o in e.outcomes if o[0] == 'ret']
        ok = all(o.ok for o in e.obs.values()) and rets and all(o[3][0] == 'i' and entails(o[1].cons, sub(const(limit), o[3][1])) and entails(o[1].cons, addc(o[3][1], -1)) for o in rets)
        if ok: out.limit = limit; break
    out.rets = len(rets); out.time = time.time() - t
    return out

# ---------------------------------------------------------------- the declared bound
def declared(cfg):
    """[bound of field i] or None when the configuration is refused"""
    m = M['c']; fn = next(f for f in m.roots if f.q.endswith('::MaxSerializedFieldSize')); out = []
    psz = m.type('Cloudini::PointField')['size']
    for i in range(len(cfg.fields)):
        st = St(); e = Eng(fn, unroll=8, models=[], time_limit=60)
        st0 = St(); cfactory.put_info(m, st, ('arg', 'info'), cfg)
        db = next(o[1] for o in st.objs.values() if o[0] == 'vec')
        for a, d, part in params(fn):
            if 'PointField' in d: st.env[a['i']] = P(db, const(psz * i))
            elif a['t'].startswith('i'): st.env[a['i']] = I(const(cfg.opt))
            else: return None
        e.run(st)
        r = {o[3][1][0] if o[3][0] == 'i' and is_const(o[3][1]) else None for o in e.outcomes if o[0] == 'ret'}
        if len(r) != 1 or None in r: return None
        out.append(r.pop())
    return out

def unit_total(cfg):
    """MaxSerializedPointSize is the sum over the fields"""
    m = M['c']; fn = next(f for f in m.roots if f.q.endswith('::MaxSerializedPointSize')); out = Out(fn.q)
    b = declared(cfg)
    try: sts, e, vals = cfactory.run_fn(m, fn, cfg)
    except Unsupported as ex: out.err = str(ex); return out
    out.rets = len(sts)
    for v in vals:
        ok = b is not None and v[0] == 'i' and is_const(v[1]) and v[1][0] >= sum(b)
        out.recs.append(mk(out.unit, 'sum', fn.q, ','.join('%d%s' % (t, 'r' if h else '') for t, h in cfg.fields) + ' option %d' % cfg.opt, ok, 'bound of a point is %s, its fields need %s' % (lin.show(v[1]) if v[0] == 'i' else '?', b)))
    return out

# ---------------------------------------------------------------- encoder objects
def encoder_objects():
    m = M['c']; enc, dec, plan, adap, uses = cfactory.factory_roots(m)
    seen = {}; built = 0; missing = []
    for cfg in configs():
        for f in enc + plan:
            v5 = 'V5' in f.q
            if v5 != (cfg.version >= 5): continue
            try: sts, eng, _ = cfactory.run_fn(m, f, cfg)
            except Unsupported: continue
            bounds = None
            for s in sts:
                objs = cfactory.objects(m, eng, s, (('arg', 'ret' if v5 else 'codecs'), ZERO))
                if objs is None: missing.append((f.q, str(cfg.key()))); continue
                for cl, cells in objs:
                    built += 1
                    if bounds is None: bounds = declared(cfg) or [0] * len(cfg.fields)
                    cc = []; idx = []
                    for o, (sz, v) in sorted(cells.items()):
                        if v[0] == 'i':
                            ix = [A.keys[a][1] for a, _ in v[1][1] if isinstance(A.keys[a], tuple) and A.keys[a][0] == 'field offset']
                            if len(ix) == 1 and v[1] == var(off_of(ix[0])): idx.append(ix[0]); cc.append((o, sz, 'off', WIDTH[cfg.fields[ix[0]][0]])); continue
                            if is_const(v[1]): cc.append((o, sz, 'const', v[1][0])); continue
                        cc.append((o, sz, 'any', None))
                    seen.setdefault((cl, tuple(cc), sum(bounds[i] for i in set(idx))), (f.q, 'fields=%s option=%d version=%d' % (','.join('%d%s' % (t, 'r' if h else '') for t, h in cfg.fields), cfg.opt, cfg.version)))
    return seen, built, missing

class EncHooks(Views):
    limits = {}
    def on_call(self, eng, st, ins, q, f, args):
        lim = self.limits.get(f)
        if lim is not None:
            pv = next(eng.as_ptr(a) for a in args if a[0] == 'p')
            n = var(A.get(('bytes of one number', eng.bumpserial()), lo=1, hi=lim))
            e = eng.getext(st, pv[1])
            if not eng.silent:
                ok = e is not None and entails(st.cons, pv[2]) and entails(st.cons, sub(sub(e, pv[2]), const(lim)))
                eng.obligation(ins, 'write', ok, 'a number of up to %d bytes is written at offset %s of %s bytes' % (lim, lin.show(pv[2]), lin.show(e) if e is not None else '?'), pv[1])
            return ('val', I(n))
        return super().on_call(eng, st, ins, q, f, args)

def unit_encoder(cl, cc, bound, origin):
    m = M['c']; t = time.time()
    out = Out('%s built by %s' % (pretty(m, cl), origin[0].split('::')[-1])); out.bound = bound
    so = {v: k for k, v in memsafe.vslots(m)['FieldEncoder'].items()}
    vt = m.vtables.get('_ZTV' + cl) or []
    def meth(n):
        i = so.get(n); f = vt[2 + i // 8] if i is not None and 2 + i // 8 < len(vt) else None
        return next((x for x in m.roots if x.name == f), None)
    fns = {n: meth(n) for n in ('encode', 'reset', 'flush')}
    if fns['encode'] is None: out.err = 'encode() of %s was not found' % cl; return out
    wide = set(); fixed = {}
    this = ('arg', 'this'); PS = var(A.get(('point_step',), hi=U(32)))
    def attempt(fn, cap):
        st = St(); h = EncHooks(m); h.leaks = {}; setup(m, fn, st, h); st.ext[this] = const(1 << 16)
        for a, d, part in params(fn):
            if a['t'] == 'ptr' and is_span(d):
                nm = ('arg', a['name']); b = ('bytes', a['name'])
                n = PS if 'const' in d else const(cap)
                st.mem[(nm, ZERO)] = (8, P(b)); st.mem[(nm, const(8))] = (8, I(n)); st.ext[b] = n; st.ext[nm] = const(16)
        k = 0
        for o, sz, kind, v in cc:
            if kind == 'off': a = var(off_of(k)); st.addc(sub(sub(PS, a), const(v))); k += 1
            if (o, sz) in wide: continue
            if kind == 'const': st.mem[(this, const(o))] = (sz, I(const(v)))
            elif kind == 'off': st.mem[(this, const(o))] = (sz, I(a))
        e = Eng(fn, hooks=h, models=[], time_limit=200, unroll=40, maxst=4096)
        e.run(st)
        return e, h
    try:
        while True:         # a member keeps its initial value only if encode(), flush() and reset() leave it so
            new = set()
            for n, fn in fns.items():
                if fn is None: continue
                e, h = attempt(fn, bound if n == 'encode' else bound)
                for o in e.outcomes:
                    if o[0] != 'ret': continue
                    for off, sz, kind, v in cc:
                        if (off, sz) in wide: continue
                        c = o[1].mem.get((this, const(off)))
                        same = kind != 'const' or (c is not None and c[0] == sz and c[1][0] == 'i' and entails(o[1].cons, addc(c[1][1], -v)) and entails(o[1].cons, sub(const(v), c[1][1])))
                        if not same: new.add((off, sz))
                for off in h.stores:
                    for o2, sz, kind, v in cc:
                        if kind == 'off' and (not isinstance(off, int) or o2 <= off < o2 + sz): out.err = 'the offset of the field is modified by %s()' % n
            if not new - wide: break
            wide |= new
        out.members = sorted(o for o, s in wide)
        for n in ('encode', 'flush'):
            if fns[n] is None: continue
            e, h = attempt(fns[n], bound if n == 'encode' else 0); out.take(e, h)
            for o in e.outcomes:
                if o[0] != 'ret': continue
                key = next(('arg', a['name']) for a, d, part in params(fns[n]) if a['t'] == 'ptr' and is_span(d) and 'const' not in d)
                dd, nn = memsafe.span_cells(o[1], key); cap = bound if n == 'encode' else 0
                ok = dd is not None and dd[0] == 'p' and nn[0] == 'i' and entails(o[1].cons, dd[2]) and entails(o[1].cons, nn[1]) and lin.normal(add(dd[2], nn[1])) == lin.normal(const(cap)) 
                out.recs.append(mk(out.unit, 'rest', fns[n].locfn(o[2])[0] if o[2] else '', fns[n].q, ok, 'the output left by %s() is not the rest of the output' % n))
                r = o[3]; ok = r is not None and r[0] == 'i' and (r[1] == dd[2] or (entails(o[1].cons, sub(r[1], dd[2])) and entails(o[1].cons, sub(dd[2], r[1])))) if dd else False
                out.recs.append(mk(out.unit, 'returned', fns[n].locfn(o[2])[0] if o[2] else '', fns[n].q, ok, '%s() returns %s after writing %s bytes' % (n, lin.show(r[1]) if r and r[0] == 'i' else '?', lin.show(dd[2]) if dd else '?')))
    except Unsupported as ex: out.err = str(ex)
    out.time = time.time() - t
    return out

def limits():
    load(); L = {}
    for (mg, q, full), o in zip(M['vw'], par.run([(lambda f=x[2]: unit_varint(f)) for x in M['vw']])): L[mg] = (q, o)
    return L

# ---------------------------------------------------------------- functions of the pipeline
STAGE = r'::Encode(V4|V5)Stage1(Chunk)?$'
def adaptive_names(i0):
    """functions that work on one adaptive field: mangled name -> (qualified, full, parameter types)"""
    out = {}
    for x in i0.index:
        m = re.search(r'\((.*)\)$', x[2])
        ps = [p.strip() for p in m.group(1).split(',')] if m else []
        if any(re.search(r'V5AdaptiveIntField( const)?&$', p) for p in ps): out[x[0]] = (x[1], x[2], ps)
    return out

def load_pipe():
    load()
    if 'm' in M: return
    i0 = build.module('core', []); M['ad'] = adaptive_names(i0)
    NI = memsafe.NOINLINE_STD + [STAGE, r'::MaxCompressedSize$', r'EncodingInfoToYAML$', r'::ComputeHeaderSize$', r'::WriteStage1Chunk$', r'::CompressChunk$', r'buildV5Plan$', r'BuildV4Encoders$',
          r'waitForCompressionComplete$', r'UsesV5Codec$', r'MaxSerializedPointSize$', r'^Cloudini::PointcloudEncoder::encode$'] + ['^' + re.escape(q) + '$' for q in sorted({x[1] for x in M['vw']} | {x[0] for x in M['ad'].values()})]
    M['m'] = build.module('core', [r'^Cloudini::detail::EncodeV4Stage1Chunk\(', r'^Cloudini::detail::EncodeV5Stage1\(', r'^Cloudini::PointcloudEncoder::(encode|PointcloudEncoder)\(', r'WriteStage1Chunk\(', r'detail::CompressChunk\('], noinline=NI)
    collectors = [v[1] for v in M['ad'].values() if 'unsigned char const*' in v[2]]
    M['col'] = build.module('core', ['^' + re.escape(x) + '$' for x in collectors] + [r'buildV5Plan'])
    M['collect'] = {k for k, v in M['ad'].items() if 'unsigned char const*' in v[2]}

class Stage(Views):
    """one stage of the encoder: every codec gets a whole point of the cloud"""
    S = None
    def point(self, eng, st, ins, ptr, n, need, what):
        if eng.silent: return
        self.view_ok(eng, st, ins, ptr, n, what, side='in')
        ok = entails(st.cons, sub(n, need)) or lin.infeasible(st.cons, [n, need])
        eng.obligation(ins, 'whole point', ok, None if ok else '%s has %s bytes, the point step is %s' % (what, lin.show(n), lin.show(need)), ptr[1], what)
    def virtual_encode(self, eng, st, ins, args):
        sp = eng.as_ptr(args[1]); d, n = memsafe.span_cells(st, sp[1], sp[2])
        ps = self.point_step(eng, st)
        if not eng.silent:
            if d is None or n is None or d[0] != 'p' or n[0] != 'i': eng.obligation(ins, 'whole point', False, 'the view of the point is unknown', None, 'point')
            else: self.point(eng, st, ins, d, n[1], ps, 'view of the point handed to a field encoder')
        sp = eng.as_ptr(args[2]); self.consume(eng, st, (sp[1], sp[2]), 'encode')
        return ('val', I(var(A.get(('returned by encode', eng.bumpserial()), hi=U(40)))))
    def virtual_flush(self, eng, st, ins, args):
        sp = eng.as_ptr(args[1]); self.consume(eng, st, (sp[1], sp[2]), 'flush')
        return ('val', I(var(A.get(('returned by flush', eng.bumpserial()), hi=U(40)))))
    def on_load(self, eng, st, ins, p, v):
        """an adaptive field of the plan was built from a field of a layout that was validated"""
        if not self.adaptive or ins['sz'] != 4: return
        size, oo, bo = self.adaptive; base, off = p[1], p[2]
        if not (off[0] % size == oo and all(c % size == 0 for _, c in off[1])) or base[0] in ('bytes', 'arg'): return
        b = eng.load(st, base, addc(off, bo - oo), 8, 'i64', 64)
        if v[0] != 'i' or b[0] != 'i': return
        st.addc(sub(sub(self.point_step(eng, st), v[1]), b[1])); st.addc(sub(const(8), b[1])); st.addc(addc(b[1], -2))
    def on_call(self, eng, st, ins, q, f, args):
        if f in M['ad']:
            ps = M['ad'][f][2]
            if f in M['collect'] and not eng.silent:
                fld = eng.as_ptr(args[next(i for i, p in enumerate(ps) if 'V5AdaptiveIntField' in p)]); v = eng.as_ptr(args[ps.index('unsigned char const*')])
                size, oo, bo = self.adaptive
                b = eng.load(st, fld[1], addc(fld[2], bo), 8, 'i64', 64)[1]
                self.view_ok(eng, st, ins, v, b, 'value of an adaptive field', side='in')
            for i, p in enumerate(ps):
                if is_span(p) and p.endswith('&'):
                    sp = eng.as_ptr(args[i]); self.consume(eng, st, (sp[1], sp[2]), ('adaptive', ins['b'], ins['k'], i))
            return ('states', [(st, None)])
        return super().on_call(eng, st, ins, q, f, args)
    def on_indirect(self, eng, st, ins, callee, args):
        r = super().on_indirect(eng, st, ins, callee, args)
        if r is NotImplemented and ins.get('t') == 'agg2':
            pass
        return r

def psoff(m): return members(m, 'Cloudini::EncodingInfo')['point_step'][1]
def counts_of(fn): return [a for a, d, part in params(fn) if part is None and a['t'] == 'i64']

def unit_stage(full, k=None):
    """k: index of the count such that count * point_step bytes of the cloud are there (checked at the call sites)"""
    m = M['m']; fn = next(f for f in m.roots if f.full == full); out = Out(fn.q); t = time.time()
    st = St(); h = Stage(m); h.leaks = {}; setup(m, fn, st, h); h.adaptive = memsafe.adaptive_layout(m)
    ps = var(A.get(('info', 'point_step'), lo=0, hi=U(32))); q = var(A.get(('points',), hi=U(32)))
    st.mem[(('arg', 'info'), const(psoff(m)))] = (4, I(ps)); st.addc(addc(ps, -1))
    h.point_step = lambda eng, st: eng.load(st, ('arg', 'info'), const(psoff(m)), 4, 'i32', 32)[1]
    N = lin.mul(ps, q); st.addc(sub(const(1 << 62), N)); cloud = None
    for a, d, part in params(fn):
        if is_span(d) and 'const' in d:
            nm = a['name'].split('.')[0]; cloud = nm; st.ext[('bytes', nm)] = N
            if part is None: st.mem[(('arg', nm), const(8))] = (8, I(N))
            elif part == 1: st.env[a['i']] = I(N)
    cs = counts_of(fn)
    for a in cs: st.addc(sub(const(1 << 32), st.env[a['i']][1]))
    if k is not None: st.env[cs[k]['i']] = I(q)
    if cloud is None: out.err = 'the cloud is not a parameter'; return out
    asked = [st.env[a['i']][1] for a in cs]
    e = Eng(fn, hooks=h, models=[], time_limit=200); e.given = [A.get(('points',))] + [a for c in cs for a, _ in st.env[c['i']][1][1]]
    try: e.run(st)
    except Unsupported as ex: out.err = str(ex)
    out.take(e, h); out.indirect = []
    for o in e.outcomes:                 # no more points than asked for are taken
        if o[0] != 'ret': continue
        c = next((a for a, d, part in params(fn) if part is None and a['t'] == 'ptr' and is_span(d) and 'const' in d), None)
        if c is None: continue
        dd, nn = memsafe.span_cells(o[1], ('arg', c['name']))
        ok = False
        if dd and dd[0] == 'p' and nn and nn[0] == 'i':
            ok = any(lin.entails_factor(o[1].cons, sub(lin.mul(ps, n), dd[2])) or entails(o[1].cons, sub(lin.mul(ps, n), dd[2])) for n in asked)
        out.recs.append(mk(out.unit, 'points taken', fn.locfn(o[2])[0] if o[2] else '', fn.q, ok, 'more points than the chunk holds may be taken: %s bytes' % (lin.show(dd[2]) if dd and dd[0] == 'p' else '?')))
    out.time = time.time() - t
    return out

def unit_collect(full, ty):
    """collecting a value of an adaptive field of this type reads only the bytes of the field"""
    m = M['col']; fn = next(f for f in m.roots if f.full == full); out = Out('%s, type %d' % (fn.q, ty)); t = time.time()
    lay = memsafe.adaptive_layout(m); tm = members(m, 'V5AdaptiveIntField')
    st = St(); h = EncHooks(m); h.leaks = {}; setup(m, fn, st, h)
    for a, d, part in params(fn):
        if 'V5AdaptiveIntField' in d:
            b = st.env[a['i']][1]; st.ext[b] = const(lay[0]); h.fieldbase = b
            st.mem[(b, const(tm['type'][1]))] = (tm['type'][2] if isinstance(tm['type'][2], int) and tm['type'][2] in (1, 2, 4) else 1, I(const(ty)))
            st.mem[(b, const(lay[2]))] = (8, I(const(WIDTH[ty])))
        elif a['t'] == 'ptr': st.ext[st.env[a['i']][1]] = const(WIDTH[ty]); src = st.env[a['i']][1]
    e = Eng(fn, hooks=h, models=[], time_limit=100, unroll=12)
    try: e.run(st)
    except Unsupported as ex: out.err = str(ex)
    out.take(e, h); out.time = time.time() - t
    out.recs = [r for r in out.recs if r.base == lin.name(src)]; out.opaque = {}
    return out

SYNC = re.compile(r'^std::(mutex|recursive_mutex|lock_guard|unique_lock|scoped_lock|condition_variable|condition_variable_any|thread|jthread|__exception_ptr|exception_ptr|atomic)\b|waitForCompressionComplete$|^std::(current|rethrow)_exception')
class Enc(Stage):
    """encode(): what is established before the first stage runs, and before anything is written to the caller's output"""
    def sync_result(self, eng, ins):
        if 'i' not in ins or ins.get('t') in (None, 'void'): return ('o', 'void')
        t = ins['t']
        return I(var(A.get(('sync', eng.bumpserial()), hi=U(int(t[1:]))))) if t.startswith('i') else ('o', ('sync', eng.bumpserial()))
    def on_call(self, eng, st, ins, q, f, args):
        if SYNC.search(q or ''):
            r = self.sync_result(eng, ins)
            return ('val', r)
        if re.search(r'^std::unique_ptr<.*>::swap$', q or '') and len(args) >= 2:
            a, b = eng.as_ptr(args[0]), eng.as_ptr(args[1])
            x = eng.load(st, a[1], a[2], 8, 'ptr'); y = eng.load(st, b[1], b[2], 8, 'ptr')
            eng.store(st, a[1], a[2], 8, y); eng.store(st, b[1], b[2], 8, x)
            return ('val', ('o', 'void'))
        if re.search(r'::MaxCompressedSize$', q or ''):
            M_ = var(A.get(('worst case', ins['b'], ins['k'], eng.iterid), hi=1 << 60)); self.worst.append(M_)
            st.mem[(('ghost', 'worst'), ZERO)] = (8, I(M_))
            if args and args[-1] in (I(const(1)), ('b', T), T):      # contract of MaxCompressedSize(.., include_header = true): the header is counted in addition
                Hc = var(A.get(('header counted', ins['b'], ins['k'], eng.iterid), hi=1 << 41))
                sm = members(self.mod, 'Cloudini::PointcloudEncoder'); hd = st.objs.get((('arg', 'this'), const(sm['header_'][1])))
                if hd is not None: st.addc(sub(Hc, hd[2]))
                M_ = add(M_, Hc)
            return ('val', I(M_))
        if re.search(r'MaxSerializedPointSize$', q or ''): return ('val', I(self.S))
        if re.search(STAGE, q or ''):
            callee = next((x for x in self.mod.roots if x.name == f), None); ps = self.point_step(eng, st); self.stages.add(q)
            self.gate(eng, st, ins, 'the first stage runs')
            if not eng.silent and callee is not None:
                eng.obligation(ins, 'point step', entails(st.cons, addc(ps, -1)), 'the point step may be zero', None, 'step')
                pr = params(callee); k = M['count'].get(callee.name); cs = [i for i, (a, d, part) in enumerate(pr) if part is None and a['t'] == 'i64']
                for i, (a, d, part) in enumerate(pr):
                    if not is_span(d) or (part not in (None, 0)): continue
                    if part is None:
                        v = eng.as_ptr(args[i]); dd = eng.load(st, v[1], v[2], 8, 'ptr'); n = eng.as_int(eng.load(st, v[1], addc(v[2], 8), 8, 'i64', 64), 64); p = eng.as_ptr(dd)
                    else: p = eng.as_ptr(args[i]); n = eng.as_int(args[i + 1], 64)
                    inp = 'const' in d
                    self.view_ok(eng, st, ins, p, n, 'view handed to the stage (%d)' % i, side='in' if inp else 'out')
                    if inp:
                        if k is None: ok = entails(st.cons, sub(ZERO, n)) or self.multiple(st, n, ps)
                        else:
                            need = lin.mul(eng.as_int(args[cs[k]], 64), ps); d2 = sub(n, need)
                            ok = entails(st.cons, d2) or lin.entails_factor(st.cons, d2) or lin.entails_products(st.cons, d2)
                        eng.obligation(ins, 'whole cloud', ok, 'the cloud handed to the stage has %s bytes: not known to be a whole number of points' % lin.show(n), None, 'cloud')
                    else:
                        need = lin.mul(eng.as_int(args[cs[0]], 64), self.S); d2 = sub(n, need)
                        ok = entails(st.cons, d2) or lin.entails_factor(st.cons, d2)
                        eng.obligation(ins, 'stage capacity', ok, 'the stage buffer has %s bytes, %s points of at most %s bytes are written to it' % (lin.show(n), lin.show(eng.as_int(args[cs[0]], 64)), lin.show(self.S)), None, 'capacity')
                if not any(is_span(d) and 'const' not in d for a, d, part in pr):
                    # the stage gets its buffer from a function: it is this->buffer_ with its capacity
                    sm = members(self.mod, 'Cloudini::PointcloudEncoder'); bo, co = sm['buffer_'][1], sm['buffer_capacity_'][1]
                    n = eng.as_int(eng.load(st, ('arg', 'this'), const(co), 8, 'i64', 64), 64); p = eng.as_ptr(eng.load(st, ('arg', 'this'), const(bo), 8, 'ptr'))
                    self.view_ok(eng, st, ins, p, n, 'stage buffer of the encoder', side='out')
                    pts = eng.as_int(args[cs[1 - k if k is not None and len(cs) == 2 else 0]], 64)
                    F = self.nfields(eng, st)
                    d2 = sub(n, add(lin.mul(pts, add(self.S, F)), scale16(F)))
                    ok = entails(st.cons, d2) or lin.entails_factor(st.cons, d2)
                    eng.obligation(ins, 'stage capacity', ok, 'the stage buffer has %s bytes; %s points of at most %s bytes plus one byte per field are written to it' % (lin.show(n), lin.show(pts), lin.show(self.S)), None, 'capacity')
            if callee is not None:
                for i, (a, d, part) in enumerate(params(callee)):
                    if part is None and a['t'] == 'ptr' and is_span(d) and d.endswith('&'):
                        v = eng.as_ptr(args[i])
                        if 'const' in d: self.consume_points(eng, st, v, ps)
                        else: self.consume(eng, st, (v[1], v[2]), ('stage', ins['b'], ins['k'], i))
            if 'i' in ins and ins['t'] == 'i64':
                r = var(A.get(('serialized', ins['b'], ins['k'], eng.bumpserial()), hi=U(62)))
                for i, (a, d, part) in enumerate(params(callee)):
                    if part is None and a['t'] == 'ptr' and is_span(d) and 'const' not in d:
                        v = eng.as_ptr(args[i]); dd = st.mem.get((v[1], v[2]))
                        if dd and dd[1][0] == 'p' and self.start: st.addc(sub(dd[1][2], r))
                return ('val', I(r))
            return ('states', [(st, None)])
        if q == 'Cloudini::PointcloudEncoder::encode' and f != eng.fn.name:
            callee = next((x for x in self.mod.roots if x.name == f), None)
            for i, (a, d, part) in enumerate(params(callee) if callee else ()):
                if part == 0 and is_span(d): self.view_ok(eng, st, ins, eng.as_ptr(args[i]), eng.as_int(args[i + 1], 64), 'cloud handed on', side='in')
                if part is None and a['t'] == 'ptr' and is_span(d):
                    v = eng.as_ptr(args[i]); dd = eng.load(st, v[1], v[2], 8, 'ptr'); n = eng.load(st, v[1], addc(v[2], 8), 8, 'i64', 64)
                    self.view_ok(eng, st, ins, eng.as_ptr(dd), eng.as_int(n, 64), 'output handed on', side='out'); self.consume(eng, st, (v[1], v[2]), ('encode', i))
            return ('val', I(var(A.get(('encoded', eng.bumpserial()), hi=U(40)))))
        if re.search(r'::WriteStage1Chunk$', q or ''):
            callee = next((x for x in self.mod.roots if x.name == f), None)
            for i, (a, d, part) in enumerate(params(callee) if callee else ()):
                if part == 0 and is_span(d): self.view_ok(eng, st, ins, eng.as_ptr(args[i]), eng.as_int(args[i + 1], 64), 'stage output handed on', side='in')
                if part is None and a['t'] == 'ptr' and is_span(d): v = eng.as_ptr(args[i]); self.consume(eng, st, (v[1], v[2]), ('write', ins['b'], ins['k'], i))
            return ('val', I(var(A.get(('written', eng.bumpserial()), hi=U(40)))))
        return super().on_call(eng, st, ins, q, f, args)
    start = True
    def nfields(self, eng, st): return self.F
    def multiple(self, st, n, ps):
        """n is a multiple of the point step: by its form, or because a remainder was found to be zero"""
        p = ps[1][0][0] if ps[0] == 0 and len(ps[1]) == 1 and ps[1][0][1] == 1 else None
        if p is None: return False
        form = lambda n: n[0] == 0 and all(p in lin.factors(a) for a, _ in n[1])
        if form(n): return True
        seen = set()
        for c in st.cons:
            for a, _ in c[1]:
                for f in lin.factors(a):
                    k = A.keys[f]
                    if f in seen or not (isinstance(k, tuple) and k[0] == 'udiv' and k[3] == ps): continue
                    seen.add(f); pq = lin.mul(var(f), ps)
                    if form(add(sub(n, k[2]), pq)) and entails(st.cons, sub(pq, k[2])) and entails(st.cons, sub(k[2], pq)): return True
        return False
    def consume_points(self, eng, st, v, ps):
        """a whole number of points is taken from the front (shown for the stage itself)"""
        d = eng.load(st, v[1], v[2], 8, 'ptr'); n = eng.as_int(eng.load(st, v[1], addc(v[2], 8), 8, 'i64', 64), 64)
        c = lin.mul(ps, var(A.get(('points consumed', eng.bumpserial()), hi=U(32))))
        st.addc(sub(n, c)); eng.store(st, v[1], v[2], 8, P(d[1], add(d[2], c))); eng.store(st, v[1], addc(v[2], 8), 8, I(sub(n, c)))
    def gate(self, eng, st, ins, what, used=ZERO):
        if eng.silent: return
        g = st.mem.get((('ghost', 'worst'), ZERO))
        ok = g is not None and self.outlen is not None and entails(st.cons, sub(sub(self.outlen, g[1][1]), used))
        eng.obligation(ins, 'capacity checked', ok or (self.outlen is not None and lin.infeasible(st.cons, [self.outlen])), '%s although the output may be smaller than the worst case' % what, None, what)
    def on_access(self, eng, st, ins, ptr, size, kind):
        super().on_access(eng, st, ins, ptr, size, kind)
        if kind == 'write' and ptr[1] == ('bytes', 'output') and not eng.silent: self.gate(eng, st, ins, 'the output is written to', add(ptr[2], size if isinstance(size, tuple) else const(size)))

def scale16(x): return lin.scale(x, 16)

def flag_cases(full):
    fn = next(f for f in M['m'].roots if f.full == full); n = sum(1 for a, d, part in params(fn) if a['t'] == 'i1')
    return list(itertools.product(*([(0, 1)] * n + [(0, 1, 2), (0, 1)])))
def unit_encode(full, case):
    """case: values of the boolean parameters, the compression option and use_threads"""
    m = M['m']; fn = next(f for f in m.roots if f.full == full); out = Out(fn.q); t = time.time()
    out.unit += ' %s' % (case,)
    st = St(); h = Enc(m); h.leaks = {}; h.worst = []; h.stages = set(); setup(m, fn, st, h); h.adaptive = memsafe.adaptive_layout(m)
    h.S = var(A.get(('worst case of a point',), hi=1 << 24)); h.F = var(A.get(('fields',), hi=1 << 20))
    this = ('arg', 'this'); sm = members(m, 'Cloudini::PointcloudEncoder'); im = members(m, 'Cloudini::EncodingInfo'); io = sm['info_'][1]
    st.ext[this] = const(m.type('Cloudini::PointcloudEncoder')['size'])
    ps = var(A.get(('info', 'point_step'), hi=U(32))); st.mem[(this, const(io + im['point_step'][1]))] = (4, I(ps))
    psz = m.type('Cloudini::PointField')['size']; st.objs[(this, const(io + im['fields'][1]))] = ('vec', ('vd', 'fields'), h.F, psz); st.ext[('vd', 'fields')] = lin.scale(h.F, psz)
    h.point_step = lambda eng, st: eng.as_int(eng.load(st, this, const(io + im['point_step'][1]), 4, 'i32', 32), 64)
    for b, c in (('buffer_', 'buffer_capacity_'), ('buffer_compressing_', 'buffer_compressing_capacity_')):
        if b not in sm or c not in sm: out.err = 'no member %s / %s' % (b, c); return out
        n = var(A.get(('capacity', b), hi=U(62))); base = ('bytes', 'scratch ' + b)
        st.mem[(this, const(sm[b][1]))] = (8, P(base)); st.mem[(this, const(sm[c][1]))] = (8, I(n)); st.ext[base] = n
    hs = var(A.get(('header size',), hi=1 << 40)); st.objs[(this, const(sm['header_'][1]))] = ('vec', ('vd', 'header'), hs, 1); st.ext[('vd', 'header')] = hs
    h.outlen = None
    for a, d, part in params(fn):
        if a['t'] == 'ptr' and is_span(d) and 'const' not in d: h.outlen = var(A.get(('len', a['name']), hi=U(62)))
    for (a, v) in zip([a for a, d, part in params(fn) if a['t'] == 'i1'], case): st.env[a['i']] = I(const(v))
    st.mem[(this, const(io + im['compression_opt'][1]))] = (1, I(const(case[-2]))); st.mem[(this, const(io + im['use_threads'][1]))] = (1, I(const(case[-1])))
    e = Eng(fn, hooks=h, models=[], time_limit=300, maxst=96); e.LOOPST = 64
    try: e.run(st)
    except Unsupported as ex: out.err = str(ex)
    out.take(e, h); out.indirect = []; out.stages = h.stages; out.time = time.time() - t
    return out

# ---------------------------------------------------------------- the constructor refuses layouts with a field outside the point
class Ctor(memsafe.Mem):
    def on_call(self, eng, st, ins, q, f, args):
        if SYNC.search(q or ''):
            if 'i' not in ins or ins.get('t') in (None, 'void'): return ('val', ('o', 'void'))
            t = ins['t']; return ('val', I(var(A.get(('sync', eng.bumpserial()), hi=U(int(t[1:]))))) if t.startswith('i') else ('o', ('sync', eng.bumpserial())))
        return super().on_call(eng, st, ins, q, f, args) if hasattr(super(), 'on_call') else None

def load_ctor():
    load()
    if 'ct' not in M: M['ct'] = build.module('core', [r'^Cloudini::PointcloudEncoder::PointcloudEncoder\(Cloudini::EncodingInfo'], noinline=memsafe.NOINLINE_STD + [r'::EncodeHeader$', r'BuildV4Encoders$', r'UsesV5Codec$', r'EncodingInfoToYAML$'])
    return M['ct']
def ctor_configs():
    return [cfactory.Config([(t, r)], o, v) for t in range(1, 11) for v in (4, 5) for o, r in ((2, 0), (1, 1))] + [cfactory.Config([(t, 0), (u, 0)], 2, 5) for t, u in ((7, 8), (10, 1), (1, 9))]
def unit_ctor(full, cfg):
    m = M['ct']; fn = next(f for f in m.roots if f.full == full); t = time.time()
    out = Out('%s, fields %s, option %d, version %d' % (fn.q.split('::')[-1], ','.join('%d%s' % (t, 'r' if h else '') for t, h in cfg.fields), cfg.opt, cfg.version)); out.bad = {}
    for i in range(len(cfg.fields)):
        st = St(); h = Ctor(m); h.leaks = {}; setup(m, fn, st, h)
        for a, d, part in params(fn):
            if 'EncodingInfo' in d and a.get('name') != 'this' and a['t'] == 'ptr': cfactory.put_info(m, st, ('arg', a['name']), cfg)
        e = Eng(fn, hooks=h, models=[(re.compile(r'^Cloudini::EncodingInfo::EncodingInfo$'), cfactory.copy_info(cfg))], time_limit=200, unroll=8)
        try: e.run(st)
        except Unsupported as ex: out.err = str(ex); return out
        ps = var(A.get(('info', 'point_step'), hi=U(32)))
        for o in e.outcomes:
            if o[0] != 'ret': continue
            out.rets += 1; off = var(off_of(i)); w = WIDTH[cfg.fields[i][0]]
            ok = entails(o[1].cons, sub(sub(ps, off), const(w))) or lin.infeasible(o[1].cons, [ps, off])
            out.recs.append(mk(out.unit, 'layout', fn.locfn(o[2])[0] if o[2] else '', fn.q, ok, 'an encoder is constructed although field %d (%d bytes) may lie outside the point' % (i, w)))
    out.time = time.time() - t
    return out

# ---------------------------------------------------------------- the list of adaptive fields the encoder works with
def unit_plan():
    m = M['c']; out = Out('list of adaptive fields'); lay = memsafe.adaptive_layout(m)
    plan = cfactory.factory_roots(m)[2]
    if not plan or not lay: out.err = 'no function returns the plan of the encoder'; return out
    size, oo, bo = lay
    for fn in plan:
        for t in range(1, 11):
            for u in (None, 5, 9):
                cfg = cfactory.Config([(t, 0)] + ([(u, 0)] if u else []), 2, 5)
                try: sts, eng, _ = cfactory.run_fn(m, fn, cfg)
                except Unsupported as ex: out.err = str(ex); return out
                for s in sts:
                    bad = None; lists = [(k, o) for k, o in s.objs.items() if k[0] == ('arg', 'ret') and o[0] == 'vec' and len(o) > 3 and o[3] == size]
                    if len(lists) != 1 or not is_const(lists[0][1][2]): bad = 'the list is not known'
                    else:
                        o = lists[0][1]
                        for i in range(o[2][0]):
                            a = s.mem.get((o[1], const(size * i + oo))); b = s.mem.get((o[1], const(size * i + bo)))
                            ok = a and b and a[1][0] == 'i' and b[1][0] == 'i' and is_const(b[1][1]) and any(a[1][1] == var(off_of(j)) and b[1][1][0] == WIDTH[cfg.fields[j][0]] for j in range(len(cfg.fields)))
                            if not ok: bad = 'element %d is not the offset and width of a field' % i
                            elif not 2 <= b[1][1][0] <= 8: bad = 'element %d has width %d' % (i, b[1][1][0])
                    out.recs.append(mk(out.unit, 'adaptive', fn.q, '%s(%s)' % (fn.q.split('::')[-1], ','.join(str(x) for x, _ in cfg.fields)), bad is None, bad)); out.rets += 1
    return out

# ---------------------------------------------------------------- writing one chunk to the output
class Chunk(Views):
    def on_call(self, eng, st, ins, q, f, args):
        callee = next((x for x in self.mod.roots if x.name == f), None)
        if callee is not None and f != eng.fn.name:
            for i, (a, d, part) in enumerate(params(callee)):
                if part == 0 and is_span(d): self.view_ok(eng, st, ins, eng.as_ptr(args[i]), eng.as_int(args[i + 1], 64), 'view handed on', side='in')
                if part is None and a['t'] == 'ptr' and is_span(d):
                    v = eng.as_ptr(args[i]); dd = eng.load(st, v[1], v[2], 8, 'ptr'); n = eng.load(st, v[1], addc(v[2], 8), 8, 'i64', 64)
                    self.view_ok(eng, st, ins, eng.as_ptr(dd), eng.as_int(n, 64), 'output handed on', side='out'); self.consume(eng, st, (v[1], v[2]), ('chunk', ins['b'], ins['k'], i))
            return ('val', I(var(A.get(('written', eng.bumpserial()), hi=U(40))))) if 'i' in ins else ('states', [(st, None)])
        return super().on_call(eng, st, ins, q, f, args)
def unit_chunk(full):
    m = M['m']; fn = next(f for f in m.roots if f.full == full); out = Out(fn.q); t = time.time()
    st = St(); h = Chunk(m); h.leaks = {}; setup(m, fn, st, h)
    e = Eng(fn, hooks=h, models=[], time_limit=120)
    try: e.run(st)
    except Unsupported as ex: out.err = str(ex)
    out.take(e, h); out.time = time.time() - t
    return out

def run(which=('enc', 'pipe', 'ctor')):
    load(); jobs = []; info = {'objects': {}, 'built': 0, 'missing': [], 'limits': {}}
    info['limits'] = limits(); EncHooks.limits = {k: o.limit for k, (q, o) in info['limits'].items() if o.limit}
    if 'enc' in which:
        objs, built, missing = encoder_objects(); info.update(objects=objs, built=built, missing=missing)
        jobs += [(lambda k=k, v=v: ('enc', unit_encoder(k[0], k[1], k[2], v))) for k, v in objs.items() if k[0]]
    if 'sum' in which: jobs += [(lambda c=c: ('sum', unit_total(c))) for c in configs()]
    if 'pipe' in which:
        load_pipe(); m = M['m']; M['count'] = {}
        stage = [(f, k) for f in m.roots if re.search(STAGE, f.q) for k in range(len(counts_of(f)))]
        # by value: the count of points is a parameter; by reference: the view shrinks, any number of points
        res = par.run([(lambda f=f, k=k: unit_stage(f.full, k)) for f, k in stage])
        info['pipe'] = []
        for f in {f.full: f for f, k in stage}.values():
            rs = [(k, o) for (g, k), o in zip(stage, res) if g is f]
            k, o = min(rs, key=lambda x: (x[1].err is not None, sum(not r.ok for r in x[1].recs)))
            if not any(is_span(d) and 'const' in d and part is None for a, d, part in params(f)): M['count'][f.name] = k
            info['pipe'].append(('stage', o))
        jobs += [(lambda f=f, t=t: ('collect', unit_collect(f.full, t))) for f in M['col'].roots if f.name in M['collect'] for t in (3, 4, 5, 6, 9, 10)]
        jobs += [(lambda f=f: ('chunk', unit_chunk(f.full))) for f in m.roots if re.search(r'::(WriteStage1Chunk|CompressChunk)$', f.q)]
        jobs += [(lambda f=f, c=c: ('encode', unit_encode(f.full, c))) for f in m.roots if f.q.endswith('PointcloudEncoder::encode') for c in flag_cases(f.full)]
        jobs.append(lambda: ('plan', unit_plan()))
        jobs += [(lambda f=f, c=c: ('room', unit_room(f.full, c))) for f in m.roots if f.q.endswith('::CompressChunk') for c in (1, 2)]
    if 'ctor' in which:
        load_ctor(); jobs += [(lambda f=f, c=c: ('ctor', unit_ctor(f.full, c))) for f in M['ct'].roots for c in ctor_configs()]
    res = par.run(jobs)
    return info.get('pipe', []) + res, info

# ---------------------------------------------------------------- MaxCompressedSize covers header, prefixes, sections and what the compressor may add
class Size(memsafe.Mem):
    def on_call(self, eng, st, ins, q, f, args):
        if re.search(r'MaxSerializedPointSize$', q or ''): return ('val', I(self.S))
        if re.search(r'UsesV5Codec$', q or ''): return ('val', ('b', T) if self.v5 else I(const(0)))
        if re.search(r'^(LZ4_compressBound|ZSTD_compressBound)$', q or f or ''):
            n = eng.as_int(args[0], 32 if 'LZ4' in (q or f) else 64)
            return ('val', I(var(A.get(('compress bound', n), hi=((1 << 31) - 1 if 'LZ4' in (q or f) else 1 << 60)))))
        if re.search(r'EncodingInfoToYAML$', q or ''):
            d = eng.as_ptr(args[0]); st.objs[(d[1], d[2])] = ('vec', ('vd', 'yaml'), self.Y, 1); st.ext[('vd', 'yaml')] = self.Y
            eng.store(st, d[1], d[2], 8, P(('vd', 'yaml'))); eng.store(st, d[1], addc(d[2], 8), 8, I(self.Y))
            return ('val', ('o', 'void'))
        return super().on_call(eng, st, ins, q, f, args) if hasattr(super(), 'on_call') else None
def load_size():
    load()
    if 'sz' not in M:
        NI = memsafe.NOINLINE_STD + [r'MaxSerializedPointSize$', r'EncodingInfoToYAML$', r'UsesV5Codec$', r'ComputeHeaderSize$']
        M['sz'] = build.module('core', [r'^Cloudini::MaxCompressedSize\(', r'^Cloudini::EncodeHeader\('], noinline=NI)
    return M['sz']
def size_state(m, fn, h, pre, comp):
    h.S = var(A.get(('worst case of a point',), hi=1 << 24)); h.F = var(A.get(('fields',), hi=1 << 20)); h.Y = var(A.get(('length of the description',), hi=1 << 40))
    st = St(); setup(m, fn, st, h); im = members(m, 'Cloudini::EncodingInfo'); b = ('arg', pre)
    psz = m.type('Cloudini::PointField')['size']; st.objs[(b, const(im['fields'][1]))] = ('vec', ('vd', 'fields'), h.F, psz); st.ext[('vd', 'fields')] = lin.scale(h.F, psz)
    st.mem[(b, const(im['compression_opt'][1]))] = (1, I(const(comp)))
    return st
CH = 32 * 1024
def unit_size(full, v5, comp, n):
    """n: number of points, or None: any number up to one chunk"""
    m = M['sz']; fn = next(f for f in m.roots if f.full == full); t = time.time()
    out = Out('%s, version %d, compression %d, %s points' % (fn.q.split('::')[-1], 5 if v5 else 4, comp, 'up to %d' % CH if n is None else n))
    h = Size(m); h.leaks = {}; h.v5 = v5; ia = next(a['name'] for a, d, part in params(fn) if 'EncodingInfo' in d)
    st = size_state(m, fn, h, ia, comp)
    N = var(A.get(('points',), hi=CH)) if n is None else const(n)
    if n is None: st.addc(addc(N, -1))
    for a, d, part in params(fn):
        if a['t'] == 'i64': st.env[a['i']] = I(N)
        elif a['t'] == 'i1': st.env[a['i']] = I(const(0))
    e = Eng(fn, hooks=h, models=[], time_limit=120, unroll=8)
    try: e.run(st)
    except Unsupported as ex: out.err = str(ex); return out
    for o in e.outcomes:
        if o[0] != 'ret': continue
        out.rets += 1; r = o[3][1] if o[3] and o[3][0] == 'i' else None
        pts = [N] if n is None else [const(min(CH, n - i)) for i in range(0, n, CH)]
        ok = r is not None; why = 'the result is not known'
        if ok:
            rest = r
            bounds = [(a, c) for a, c in r[1] if isinstance(A.keys[a], tuple) and A.keys[a][0] == 'compress bound']
            need = [add(lin.mul(p, add(h.S, h.F)) if v5 else lin.mul(p, h.S), scale16(h.F) if v5 else ZERO) for p in pts]
            ge = lambda d: entails(o[1].cons, d) or lin.entails_factor(o[1].cons, d) or lin.entails_products(o[1].cons, d)
            if comp == 0:
                tot = const(4 * len(pts))
                for x in need: tot = add(tot, x)
                ok = ge(sub(r, tot)); why = 'the result is %s, up to %s bytes are written' % (lin.show(r), lin.show(tot))
            else:
                if sum(c for a, c in bounds) != len(pts) or any(c < 0 for a, c in bounds): ok = False; why = 'the result %s does not contain a compression bound per chunk' % lin.show(r)
                else:
                    args = sorted((A.keys[a][1] for a, c in bounds for _ in range(c)), key=str); left = list(need)
                    for a in args:       # every chunk has a bound of its own
                        k = next((x for x in left if ge(sub(a, x))), None)
                        if k is not None: left.remove(k)
                    if left: ok = False; why = 'a chunk may hold %s bytes, the compressor is given %s' % (lin.show(left[0]), [lin.show(a) for a in args])
                    else:
                        for a, c in bounds: rest = sub(rest, lin.scale(var(a), c))
                        ok = ge(addc(rest, -4 * len(pts))); why = 'besides the chunks only %s bytes are counted, the prefixes need %d' % (lin.show(rest), 4 * len(pts))
        out.recs.append(mk(out.unit, 'worst case', fn.locfn(o[2])[0] if o[2] else '', fn.q, bool(ok), why))
    out.time = time.time() - t
    return out

def unit_header(enc):
    """the header counted by MaxCompressedSize is at least what EncodeHeader writes (textual form: the one the encoder uses)"""
    m = M['sz']; fs = [next(f for f in m.roots if f.q.endswith(n)) for n in ('::MaxCompressedSize', '::EncodeHeader')]
    out = Out('header size counted by MaxCompressedSize'); sizes = []
    for fn in fs:
        h = Size(m); h.leaks = {}; h.v5 = True; ia = next(a['name'] for a, d, part in params(fn) if 'EncodingInfo' in d)
        st = size_state(m, fn, h, ia, 0); vec = None
        for a, d, part in params(fn):
            if a['t'] == 'i64': st.env[a['i']] = I(ZERO)
            elif a['t'] == 'i1': st.env[a['i']] = I(const(1))
            elif a['t'].startswith('i'): st.env[a['i']] = I(const(enc))
            elif 'vector' in d: vec = ('arg', a['name']); st.objs[(vec, ZERO)] = ('vec', ('vd', 'out'), ZERO, 1); st.ext[('vd', 'out')] = ZERO
        e = Eng(fn, hooks=h, models=[], time_limit=120, unroll=8)
        try: e.run(st)
        except Unsupported as ex: out.err = str(ex); return out
        rs = []
        for o in e.outcomes:
            if o[0] != 'ret': continue
            rs.append(o[1].objs.get((vec, ZERO), (0, 0, None))[2] if vec else (o[3][1] if o[3][0] == 'i' else None))
        sizes.append(rs)
    out.rets = len(sizes[0]) and len(sizes[1])
    for w in sizes[1]:
        ok = w is not None and sizes[0] and all(x is not None and entails([], sub(x, w)) for x in sizes[0])
        out.recs.append(mk(out.unit, 'header', fs[1].q, fs[1].q, ok, 'the header has %s bytes, %s are counted' % (lin.show(w) if w is not None else '?', [lin.show(x) for x in sizes[0] if x is not None])))
    return out

def run_size():
    load_size(); fn = [f for f in M['sz'].roots if f.q.endswith('::MaxCompressedSize')]
    return par.run([(lambda f=f, v=v, c=c, n=n: ('size', unit_size(f.full, v, c, n))) for f in fn for v in (0, 1) for c in (0, 1, 2) for n in (None, CH, CH + 1, 2 * CH, 3 * CH - 1)] + [lambda: ('header', unit_header(M['sz'].enum('Cloudini::HeaderEncoding').get('YAML', 1) if hasattr(M['sz'], 'enum') else 1))])

def unit_room(full, comp):
    """more room in the output than a compressor can address is no reason to fail"""
    m = M['m']; fn = next(f for f in m.roots if f.full == full); out = Out('%s, compression %d, more than 4 GB of output' % (fn.q.split('::')[-1], comp))
    st = St(); h = Chunk(m); h.leaks = {}; setup(m, fn, st, h)
    for a, d, part in params(fn):
        if part is None and a['t'].startswith('i') and 'Compression' in d: st.env[a['i']] = I(const(comp))
        elif part is None and is_span(d) and a['t'] == 'ptr' and 'const' not in d:
            c = eng_cell(st, ('arg', a['name'])); st.addc(addc(c, -(1 << 32)))
        elif part == 1 and is_span(d): st.addc(sub(const((1 << 31) - 1), st.env[a['i']][1]))
    e = Eng(fn, hooks=h, models=[], time_limit=120)
    try: e.run(st)
    except Unsupported as ex: out.err = str(ex)
    n = sum(1 for o in e.outcomes if o[0] == 'ret')
    out.rets = 1; out.recs.append(mk(out.unit, 'room', fn.q, fn.q, n > 0, 'every path throws: the chunk is refused because the output is large'))
    return out
def eng_cell(st, key):
    d, n = memsafe.span_cells(st, key)
    return n[1]
