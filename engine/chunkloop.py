"""The chunk loop of PointcloudDecoder::decode, decided from its value graph for one constant version.

The loop is described by the values it carries round: X, the position in the input (a pointer), L, the bytes left, and R, the
points left.  They are recognised by what they are used for (arguments of the chunk decoder), not by their names."""
import build, vg, vgstd, cfactory
from vg import K, P, atom, isk, VG, St, vadd, vsub, to_ptr, to_int, norm, same, cmpv, decide, mkbits, bits_of, zext, show, vscale

def load():
    m = build.module('core', [r'^Cloudini::PointcloudDecoder::decode\('], noinline=[r'::decodeChunk$', r'::updateDecoders$', r'ValidateFieldLayout$'])
    f = [f for f in m.roots if 'EncodingInfo' in f.full and 'std::vector' not in f.full]
    from check import NoAnswer
    if len(f) != 1: raise NoAnswer('PointcloudDecoder::decode not found')
    return m, f[0]

def calls(events, name):
    return [e for e in events if e[0] == 'call' and e[1].split('::')[-1] == name]
def deep(events, name):
    out = calls(events, name)
    for e in events:
        if e[0] == 'loop':
            for c, ev, *_ in e[2]: out += deep(ev, name)
    return out

def mul(a, b):
    x, y = sorted((a, b), key=vg.okey)
    return atom(64, ('mul', x, y))

def run(version):
    m, f = load()
    EI = cfactory.members(m, 'Cloudini::EncodingInfo')
    st = St(); info = None; data = None
    for a in f.args:
        n = ('arg', a['name']); st.env[a['i']] = P(n) if a['t'] == 'ptr' else atom(int(a['t'][1:]), n)
    for a, d, part in cfactory.params(f):
        if 'EncodingInfo' in d: info = ('arg', a['name'])
        if 'Span<const' in d.replace('Cloudini::', '') or 'Span<unsigned char const' in d:
            if part == 0: data = P(('arg', a['name']))
            if part == 1: size = atom(64, ('arg', a['name']))
    ver = K(64, EI['version'][1])
    st.mem[info] = [(ver, 1, K(8, version))]
    def log(e, st, ins, q, a): st.events.append(('call', q, tuple(a), ())); return K(1, 0) if 'i' in ins and ins.get('w') == 1 else None
    e = VG(f, models=[(r'::decodeChunk$|::updateDecoders$|ValidateFieldLayout$', log)] + vgstd.VEC + vgstd.MODELS)
    rets = e.run(st)
    w, h = (zext(e.load(st, info, K(64, EI[k][1]), 4, 'i32', 32), 64) for k in ('width', 'height'))
    total = mul(w, h)
    return dict(e=e, f=f, m=m, rets=rets, data=data, size=size, total=total, info=info)

def describe(version):
    """obligations (rule, detail, ok) about this version"""
    r = run(version); e = r['e']; out = []
    where = 'decode(), version %d' % version
    def ob(rule, ok, detail=''): out.append((rule, where, bool(ok), detail))
    if not r['rets']: ob('version is decoded', False, 'no path of decode() returns'); return out
    ob('version is decoded', True, '%d returning paths' % len(r['rets']))
    # nothing is decoded before the layout is validated and the decoders are built from this header
    for k, s, v in r['rets']:
        names = [x[1].split('::')[-1] if x[0] == 'call' else 'loop' for x in s.events if x[0] in ('call', 'loop')]
        first = min([i for i, n in enumerate(names) if n in ('decodeChunk', 'loop')] or [99])
        ob('the layout is validated and the decoders are rebuilt first', 'ValidateFieldLayout' in names[:first] and 'updateDecoders' in names[:first], names)
        # a second header in the data is refused: every returning path knows that the data does not start with the magic
        c = [show(c, 4000) for c, t in s.conds]
        ok = False
        for c, t in s.conds:
            sh = show(c, 4000)
            if 'streq' in sh and "CLOUDINI_V" in sh: ok = True
            if decide(s, cmpv(s, 'ult', r['size'], K(64, 10), 64)) is True: ok = True
        ob('data that starts with a header is refused', ok, 'conditions of the path: %s' % [x[:60] for x in [show(c, 100) for c, t in s.conds]][:4])
    if version < 3:
        for k, s, v in r['rets']:
            cs = deep(s.events, 'decodeChunk')
            direct = calls(s.events, 'decodeChunk')
            ok = len(cs) == 1 and len(direct) == 1
            ob('one chunk without length prefix', ok, '%d calls of decodeChunk' % len(cs))
            if ok:
                a = cs[0][2]
                ob('the whole input is the chunk', a[2] == r['data'] and same(s, a[3], r['size']), 'data %s size %s' % (show(a[2], 80), show(a[3], 80)))
                ob('every declared point is expected', same(s, to_int(a[-1], 64), r['total']), show(a[-1], 120))
        return out
    # version 3 and later
    seen = {}
    for k, s, v in r['rets']:
        direct = calls(s.events, 'decodeChunk'); lps = [x for x in s.events if x[0] == 'loop' and deep(x[2] and [x], 'decodeChunk')]
        ob('chunks are decoded in one loop', not direct and len(lps) == 1, 'direct calls %d, loops %d' % (len(direct), len(lps)))
        if len(lps) == 1: seen.setdefault(lps[0][1], []).append(s)
    if len(seen) != 1: return out
    hd, = seen
    for L in e.loops[hd]:
        phis = L['phis']; gen = {}
        bodies = [(c, ev, s, calls(ev, 'decodeChunk')) for c, ev, s in L['body']]
        for c, ev, s, cs in bodies: ob('one chunk per round', len(cs) == 1, '%d calls of decodeChunk' % len(cs))
        bodies = [x for x in bodies if len(x[3]) == 1]
        # R: what is passed as number of points when it is not the constant of a full chunk
        R = None
        for c, ev, s, cs in bodies:
            q = norm(s, to_int(cs[0][2][-1], 64))
            if not isk(q): R = strip_min(q)
        for c, ev, s, cs in bodies:
            a = cs[0][2]; p = to_ptr(a[2]); n = to_int(a[3], 64); q = norm(s, to_int(a[-1], 64))
            X = P(p[1], vsub(p[2], K(64, 4)))
            want = norm(s, zext(e_load(e, s, X), 64))
            ob('chunk starts behind its 4-byte prefix', norm(s, n) == want, 'size passed: %s' % show(n, 200))
            x0 = at(X[2], phis, None)
            base_ok = X[1] == r['data'][1]
            ob('first chunk starts at the beginning of the data', base_ok and same(L['entry'], x0, r['data'][2]), show(x0, 80))
            x1 = at(X[2], phis, s)
            ob('next chunk starts behind this one', same(s, x1, vadd(X[2], vadd(K(64, 4), want))), show(x1, 200))
            if R is None: ob('the last chunk holds the remaining points', False, 'the number of points passed is always constant'); continue
            ob('points left start with width*height', same(L['entry'], at(R, phis, None), r['total']), show(at(R, phis, None), 200))
            big = decide(s, cmpv(s, 'ult', K(64, 32768), R, 64)); small = decide(s, cmpv(s, 'ult', R, K(64, 32768), 64))
            okq = (is_min(q, R)) or ((big is True or small is False) and same(s, q, K(64, 32768))) or ((big is False or small is True) and same(s, q, R))
            ob('a chunk holds 32768 points, the last one the rest', okq, 'expected points: %s' % show(q, 150))
            ob('points of the chunk are subtracted', same(s, at(R, phis, s), vsub(R, q)), show(at(R, phis, s), 200))
            ob('no chunk is decoded when no point is left', decide(s, cmpv(s, 'eq', R, K(64, 0), 64)) is False, 'round entered with %s' % [show(x, 60) for x, t in c][:4])
            lefts = [vsub(r['size'], vsub(X[2], r['data'][2]))]
            for i, (v0, key) in phis.items():
                if v0[0] in 'klb' and v0[1] == 64 and same(L['entry'], v0, r['size']) and same(s, at(atom(64, key), phis, s), vsub(vsub(atom(64, key), K(64, 4)), want)): lefts.append(atom(64, key))
            gen['L'] = [l for l in lefts if l in gen.get('L', lefts)]; gen['R'] = R
            ok4 = any(decide(s, cmpv(s, 'ult', l, K(64, 4), 64)) is False for l in lefts)
            okn = any(decide(s, cmpv(s, 'ult', vsub(l, K(64, 4)), want, 64)) is False for l in lefts)
            ob('prefix and chunk are available', ok4 and okn, [show(x, 80) for x, t in c][:6])
        for s in seen[hd]:
            if 'R' in gen:
                ob('returns only when no point is missing', decide(s, cmpv(s, 'eq', gen['R'], K(64, 0), 64)) is True, 'conditions at the return: %s' % [show(x, 60) for x, t in s.conds][-3:])
                ob('returns only when no byte is left over', any(decide(s, cmpv(s, 'eq', l, K(64, 0), 64)) is True for l in gen['L']), 'conditions at the return: %s' % [show(x, 60) for x, t in s.conds][-3:])
    return out

def at(v, phis, s):
    """the value with the loop variables replaced by their first values (s None) or by their values at the end of the round s"""
    t = St()
    for i, (v0, key) in phis.items():
        x = v0 if s is None else s.env.get(i, v0)
        if x[0] == 'p': x = x[2]
        if x[0] in 'klb': t.sub[(x[1], key)] = x
    return subst_once(t, v)
def subst_once(t, v):
    if v[0] == 'l':
        r = K(v[1], v[2])
        for a, k in v[3]: r = vadd(r, vscale(t.sub[a] if a in t.sub else atom(*a) if not (isinstance(a[1], tuple) and a[1][0] == 'bits') else ('b', a[0], a[1][1]), k))
        return r
    return v
def strip_min(q):
    for a, k in vg.lin_of(q)[1].items():
        if isinstance(a[1], tuple) and a[1][0] in ('umin', 'smin') and len(vg.lin_of(q)[1]) == 1:
            for x in a[1][1:]:
                if isinstance(x, tuple) and x[0] in 'lb': return x
    return q
def is_min(q, R):
    c, t = vg.lin_of(q)
    if c or len(t) != 1: return False
    (a, k), = t.items()
    return k == 1 and isinstance(a[1], tuple) and a[1][0] in ('umin',) and set(map(repr, a[1][1:])) == {repr(R), repr(K(64, 32768))}
def e_load(e, s, X): return e.load(s, X[1], X[2], 4, 'i32', 32)
