"""C18: every field codec's decoder inverts its encoder."""
import re
import build, vg, vgstd, cfactory, par
from vg import K, P, F, atom, isk, VG, St, same, norm, to_ptr, to_int, decide, assume, cmpv, show, vadd, vsub, vscale, bits_of, mkbits, zext, trunc, bounds, lin_of, whole, M

EXPLAIN = ("Each field codec is decided by composing value graphs over LLVM IR: encode() is evaluated on an unknown point and an unknown codec state, the "
 "memory it wrote becomes the input of decode() started from the corresponding state, and on every pair of paths the stored value must be the term read "
 "from the point (for lossy fields: the quantised integer times the decoder's multiplier), the bytes consumed must be the bytes produced, the states must "
 "correspond again, and the decoder may not depend on a condition that the encoder's path does not settle. The variable-length integer and the bit "
 "packing primitives are composed in the same way for every length.")

OFF = atom(64, ('offset',)); REST = (64, ('bytes behind',))
SIZE = {'signed char': 1, 'unsigned char': 1, 'char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8}
PRIM = [r'^Cloudini::encodeVarint64', r'^Cloudini::decodeVarint', r'::putBits$', r'::getBits$']

def vlen(x): return atom(64, ('vlen', x))
def m_encvar(e, st, ins, q, a):
    p = to_ptr(a[1]); x = norm(st, to_int(a[0], 64))
    e.store(st, p[1], p[2], vlen(x), F(('varint', x)))
    st.user['writes'] = st.user.get('writes', 0) + 1
    return vlen(x)
def m_decvar(e, st, ins, q, a):
    p = to_ptr(a[0]); d = to_ptr(a[2]); n = norm(st, to_int(a[1], 64))
    for o, sz, v in reversed(st.mem.get(p[1], ())):
        if e.dist(st, p[2], o) == 0 and v[0] == 'f' and v[1][0] == 'varint':
            x = v[1][1]; r = norm(st, vsub(n, vlen(x)))
            c, t = lin_of(r)
            enough = c >> 63 == 0 and all(k >> 63 == 0 for k in t.values())
            if not enough: st.user.setdefault('bad', []).append('the input given to the integer decoder may end before the integer: %s' % show(n, 80))
            e.store(st, d[1], d[2], 8, x); return vlen(x)
    st.user.setdefault('bad', []).append('an integer is decoded where none was encoded')
    e.store(st, d[1], d[2], 8, atom(64, ('no integer', st.fresh()))); return atom(64, ('no length', st.fresh()))

def low(v, n):
    """the n low bits of a 64-bit value"""
    if isk(n): return mkbits(64, bits_of(v)[:n[2]] + [frozenset()] * (64 - n[2])) if n[2] < 64 else v
    return atom(64, ('low', v, n))
def m_put(e, st, ins, q, a):
    this = to_ptr(a[0]); v = norm(st, to_int(a[1], 64)); n = norm(st, trunc(to_int(a[2], a[2][1]), 8) if a[2][1] > 8 else to_int(a[2], 8))
    st.user['bits'] = st.user.get('bits', ()) + ((v, n),)
    buffered(e, st, this, a[-1]); return atom(64, ('bytes put', len(st.user['bits'])))
def buffered(e, st, this, view):
    """bits were moved between the buffer and the stream"""
    k = st.fresh(); e_ = e.cls
    for nm, sz in (('bit_buf_', 8), ('bit_count_', 1)):
        if nm in e_: e.store(st, this[1], vadd(this[2], K(64, e_[nm][1])), sz, atom(8 * sz, (nm, k)))
    st.hi[(8, ('bit_count_', k))] = 7
    p = to_ptr(view); d = to_ptr(e.load(st, p[1], p[2], 8, 'ptr')); n = e.load(st, p[1], vadd(p[2], K(64, 8)), 8, 'i64', 64)
    mv = atom(64, ('bytes moved', k)); st.hi[(64, ('bytes moved', k))] = 9
    e.store(st, p[1], p[2], 8, P(d[1], vadd(d[2], mv))); e.store(st, p[1], vadd(p[2], K(64, 8)), 8, vsub(n, mv))
def m_get(e, st, ins, q, a):
    this = to_ptr(a[0]); n = norm(st, trunc(a[1], 8) if a[1][1] > 8 else to_int(a[1], 8))
    items = st.user.get('items', ()); buffered(e, st, this, a[-1])
    if not items: st.user.setdefault('bad', []).append('more bits are read than were written'); return atom(64, ('no bits', st.fresh()))
    v, m = items[0]; st.user['items'] = items[1:]
    if not same(st, n, m): st.user.setdefault('bad', []).append('%s bits are read where %s were written' % (show(n, 60), show(m, 60)))
    return v if fits(st, v, m) else low(v, m)

def zeros(v, k):
    """leading or trailing zeros of a value whose interesting bits are known"""
    bs = bits_of(v); bs = bs[::-1] if k == 'ctlz' else bs
    for i, x in enumerate(bs):
        if x: return i if x == frozenset({vg.ONE}) else None
    return None
def m_reset(e, st, ins, q, a):
    """a method called through the vtable"""
    f = None
    if 'ind' in ins:
        c = e.val(st, ins['ind'])
        if c[0] == 'p' and c[1][0] == 'fn': f = next((x for x in e.mod.roots if x.name == c[1][1]), None)
    else: f = next((x for x in e.mod.roots if x.name == ins.get('f')), None)
    if f is None: return e.unknown(st, ins, q, a)
    z = st.copy(); z.env = {x['i']: y for x, y in zip(f.args, a)}
    r = VG(f, models=setup_models(1)).run(z)
    if len(r) != 1: return e.unknown(st, ins, q, a)
    st.mem = r[0][1].mem

def fits(st, v, n):
    """v < 2^n on every path that arrives here"""
    if isk(n): return bounds(st, v)[1] < 1 << n[2]
    return v[0] in 'kb' and zeros(v, 'ctlz') is not None and Shifts([]).atmost(st, zext(norm(st, vsub(K(8, v[1]), n)), 64), 'ctlz', v)

def setup_models(nz): 
    def ctz(e, st, ins, q, a):
        w = ins.get('w') or 32; k = 'ctlz' if 'ctlz' in q or 'clz' in q or 'countl' in q else 'cttz'; x = to_int(a[0], a[0][1])
        z = zeros(norm(st, x), k)
        if z is not None: return K(w, z)
        zero = decide(st, cmpv(st, 'eq', x, K(x[1], 0), x[1]))
        st.hi[(w, (k, x))] = x[1] - 1 if zero is False else x[1]
        return atom(w, (k, x))
    return [(r'^llvm\.(ctlz|cttz)\.|^std::count[lr]_zero|^std::__count[lr]_zero', ctz), (r'encodeVarint64$', m_encvar), (r'decodeVarint$', m_decvar), (r'::putBits$', m_put), (r'::getBits$', m_get), (r'::reset$', m_reset)]

class Shifts:
    """shl(low(lshr(x,s),n),s) is x when only zeros are shifted out and n bits are enough"""
    def __init__(self, log): self.log = log
    def __call__(self, st, o, a, b, w):
        if o != 'shl': return None
        s = norm(st, b); t = norm(st, a)
        n = None
        k = akey(t)
        if k and k[0] == 'low': n = k[2]; k = akey(norm(st, k[1]))
        if not k or k[0] != 'lshr' or not same(st, k[2], s): return None
        x = k[1]
        if not self.atmost(st, s, 'cttz', x): return None
        if n is not None:
            L = vsub(vsub(K(8, w), norm(st, n)), norm(st, trunc(s, 8, st)))
            if not self.atmost(st, zext(norm(st, L), 64), 'ctlz', x): return None
        return x
    def atmost(self, st, s, k, x):
        """s <= number of leading or trailing zeros of x"""
        s8 = norm(st, trunc(s, 8, st)); z = zeros(norm(st, x), k)
        for w in (32, 64, 16, 8):
            for cand in ([K(w, z)] if z is not None else []) + [atom(w, (k, x))]:
                t8 = norm(st, trunc(cand, 8, st)) if w > 8 else cand
                if t8 == s8 or same(st, t8, s8): return True
                if decide(st, cmpv(st, 'ult', t8, s8, 8)) is False: return True
                for u in (16, 32, 64):
                    if decide(st, cmpv(st, 'ult', zext(t8, u, st), zext(s8, u, st), u)) is False: return True
        return False
def akey(v):
    if v[0] == 'l' and v[2] == 0 and len(v[3]) == 1 and v[3][0][1] == 1: return v[3][0][0][1]
    return None

def state_of(cls, params):
    """members that describe the stream, not the field"""
    return {n: c for n, c in cls.items() if n not in params}
PARAMS = ('offset_', 'multiplier_', 'field_size_', 'fields_count_', 'min_input_bytes_')

def put(st, base, cls, name, msize, val): st.mem.setdefault(base, []).append((K(64, cls[name][1]), msize, val))

def classes(m):
    out = {}
    for f in m.roots:
        g = re.match(r'Cloudini::Field(Encoder|Decoder)(\w+?)(<.*>)?::(encode|decode)$', re.sub(r'\(.*$', '', f.full.split(' const')[0]) if False else f.q)
        g = re.match(r'.*?Cloudini::Field(Encoder|Decoder)(\w+?)(<([^<>]*)>)?::(encode|decode)\(', f.full)
        if g: out.setdefault((g.group(2), g.group(4)), {})[g.group(5)] = f
    return out

def codec(ctx, m, key, fe, fd, n=None, case=None, skips=(False, True)):
    name, T = key; w = 'Field*%s%s' % (name, '<%s>' % T if T else '') + (' of %d' % n if n else '')
    ce = cfactory.members(m, 'Cloudini::FieldEncoder%s%s' % (name, '<%s>' % T if T else '')); cd = cfactory.members(m, 'Cloudini::FieldDecoder%s%s' % (name, '<%s>' % T if T else ''))
    E, D = ('enc',), ('dec',)
    se, sd = [{k for k in c if k not in PARAMS and not k.startswith('_vptr') and c[k][1] is not None and size_of(m, c[k])} for c in (ce, cd)]
    pair = {k: k for k in se & sd}
    for k in sorted(se - sd):
        o = [x for x in sorted(sd - se) if cd[x][2:] == ce[k][2:]]
        if len(o) == 1: pair[k] = o[0]
    st = St(); st.shift_rule = Shifts([])
    offs = [atom(64, ('offset', 0))]
    for i in range(1, 4): offs.append(vadd(offs[-1], vadd(K(64, 4), atom(64, ('offset', i)))))      # fields of a group do not overlap
    def msize(c): return c[2] if isinstance(c[2], int) else None
    # the same state on both sides
    for k, o in pair.items():
        sz = size_of(m, ce[k])
        for i in range(0, sz, 4 if sz == 16 else sz):
            z = 4 if sz == 16 else sz
            v = atom(8 * z, ('state', k, i))
            if k in ('bit_buf_', 'bit_count_'): v = K(8 * z, 0)
            if k == 'first_': v = zext(atom(1, ('state', k, i)), 8) if not case else K(8, int(case == 'first'))
            if sz == 16: st.user.setdefault('lanes', set()).add(k)
            st.mem.setdefault(E, []).append((K(64, ce[k][1] + i), z, v)); st.mem.setdefault(D, []).append((K(64, cd[o][1] + i), z, v))
    for base, cls in ((E, ce), (D, cd)):
        if 'field_size_' in cls: st.mem.setdefault(base, []).append((K(64, cls['field_size_'][1]), 8, atom(64, ('field size',)))); st.hi[(64, ('field size',))] = 8; st.lo[(64, ('field size',))] = 1
        if 'fields_count_' in cls: st.mem.setdefault(base, []).append((K(64, cls['fields_count_'][1]), 8, K(64, n)))
        for i in range(4 if n else 1):
            st.mem.setdefault(base, []).append((K(64, cls['offset_'][1] + 8 * i), 8, offs[i] if not n or i < n else K(64, 0)))
        if 'multiplier_' in cls:
            z = 8 if T == 'double' else 4
            for i in range(4 if n else 1): st.mem[base].append((K(64, cls['multiplier_'][1] + z * i), z, F(('multiplier', base, i))))
    for i, o in enumerate(offs):
        st.hi[(64, ('offset', i))] = (1 << 28)
    st.hi[REST] = 1 << 62
    for base, f in ((E, fe), (D, fd)):
        fns = [v for v in m.vtables.values() if f.name in v]
        if len(fns) == 1:
            st.mem.setdefault(base, []).append((K(64, 0), 8, P(('vt', f.name))))
            st.mem[('vt', f.name)] = [(K(64, 8 * (i - 2)), 8, P(('fn', x))) for i, x in enumerate(fns[0]) if i >= 2 and x and not x.startswith('@')]
    V, O = ('arg', 'point_view'), ('arg', 'output')
    st.mem[V] = [(K(64, 0), 8, P(('pt',))), (K(64, 8), 8, atom(64, ('point size',)))]
    st.mem[O] = [(K(64, 0), 8, P(('out',))), (K(64, 8), 8, atom(64, ('room',)))]
    for a, b in zip(fe.args, (E, V, O)): st.env[a['i']] = P(b)
    if case and case != 'first':
        pk = [k for k in pair if size_of(m, ce[k]) * 8 == {'double': 64, 'float': 32}[T] and k != 'bit_buf_']
        if len(pk) != 1: ctx.ob('one member holds the previous value', w, False, 'candidates %s' % pk); return
        W = 8 * size_of(m, ce[pk[0]]); old = bits_of(atom(W, ('state', pk[0], 0)))
        d = [frozenset()] * W
        if case != 'same':
            L, Tz = case
            for i in range(Tz, W - L): d[i] = frozenset([vg.ONE]) if i in (Tz, W - L - 1) else frozenset([((W, ('difference',)), i)])
        st.mem[('pt',)] = [(offs[0], W // 8, mkbits(W, [x ^ y for x, y in zip(old, d)]))]
    ee = VG(fe, models=setup_models(1), disjoint=None); ee.cls = ce
    r = ee.run(st)
    ctx.ob('encode returns', w, bool(r), 'no returning path')
    done = 0
    for _, s, ret in r:
        end = to_ptr(ee.load(s, O, K(64, 0), 8, 'ptr')); used = norm(s, end[2])
        room = norm(s, ee.load(s, O, K(64, 8), 8, 'i64', 64))
        gor = 'bits' in s.user
        ctx.ob('the output view advances by what was written', w, end[1] == ('out',) and same(s, room, vsub(atom(64, ('room',)), used)), 'data %s, size %s' % (show(end, 80), show(room, 80)))
        if not gor and isinstance(ret, tuple): ctx.ob('the returned size is what was written', w, same(s, ret, used), 'returns %s, advances by %s' % (show(ret, 80), show(used, 80)))
        if gor:
            cnt = norm(s, ee.load(s, E, K(64, ce['bit_count_'][1]), 1, 'i8', 8)); buf = norm(s, ee.load(s, E, K(64, ce['bit_buf_'][1]), 8, 'i64', 64))
            ctx.ob('every value ends on a byte boundary', w, same(s, cnt, K(8, 0)), 'bits left %s' % show(cnt, 80))
        for skip in skips:
            done += 1
            z = s.copy(); z.shift_rule = st.shift_rule; z.env = {}; z.user = dict(s.user); z.user['items'] = s.user.get('bits', ()); z.user.pop('bad', None); z.user['bad'] = []
            z.mem = dict(z.mem); n0 = len(z.conds)
            I, DV = ('arg', 'input'), ('arg', 'dest')
            z.mem[I] = [(K(64, 0), 8, P(('out',))), (K(64, 8), 8, vadd(used, atom(*REST)))]
            if skip: z.mem[D] = [(o, q, K(64, 0xffffffff) if any(same(z, o, K(64, cd['offset_'][1] + 8 * i)) for i in range(n or 1)) else v) for o, q, v in z.mem[D]]
            rest = list(fd.args)
            z.env[rest[0]['i']] = P(D); z.env[rest[1]['i']] = P(I); z.env[rest[2]['i']] = P(('dst',)) ; 
            for a in rest[3:]: z.env[a['i']] = atom(64, ('dest size',))
            ed = VG(fd, models=setup_models(1)); ed.cls = cd
            rr = ed.run(z)
            ctx.ob('decode accepts what encode wrote', w, bool(rr), 'no returning path')
            for _, t, _v in rr:
                tag = w + (' (skipped)' if skip else '')
                extra = [c for c, _ in t.conds[n0:] if 'dest size' not in repr(c) and 'bit_count_' not in repr(c)]
                ctx.ob('decode depends on nothing the encoder did not settle', tag, not extra, [show(c, 120) for c in extra][:3])
                ctx.ob('decode reads what encode wrote', tag, not t.user.get('bad'), t.user.get('bad'))
                e2 = to_ptr(ed.load(t, I, K(64, 0), 8, 'ptr')); left = norm(t, ed.load(t, I, K(64, 8), 8, 'i64', 64))
                if not gor: ctx.ob('decode consumes what encode wrote', tag, e2[1] == ('out',) and same(t, norm(t, e2[2]), used) and same(t, left, atom(*REST)), 'input continues at %s' % show(e2, 100))
                else:
                    ctx.ob('decode consumes what encode wrote', tag, not t.user.get('items'), '%d pieces are not read' % len(t.user.get('items', ())))
                    ctx.ob('every value ends on a byte boundary', tag, same(t, ed.load(t, D, K(64, cd['bit_count_'][1]), 1, 'i8', 8), K(8, 0)) and same(t, ed.load(t, D, K(64, cd['bit_buf_'][1]), 8, 'i64', 64), K(64, 0)), 'bits are kept')
                for k, o in pair.items():
                    if k in ('bit_buf_', 'bit_count_'): continue
                    sz = size_of(m, ce[k]); step = 4 if sz == 16 else sz
                    for i in range(0, sz if not n or sz != 16 else 4 * n, step):
                        a = norm(t, ee.load(s, E, K(64, ce[k][1] + i), step, 'i%d' % (8 * step), 8 * step)); b = norm(t, ed.load(t, D, K(64, cd[o][1] + i), step, 'i%d' % (8 * step), 8 * step))
                        ctx.ob('the states correspond after each value', '%s: %s' % (tag, k), same(t, a, b), 'encoder %s, decoder %s' % (show(a, 100), show(b, 100)))
                if skip:
                    ctx.ob('a skipped field is not stored', tag, not t.mem.get(('dst',)), 'something is stored'); continue
                for i in range(n or 1):
                    value(ctx, m, name, T, tag, ee, ed, s, t, offs[i], i, ce, cd, pair)
    ctx.count('path pairs', done)

def size_of(m, c):
    if isinstance(c[2], int) and c[2]: return c[2]
    return SIZE.get(c[3]) or {'bool': 1}.get(c[3]) or (m.type(c[3]) or {}).get('size') or 0

def value(ctx, m, name, T, tag, ee, ed, s, t, off, i, ce, cd, pair):
    if 'field_size_' in ce:
        n = atom(64, ('field size',))
        c = [x for x in t.mem.get(('dst',), ()) if ed.dist(t, x[0], off) == 0]
        ok = len(c) == 1 and same(t, c[0][1] if isinstance(c[0][1], tuple) else K(64, c[0][1]), n)
        src = vgstd.cell_content(ed, t, ('dst',), off, n)
        ok = ok and src is not None and src == ('S', ('view', ('pt',), norm(t, off), n, 0))
        ctx.ob('the value is recovered', tag, ok, 'stored %s' % show(c[0][2] if c else None, 120)); return
    n = SIZE.get(T) or 4
    cells = [x for x in t.mem.get(('dst',), ()) if ed.dist(t, x[0], off) is not None]
    size = sum(x[1] for x in cells if isinstance(x[1], int))
    ctx.ob('exactly the field is stored', tag, size == n and all(isinstance(x[1], int) for x in cells), '%s bytes' % size)
    got = norm(t, ed.load(t, ('dst',), off, n, 'i%d' % (8 * n), 8 * n)); src = norm(t, ee.load(s, ('pt',), off, n, 'i%d' % (8 * n), 8 * n))
    if 'multiplier_' not in ce:
        ctx.ob('the value is recovered', tag, same(t, got, src), 'stored %s, encoded %s' % (show(got, 160), show(src, 80))); return
    real = vg.to_float(src); me, md = ('f', ('multiplier', ('enc',), i)), ('f', ('multiplier', ('dec',), i))
    nan = None
    for l, tr in t.facts.items():
        if isinstance(l, tuple) and len(l) == 2 and isinstance(l[0], tuple) and len(l[0]) == 2 and isinstance(l[0][1], tuple) and l[0][1][0] == 'isnan' and repr(real) in repr(l[0][1][1]): nan = tr
    g = vg.to_float(got); gv = vg.fconst(g)
    if nan:
        ctx.ob('NaN is recovered as NaN', tag, gv is not None and gv != gv, 'stored %s' % show(g, 100)); return
    # multiplier * float(quantised)
    k = g[1]
    ok = isinstance(k, tuple) and k[0] == 'fmul' and md in k[2:]
    q = None
    if ok:
        o = [x for x in k[2:] if x != md]
        ok = len(o) == 1 and isinstance(o[0][1], tuple) and o[0][1][0] == 'sitofp'
        if ok: q = norm(t, o[0][1][2])
    ctx.ob('a lossy value is the quantised integer times the resolution', tag, ok, 'stored %s' % show(g, 160))
    if not ok: return
    txt = repr(q)
    at = [a for a in vg.lin_of(q)[1]] if q[0] != 'b' else [(q[1], ('bits', q[2]))]
    atoms = set()
    def walk(x):
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == 'state': atoms.add(x)
            if x and x[0] == 'multiplier': atoms.add(x)
            for y in x: walk(y)
    walk(q)
    ok = 'round' in txt and atoms == {('multiplier', ('enc',), i)} and repr(real) in txt and ('fmul' in txt or 'fdiv' in txt)
    ctx.ob('the quantised integer is the rounded quotient of the encoded value alone', tag, ok, 'quantised %s' % show(q, 200))
    ctx.ob('the encoder knows whether the value is a number', tag, nan is False, 'no test for NaN on this path')

class Rec:
    def need(self, c, msg):
        if not c: raise RuntimeError(msg)
        return c
    def __init__(self): self.obs = {}; self.cov = {}
    def ob(self, rule, where, ok, detail='', key=None):
        if not ok or (rule, where) not in self.obs: self.obs[rule, where] = (bool(ok), detail)
        return ok
    def count(self, k, n=1): self.cov[k] = self.cov.get(k, 0) + n

def parallel(ctx, jobs):
    def job(part):
        r = Rec()
        for f in part: f(r)
        return r
    n = 32
    for r in par.run([(lambda p=jobs[i::n]: job(p)) for i in range(n)]):
        for (rule, where), (ok, detail) in r.obs.items(): ctx.ob(rule, where, ok, detail)
        for k, n_ in r.cov.items(): ctx.count(k, n_)

def varint(ctx):
    m = build.module('core', [r'^Cloudini::encodeVarint64', r'^Cloudini::decodeVarint'])
    enc = [f for f in m.roots if 'encode' in f.q]; dec = [f for f in m.roots if 'decode' in f.q]
    ctx.need(enc and dec, 'variable-length integer primitives not found')
    enc, dec = enc[0], dec[0]
    st = St(); X = atom(64, 'x'); st.env[enc.args[0]['i']] = X; st.env[enc.args[1]['i']] = P(('out',))
    e = VG(enc, sym_unroll=1); r = e.run(st)
    ctx.ob('an integer takes 1 to 10 bytes', 'encodeVarint64', len(r) >= 10 and all(isk(v) and 1 <= v[2] <= 10 and len(s.mem.get(('out',), ())) == v[2] for _, s, v in r), 'lengths %s' % [show(v, 20) for _, s, v in r])
    for _, s, v in r:
        if not isk(v): continue
        w = 'encodeVarint64 of %d bytes' % v[2]
        for extra in (0, 1):
            z = s.copy(); z.mem[('in',)] = z.mem.get(('out',), []); z.env = {}; n0 = len(z.conds)
            z.hi[REST] = 1 << 62
            z.env[dec.args[0]['i']] = P(('in',)); z.env[dec.args[1]['i']] = v if not extra else vadd(v, atom(*REST)); z.env[dec.args[2]['i']] = P(('val',))
            rr = VG(dec, sym_unroll=1).run(z)
            ctx.ob('decode accepts what encode wrote', w, len(rr) > 0, 'no returning path')
            for _, t, u in rr:
                c = t.mem.get(('val',), ())
                y = norm(t, c[-1][2]) if c else None
                # the marker 0 belongs to NaN: only the smallest integer wraps to it
                ctx.ob('the value is recovered', w, y is not None and same(t, y, X), 'decoded %s' % show(y, 120))
                ctx.ob('decode consumes what encode wrote', w, same(t, norm(t, u), v), 'reads %s bytes' % show(u, 60))
                more = [(c2, q) for c2, q in t.conds[n0:] if 'bytes behind' not in repr(c2)]
                bad = [c2 for c2, q in more if not marker_only(t, c2, q, z, X)]
                ctx.ob('decode depends on nothing the encoder did not settle', w, not bad, [show(c2, 100) for c2 in bad][:3])
        # no integer may be written as the marker of NaN
        if v[2] == 1:
            b = norm(s, e.load(s, ('out',), K(64, 0), 1, 'i8', 8))
            nz = decide(s, cmpv(s, 'eq', b, K(8, 0), 8))
            ctx.ob('no integer is written as the NaN marker', 'encodeVarint64', nz is False, 'the byte 0 is written when %s = 0' % show(b, 80))
    ctx.count('integer lengths', len(r))
def marker_only(t, c, q, z, X): return 'eq0' in repr(c)[:200]

def bitio(ctx):
    m = build.module('core', [r'::putBits$', r'::getBits$'])
    fs = {}
    for f in m.roots:
        g = re.match(r'.*?Cloudini::(Field(?:En|De)coder\w+(?:<[^<>]*>)?)::(putBits|getBits)\(', f.full)
        if g: fs.setdefault(g.group(2), []).append((f, g.group(1)))
    ctx.need('putBits' in fs and 'getBits' in fs, 'bit packing primitives not found')
    for f, cls in fs['putBits']:
        ce = cfactory.members(m, 'Cloudini::' + cls); E, O = ('enc',), ('arg', 'o')
        for c in range(8):
            for n in range(1, 65):
                st = St(); w = '%s::putBits of %d bits after %d' % (cls, n, c)
                buf = [frozenset([((64, 'buf'), i)]) for i in range(c)]; v = atom(64, ('v',))
                st.mem[E] = [(K(64, ce['bit_buf_'][1]), 8, mkbits(64, buf + [frozenset()] * (64 - c))), (K(64, ce['bit_count_'][1]), 1, K(8, c))]
                st.mem[O] = [(K(64, 0), 8, P(('out',))), (K(64, 8), 8, atom(64, ('room',)))]
                for a, x in zip(f.args, (P(E), v, K(8, n), P(O))): st.env[a['i']] = x
                e = VG(f); r = e.run(st)
                want = buf + bits_of(v)[:n]; nb = (c + n) // 8
                ok = len(r) == 1
                det = '%d paths' % len(r)
                if ok:
                    s, ret = r[0][1], r[0][2]
                    cells = [(o, z, x) for o, z, x in s.mem.get(('out',), ())]
                    got = [b for i in range(nb) for b in bits_of(norm(s, e.load(s, ('out',), K(64, i), 1, 'i8', 8)))]
                    left = bits_of(norm(s, e.load(s, E, K(64, ce['bit_buf_'][1]), 8, 'i64', 64))); cnt = e.load(s, E, K(64, ce['bit_count_'][1]), 1, 'i8', 8)
                    end = to_ptr(e.load(s, O, K(64, 0), 8, 'ptr')); rm = e.load(s, O, K(64, 8), 8, 'i64', 64)
                    k = c + n - 8 * nb
                    ok = got == want[:8 * nb] and left == want[8 * nb:] + [frozenset()] * (64 - k) and same(s, cnt, K(8, k)) and sum(z for _, z, _ in cells) == nb and same(s, ret, K(64, nb)) and same(s, end[2], K(64, nb)) and same(s, rm, vsub(atom(64, ('room',)), K(64, nb)))
                    det = 'writes %d bytes, keeps %s bits' % (len(cells), show(cnt, 30))
                ctx.ob('bits are appended least significant first', w, ok, det); ctx.count('bit packing cases')
    for f, cls in fs['getBits']:
        cd = cfactory.members(m, 'Cloudini::' + cls); D, I = ('dec',), ('arg', 'in')
        for c in range(8):
            for n in range(1, 65):
                w = '%s::getBits of %d bits after %d' % (cls, n, c)
                nb = max(0, (n - c + 7) // 8); st = St(); st.hi[REST] = 1 << 62
                buf = [frozenset([((64, 'buf'), i)]) for i in range(c)]
                st.mem[D] = [(K(64, cd['bit_buf_'][1]), 8, mkbits(64, buf + [frozenset()] * (64 - c))), (K(64, cd['bit_count_'][1]), 1, K(8, c))]
                st.mem[I] = [(K(64, 0), 8, P(('src',))), (K(64, 8), 8, vadd(K(64, nb), atom(*REST)))]
                for a, x in zip(f.args, (P(D), K(8, n), P(I))): st.env[a['i']] = x
                e = VG(f); r = e.run(st)
                r = [x for x in r if not any('bytes behind' in repr(cc) and False for cc, _ in x[1].conds)]
                ok = len(r) == 1; det = '%d paths' % len(r)
                if ok:
                    s, ret = r[0][1], r[0][2]
                    want = buf + [b for i in range(nb) for b in bits_of(norm(s, e.load(s, ('src',), K(64, i), 1, 'i8', 8)))]
                    left = bits_of(norm(s, e.load(s, D, K(64, cd['bit_buf_'][1]), 8, 'i64', 64))); cnt = e.load(s, D, K(64, cd['bit_count_'][1]), 1, 'i8', 8)
                    end = to_ptr(e.load(s, I, K(64, 0), 8, 'ptr')); rm = e.load(s, I, K(64, 8), 8, 'i64', 64)
                    k = c + 8 * nb - n
                    ok = bits_of(norm(s, ret)) == want[:n] + [frozenset()] * (64 - n) and left == want[n:] + [frozenset()] * (64 - k) and same(s, cnt, K(8, k)) and same(s, end[2], K(64, nb)) and same(s, rm, atom(*REST))
                    det = 'keeps %s bits, reads up to %s' % (show(cnt, 30), show(end, 60))
                ctx.ob('bits are taken least significant first, in as few bytes as possible', w, ok, det); ctx.count('bit packing cases')

CTOR = [r'Cloudini::Field(En|De)coder\w+(<[^<>]*>)?::Field(En|De)coder\w+\(', r'Cloudini::Field(En|De)coder\w+(<[^<>]*>)?::reset\(']
def methods():
    m = build.module('core', CTOR); out = {}
    for f in m.roots:
        g = re.match(r'.*?Cloudini::Field(Encoder|Decoder)(\w+?)(<([^<>]*)>)?::(\w+)\(', f.full)
        if g: out.setdefault((g.group(2), g.group(4)), {})[g.group(1)[:3].lower(), 'reset' if g.group(5) == 'reset' else 'new'] = f
    return m, out
def built(f, n=None):
    """state after a constructor with unknown arguments"""
    st = St(); T = ('this',); st.env[f.args[0]['i']] = P(T)
    for i, (a, d) in enumerate(zip(f.args[1:], f.dtypes[2:])):
        if a['t'] == 'ptr':
            st.env[a['i']] = P(('list',)); vgstd.setvec(st, P(('list',)), P(('elems',)), n, 16)
            for k in range(n): st.mem.setdefault(('elems',), []).extend([(K(64, 16 * k), 8, atom(64, ('offset', k))), (K(64, 16 * k + 8), 4, F(('resolution', k)))])
        elif a['t'] in ('float', 'double'): st.env[a['i']] = F(('resolution', 0))
        else: st.env[a['i']] = atom(int(a['t'][1:]), ('ctor', i))
    e = VG(f, models=vgstd.VEC, summarise=False); return e, e.run(st)
def after_reset(f):
    st = St(); st.env[f.args[0]['i']] = P(('this',))
    e = VG(f, models=setup_models(1)); return e, e.run(st)

def initial(ctx, both=True, relation=True):
    """constructors and reset(): the same initial state on both sides"""
    m, cl = methods(); n0 = 0
    for key in sorted(cl, key=str):
        name, T = key; w = 'Field*%s%s' % (name, '<%s>' % T if T else ''); d = cl[key]
        mem = {s: cfactory.members(m, 'Cloudini::Field%s%s%s' % ('Encoder' if s == 'enc' else 'Decoder', name, '<%s>' % T if T else '')) for s in ('enc', 'dec')}
        many = 'fields_count_' in mem['enc']; res = {}
        for s in ('enc', 'dec'):
            for k in ('new', 'reset'):
                f = d.get((s, k))
                if f is None: continue
                for n in ((2, 3, 4) if many and k == 'new' else (None,)):
                    e, r = built(f, n) if k == 'new' else after_reset(f)
                    state = [c for q, c in mem[s].items() if q not in PARAMS and not q.startswith('_vptr')]
                    ctx.ob('constructor and reset have one outcome', '%s %s %s' % (w, s, k), len(r) == 1 or (r and not state), '%d outcomes' % len(r))
                    for _, s2, _v in r: res.setdefault((s, k, n), (e, s2))
        def get(s, k, n, nm):
            if (s, k, n) not in res: return None
            e, st = res[s, k, n]; c = mem[s][nm]; z = size_of(m, c)
            out = []
            for i in range(0, z, min(z, 4 if z == 16 else 8)):
                q = min(z, 4 if z == 16 else 8); out.append(norm(st, e.load(st, ('this',), K(64, c[1] + i), q, 'i%d' % (8 * q), 8 * q)))
            return out
        se, sd = [{k for k in mem[s] if k not in PARAMS and not k.startswith('_vptr') and mem[s][k][1] is not None and size_of(m, mem[s][k])} for s in ('enc', 'dec')]
        for s, names in (('enc', se), ('dec', sd)):
            for nm in sorted(names):
                for n in ((2, 3, 4) if many else (None,)):
                    a, b = get(s, 'new', n, nm), get(s, 'reset', None, nm)
                    n0 += 1
                    # bits of an empty bit buffer do not matter only when both sides clear them
                    ctx.ob('reset restores the initial state', '%s %s: %s' % (w, 'encoder' if s == 'enc' else 'decoder', nm), a is not None and a == b and all(isk(x) for x in b), 'constructed %s, reset %s' % ([show(x, 60) for x in a or []], [show(x, 60) for x in b or []]))
        if both:
            pair = {k: k for k in se & sd}
            for k in sorted(se - sd):
                o = [x for x in sorted(sd - se) if mem['dec'][x][2:] == mem['enc'][k][2:]]
                if len(o) == 1: pair[k] = o[0]
            for k, o in sorted(pair.items()):
                n0 += 1
                ctx.ob('both sides start in the same state', '%s: %s' % (w, k), get('enc', 'reset', None, k) == get('dec', 'reset', None, o) is not None, 'encoder %s, decoder %s' % ([show(x, 60) for x in get('enc', 'reset', None, k) or []], [show(x, 60) for x in get('dec', 'reset', None, o) or []]))
        if relation and 'multiplier_' in mem['enc']:
            for n in ((2, 3, 4) if many else (None,)):
                for i in range(n or 1):
                    z = 8 if T == 'double' else 4; v = {}
                    for s in ('enc', 'dec'):
                        if (s, 'new', n) not in res: continue
                        e, st = res[s, 'new', n]; v[s] = vg.to_float(norm(st, e.load(st, ('this',), K(64, mem[s]['multiplier_'][1] + z * i), z, 'double' if z == 8 else 'float')))
                    R = F(('resolution', i)); n0 += 1
                    ctx.ob('the decoder multiplies by the resolution', '%s field %d of %s' % (w, i, n or 1), v.get('dec') == R, 'multiplies by %s' % show(v.get('dec', F(('nothing',))), 80))
                    q = v.get('enc')
                    ctx.ob('the encoder divides by the resolution', '%s field %d of %s' % (w, i, n or 1), q is not None and inverse(q, R), 'multiplies by %s' % show(q or F(('nothing',)), 80))
        for nm in ('offset_',):
            if nm in mem['enc'] and not many:
                for s in ('enc', 'dec'):
                    if (s, 'new', None) in res:
                        e, st = res[s, 'new', None]; x = e.load(st, ('this',), K(64, mem[s][nm][1]), 8, 'i64', 64); n0 += 1
                        ctx.ob('the field offset is kept', '%s %s' % (w, s), norm(st, x) == atom(64, ('ctor', 0)), show(x, 60))
            elif nm in mem['enc']:
                for s in ('enc', 'dec'):
                    for n in (2, 3, 4):
                        if (s, 'new', n) in res:
                            e, st = res[s, 'new', n]; xs = [norm(st, e.load(st, ('this',), K(64, mem[s][nm][1] + 8 * i), 8, 'i64', 64)) for i in range(n)]; n0 += 1
                            ctx.ob('the field offset is kept', '%s %s of %d' % (w, s, n), xs == [atom(64, ('offset', i)) for i in range(n)], [show(x, 40) for x in xs])
    ctx.count('state obligations', n0)
def inverse(q, R):
    """1/R, possibly through a conversion of precision"""
    def strip(x):
        while isinstance(x, tuple) and x[0] == 'f' and isinstance(x[1], tuple) and x[1][0] in ('fpext', 'fptrunc', 'cast'): x = x[1][-1] if isinstance(x[1][-1], tuple) else x[1][1]
        return x
    q = strip(q); k = q[1]
    if not (isinstance(k, tuple) and k[0] == 'fdiv'): return False
    a = [strip(x) for x in k if isinstance(x, tuple) and x and x[0] == 'f']
    return len(a) == 2 and vg.fconst(a[0]) == 1.0 and a[1] == R

def run(ctx):
    m = build.module('core', [r'Cloudini::FieldEncoder\w+(<[^<>]*>)?::encode\(', r'Cloudini::FieldDecoder\w+(<[^<>]*>)?::decode\(', r'Cloudini::Field(En|De)coder\w+(<[^<>]*>)?::reset\('], noinline=PRIM)
    cl = classes(m)
    ctx.need(len(cl) >= 6, 'field codecs not found')
    jobs = [varint, bitio, initial]
    for key in sorted(cl, key=str):
        d = cl[key]
        ctx.ob('every encoder has a decoder', 'Field*%s<%s>' % key, 'encode' in d and 'decode' in d, 'only %s' % list(d))
        if len(d) != 2: continue
        ce = cfactory.members(m, 'Cloudini::FieldEncoder%s%s' % (key[0], '<%s>' % key[1] if key[1] else ''))
        fe, fd = d['encode'], d['decode']
        if 'bit_buf_' in ce:
            W = 64 if key[1] == 'double' else 32
            jobs += [(lambda r, c=c, k=key, fe=fe, fd=fd: codec(r, m, k, fe, fd, case=c)) for c in ('first', 'same')]
            # every number of leading and trailing zero bits of the difference
            jobs += [(lambda r, c=(L, t), k=key, fe=fe, fd=fd: codec(r, m, k, fe, fd, case=c, skips=(False, True) if c[0] == c[1] else (False,))) for L in range(W) for t in range(W - L)]
        else:
            jobs += [(lambda r, n=n, k=key, fe=fe, fd=fd: codec(r, m, k, fe, fd, n)) for n in ((2, 3, 4) if 'fields_count_' in ce else (None,))]
        ctx.count('codec pairs')
    parallel(ctx, jobs)
