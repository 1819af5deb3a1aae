"""C14: copies and moves of a message object are complete and refer to their own data."""
import re
import build, vg, vgstd, cfactory
from vg import K, P, F, atom, isk, VG, St, same, norm, to_ptr, to_int, show

EXPLAIN = ("Four instantiations (copy/move construction, copy/move assignment of RosPointCloud2, whoever defines the special members) are "
 "evaluated as value graphs over their LLVM IR, with the standard containers as abstract objects (storage, size, content).  The source is "
 "a message whose data view covers the buffer it owns, one whose view points to external bytes and which owns nothing, and one that owns "
 "a buffer but views external bytes; the target of an assignment is any of these as well, or the source itself.  On every returning path "
 "every leaf of the flattened class layout (from debug information) must hold the source's value, the view must be the one over the "
 "target's own storage when the source's was, or the same external bytes otherwise, and a copied source must be unchanged.")
LEVEL_NOTE = EXPLAIN
T = 'cloudini_ros::RosPointCloud2'
SRC, DST = ('arg', 'source'), ('arg', 'target')
VQ = r'^std::vector<.*>::'
SQ = r'^std::(__cxx11::)?basic_string<.*>::'

class Obj:
    """an abstract container: where its storage is, how many elements, which content"""
    def __init__(self, data, n, content): self.data, self.n, self.content = data, n, content
    def key(self): return (self.data, self.n, self.content)
    def __eq__(self, o): return self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self): return 'storage %s, size %s, content %s' % (show(self.data, 60), show(self.n, 40), self.content)
EMPTY = Obj(('p', ('null',), K(64, 0)), K(64, 0), 'empty')

def objs(st): return st.user.setdefault('obj', {})
def get(st, p):
    p = to_ptr(p); return objs(st).get((p[1], p[2]))
def put(st, p, o):
    p = to_ptr(p); d = dict(objs(st)); d[(p[1], p[2])] = o; st.user['obj'] = d
def fresh(st, o): return Obj(o.data if isk(o.n) and o.n[2] == 0 else P(('copy', st.fresh())), o.n, o.content)

def full(e, ins): return e.mod.fn_full.get(ins.get('f')) or ''
def ctor(e, st, ins, q, a):
    par = vgstd.args_of(full(e, ins))
    if len(a) >= 2 and get(st, a[1]) is not None:
        o = get(st, a[1])
        if '&&' in par.split(',')[-1] or '&&' in par.split(',')[0]:
            put(st, a[0], o); put(st, a[1], EMPTY)
        else: put(st, a[0], fresh(st, o))
        return None
    if par in ('()', '(void)') or 'allocator' in par and len(a) <= 2 and 'const*' not in par: put(st, a[0], EMPTY); return None
    st.events.append(('unmodelled', q)); put(st, a[0], Obj(P(('copy', st.fresh())), atom(64, ('n', st.fresh())), ('unknown', st.fresh()))); return None
def assign(e, st, ins, q, a):
    o = get(st, a[1])
    if o is None: st.events.append(('unmodelled', q)); put(st, a[0], Obj(P(('copy', st.fresh())), atom(64, ('n', st.fresh())), ('unknown', st.fresh()))); return to_ptr(a[0])
    me = to_ptr(a[0])[1:] == to_ptr(a[1])[1:]
    if '&&' in vgstd.args_of(full(e, ins)):
        put(st, a[0], o)
        put(st, a[1], EMPTY if not me else Obj(P(('copy', st.fresh())), atom(64, ('n', st.fresh())), ('unspecified after self-move', st.fresh())))
    elif not me: put(st, a[0], fresh(st, o))
    return to_ptr(a[0])
def swap(e, st, ins, q, a):
    x, y = get(st, a[0]), get(st, a[1])
    if x is None or y is None: st.events.append(('unmodelled', q)); return None
    put(st, a[0], y); put(st, a[1], x); return None
def clear(e, st, ins, q, a):
    o = get(st, a[0]); put(st, a[0], Obj(o.data if o else P(('null',)), K(64, 0), 'empty')); return None
def q_size(e, st, ins, q, a):
    o = get(st, a[0]); return o.n if o else None
def q_empty(e, st, ins, q, a):
    o = get(st, a[0]); return vg.cmpv(st, 'eq', o.n, K(64, 0), 64) if o else None
def q_data(e, st, ins, q, a):
    o = get(st, a[0]); return o.data if o else None
def q_end(e, st, ins, q, a):
    o = get(st, a[0]); return P(o.data[1], vg.vadd(o.data[2], o.n)) if o else None
def cassign(e, st, ins, q, a):
    """assign(first, last) of exactly another container's range"""
    if len(a) == 3:
        f, l = to_ptr(a[1]), to_ptr(a[2])
        for o in objs(st).values():
            if o.data == f and l == P(f[1], vg.vadd(f[2], o.n)): put(st, a[0], fresh(st, o)); return None
    return assign(e, st, ins, q, a[:2])
def nop(e, st, ins, q, a): return to_ptr(a[0]) if a and ins.get('t') == 'ptr' and a[0][0] == 'p' else None
MODELS = []
for X in (VQ, SQ):
    MODELS += [(X + r'(vector|basic_string)$', ctor), (X + r'(operator=)$', assign), (X + r'assign$', cassign), (X + r'swap$', swap), (X + r'clear$', clear),
               (X + r'(size|length)$', q_size), (X + r'empty$', q_empty), (X + r'(data|begin|cbegin|c_str)$', q_data), (X + r'(end|cend)$', q_end), (X + r'(~vector|~basic_string|reserve|shrink_to_fit)$', nop)]
MODELS += [(r'^std::(move|forward|addressof|__addressof|as_const)$', nop), (r'^std::swap$', swap), (r'~(RosPointCloud2|RosHeader|PointField)$', nop), (r'^operator delete|^std::_Destroy', lambda e, st, ins, q, a: None)]

def run(ctx):
    noin = [r'^std::']
    m = build.module('core', [r'^cldn_inst::msg_(copy|move)_(construct|assign)\('], noinline=[])
    t = m.type(T); ctx.need(t, 'class %s not found' % T)
    L = layout(m, T)
    ctx.set('leaves', [x[0] for x in L])
    mem = cfactory.members(m, T)
    view = mem['data'][1]; own = mem['owned_data'][1]
    W = {re.search(r'msg_(\w+)', f.q).group(1): f for f in m.roots}
    ctx.need(len(W) == 4, 'the four instantiations were not found')
    n = 0
    KINDS = ('view over its own buffer', 'external view, owns nothing', 'external view, owns a buffer')
    for op, f in sorted(W.items()):
        targets = [None] if op.endswith('construct') else list(KINDS) + ['itself']
        for sk in KINDS:
            for tk in targets:
                n += one(ctx, m, f, op, L, view, own, sk, tk)
    ctx.count('paths', n); ctx.count('functions', len(W))
    ctx.count('leaves of the class', len(L))

SIZES = {'unsigned int': 4, 'int': 4, 'float': 4, 'bool': 1, 'double': 8, 'unsigned long': 8, 'long': 8, 'unsigned short': 2, 'short': 2, 'unsigned char': 1, 'char': 1, 'signed char': 1}
def layout(m, ty, at=0, name=''):
    """(path, offset, size; None for a container) of every leaf"""
    out = []
    for nm, off, sz, tn in m.type(ty)['members']:
        nm = (name + '.' if name else '') + nm; off += at
        if re.match(r'std::(__cxx11::)?(basic_string|vector)<', tn): out.append((nm, off, None)); continue
        s = m.type(tn)
        if tn in SIZES or sz and not (s and s.get('members')): out.append((nm, off, SIZES.get(tn, sz)))
        elif s and s.get('members') and not tn.startswith(('std::', 'Span')): out += layout(m, tn, off, nm)
        else: out.append((nm, off, (s or {}).get('size') or sz or 16))
    return out

def setup(st, base, kind, tag, L, view, own):
    st.mem.setdefault(base, [])
    for nm, off, sz in L:
        if sz is None and off != own:
            a = atom(64, (tag, 'size of', nm)); put(st, P(base, K(64, off)), Obj(P((tag, 'storage of', nm)), a, (tag, nm)))
    n = atom(64, (tag, 'owned size')); od = P((tag, 'owned storage'))
    if kind == 'external view, owns nothing': o = EMPTY
    else: o = Obj(od, n, (tag, 'owned bytes')); st.lo[(64, (tag, 'owned size'))] = 1
    put(st, P(base, K(64, own)), o)
    if kind == 'view over its own buffer': v = (od, n)
    else: v = (P(('external bytes of', tag)), atom(64, (tag, 'external size')))
    st.mem[base] = [(K(64, view), 8, v[0]), (K(64, view + 8), 8, v[1])]
    return o, v

def one(ctx, m, f, op, L, view, own, sk, tk):
    st = St()
    w = '%s, source: %s%s' % (op.replace('_', ' '), sk, '' if tk is None else ', target: %s' % tk)
    o, v = setup(st, SRC, sk, 'source', L, view, own)
    self_ = tk == 'itself'
    if tk and not self_: setup(st, DST, tk, 'target', L, view, own)
    D = SRC if self_ else DST
    before = {k: x for k, x in objs(st).items() if k[0] == SRC}
    a0 = {nm: None for nm, off, sz in L}
    st.env[f.args[0]['i']] = P(D); st.env[f.args[1]['i']] = P(SRC)
    init = st.copy()
    e = VG(f, models=MODELS + vgstd.MODELS)
    e.distinct = lambda x, y: x != y and all(k[0] in ('arg', 'source', 'target', 'external bytes of', 'copy', 'null', 'al') for k in (x, y))
    r = e.run(st)
    ctx.ob('the operation completes', w, bool(r), 'no returning path')
    for _, s, _v in r:
        un = [x[1] for x in s.events if x[0] in ('unmodelled', 'call')]
        if un: ctx.need(False, 'C14: operation not understood: %s' % un[0])
        for nm, off, sz in L:
            if off == view: continue
            if off == own:
                g = get(s, P(D, K(64, own)))
                ctx.ob('the owned bytes are transferred', w, g is not None and same(s, g.n, o.n) and g.content == o.content, '%s instead of %s' % (g, o))
            elif sz is None:
                g = get(s, P(D, K(64, off))); x = before[(SRC, K(64, off))]
                ctx.ob('attribute is transferred', '%s: %s' % (w, nm), g is not None and g.content == x.content and same(s, g.n, x.n), '%s' % (g,))
            else:
                want = e.load(init, SRC, K(64, off), sz, 'i%d' % (8 * sz), 8 * sz); got = e.load(s, D, K(64, off), sz, 'i%d' % (8 * sz), 8 * sz)
                if nm.startswith('is_'): want, got = bool_of(s, want), bool_of(s, got)
                ctx.ob('attribute is transferred', '%s: %s' % (w, nm), same(s, got, want), 'holds %s' % show(got, 120))
            if op.startswith('copy') and not self_:
                if sz is None: ctx.ob('the source of a copy is unchanged', '%s: %s' % (w, nm), get(s, P(SRC, K(64, off))) == before[(SRC, K(64, off))], '%s' % get(s, P(SRC, K(64, off))))
                else: ctx.ob('the source of a copy is unchanged', '%s: %s' % (w, nm), same(s, e.load(s, SRC, K(64, off), sz, 'i%d' % (8 * sz), 8 * sz), e.load(init, SRC, K(64, off), sz, 'i%d' % (8 * sz), 8 * sz)), '')
        p = to_ptr(e.load(s, D, K(64, view), 8, 'ptr')); n = norm(s, e.load(s, D, K(64, view + 8), 8, 'i64', 64))
        if sk == 'view over its own buffer':
            g = get(s, P(D, K(64, own)))
            ctx.ob('the view covers the bytes the object owns', w, g is not None and p == g.data and same(s, n, g.n), 'view %s size %s, own storage %s' % (show(p, 80), show(n, 60), g))
        else:
            ctx.ob('the view stays on the external bytes', w, p == v[0] and same(s, n, v[1]), 'view %s size %s' % (show(p, 80), show(n, 60)))
        if op.startswith('copy') and not self_:
            ctx.ob('the source of a copy is unchanged', '%s: data' % w, to_ptr(e.load(s, SRC, K(64, view), 8, 'ptr')) == v[0] and same(s, norm(s, e.load(s, SRC, K(64, view + 8), 8, 'i64', 64)), v[1]), '')
            g = get(s, P(D, K(64, own)))
            ctx.ob('a copy does not share storage', w, g is not None and (g.data != o.data or o is EMPTY or isk(o.n)), '%s' % g)
    return len(r)

def bool_of(s, v):
    return vg.mkbits(1, [vg.bits_of(norm(s, v))[0]])
