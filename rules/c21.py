"""C21: preprocessing and conversion keep message metadata consistent."""
import re
import build, vg, vgstd, cfactory, loops
from vg import K, P, F, atom, isk, VG, St, Stop, TooMany, same, norm, to_ptr, to_int, decide, cmpv, show, vadd, vsub, vscale, vbin, trunc, zext, assume, notv, apply_sub, bits_of

EXPLAIN = ("Value graphs (LLVM IR, every path, loops by one generic round) of applyResolutionProfile, applyVizLossyPreprocessing, toEncodingInfo, the PCL conversions and the WASM entry points.  Removal: the predicate handed to "
 "remove_if (or the conditions of an erase in a loop) is true exactly when the field's own name is found in the profile and its value equals zero.  Resolution: the round for one field stores the profile's value "
 "exactly for a float field that is found, the default exactly for FLOAT32 fields that are not found, and otherwise nothing; wherever a library function switches a resolution on, the type of the same field is "
 "known on that path to be FLOAT32 or FLOAT64.  Point dropping: on every path the message is left alone, or height times width counts the rounds that kept a point (an inductive relation between the counter and "
 "the length of the new data: both grow together, by one and by one point step), every kept round copies exactly the point of that round to the end, row step is point step times width, and the data view is the "
 "new buffer with its length.  Conversions copy width, height, point step, name, offset and type unchanged, compute row step and data length as the products of the dimensions.")

FT = {'FLOAT32': 7, 'FLOAT64': 8}

class E(VG):
    """remembers where resolutions of fields live"""
    def simple(self, st, ins):
        r = VG.simple(self, st, ins)
        if ins['o'] == 'getelementptr' and str(ins.get('st', '')).endswith('Cloudini::PointField') and ins.get('off') == RES and not ins.get('vars'):
            p = to_ptr(st.env[ins['i']])
            st.user['resptr'] = st.user.get('resptr', frozenset()) | {(p[1], norm(st, p[2]))}
        return r
RES = 40; TYPE = 36; SIZE = 48

# ------------------------------------------------------------------ models
BV = r'^std::vector<unsigned char.*>::'
MODELS = []
def model(rx):
    def d(f): MODELS.append((rx, f)); return f
    return d
def cell(e, st, p, k): p = to_ptr(p); return norm(st, e.load(st, p[1], vadd(p[2], K(64, 8 * k)), 8, 'i64', 64))
def vptr(e, st, p): p = to_ptr(p); return to_ptr(e.load(st, p[1], p[2], 8, 'ptr'))
def setc(e, st, p, k, v): p = to_ptr(p); e.store(st, p[1], vadd(p[2], K(64, 8 * k)), 8, v)
def key(p): p = to_ptr(p); return P(('bytes of', p[1], p[2]))
@model(BV + r'vector$')
def _ctor(e, st, ins, q, a):
    if not (a[0][0] == 'p'): return None
    full = vgstd.full(e, ins)
    if re.search(r'vector\(std::vector<unsigned char[^()]*>(&&| const&)\)', full) and len(a) > 1:
        setc(e, st, a[0], 0, vptr(e, st, a[1])); setc(e, st, a[0], 1, cell(e, st, a[1], 1)); return None
    n = K(64, 0)
    if len(a) > 1 and a[1][0] in 'klb' and a[1][1] == 64: n = norm(st, a[1])
    setc(e, st, a[0], 0, key(a[0])); setc(e, st, a[0], 1, n); return None
@model(BV + r'~vector$')
def _dtor(e, st, ins, q, a): return None
@model(BV + r'size$')
def _size(e, st, ins, q, a): return cell(e, st, a[0], 1)
@model(BV + r'(data|begin|cbegin)$')
def _data(e, st, ins, q, a): return vptr(e, st, a[0])
@model(BV + r'(end|cend)$')
def _end(e, st, ins, q, a): p = vptr(e, st, a[0]); return P(p[1], vadd(p[2], cell(e, st, a[0], 1)))
@model(BV + r'empty$')
def _empty(e, st, ins, q, a): return cmpv(st, 'eq', cell(e, st, a[0], 1), K(64, 0), 64)
@model(BV + r'(operator\[\]|at)$')
def _idx(e, st, ins, q, a): p = vptr(e, st, a[0]); return P(p[1], vadd(p[2], norm(st, to_int(a[1], 64))))
@model(BV + r'clear$')
def _clear(e, st, ins, q, a): setc(e, st, a[0], 1, K(64, 0)); return None
@model(BV + r'(reserve|shrink_to_fit)$')
def _reserve(e, st, ins, q, a): return None
@model(BV + r'resize$')
def _resize(e, st, ins, q, a): setc(e, st, a[0], 1, norm(st, to_int(a[1], 64))); return None
@model(BV + r'push_back$')
def _push(e, st, ins, q, a): setc(e, st, a[0], 1, vadd(cell(e, st, a[0], 1), K(64, 1))); return None
@model(BV + r'insert$')
def _insert(e, st, ins, q, a):
    if len(a) != 4: return None
    pos, f, l = to_ptr(a[1]), to_ptr(a[2]), to_ptr(a[3]); d = vptr(e, st, a[0]); n = cell(e, st, a[0], 1)
    if pos[1] != d[1] or not same(st, pos[2], vadd(d[2], n)) or f[1] != l[1]: st.events.append(('unclear', 'insert')); return None
    ln = norm(st, vsub(l[2], f[2])); e.copy(st, P(d[1], vadd(d[2], n)), f, ln); setc(e, st, a[0], 1, vadd(n, ln)); return pos
@model(BV + r'(operator=|assign|swap)$')
def _assign(e, st, ins, q, a):
    if len(a) != 2: st.events.append(('unclear', 'assign')); return a[0]
    p, n = vptr(e, st, a[1]), cell(e, st, a[1], 1)
    if q.endswith('swap'): setc(e, st, a[1], 0, vptr(e, st, a[0])); setc(e, st, a[1], 1, cell(e, st, a[0], 1))
    setc(e, st, a[0], 0, p); setc(e, st, a[0], 1, n); return a[0]
@model(r'^std::vector<Cloudini::PointField.*>::(operator=|assign)$')
def _fieldsassign(e, st, ins, q, a): st.events.append(('call', q, tuple(a), ())); return a[0]
# the profile: a map from names to values
MAP = r'^std::(unordered_)?map<.*>::'
def node(mp, k): mp, k = to_ptr(mp), to_ptr(k); return P(('node', mp[1], mp[2], k[1], k[2]))
def absent(n): return atom(1, ('absent', n[1]))
@model(MAP + r'find$')
def _find(e, st, ins, q, a): return node(a[0], a[1])
@model(MAP + r'(end|cend)$')
def _mend(e, st, ins, q, a): return P(('mapend',))
@model(MAP + r'(count|contains)$')
def _count(e, st, ins, q, a): return zext(notv(absent(node(a[0], a[1]))), ins['w'], st) if ins.get('w', 1) > 1 else notv(absent(node(a[0], a[1])))
@model(MAP + r'at$')
def _at(e, st, ins, q, a): n = node(a[0], a[1]); return P(n[1], K(64, 32))
@model(r'^std::(__detail::)?operator(==|!=)$')
def _iteq(e, st, ins, q, a):
    if not all(x[0] == 'p' for x in a) or len(a) != 2: return None
    v = [to_ptr(e.load(st, x[1], x[2], 8, 'ptr')) for x in a]
    ns = [x for x in v if x[1][0] == 'node']; es = [x for x in v if x[1] == ('mapend',)]
    if len(ns) != 1 or len(es) != 1: return None
    r = absent(ns[0]); return notv(r) if q.endswith('!=') else r
@model(r'^std::(_Rb_tree_(const_)?iterator|__detail::_Node_(const_)?iterator)<.*>::operator(->|\*)$')
def _deref(e, st, ins, q, a): p = to_ptr(a[0]); return to_ptr(e.load(st, p[1], p[2], 8, 'ptr'))
@model(r'^std::vector<Cloudini::PointField.*>::erase$')
def _erase(e, st, ins, q, a):
    st.events.append(('erase', tuple(a)))
    v = vgstd.vec_of(st, a[0])
    if v: vgstd.setvec(st, a[0], v[0], atom(64, ('fields left', st.fresh())), v[2])
    return a[1]
@model(r'^std::remove_if')
def _removeif(e, st, ins, q, a): st.events.append(('remove_if', tuple(a), ins.get('f'))); return P(('kept end',))
NOIN = [r'^std::(unordered_)?map<.*>::(find|count|at|contains|end|cend)$', r'^std::remove_if', r'^std::vector<.*>::(erase|vector|~vector|operator=|resize|reserve|insert|assign|swap|push_back|size|data|begin|end|cbegin|cend|empty|clear|operator\[\]|at|shrink_to_fit)$',
        r'^std::(__detail::)?operator(==|!=)$', r'^std::_Rb_tree.*operator(->|\*)$', r'_Node_(const_)?iterator<.*>::operator(->|\*)$', r'unordered_dense', r'packVoxel']

def run_fn(ctx, f, extra=(), fields_at=None, args=None):
    st = St()
    for k, a in enumerate(f.args):
        t = a['t']; st.env[a['i']] = P(('arg', k)) if t == 'ptr' else F(('arg', k)) if not t.startswith('i') else atom(int(t[1:]), ('arg', k))
    if fields_at: vgstd.setvec(st, fields_at, P(('fields',)), atom(64, ('nfields',)), SIZE)
    e = E(f, models=list(extra) + MODELS + vgstd.VEC)
    try: return e, st, e.run(st)
    except (Stop, TooMany) as x: ctx.need(False, '%s could not be evaluated: %s' % (f.q, x))

def rounds(e):
    for l in e.loops.values():
        for i in l:
            for c, ev, s in i['body']: yield i, c, ev, s

def kinds(e, st, base, off):
    """is the type of the field known to be one of the float types? True / False / None"""
    t = to_int(e.load(st, base, vadd(off, K(64, TYPE - RES)), 1, 'i8', 8), 8)
    r = {n: decide(st, cmpv(st, 'eq', t, K(8, c), 8)) for n, c in FT.items()}
    return r
def switched_on(e, st):
    """resolutions this state has switched on: (base, offset of the resolution, value)"""
    out = []
    for base, off in st.user.get('resptr', ()):
        v = [x for o, z, x in st.mem.get(base, ()) if z == 1 and e.dist(st, o, vadd(off, K(64, 4))) == 0]
        if v and isk(v[-1]) and v[-1][2] == 1: out.append((base, off, e.load(st, base, off, 4, 'float')))
    return out
def resolutions(ctx, e, res, who):
    n = 0
    for st in [s for k, s, v in res if k == 'ret'] + [s for _, _, _, s in rounds(e)]:
        for base, off, v in switched_on(e, st):
            k = kinds(e, st, base, off); n += 1
            ctx.ob('a resolution is attached to floating-point fields only', who, True in k.values(), 'switched on for a field of a type that may be no float', key='res|%s|%s' % (who, show(('p', base, off), 60)))
    return n

# ------------------------------------------------------------------ removal and resolutions by profile
def literals(ctx, st, sec):
    """(second == 0) as far as the path knows"""
    for zero in (F(('c', '0')), F(('zero',)), F(('c', '0.0')), F(('c', '0.000000e+00'))):
        for p, x, y in [(p, x, y) for p in ('oeq', 'une', 'ueq', 'one') for x, y in ((sec, zero), (zero, sec))]:
            d = decide(st, atom(1, ('fcmp', p, x, y)))
            if d is not None: return d if p in ('oeq', 'ueq') else not d
    return None
def removal(ctx, e, st, removed, name, who):
    """one way a field is judged"""
    ab = [a for a in found_atoms(st) ]
    ok = False; why = 'no look-up of the name on this path'
    for n in ab:
        own = n[3:] == name
        d = decide(st, atom(1, ('absent', n)))
        sec = e.load(st, n, K(64, 32), 4, 'float')
        z = literals(ctx, st, sec)
        if not own: why = 'another name is looked up'; continue
        if removed: ok = d is False and z is True; why = 'a field is removed that the profile does not name with the value zero'
        else: ok = d is True or (d is False and z is False); why = 'a field named with the value zero is kept'
        if ok: break
    ctx.ob('exactly the fields named with the value zero are removed', who, ok, why)
def found_atoms(st):
    out = []
    for k in list(st.facts):
        def walk(t):
            if isinstance(t, tuple):
                if len(t) == 2 and t[0] == 'absent': out.append(t[1]); return
                for x in t: walk(x)
            elif isinstance(t, frozenset):
                for x in t: walk(x)
        walk(k)
    return list(dict.fromkeys(out))

def profile(ctx):
    m = build.module('core', [r'^cloudini_ros::applyResolutionProfile\('], noinline=NOIN)
    fs = [f for f in m.roots if f.q.endswith('applyResolutionProfile')]
    ctx.need(len(fs) == 1, 'applyResolutionProfile not found'); f = fs[0]
    PA = [k for k, a in enumerate(f.args) if a['t'] == 'ptr']
    e, st, res = run_fn(ctx, f, fields_at=P(('arg', PA[1])))
    who = 'applyResolutionProfile'
    # removal
    calls = [ev for k, s, v in res for ev in s.events if ev[0] == 'remove_if']
    if calls:
        for k, s, v in res:
            if k != 'ret': continue
            er = [ev for ev in s.events if ev[0] == 'erase']; rm = [ev for ev in s.events if ev[0] == 'remove_if']
            ok = len(rm) == 1 and len(er) == 1 and same(s, to_int(rm[0][1][0], 64), to_int(P(('fields',)), 64)) and to_ptr(rm[0][1][1]) == P(('fields',), vscale(atom(64, ('nfields',)), SIZE)) and \
                to_ptr(er[0][1][1]) == P(('kept end',)) and to_ptr(er[0][1][2]) == P(('fields',), vscale(atom(64, ('nfields',)), SIZE))
            ctx.ob('the removed fields are taken out of the list', who, ok, 'remove_if and erase do not cover the whole list')
        pm = build.module('core', [r'^(bool )?__gnu_cxx::__ops::_Iter_pred<.*operator\(\)<.*PointField\*'], noinline=NOIN)
        ps = [g for g in pm.roots if g.q.endswith('operator()') or 'operator()' in g.full]
        ps = [g for g in ps if re.search(r'__normal_iterator<Cloudini::PointField\*', g.full)]
        if len(ps) > 1: ps = [g for g in ps if 'applyResolutionProfile' in g.full]
        ctx.need(len(ps) == 1, 'the predicate of remove_if was not found (%d candidates)' % len(ps)); g = ps[0]
        pe, ps0, pr = run_fn(ctx, g)
        fp = P(('arg', len(g.args) - 1)); n = 0
        for k, s, v in pr:
            if k != 'ret': continue
            for t in (True, False):
                s2 = s.copy()
                if isk(v):
                    if bool(v[2] & 1) != t: continue
                elif not assume(s2, trunc(v, 1, s2) if v[1] != 1 else v, t): continue
                n += 1; removal(ctx, pe, s2, t, (fp[1], fp[2]), who + ': predicate')
        ctx.need(n >= 2, 'the predicate has %d outcomes' % n); ctx.set('outcomes of the removal predicate', n)
    else:
        n = 0
        for i, c, ev, s in rounds(e):
            er = [x for x in ev if x[0] == 'erase']
            names = {a[3:] for a in found_atoms(s)}
            if er or any(x[0] == 'erase' for j, _, ev2, _ in rounds(e) if j is i for x in ev2):
                n += 1; own = to_ptr(er[0][1][1]) if er else None
                for nm in list(names) or [None]: removal(ctx, e, s, bool(er), nm if not er else (own[1], own[2]), who + ': loop')
        ctx.need(n, 'no removal of fields recognised')
    # resolutions
    opt = [k for k, a in enumerate(f.args) if a['t'] == 'i64']
    ctx.need(len(opt) == 1, 'the default resolution is not passed in a register')
    D = atom(64, ('arg', opt[0])); dflag = trunc(vbin(St(), 'lshr', D, K(64, 32), 64), 8); nl = 0
    for l in e.loops.values():
        for i in l:
            ptrs = set().union(*[s.user.get('resptr', frozenset()) for _, _, s in i['body']] or [set()])
            if not ptrs: continue
            nl += 1
            ctx.need(len({b for b, o in ptrs}) == 1, 'the fields are not walked one by one')
            for c, ev, s in i['body']:
                mine = [p for p in s.user.get('resptr', ())] or list(ptrs)
                base, off = mine[0]
                on = switched_on(e, s); k = kinds(e, s, base, off)
                nm = (base, norm(s, vadd(off, K(64, -RES))))
                look = [a for a in found_atoms(s) if (a[3], norm(s, a[4])) == nm]
                isf = True in k.values(); notf = all(v is False for v in k.values())
                changed = [(o, z) for o, z, v in s.mem.get(base, ()) if z is None or not (0 <= (e.dist(s, o, off) if e.dist(s, o, off) is not None else -99) <= 7)]
                ctx.ob('a field keeps its name, offset and type', who, not changed, 'the round for a field writes outside its resolution')
                d = decide(s, atom(1, ('absent', look[0]))) if look else None
                df = decide(s, cmpv(s, 'eq', bits1(s, D), K(1, 1), 1))
                if notf: ctx.ob('the profile decides the resolution of float fields', who + ': other field', not on, 'a resolution is switched on'); continue
                if not isf: ctx.ob('the profile decides the resolution of float fields', who, not on, 'a resolution is switched on for a type that is not known'); continue
                if d is False:
                    v = e.load(s, look[0], K(64, 32), 4, 'float')
                    ctx.ob('the profile decides the resolution of float fields', who + ': named field', bool(on) and on[0][2] == v, 'the value of the profile is not stored')
                elif d is True:
                    want = k['FLOAT32'] is True and df is True
                    dv = vg.to_float(trunc(D, 32))
                    if want: ctx.ob('the profile decides the resolution of float fields', who + ': default', bool(on) and same(s, to_int(on[0][2], 32), trunc(D, 32)), 'the default is not stored')
                    else: ctx.ob('the profile decides the resolution of float fields', who + ': unnamed field', not on, 'a resolution is switched on')
                else: ctx.ob('the profile decides the resolution of float fields', who, not on, 'a resolution is switched on without a look-up of the name')
            # all fields are visited
            ctx.ob('every field is visited', who, whole_walk(e, i), 'the loop does not run over all the fields')
    ctx.need(nl, 'no loop over the fields recognised')
    ctx.need(resolutions(ctx, e, res, who), 'no resolution is ever switched on')
def bits1(s, D): return trunc(vbin(s, 'lshr', D, K(64, 32), 64), 1)
def whole_walk(e, i):
    """one carried pointer or index goes from the first to the last in steps of one field"""
    for v in loops.variables(e, i):
        steps = [norm(s, vsub(a, v.sym)) for (_, _, s), a in zip(i['body'], v.after)]
        if all(isk(x) and x[2] in (1, SIZE) for x in steps): 
            if isk(v.entry) and v.entry[2] == 0: return True
            if v.entry == to_int(P(('fields',)), 64) or not isk(v.entry): return True
    return False

# ------------------------------------------------------------------ dropping points
def viz(ctx):
    m = build.module('core', [r'^cloudini_ros::applyVizLossyPreprocessing\('], noinline=NOIN)
    fs = [f for f in m.roots if f.q.endswith('applyVizLossyPreprocessing')]; ctx.need(len(fs) == 1, 'applyVizLossyPreprocessing not found'); f = fs[0]
    M = cfactory.members(m, 'cloudini_ros::RosPointCloud2'); o = {k: M[k][1] for k in ('width', 'height', 'point_step', 'row_step', 'data', 'owned_data', 'fields')}
    A = ('arg', 0); who = 'applyVizLossyPreprocessing'
    e, st, res = run_fn(ctx, f, fields_at=P(A, K(64, o['fields'])))
    def ld(s, off, n): return norm(s, e.load(s, A, K(64, off), n, 'i%d' % (8 * n), 8 * n))
    z = St(); step = trunc(ld(z, o['point_step'], 4), 32); step64 = zext(step, 64)
    din = to_ptr(e.load(z, A, K(64, o['data']), 8, 'ptr')); nin = ld(z, o['data'] + 8, 8)
    nret = nch = 0; loopinfo = [i for l in e.loops.values() for i in l]
    for k, s, v in res:
        if k != 'ret': continue
        nret += 1
        touched = [off for off, sz, x in s.mem.get(A, ()) if any(x == 'unclear' for x in ()) or True]
        if not touched: ctx.ob('a message is left alone or rebuilt completely', who, True, 'unchanged'); continue
        nch += 1
        ctx.need(not any(x[0] == 'unclear' for x in flat(s.events)), 'an operation on the new data is not understood')
        W, H, PS, R = (ld(s, o[n], 4) for n in ('width', 'height', 'point_step', 'row_step'))
        dp = to_ptr(e.load(s, A, K(64, o['data']), 8, 'ptr')); dn = ld(s, o['data'] + 8, 8)
        op = to_ptr(e.load(s, A, K(64, o['owned_data']), 8, 'ptr')); on = ld(s, o['owned_data'] + 8, 8)
        ctx.ob('the data view is the new buffer', who, dp == op and same(s, dn, on), 'the view and the owned buffer differ')
        ctx.ob('the point step is unchanged', who, same(s, PS, step), 'it changes')
        ctx.ob('the row step is the point step times the width', who, same(s, R, vbin(s, 'mul', PS, W, 32)) or same(s, R, vbin(s, 'mul', W, PS, 32)) or same(s, R, trunc(vbin(s, 'mul', zext(PS, 64), zext(W, 64), 64), 32)), 'row step %s' % show(R, 80))
        one = isk(H) and H[2] == 1
        ctx.ob('the height is one', who, one, 'height %s' % show(H, 60))
        # the length of the data is width times point step
        ok, why = False, 'width %s, length %s' % (show(W, 80), show(dn, 80))
        for i in loopinfo:
            V = loops.variables(e, i)
            for sz in V:
                if not same(s, norm(s, sz.sym), dn) or sz.entry is None: continue
                rel = [vsub(a, sz.sym) for a in sz.after]
                for c in V:
                    if c.sym[1] not in (32, 64) or c.entry is None: continue
                    if not same(s, trunc(norm(s, c.sym), 32) if c.sym[1] > 32 else norm(s, c.sym), W): continue
                    e0 = i['entry']
                    base = isk(norm(e0, c.entry)) and norm(e0, c.entry)[2] == 0 and isk(norm(e0, sz.entry)) and norm(e0, sz.entry)[2] == 0
                    good = base; why = 'the counter and the length do not start at zero together' if not base else why
                    for (_, _, t), ds, a in zip(i['body'], rel, c.after):
                        dc = norm(t, vsub(a, c.sym)); ds = norm(t, ds)
                        if isk(dc) and dc[2] == 0 and isk(ds) and ds[2] == 0: continue
                        if isk(dc) and dc[2] == 1 and same(t, ds, step64): continue
                        good = False; why = 'a round counts %s points and appends %s bytes' % (show(dc, 30), show(ds, 60))
                    ok = ok or good
                q = vbin(s, 'udiv', dn, step64, 64)
                if same(s, trunc(q, 32), W) and isk(norm(i['entry'], sz.entry)) and norm(i['entry'], sz.entry)[2] == 0:
                    ok = ok or all((isk(norm(t, d)) and norm(t, d)[2] == 0) or same(t, norm(t, d), step64) for (_, _, t), d in zip(i['body'], rel))
                kept(ctx, e, i, sz.sym, sz.after, step64, din, dp, nin, who)
            for c in V:     # the buffer is sized first and cut to the number of kept points afterwards
                if c.sym[1] not in (32, 64) or c.entry is None: continue
                n = norm(s, c.sym if c.sym[1] == 64 else zext(c.sym, 64, s))
                if not same(s, dn, norm(s, vbin(s, 'mul', n, step64, 64))) or not same(s, trunc(n, 32), W): continue
                deltas = [norm(t, vsub(a, c.sym)) for (_, _, t), a in zip(i['body'], c.after)]
                ok = isk(norm(i['entry'], c.entry)) and norm(i['entry'], c.entry)[2] == 0 and all(isk(d) and d[2] in (0, 1) for d in deltas); why = 'the counter of kept points does not grow from zero by one'
                off = lambda x: vbin(s, 'mul', x if x[1] == 64 else zext(x, 64, s), step64, 64)
                kept(ctx, e, i, off(c.sym), [off(a) if not (isk(d) and d[2] == 0) else off(c.sym) for a, d in zip(c.after, deltas)], step64, din, dp, nin, who)
        ctx.ob('width times point step is the length of the data', who, ok, why)
    ctx.need(nch, 'no path that drops points'); ctx.set('paths of the point dropping', nret); ctx.count('paths that rebuild the message', nch)
    ctx.need(resolutions(ctx, e, res, who), 'no resolution is ever switched on')
    for i, c, ev, s in rounds(e):
        offs = [off for base, off in s.user.get('resptr', ()) if base == ('fields',)]
        if not offs: continue
        changed = [1 for oo, sz, v in s.mem.get(('fields',), ()) if sz is None or isinstance(sz, tuple) or not any(e.dist(s, oo, off) is not None and 0 <= e.dist(s, oo, off) <= 8 - sz for off in offs)]
        ctx.ob('a field keeps its name, offset and type', who, not changed, 'the round for a field writes outside its resolution')
def flat(evs):
    for x in evs:
        yield x
        if x[0] == 'loop':
            for b in x[2]: yield from flat(b[1])

def kept(ctx, e, i, pos, after, step64, din, dst, nin, who):
    """every round that appends copies exactly its own point to the end"""
    V = loops.variables(e, i)
    idx = []
    for v in V:
        st = [norm(s, vsub(a, v.sym)) for (_, _, s), a in zip(i['body'], v.after)]
        if v.entry is not None and st and all(isk(x) and x[2] == 1 for x in st) and isk(norm(i['entry'], v.entry)) and norm(i['entry'], v.entry)[2] == 0: idx.append(v)
    ctx.ob('every point of the message is looked at once', who, bool(idx) and any(bounded(s, v, nin, step64) for v in idx for s in i['exits']), 'no counter goes from zero to the number of points in steps of one')
    for (_, _, t), a in zip(i['body'], after):
        d = norm(t, vsub(a, pos))
        if isk(d) and d[2] == 0: continue
        w = [(o, z, x) for o, z, x in t.mem.get(dst[1], ()) if e.dist(t, o, vadd(dst[2], pos)) == 0 or same(t, o, vadd(dst[2], pos)) or same(t, norm(t, o), norm(t, vadd(dst[2], pos)))]
        ok = False; why = 'nothing is copied to the end'
        for o, z, x in w:
            why = 'what is copied to the end is not the point of this round'
            n = z if isinstance(z, tuple) else K(64, z) if z else None
            if n is None or not same(t, n, step64) or x[0] != 'f' or x[1][0] != 'mem': continue
            src = to_int(P(x[1][1], x[1][2]), 64)
            ok = ok or any(same(t, src, v.sym) and v.entry is not None and same(t, norm(i['entry'], v.entry), to_int(P(*din[1:]), 64)) and
                           all(same(r, norm(r, vsub(b, v.sym)), step64) for (_, _, r), b in zip(i['body'], v.after)) for v in V if v.sym[1] == 64)
            if x[1][1] != din[1]: continue
            ok = ok or any(same(t, norm(t, vsub(x[1][2], din[2])), norm(t, vbin(t, 'mul', v.sym if v.sym[1] == 64 else zext(v.sym, 64, t), step64, 64))) for v in idx)
        ctx.ob('a kept point is copied whole', who, ok, why)
def bounded(s, v, nin, step64):
    """the loop is left when the counter reaches the number of points"""
    x = v.sym if v.sym[1] == 64 else zext(v.sym, 64, s)
    n = vbin(s, 'udiv', nin, step64, 64)
    return decide(s, cmpv(s, 'ult', x, n, 64)) is False or same(s, x, n)

# ------------------------------------------------------------------ conversions
def conversions(ctx):
    m = build.module('core', [r'^cloudini_ros::toEncodingInfo\('], noinline=NOIN)
    f = [f for f in m.roots if f.q.endswith('toEncodingInfo')]; ctx.need(len(f) == 1, 'toEncodingInfo not found'); f = f[0]
    M = cfactory.members(m, 'cloudini_ros::RosPointCloud2'); EI = cfactory.members(m, 'Cloudini::EncodingInfo')
    dst = [k for k, a in enumerate(f.args) if a.get('sret')]; ctx.need(dst, 'toEncodingInfo does not build its result in place')
    D, S = ('arg', dst[0]), ('arg', 1 - dst[0])
    e, st, res = run_fn(ctx, f)
    for k, s, v in res:
        if k != 'ret': continue
        for n in ('width', 'height', 'point_step'):
            a = e.load(s, D, K(64, EI[n][1]), 4, 'i32', 32); b = e.load(St(), S, K(64, M[n][1]), 4, 'i32', 32)
            ctx.ob('a description has the dimensions of its message', 'toEncodingInfo: %s' % n, same(s, a, b), 'gets %s' % show(a, 60))
        cp = [ev for ev in s.events if ev[0] == 'call' and re.search(r'vector<Cloudini::PointField.*(operator=|assign|::vector)$', ev[1])]
        ok = any(to_ptr(ev[2][0]) == P(D, K(64, EI['fields'][1])) and any(x[0] == 'p' and to_ptr(x) == P(S, K(64, M['fields'][1])) for x in ev[2][1:]) for ev in cp)
        ctx.ob('a description has the fields of its message', 'toEncodingInfo', ok, 'the fields are not copied as a whole')
    # PCL
    m = build.module('pcl', [r'^Cloudini::EncodingInfo Cloudini::ConvertToEncodingInfo', r'^Cloudini::ConvertToEncodingInfo', r'^Cloudini::PCLPointCloudDecode\(', r'^void Cloudini::PointcloudDecode<', r'PCLPointCloudEncode'], noinline=[r'^Cloudini::DecodeHeader$', r'::PointcloudDecoder::decode$', r'::PointcloudEncoder::encode$'])
    R = {}
    for f in m.roots: R.setdefault(f.q.split('::')[-1].split('<')[0], []).append(f)
    PM = cfactory.members(m, 'pcl::PCLPointCloud2'); FM = cfactory.members(m, 'pcl::PCLPointField'); EI = cfactory.members(m, 'Cloudini::EncodingInfo'); PF = cfactory.members(m, 'Cloudini::PointField')
    from rules import c15
    nconv = 0
    for f in R.get('ConvertToEncodingInfo', ()):
        generic = 'PCLPointCloud2' in f.full.split('(')[1]
        nm = 'ConvertToEncodingInfo(%s)' % ('PCLPointCloud2' if generic else re.search(r'pcl::PointCloud<(pcl::\w+)>', f.full).group(1) if re.search(r'pcl::PointCloud<(pcl::\w+)>', f.full) else '?')
        ps = [k for k, a in enumerate(f.args) if a['t'] == 'ptr']; D, S = ('arg', ps[0]), ('arg', ps[1])
        e, st, res = run_fn(ctx, f, extra=c15.MODELS); nconv += 1
        so = PM if generic else cfactory.members(m, 'pcl::PointCloud<%s>' % re.search(r'pcl::PointCloud<(pcl::\w+)>', f.full).group(1))
        for k, s, v in res:
            if k != 'ret': continue
            for n in ('width', 'height') + (('point_step',) if generic else ()):
                a = e.load(s, D, K(64, EI[n][1]), 4, 'i32', 32); b = e.load(St(), S, K(64, so[n][1]), 4, 'i32', 32)
                ctx.ob('a description has the dimensions of its message', '%s: %s' % (nm, n), same(s, a, b), 'gets %s' % show(a, 60))
        resolutions(ctx, e, res, nm)
        point = None if generic else re.search(r'pcl::PointCloud<(pcl::\w+)>', f.full).group(1)
        if not generic:
            want, step = LAYOUT.get(point, (None, None))
            for k, s, v in res:
                if k != 'ret' or want is None: continue
                a = e.load(s, D, K(64, EI['point_step'][1]), 4, 'i32', 32); ctx.ob('a description has the layout of its point type', nm + ': point_step', isk(a) and a[2] == step, 'point step %s' % show(a, 40))
                got = [(text(dict(ev[2][0][1])), dict(ev[2][0][1]).get(PF['offset'][1], (0, None))[1], dict(ev[2][0][1]).get(PF['type'][1], (0, None))[1]) for ev in s.events if ev[0] == 'push' and ev[2]]
                got = [(n, o[2] if o and isk(o) else None, t[2] if t and isk(t) else None) for n, o, t in got]
                ctx.ob('a description has the layout of its point type', nm + ': fields', got == want, 'describes %s' % got)
        for s, cells in pushes(e, res):
            if generic: carried(ctx, e, s, cells, PF, FM, nm)
            t, fl = cells.get(PF['type'][1]), cells.get(PF['resolution'][1] + 4)
            t, fl = (t and t[1]), (fl and fl[1])
            if fl is not None and not (isk(fl) and fl[2] & 1 == 0):
                tv = to_int(t, 8) if t is not None else None
                ok = tv is not None and (any(decide(s, cmpv(s, 'eq', tv, K(8, c), 8)) is True for c in FT.values()) or flag_follows(s, fl, tv))
                ctx.ob('a resolution is attached to floating-point fields only', nm, ok, 'a field of type %s gets a resolution' % show(t, 40) if t else 'type unknown')
    ctx.need(nconv >= 3, 'only %d PCL conversions found' % nconv)
    for f in R.get('PCLPointCloudDecode', ()):
        ps = [k for k, a in enumerate(f.args) if a['t'] == 'ptr']; C = ('arg', ps[-1])
        e, st, res = run_fn(ctx, f, extra=c15.MODELS); nm = 'PCLPointCloudDecode'
        for k, s, v in res:
            if k != 'ret': continue
            hd = [ev for ev in s.events if ev[0] == 'call' and ev[1].endswith('DecodeHeader')]; ctx.need(len(hd) == 1, 'DecodeHeader is not called once')
            H = to_ptr(hd[0][2][0])
            def h(n, like=None):
                t = St(); t.ver[H[1]] = max([k[3] for k in mem_atoms(like) if k[1] == H[1] and isinstance(k[3], int)] or [0])
                return norm(s, e.load(t, H[1], vadd(H[2], K(64, EI[n][1])), 4, 'i32', 32))
            def c(n): return norm(s, e.load(s, C, K(64, PM[n][1]), 4, 'i32', 32))
            for n in ('width', 'height', 'point_step'): ctx.ob('a decoded cloud has the dimensions of its header', '%s: %s' % (nm, n), same(s, c(n), h(n, c(n))), 'gets %s' % show(c(n), 80))
            r = c('row_step'); ctx.ob('the row step is the point step times the width', nm, same(s, r, vbin(s, 'mul', c('width'), c('point_step'), 32)) or same(s, r, vbin(s, 'mul', c('point_step'), c('width'), 32)), 'row step %s' % show(r, 80))
            n = cell(e, s, P(C, K(64, PM['data'][1])), 1); d3 = [zext(c(x), 64, s) for x in ('width', 'height', 'point_step')]
            w = [norm(s, vbin(s, 'mul', vbin(s, 'mul', d3[i], d3[j], 64), d3[k], 64)) for i, j, k in ((0, 1, 2), (0, 2, 1), (1, 2, 0))]
            ctx.ob('the data of a decoded cloud has the length of its dimensions', nm, any(same(s, n, x) for x in w), 'length %s' % show(n, 100))
        np = 0
        for s, cells in pushes(e, res): np += 1; carried(ctx, e, s, cells, FM, PF, nm)
        ctx.need(np, 'PCLPointCloudDecode appends no fields')
    ne = 0
    for f in R.get('PCLPointCloudEncode', ()):
        ps = [k for k, a in enumerate(f.args) if a['t'] == 'ptr']; S = ('arg', ps[0])
        if 'PCLPointCloud2' not in f.full.split('(')[1]: continue
        e, st, res = run_fn(ctx, f, extra=c15.MODELS); ne += 1
        for k, s, v in res:
            if k != 'ret': continue
            en = [ev for ev in s.events if ev[0] == 'call' and ev[1].endswith('PointcloudEncoder::encode')]
            want = (vptr(e, St(), P(S, K(64, PM['data'][1]))), cell(e, St(), P(S, K(64, PM['data'][1])), 1))
            ctx.ob('a cloud is encoded with all of its data', 'PCLPointCloudEncode', len(en) == 1 and any(x[0] == 'p' and to_ptr(x) == want[0] for x in en[0][2]) and any(x[0] in 'lba' and x[1] == 64 and same(s, x, want[1]) for x in en[0][2]), 'the data of the cloud is not what is encoded')
    ctx.need(ne, 'PCLPointCloudEncode not found'); nd = 0
    for f in R.get('PointcloudDecode', ()):
        ps = [k for k, a in enumerate(f.args) if a['t'] == 'ptr']; C = ('arg', ps[-1]); point = re.search(r'PointcloudDecode<(pcl::\w+)>', f.full).group(1); nm = 'PointcloudDecode<%s>' % point
        e, st, res = run_fn(ctx, f, extra=c15.MODELS); nd += 1; so = cfactory.members(m, 'pcl::PointCloud<%s>' % point)
        for k, s, v in res:
            if k != 'ret': continue
            hd = [ev for ev in s.events if ev[0] == 'call' and ev[1].endswith('DecodeHeader')]; ctx.need(len(hd) == 1, 'DecodeHeader is not called once'); H = to_ptr(hd[0][2][0])
            for n in ('width', 'height'):
                a = norm(s, e.load(s, C, K(64, so[n][1]), 4, 'i32', 32)); t = St(); t.ver[H[1]] = max([x[3] for x in mem_atoms(a) if x[1] == H[1] and isinstance(x[3], int)] or [0])
                ctx.ob('a decoded cloud has the dimensions of its header', '%s: %s' % (nm, n), same(s, a, norm(t, e.load(t, H[1], vadd(H[2], K(64, EI[n][1])), 4, 'i32', 32))), 'gets %s' % show(a, 80))
    ctx.need(nd, 'PointcloudDecode is not instantiated')
LAYOUT = {'pcl::PointXYZ': ([(b'x', 0, 7), (b'y', 4, 7), (b'z', 8, 7)], 16), 'pcl::PointXYZI': ([(b'x', 0, 7), (b'y', 4, 7), (b'z', 8, 7), (b'intensity', 16, 7)], 32)}
def text(cells):
    t = cells.get(('text', 0)); t = t and t[1]
    while isinstance(t, tuple) and len(t) >= 2 and t[0] in ('S', 'B') and not isinstance(t[1], bytes): t = t[1]
    return t[1] if isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], bytes) else t
def textof(t):
    if isinstance(t, tuple):
        if t and t[0] == 'text of': return t[1:3]
        for x in t:
            r = textof(x)
            if r: return r
    return None
def carried(ctx, e, s, cells, DM, SM, nm):
    """name and offset of a new field are those of one field of the source"""
    t = cells.get(('text', DM['name'][1])); src = textof(t) if t else None
    o = cells.get(DM['offset'][1]); at = [a for a in mem_atoms(o[1])] if o else []
    ctx.ob('a field keeps its name, offset and type', nm + ': name', bool(src) and SM['name'][1] == 0, 'the name is %s' % show(t[1] if t else None, 60))
    off = o[1] if o and o[0] == 4 else None; ok = False
    if src and off is not None and at and len({(x[1], x[3]) for x in at}) == 1 and at[0][1] == src[0]:
        t2 = St(); t2.ver[src[0]] = at[0][3]
        ok = same(s, norm(s, off), norm(s, e.load(t2, src[0], vadd(src[1], K(64, SM['offset'][1] - SM['name'][1])), 4, 'i32', 32)))
    ctx.ob('a field keeps its name, offset and type', nm + ': offset', ok, 'the offset is %s' % show(o[1] if o else None, 100))
def mem_atoms(t, out=None):
    out = [] if out is None else out
    if isinstance(t, tuple):
        if len(t) == 4 and t[0] == 'm': out.append(t); return out
        for x in t: mem_atoms(x, out)
    elif isinstance(t, frozenset):
        for x in t: mem_atoms(x, out)
    return out
def flag_follows(s, fl, tv): return False
def pushes(e, res):
    """(state, cells) of every object appended to a list"""
    for s in [s for _, _, _, s in rounds(e)] + [s for k, s, v in res if k == 'ret']:
        for ev in s.events:
            if ev[0] == 'push' and ev[2]: yield s, dict(ev[2][0][1])

def wasm(ctx):
    m = build.module('core', [r'^cldn_ComputeCompressedSize$', r'^cldn_EncodePointcloudMessage$'], noinline=NOIN + __import__('rules.c12', fromlist=['NOIN']).NOIN)
    n = 0
    for f in m.roots:
        e, st, res = run_fn(ctx, f)
        n += resolutions(ctx, e, res, f.q)
    ctx.need(n >= 2, 'the WASM entry points switch on %d resolutions' % n)

def run(ctx):
    profile(ctx); viz(ctx); conversions(ctx); wasm(ctx)
