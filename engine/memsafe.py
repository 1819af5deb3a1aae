"""Memory safety of the codec pipeline, decided function by function with contracts between them (assume/guarantee).

A *view* is a pointer/length pair.  Every analysed function assumes that the views it receives are valid (the memory
behind the pointer has at least `length` bytes) and has to guarantee the same to the functions it calls."""
import re
import lin
from lin import A, const, var, add, sub, scale, addc, entails, is_const, ZERO
from absint import Eng, St, P, I, U, T, F, cge, NULL
from cfactory import params, members, off_atom, Config, factory_roots, run_fn, objects

SKIP = 0xFFFFFFFF
WIDTH = {0: 0, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 4, 8: 8, 9: 8, 10: 8}

class View:
    """how IR arguments represent the views of a function"""
def is_span(t): return re.match(r'(const )?(Span<|Cloudini::(Const)?BufferView)', t or '') is not None

def vslots(mod):
    """byte offset in the vtable -> method name for the codec base classes"""
    out = {'FieldEncoder': {}, 'FieldDecoder': {}}
    for vt, fns in mod.vtables.items():
        m = re.match(r'_ZTVN8Cloudini\d+(FieldEncoder|FieldDecoder)', vt)
        if not m: continue
        for i, f in enumerate(fns):
            if f and not f.startswith('@') and i >= 2:
                q = mod.fn_q.get(f, '')
                if q and 'pure_virtual' not in q: out[m.group(1)].setdefault(8 * (i - 2), q.split('::')[-1])
    return out

def span_cells(st, base, off=ZERO):
    d = st.mem.get((base, off)); n = st.mem.get((base, addc(off, 8)))
    return (d[1] if d else None, n[1] if n else None)

class Mem:
    """hooks: contracts of calls that are not followed"""
    check_shifts = False
    def __init__(self, mod, noinline=(), point_step=None):
        self.mod = mod; self.slots = vslots(mod); self.noinline = [re.compile(x) for x in noinline]
        self.point_step = point_step        # function(eng, st) -> Lin
        self.virtual = {}
        self.disj = {}
        self.stores = {}                    # offsets of *this written
        self.layout_elems = ()              # (element size, {member: (offset, size)}, fact function)
        self.calls = {}
        self.minout = {}
        self.sections = {}; self.adaptive = None; self.adaptive_arg = None
    # -------------------------------------------------- views handed to callees
    def view_ok(self, eng, st, ins, ptr, n, what, need=None, side='out'):
        if eng.silent: return
        base, off = ptr[1], ptr[2]
        e = eng.getext(st, base)
        if base == ('null',): ok = entails(st.cons, sub(ZERO, n)); why = 'null view of %s bytes' % lin.show(n)
        elif e is None: ok = False; why = '%s: extent of %s is unknown' % (what, lin.name(base))
        else:
            ok = (entails(st.cons, off) and (entails(st.cons, sub(sub(e, off), n)) or lin.entails_factor(st.cons, sub(sub(e, off), n)))) or lin.infeasible(st.cons, [off, n, e])
            why = '%s: view of %s bytes at offset %s of %s, whose size is %s' % (what, lin.show(n), lin.show(off), lin.name(base), lin.show(e))
        eng.obligation(ins, 'view ' + side, ok, None if ok else why, base, what)
        if need is not None:
            ok = entails(st.cons, sub(n, need)) or lin.infeasible(st.cons, [n, need])
            eng.obligation(ins, 'view size out', ok, None if ok else '%s has %s bytes, fewer than the point step %s' % (what, lin.show(n), lin.show(need)), base, what)
    def consume(self, eng, st, key, tag, least=None):
        """span object at key: a prefix is consumed"""
        d, n = span_cells(st, *key)
        if d is None: d = eng.load(st, key[0], key[1], 8, 'ptr')
        if n is None: n = eng.load(st, key[0], addc(key[1], 8), 8, 'i64', 64)
        c = var(A.get(('consumed', tag, eng.bumpserial()), hi=U(62)))
        s = n[1]
        st.addc(sub(s, c))
        if least is not None: st.addc(sub(c, least))
        eng.store(st, key[0], key[1], 8, P(d[1], add(d[2], c)))
        eng.store(st, key[0], addc(key[1], 8), 8, I(sub(s, c)))
        return c
    def on_indirect(self, eng, st, ins, callee, args):
        b = callee[1] if callee[0] == 'p' else None
        if not (b and b[0] == 'ld'): return self.unknown(eng, st, ins)
        off = b[2][0] if is_const(b[2]) else None
        nm = None
        # which base class: from the function's debug type of the object is not available; both tables share the order only per class
        cls = st.vt.get(P(b[1])) or st.vt.get(('p', b[1], ZERO))
        for k in ('FieldEncoder', 'FieldDecoder'):
            if cls and k in str(cls): nm = self.slots[k].get(off); side = k
        if nm is None: return self.unknown(eng, st, ins)
        self.virtual[(ins['b'], ins['k'])] = (side, nm)
        if nm == 'decode' and len(args) >= 4:
            sp = eng.as_ptr(args[1]); d = eng.as_ptr(args[2]); n = eng.as_int(args[3], 64)
            self.view_ok(eng, st, ins, d, n, 'destination of a field decoder', self.point_step(eng, st) if self.point_step else None)
            self.consume(eng, st, (sp[1], sp[2]), 'decode')
            return None
        if nm in ('encode',) and len(args) >= 3:
            return self.virtual_encode(eng, st, ins, args)
        if nm == 'flush' and len(args) >= 2: return self.virtual_flush(eng, st, ins, args)
        if nm == 'minInputBytes': return ('val', I(var(A.get(('mininput', b[1]), hi=64))))
        return None
    def virtual_encode(self, eng, st, ins, args): return None
    def virtual_flush(self, eng, st, ins, args): return None
    def unknown(self, eng, st, ins):
        self.calls.setdefault('indirect', []).append(eng.fn.locfn(ins)); return NotImplemented
    # -------------------------------------------------- facts about container elements
    def on_load(self, eng, st, ins, p, v):
        ad = self.adaptive
        if not ad: return
        size, oo, bo = ad
        base, off = p[1], p[2]
        if ins['sz'] not in (4, 8): return
        if base == self.adaptive_arg: r = off[0] if is_const(off) else None
        elif base[0] == 'vd' and any(o[1] == base and o[3] == size for o in st.objs.values()): r = off[0] % size if all(c % size == 0 for _, c in off[1]) else None
        else: return
        if r not in (oo, bo): return
        e = addc(off, -r)
        o = eng.load(st, base, addc(e, oo), 4, 'i32', 32); b = eng.load(st, base, addc(e, bo), 8, 'i64', 64)
        if o[0] != 'i' or b[0] != 'i': return
        ps = self.point_step(eng, st)
        for a, _ in o[1][1]: self.disj[a] = (o[1], b[1], ps)
        st.addc(sub(const(8), b[1])); st.addc(sub(b[1], const(2)))
    def refine(self, eng, st, ls):
        """use 'offset == SKIP or offset + width <= point step' for the offsets that occur"""
        ats = set()
        for l in ls:
            for a, _ in l[1]: ats.add(a); ats |= set(lin.factors(a))
        r = None
        for a in ats & set(self.disj):
            o, b, ps = self.disj[a]
            if lin.infeasible(st.cons | {lin.normal(addc(o, -SKIP))}, [o]):
                r = r or st.copy()
                r.addc(sub(sub(ps, o), b))
        return r
    def on_call(self, eng, st, ins, q, f, args):
        if f in self.sections:
            return self.section_call(eng, st, ins, args, self.sections[f])
        return None
    def section_call(self, eng, st, ins, args, sig):
        """decoder of one adaptive section: (field const&, input view &, output pointer, two counts)"""
        inp, outp, ints = sig
        v = eng.as_ptr(args[outp]); a, b = eng.as_int(args[ints[0]], 64), eng.as_int(args[ints[1]], 64)
        self.view_ok(eng, st, ins, v, lin.mul(a, b), 'output of an adaptive section')
        if not eng.silent:
            ps = self.point_step(eng, st)
            eng.obligation(ins, 'point step', a == ps or (entails(st.cons, sub(a, ps)) and entails(st.cons, sub(ps, a))), 'stride handed to the section decoder is %s, the point step is %s' % (lin.show(a), lin.show(ps)))
        sp = eng.as_ptr(args[inp])
        self.consume(eng, st, (sp[1], sp[2]), 'section')
        return ('states', [(st, None)])
    def on_access(self, eng, st, ins, ptr, size, kind):
        if ptr[1] == ('arg', 'this') and kind == 'write' and not eng.silent:
            self.stores.setdefault(ptr[2] if not is_const(ptr[2]) else ptr[2][0], size[0] if is_const(size) else None)

class Result:
    def __init__(self, eng, hooks, err=None): self.eng = eng; self.hooks = hooks; self.err = err

def setup(mod, fn, st, hooks, this_cells=None, this_size=None):
    """valid views for every span parameter"""
    views = []
    for a, d, part in params(fn):
        nm = ('arg', a.get('name') or str(a['i']))
        if part == 'sret': st.env[a['i']] = P(('arg', 'ret')); st.ext[('arg', 'ret')] = const(4096); continue
        if part == 0 and is_span(d): st.env[a['i']] = P(('bytes', a['name'].split('.')[0])); continue
        if part == 1 and is_span(d):
            n = var(A.get(('len', a['name'].split('.')[0]), hi=U(62))); st.env[a['i']] = I(n)
            st.ext[('bytes', a['name'].split('.')[0])] = n; views.append((a['name'].split('.')[0], None)); continue
        if a['t'] != 'ptr':
            st.env[a['i']] = I(var(A.get(nm + (a['t'],), hi=U(min(62, int(a['t'][1:])))))) if a['t'].startswith('i') else ('o', nm); continue
        st.env[a['i']] = P(nm)
        if is_span(d) and d.endswith('&'):
            n = var(A.get(('len', a['name']), hi=U(62)))
            st.mem[(nm, ZERO)] = (8, P(('bytes', a['name']))); st.mem[(nm, const(8))] = (8, I(n)); st.ext[('bytes', a['name'])] = n
            st.ext[nm] = const(16); views.append((a['name'], nm))
    if this_cells:
        for o, (sz, v) in this_cells.items(): st.mem[(('arg', 'this'), const(o))] = (sz, v)
    return views

def range_model(eng, st, ins, q, args):
    """std algorithms over an iterator range: the range must be valid; elements are handed to the predicate by the library"""
    if len(args) >= 2 and args[0][0] == 'p' and args[1][0] == 'p' and not eng.silent:
        a, b = args[0], args[1]
        if a[1] == b[1]:
            ok = entails(st.cons, sub(b[2], a[2])) and entails(st.cons, a[2]) and (eng.getext(st, b[1]) is None or entails(st.cons, sub(eng.getext(st, b[1]), b[2])))
            eng.obligation(ins, 'range', ok or lin.infeasible(st.cons, [a[2], b[2]]), 'iterator range [%s, %s) of %s' % (lin.show(a[2]), lin.show(b[2]), lin.name(a[1])), a[1])
    return None
RANGE = [(re.compile(r'^std::(any_of|all_of|none_of|count_if)(<|$)'), range_model)]
NOINLINE_STD = [r'^std::(any_of|all_of|none_of|count_if|find_if|find_if_not|for_each)(<|$)']


def adaptive_layout(mod):
    ty = mod.type('V5AdaptiveIntField')
    if not ty: return None
    m = {x[0]: x for x in ty['members']}
    if 'offset' not in m or 'bytes_per_value' not in m: return None
    return (ty['size'], m['offset'][1], m['bytes_per_value'][1])

def section_decoders(mod):
    """mangled name -> (index of the input view, of the output pointer, indexes of stride and count)"""
    out = {}
    for e in mod.index:
        m = re.search(r'\((.*)\)$', e[2])
        if not m or 'V5AdaptiveIntField const&' not in m.group(1) or 'Span<unsigned char const>&' not in m.group(1): continue
        ps = [x.strip() for x in m.group(1).split(',')]
        ptr = [i for i, p in enumerate(ps) if p == 'unsigned char*']; ints = [i for i, p in enumerate(ps) if p == 'unsigned long']
        if len(ptr) == 1 and len(ints) == 2: out[e[0]] = (ps.index('Span<unsigned char const>&'), ptr[0], ints)
    return out
