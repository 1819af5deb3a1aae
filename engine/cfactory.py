"""Which field codecs do the factories build?  Abstract interpretation of the factory functions with constant
field types / options / versions and symbolic offsets, resolutions and names (conditional constant propagation)."""
import re
import lin
from lin import A, const, var, ZERO
from absint import Eng, St, P, I, U, T, F

def members(mod, ty):
    t = mod.type(ty) if isinstance(ty, str) else ty
    return {m[0]: m for m in t['members']}

class Config:
    """fields: list of (type code, has_resolution)"""
    def __init__(self, fields, opt, version, comp=0): self.fields = tuple(fields); self.opt = opt; self.version = version; self.comp = comp
    def key(self): return (self.fields, self.opt, self.version)

def off_atom(i): return A.get(('field offset', i), hi=U(32))
def res_val(i): return ('o', ('resolution of field', i))

def put_info(mod, st, base, cfg, at=0):
    """lay out an EncodingInfo with the given constants at base"""
    ei = members(mod, 'Cloudini::EncodingInfo'); pf = members(mod, 'Cloudini::PointField'); psz = mod.type('Cloudini::PointField')['size']
    b = base
    if b not in st.ext: st.ext[b] = const(at + mod.type('Cloudini::EncodingInfo')['size'])
    def u(name, sz, val): st.mem[(b, const(at + ei[name][1]))] = (sz, val)
    u('width', 4, I(var(A.get(('info', 'width'), hi=U(32)))))
    u('height', 4, I(var(A.get(('info', 'height'), hi=U(32)))))
    u('point_step', 4, I(var(A.get(('info', 'point_step'), hi=U(32)))))
    u('encoding_opt', 1, I(const(cfg.opt)))
    u('compression_opt', 1, I(const(cfg.comp)) if cfg.comp is not None else I(var(A.get(('info', 'comp'), hi=255))))
    u('version', 1, I(const(cfg.version)))
    db = ('vd', b, 'fields')
    st.objs[(b, const(at + ei['fields'][1]))] = ('vec', db, const(len(cfg.fields)), psz)
    st.ext[db] = const(psz * len(cfg.fields))
    for i, (ty, has) in enumerate(cfg.fields):
        o = psz * i
        st.mem[(db, const(o + pf['offset'][1]))] = (4, I(var(off_atom(i))))
        st.mem[(db, const(o + pf['type'][1]))] = (1, I(const(ty)))
        ro = o + pf['resolution'][1]
        st.mem[(db, const(ro))] = (4, res_val(i))
        st.mem[(db, const(ro + 4))] = (1, I(const(1 if has else 0)))
    return db

class Gate:
    """reachability of calls under a constant configuration: unknown callees do not change the description"""
    check_shifts = False
    def __init__(self): self.called = set()
    def on_call(self, eng, st, ins, q, f, args):
        if eng.model(q) is not None: return None
        self.called.add(q)
        if 'i' in ins and not ins['t'].startswith('i') and ins['t'] != 'ptr': return ('val', ('o', ('call', q, eng.bumpserial())))
        return ('states', [(st, None)])

def gate(mod, fn, cfg, this_info=None):
    st = St(); g = Gate()
    eng = Eng(fn, unroll=40, maxst=64, hooks=g, models=[(re.compile(r'^Cloudini::EncodingInfo::EncodingInfo$'), copy_info(cfg))])
    entry(mod, fn, st, cfg, this_info)
    eng.run(st)
    return g.called, eng

def vclass(mod, v):
    """class whose vtable a pointer value denotes"""
    if v[0] == 'p' and v[1][0] == 'g' and v[1][1].startswith('_ZTV'): return v[1][1][4:]
    return None

def read_ptr_vec(eng, st, key):
    o = st.objs.get(key)
    if o is None or not lin.is_const(o[2]): return None
    out = []
    for i in range(o[2][0]):
        c = st.mem.get((o[1], const(8 * i)))
        out.append(c[1] if c else None)
    return out

def obj_cells(st, base):
    return {k[1][0]: c for k, c in st.mem.items() if k[0] == base and lin.is_const(k[1])}

def factory_roots(mod):
    """functions building codec vectors, by their signature"""
    enc, dec, plan, adap, uses = [], [], [], [], []
    for f in mod.roots:
        d = f.dtypes
        if not d: continue
        ps = ' '.join(d[1:])
        if 'EncodingInfo' not in ps: continue
        if 'unique_ptr<Cloudini::FieldEncoder,' in ps and len(d) == 3 and d[0] == 'void': enc.append(f)
        if 'unique_ptr<Cloudini::FieldDecoder,' in ps and 'Span' not in ps and d[0] == 'void': dec.append(f)
        if d[0].endswith('V5EncoderPlan'): plan.append(f)
        if d[0].startswith('std::vector<') and 'AdaptiveIntField' in d[0]: adap.append(f)
        if f.q.endswith('UsesV5Codec'): uses.append(f)
    return enc, dec, plan, adap, uses

def params(fn):
    """[(IR argument, source parameter type or None, part)]: the parts of a by-value aggregate share their type"""
    out = []; k = 0; last = None
    for a in fn.args:
        if a.get('sret'): out.append((a, fn.dtypes[0], 'sret')); continue
        nm = a.get('name') or ''
        m = re.match(r'(.*)\.coerce(\d)$', nm)
        if m:
            if m.group(1) != last: last = m.group(1); k += 1
            out.append((a, fn.dtypes[k] if k < len(fn.dtypes) else '', int(m.group(2)))); continue
        last = None; k += 1
        out.append((a, fn.dtypes[k] if k < len(fn.dtypes) else '', None))
    return out

def copy_info(cfg):
    def h(eng, st, ins, q, args):
        if len(args) > 1 and args[0][0] == 'p' and lin.is_const(args[0][2]): put_info(eng.mod, st, args[0][1], cfg, at=args[0][2][0])
        return ('val', ('o', 'void'))
    return h

def entry(mod, fn, st, cfg=None, this_info=None, old=0):
    for a, d, part in params(fn):
        nm = ('arg', a.get('name') or str(a['i']))
        if part == 'sret': st.env[a['i']] = P(('arg', 'ret')); st.ext[('arg', 'ret')] = const(4096); continue
        if a['t'] != 'ptr':
            st.env[a['i']] = I(var(A.get(nm + (a['t'],), hi=U(int(a['t'][1:]))))) if a['t'].startswith('i') else ('o', nm); continue
        st.env[a['i']] = P(nm)
        if this_info is not None and nm[1] == 'this': st.ext[nm] = const(1 << 16); put_info(mod, st, nm, cfg, at=this_info)
        elif 'EncodingInfo' in d and nm[1] != 'this': put_info(mod, st, nm, cfg)
        elif 'vector<' in d and 'unique_ptr' in d:
            st.env[a['i']] = P(('arg', 'codecs'))
            st.objs[(('arg', 'codecs'), ZERO)] = ('vec', ('vd', 'codecs'), const(old), 8); st.ext[('vd', 'codecs')] = const(8 * old)
        elif part is None and nm[1] != 'this': st.ext[nm] = const(1 << 16)

def run_fn(mod, fn, cfg, old=0, this_info=None, cap=1 << 40):
    """(states at the returns, engine, returned values).  this_info: offset of the EncodingInfo inside *this."""
    st = St(); eng = Eng(fn, unroll=40, maxst=64, models=[(re.compile(r'^Cloudini::EncodingInfo::EncodingInfo$'), copy_info(cfg))])
    entry(mod, fn, st, cfg, this_info, old)
    eng.run(st)
    rets = [o for o in eng.outcomes if o[0] == 'ret']
    return [o[1] for o in rets], eng, [o[3] for o in rets]

def objects(mod, eng, st, key):
    """[(class, {offset: (size, value)})] of a vector of unique_ptr"""
    ps = read_ptr_vec(eng, st, key)
    if ps is None: return None
    out = []
    for p in ps:
        if p is None or p[0] != 'p': out.append((None, {})); continue
        cells = obj_cells(st, p[1])
        out.append((vclass(mod, cells[0][1]) if 0 in cells else None, {k: v for k, v in cells.items() if k}))
    return out
