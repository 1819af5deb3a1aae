"""C15: names, codes and sizes of types and options are consistent everywhere."""
import re, ast, os
import build, vg, vgstd, cfactory
from vg import K, P, atom, isk, VG, St, Stop, TooMany, lin_of, vsub
from vgstd import MODELS

EXPLAIN = ("The conversion functions are evaluated by constant propagation over their LLVM IR (value graphs), for every code 0..255 "
 "and every name, plus once with an unknown text whose only accepted literals are collected; SizeOf is compared with the value "
 "type of the codec that the factories build; the PCL and PCD translations are evaluated with each source code injected into the "
 "loop over the fields; the Python dtype table is read from the syntax tree.")
TYPES = {1: 'INT8', 2: 'UINT8', 3: 'INT16', 4: 'UINT16', 5: 'INT32', 6: 'UINT32', 7: 'FLOAT32', 8: 'FLOAT64', 9: 'INT64', 10: 'UINT64'}
SIZE = {1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 4, 8: 8, 9: 8, 10: 8}
VALUE = {'short': (2, 'i'), 'unsigned short': (2, 'u'), 'int': (4, 'i'), 'unsigned int': (4, 'u'), 'long': (8, 'i'), 'unsigned long': (8, 'u'), 'float': (4, 'f'), 'double': (8, 'f'),
         's': (2, 'i'), 't': (2, 'u'), 'i': (4, 'i'), 'j': (4, 'u'), 'l': (8, 'i'), 'm': (8, 'u'), 'x': (8, 'i'), 'y': (8, 'u'), 'f': (4, 'f'), 'd': (8, 'f'), 'a': (1, 'i'), 'h': (1, 'u')}
KIND = {c: ('f' if n[0] == 'F' else 'u' if n[0] == 'U' else 'i') for c, n in TYPES.items()}
ENUMS = {'FieldType': TYPES, 'EncodingOptions': {0: 'NONE', 1: 'LOSSY', 2: 'LOSSLESS'}, 'CompressionOption': {0: 'NONE', 1: 'LZ4', 2: 'ZSTD'}}

def stoi_model(values):
    def h(e, st, ins, q, a):
        c = vgstd.getstr(e, st, a[0])
        if c[0] != 'B': return K(ins['w'], values) if values is not None else None
        m = re.match(rb'[ \t\n\r\f\v]*([+-]?\d+)', c[1])
        if not m or not -(1 << 31) <= int(m.group(1)) < 1 << 31: return []
        return K(ins['w'], int(m.group(1)))
    return (r'^std::(__cxx11::)?(stoi|stol)$', h)

def run1(fn, setup, models, **kw):
    st = St(); setup(st)
    try: return VG(fn, models=models + MODELS, **kw).run(st)
    except (Stop, TooMany) as e: return e

def run(ctx):
    m = build.module('core', [r'^Cloudini::ToString\(', r'^Cloudini::\w+FromString\(', r'^Cloudini::SizeOf\('])
    by = {}
    for f in m.roots:
        q = f.q.split('::')[-1]
        if q == 'ToString':
            for n in ENUMS:
                if n in f.dtypes[1]: by[('to', n)] = f
        elif q == 'SizeOf': by['size'] = f
        else:
            for n in ENUMS:
                if f.dtypes[0].endswith('::' + n): by[('from', n)] = f
    for n, codes in ENUMS.items():
        to, fr = by.get(('to', n)), by.get(('from', n))
        ctx.need(to and fr, 'conversion functions of %s not found' % n)
        names = {}
        for c in range(256):
            def put(st): st.env[to.args[0]['i']] = P(('x',)); st.mem[('x',)] = [(K(64, 0), 1, K(8, c))]
            r = run1(to, put, [])
            if isinstance(r, Exception): ctx.need(False, 'ToString(%s) could not be evaluated: %s' % (n, r))
            txt = {vgstd.cstr(VG(to), s, v) for _, s, v in r}
            ctx.count('conversions evaluated')
            t = next(iter(txt)) if len(txt) == 1 else None
            ctx.need(t is None or t[0] == 'B', 'ToString(%s) does not return known text' % n)
            t = t[1].decode('latin1') if t else None
            if c in codes: ctx.ob('every value has its released name', 'ToString(%s %d)' % (n, c), t == codes[c], '%r instead of %r' % (t, codes[c])); names[c] = t
            else: ctx.ob('no other value is given the name of a valid one', 'ToString(%s)' % n, t not in codes.values(), 'code %d is called %r' % (c, t), key='othername|%s|%d' % (n, c))
        # text to value
        def ev(text, val=None):
            def put(st):
                c = ('B', text) if text is not None else ('S', ('input',))
                st.env[fr.args[0]['i']] = vgstd.strlen_of(c); st.env[fr.args[1]['i']] = vgstd.data_ptr(c)
            r = run1(fr, put, [stoi_model(val)])
            if isinstance(r, Exception): ctx.need(False, '%s could not be evaluated: %s' % (fr.q, r))
            ctx.count('conversions evaluated'); return r
        allowed = set(codes) | ({0} if n == 'FieldType' else set())
        back = {t: c for c, t in codes.items()}
        texts = sorted({t for e in ENUMS.values() for t in e.values()} | {'', 'none', 'Lossy', 'INT', 'FLOAT', 'INT8 ', 'UINT', 'float32', 'lz4', 'UNKNOWN', 'INT128'})
        for t in texts:
            r = ev(t.encode())
            vals = [v for _, _, v in r]
            ctx.need(all(v is not None and v[0] in 'klb' for v in vals) and all(isk(v) for v in vals), '%s(%r) is not a constant' % (fr.q, t))
            if t in back: ctx.ob('text to value inverts value to text', '%s(%s)' % (fr.q, t), [v[2] for v in vals] == [back[t]], 'gives %s' % [v[2] for v in vals])
            else: ctx.ob('text that is no name is rejected', '%s(%r)' % (fr.q, t), (t == 'UNKNOWN' and [v[2] for v in vals] == [0]) or not vals, 'gives %s' % [v[2] for v in vals])
        for v in list(range(-3, 40)) + [127, 128, 255, 256, 257, 258, 265, 266, 511, 512, 65536, 65537, -256, -255, (1 << 31) - 1, -(1 << 31), 1 << 24]:
            r = ev(b'%d' % v)
            vals = [x[2] if isk(x) else None for _, _, x in r]
            ctx.ob('numeric text gives the value itself or is rejected', '%s(numeric)' % fr.q, not vals or (vals == [v] and v in allowed), '%d gives %s' % (v, vals), key='num|%s|%d' % (n, v))
        # unknown text: the literals that are accepted
        r = ev(None, None)
        for _, s, v in r:
            lits = [k[0][1] for k, tv in s.facts.items() if tv and isinstance(k, tuple) and isinstance(k[0], tuple) and isinstance(k[0][1], tuple) and k[0][1][0] == 'streq']
            for l in lits:
                t = [x[1].decode('latin1') for x in l[1:] if x[0] == 'B']
                ctx.ob('only the names are accepted', fr.q, len(t) == 1 and t[0] in back or t == ['UNKNOWN'], 'the text %s is accepted as well' % t, key='alias|%s|%s' % (n, t))
    # sizes
    f = by.get('size'); ctx.need(f, 'SizeOf not found')
    for c in range(0, 256):
        def put(st): st.env[f.args[0]['i']] = P(('x',)); st.mem[('x',)] = [(K(64, 0), 1, K(8, c))]
        r = run1(f, put, [])
        if isinstance(r, Exception): ctx.need(False, 'SizeOf could not be evaluated')
        vals = [v[2] if isk(v) else None for _, _, v in r]
        ctx.ob('the size of a type is the size of its value', 'SizeOf(%s)' % TYPES.get(c, 'other'), vals == [SIZE.get(c, 0)] or (c not in SIZE and not vals), 'code %d: %s bytes' % (c, vals), key='size|%d' % c)
    codecs(ctx)
    pcl(ctx)
    python(ctx)

def codecs(ctx):
    """the value type of the codec built for each type"""
    fm = build.module('core', [r'^Cloudini::detail::BuildV\d', r'buildV5Plan', r'getV5AdaptiveFields'])
    enc, dec, plan, adap, uses = cfactory.factory_roots(fm)
    for fn in enc + [f for f in dec if 'V4' in f.q]:
        n0 = 0
        for opt in (0, 1, 2):
            for ty in TYPES:
                for has in (False, True):
                    sts, eng, _ = cfactory.run_fn(fm, fn, cfactory.Config([(ty, has)], opt, 4))
                    for s in sts:
                        for key, o in s.objs.items():
                            if o[0] != 'vec' or o[3] != 8: continue
                            for c, cells in cfactory.objects(fm, eng, s, key) or []:
                                if not c: continue
                                mm = re.search(r'I([a-z])EE?$', c)
                                if not mm: continue
                                n0 += 1; ctx.count('codec instances')
                                ctx.ob('the codec of a type handles values of its width, sign and kind', '%s: %s' % (fn.q.split('::')[-1], TYPES[ty]), VALUE.get(mm.group(1)) == (SIZE[ty], KIND[ty]), 'codec %s' % c, key='codec|%s|%s' % (fn.q, TYPES[ty]))
        ctx.need(n0, 'no codec instances seen in %s' % fn.q)

def typed_load(off, code, size=1, guard=None):
    def onload(st, ins, p, v):
        if ins['sz'] != size or p[1][0] in ('al', 'g'): return v
        c, t = lin_of(p[2])
        if c == off and (t or p[1][0] not in ('arg',)): return K(8 * size, code)
        return v
    return onload

def loops_of(e): return [i for l in e.loops.values() for i in l]

def pcl(ctx):
    m = build.module('pcl', [r'^Cloudini::ConvertToEncodingInfo\(pcl::PCLPointCloud2', r'^Cloudini::PCLPointCloudDecode\(', r'^Cloudini::ReadEncodingInfoFromPCD'], inline_extra=[])
    R = {f.q.split('::')[-1]: f for f in m.roots}
    pf = cfactory.members(m, 'Cloudini::PointField'); tyo = pf['type'][1]; offo = pf['offset'][1]
    lf = cfactory.members(m, 'pcl::PCLPointField'); dto = lf['datatype'][1]
    def pushes(e):
        out = []
        for i in loops_of(e):
            for conds, evs, s in i['body']:
                for ev in evs:
                    if ev[0] == 'push': out.append((dict(ev[2][0][1]) if ev[2] else {}, s))
        return out
    f = R.get('ConvertToEncodingInfo'); ctx.need(f, 'ConvertToEncodingInfo not found')
    for code in range(0, 14):
        st = St()
        for i, a in enumerate(f.args): st.env[a['i']] = P(('arg', a.get('name'))) if a['t'] == 'ptr' else vg.F(('arg', a.get('name'))) if not a['t'].startswith('i') else atom(int(a['t'][1:]), ('arg', i))
        e = VG(f, models=MODELS); e.onload = typed_load(dto, code)
        try: e.run(st)
        except (Stop, TooMany) as x: ctx.need(False, 'ConvertToEncodingInfo could not be evaluated: %s' % x)
        got = {(x[tyo][1][2] if tyo in x and isk(x[tyo][1]) else None) for x, _ in pushes(e)}
        exp = {code} if 1 <= code <= 8 else None
        ctx.count('translations evaluated')
        ctx.need(None not in got, 'the field type given to PCL code %d is not a constant' % code)
        if exp: ctx.ob('a PCL type maps to its counterpart', 'ConvertToEncodingInfo(PCL %d)' % code, got == exp, 'gives %s' % sorted(TYPES.get(g, g) for g in got))
        elif code in (9, 10): ctx.ob('a PCL type maps to its counterpart', 'ConvertToEncodingInfo(PCL %d)' % code, got <= {0, code}, 'gives %s' % sorted(TYPES.get(g, g) for g in got))
        else: ctx.ob('an unknown PCL type stays unknown', 'ConvertToEncodingInfo(PCL %d)' % code, got <= {0}, 'gives %s' % sorted(TYPES.get(g, g) for g in got))
    f = R.get('PCLPointCloudDecode'); ctx.need(f, 'PCLPointCloudDecode not found')
    for code in TYPES:
        st = St()
        for i, a in enumerate(f.args): st.env[a['i']] = P(('arg', a.get('name'))) if a['t'] == 'ptr' else atom(int(a['t'][1:]), ('arg', i))
        e = VG(f, models=MODELS); e.onload = typed_load(tyo, code)
        try: e.run(st)
        except (Stop, TooMany) as x: ctx.need(False, 'PCLPointCloudDecode could not be evaluated: %s' % x)
        got = set()
        for x, s in pushes(e):
            if dto in x: got.add(x[dto][1][2] if isk(x[dto][1]) else None)
        ctx.count('translations evaluated'); ctx.need(got and None not in got, 'the PCL type given to %s is not a constant' % TYPES[code])
        ctx.ob('a type maps back to its PCL counterpart', 'PCLPointCloudDecode(%s)' % TYPES[code], got == {code}, 'gives %s' % sorted(got))
    pcd(ctx, R.get('ReadEncodingInfoFromPCD'), m)

def pcd(ctx, f, m):
    ctx.need(f, 'ReadEncodingInfoFromPCD not found')
    for kind in (b'F', b'I', b'U', b'X'):
        for size in (1, 2, 4, 8, 3, 16):
            lits = {b'F', b'I', b'U'}
            src = {'kind': set(), 'size': set()}
            def eq(e, st, ins, q, a):
                r = None
                fu = vgstd.full(e, ins)
                if 'operator==<char' in fu or 'operator!=<char' in fu:
                    cs = []
                    if len(a) == 4: cs = [vgstd.view(e, st, a[0], a[1]), vgstd.view(e, st, a[2], a[3])]
                    else:
                        par = vgstd.split_args(vgstd.args_of(fu))
                        for p, x in zip(par, a): cs.append(vgstd.cstr(e, st, x) if p.startswith('char const*') else vgstd.getstr(e, st, x))
                    for i in range(len(cs)):
                        if cs[i][0] == 'B' and cs[i][1] in lits and cs[1 - i][0] == 'S':
                            src['kind'].add(owner(cs[1 - i])); r = K(1, (cs[i][1] == kind) == ('operator==' in q))
                return r if r is not None else vgstd._eq(e, st, ins, q, a)
            def stoi(e, st, ins, q, a):
                src['size'].add(owner(vgstd.getstr(e, st, a[0]))); return K(ins['w'], size)
            stored = []
            def mapat(e, st, ins, q, a):
                p = P(('mapcell', st.fresh()))
                return p
            def ins_(e, st, ins, q, a):
                st.events.append(('mapput', tuple((tuple(sorted(vgstd.snapshot(e, st, x).items(), key=vg.okey)) if x[0] == 'p' else x) for x in a))); return None
            e = VG(f, models=[(r'^std::operator(==|!=)$', eq), (r'^std::(__cxx11::)?(stoi|stol|stoul)$', stoi), (r'map<.*>::(operator\[\]|at)$', mapat), (r'map<.*>::(insert|emplace|insert_or_assign|try_emplace|emplace_hint)$', ins_)] + MODELS)
            st = St()
            for i, a in enumerate(f.args): st.env[a['i']] = P(('arg', a.get('name'))) if a['t'] == 'ptr' else atom(int(a['t'][1:]), ('arg', i))
            try: e.run(st)
            except (Stop, TooMany) as x: ctx.need(False, 'ReadEncodingInfoFromPCD could not be evaluated: %s' % x)
            got = set()
            for i in loops_of(e):
                for conds, evs, s in i['body']:
                    for b, cells in s.mem.items():
                        if b[0] == 'mapcell':
                            for o, sz, v in cells: got.add(v[2] if v[0] == 'k' else None)
            ctx.count('translations evaluated'); ctx.need(got and None not in got, 'the type given to PCD %s%d is not a constant' % (kind.decode(), size))
            exp = next((c for c in TYPES if KIND[c] == kind.decode().lower() and SIZE[c] == size), 0)
            ctx.ob('a PCD type maps to its counterpart', 'ReadEncodingInfoFromPCD(%s %d)' % (kind.decode(), size), got <= {exp} , 'gives %s' % sorted(TYPES.get(g, g) for g in got))
            ctx.need(len(src['kind']) == 1 and len(src['size']) == 1, 'the kind and size columns of the PCD header were not recognised')
            ctx.ob('kind and size come from their own columns of the header', 'ReadEncodingInfoFromPCD', src['kind'] != src['size'], str(src))
            if kind == b'F' and size == 4: keys(ctx, e, f, src)

def keys(ctx, e, f, src):
    """which header line fills which column"""
    fills = {}
    for i in loops_of(e):
        for conds, evs, s in i['body']:
            key = [x[1] for a, tv in s.facts.items() if tv and isinstance(a[0], tuple) and isinstance(a[0][1], tuple) and a[0][1][0] == 'streq' for x in a[0][1][1:] if x[0] == 'B']
            for ev in evs:
                if ev[0] == 'call' and re.search(r'vector<.*>::(assign|operator=|insert|_M_|swap)', ev[1]) and ev[2][0][0] == 'p': fills.setdefault(ev[2][0][1:], set()).update(key)
    for what, exp in (('kind', b'TYPE'), ('size', b'SIZE')):
        o = next(iter(src[what]))
        hit = [k for b, k in fills.items() if b == o]
        if not hit: ctx.notes.append('column %s not traced to a header line' % what); continue
        ctx.ob('a column of the PCD header is filled from its own line', 'ReadEncodingInfoFromPCD %s' % what, all(k == {exp} for k in hit), 'filled from %s' % hit)

def owner(c):
    """the container a text was taken from"""
    def find(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'p' and isinstance(x[1], tuple) and x[1] and x[1][0] in ('al', 'arg'): return x[1:]
            if len(x) >= 2 and x[0] == 'al': return (x, K(64, 0))
            for y in x:
                r = find(y)
                if r: return r
        return None
    return find(c) or c

def python(ctx):
    p = os.path.join(build.REPO, 'cloudini_py', 'cloudini_decoder.py')
    ctx.need(os.path.exists(p), 'cloudini_decoder.py not found')
    tree = ast.parse(open(p).read())
    tables = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Dict) and len(n.keys) >= 5 and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in n.keys if k) and {k.value for k in n.keys} & set(TYPES.values()):
            tables.append({k.value: v for k, v in zip(n.keys, n.values)})
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'dict' and {k.arg for k in n.keywords} & set(TYPES.values()): tables.append({k.arg: k.value for k in n.keywords})
    ctx.need(tables, 'the Python type table was not found')
    KN = {'i': 'int', 'u': 'uint', 'f': 'float'}
    for t in tables:
        for c, nme in TYPES.items():
            v = t.get(nme); txt = None
            if isinstance(v, ast.Attribute): txt = v.attr
            elif isinstance(v, ast.Constant): txt = str(v.value)
            elif isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Constant, ast.Attribute)): txt = getattr(v.args[0], 'value', None) if isinstance(v.args[0], ast.Constant) else v.args[0].attr
            want = {'%s%d' % (KN[KIND[c]], 8 * SIZE[c]), '<%s%d' % (KIND[c], SIZE[c]), '%s%d' % (KIND[c], SIZE[c]), {'float32': 'single', 'float64': 'double'}.get('%s%d' % (KN[KIND[c]], 8 * SIZE[c]), '-')}
            ctx.ob('the Python type table maps each name to its numpy type', 'cloudini_decoder.py %s' % nme, txt in want, 'mapped to %s' % (txt if v is not None else 'nothing'))
        extra = set(t) - set(TYPES.values())
        ctx.ob('the Python type table has no other names', 'cloudini_decoder.py', not extra, str(extra))
        ctx.count('python tables')
