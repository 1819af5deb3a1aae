"""Models of the standard library for the value graphs: text contents, streams, vectors as logs.

Text contents are terms: ('B', bytes) for known text, ('S', key) for unknown text.  A std::string object's content is kept in
st.user['str'] under the address of the object."""
import re
import vg
from vg import K, P, F, atom, vadd, vsub, isk, lin_of, mkbits, to_ptr, to_int, notv, decide, assume, norm, apply_sub

def skey(p): return (p[1], p[2])
def strs(st): return st.user.setdefault('str', {})
def getstr(e, st, p):
    p = to_ptr(p); d = strs(st)
    v = d.get(skey(p))
    if v is not None and v[0] == 'S' and v[1][0] == 'buffer':
        return cell_content(e, st, ('text', v), K(64, 0), v[1][2]) or v
    if v is None and p[1][0] == 'g':         # a string built at compile time: pointer, length, short text
        n = norm(st, e.load(st, p[1], vadd(p[2], K(64, 8)), 8, 'i64', 64))
        if isk(n) and n[2] < 16:
            b = const_bytes(e, st, P(p[1], vadd(p[2], K(64, 16))), n[2])
            if b is not None: return ('B', bytes(b))
    return v if v is not None else ('S', ('text of', p[1], p[2], e.version(st, p[1])))
def setstr(st, p, v): strs(st)[skey(to_ptr(p))] = v

def const_bytes(e, st, p, n):
    out = []
    for i in range(n):
        b = e.byte(st, p[1], vadd(p[2], K(64, i)))
        if not isk(b): return None
        out.append(b[2])
    return bytes(out)

def strlen_of(c):
    if c[0] == 'B': return K(64, len(c[1]))
    if c[1][0] == 'buffer': return c[1][2]
    if c[1][0] not in ('stream', 'cat'): return atom(64, ('length', c))
    r = K(64, 0)
    for p in pieces_of(c): r = vadd(r, K(64, len(p[1])) if p[0] == 'lit' else strlen_of(p[1]) if p[0] == 'txt' else atom(64, ('length', p)))
    return r

def data_ptr(c): return P(('text', c))

def cstr(e, st, p):
    """content of a NUL terminated string"""
    p = to_ptr(p)
    if p[1][0] == 'text' and isk(p[2]) and p[2][2] == 0: return p[1][1]
    if p[1][0] == 'text' and p[1][1][0] == 'B' and isk(p[2]): return ('B', p[1][1][1][p[2][2]:])
    if p[1][0] == 'g' and isk(p[2]):
        g = e.mod.gbytes(p[1][1])
        if g is not None:
            t = g[p[2][2]:]
            return ('B', t.split(b'\0')[0])
    out = []
    for i in range(300):
        b = e.byte(st, p[1], vadd(p[2], K(64, i)))
        if not isk(b): return ('S', ('cstr', p[1], p[2]))
        if b[2] == 0: return ('B', bytes(out))
        out.append(b[2])
    return ('S', ('cstr', p[1], p[2]))

def view(e, st, n, p):
    """content of [p, p+n)"""
    p = to_ptr(p); n = norm(st, to_int(n, 64))
    if p[1][0] == 'text':
        c = p[1][1]
        if isk(p[2]) and p[2][2] == 0 and n == strlen_of(c): return c
        if c[0] == 'B' and isk(p[2]) and isk(n): return ('B', c[1][p[2][2]:p[2][2] + n[2]])
        return ('S', ('sub', c, p[2], n))
    if isk(n) and n[2] <= 64:
        b = const_bytes(e, st, p, n[2])
        if b is not None: return ('B', b)
    return cell_content(e, st, p[1], p[2], n) or ('S', ('view', p[1], p[2], n, e.version(st, p[1])))

def cell_content(e, st, base, off, n, depth=0):
    """text stored as a whole by a copy of exactly these bytes"""
    for o, sz, v in reversed(st.mem.get(base, ())):
        w = sz if isinstance(sz, tuple) else K(64, sz) if sz is not None else None
        if e.dist(st, off, o) == 0 and w is not None and vg.same(st, w, n) and v[0] == 'f' and v[1][0] == 'mem' and depth < 6:
            _, b, so, m, ver = v[1]
            if b[0] == 'text':
                c = b[1]
                return c if isk(so) and so[2] == 0 and vg.same(st, m, strlen_of(c)) else ('S', ('sub', c, so, m))
            if ver == e.version(st, b): return cell_content(e, st, b, so, m, depth + 1) or ('S', ('view', b, so, m, ver))
            return ('S', ('view', b, so, m, ver))
        if not e.apart(st, o, sz, off, n): return None
    return None

def view_at(e, st, p):
    """content of the string_view object at p"""
    p = to_ptr(p)
    return view(e, st, e.load(st, p[1], p[2], 8, 'i64', 64), e.load(st, p[1], vadd(p[2], K(64, 8)), 8, 'ptr'))

def streq(a, b):
    if a[0] == 'B' and b[0] == 'B': return K(1, a[1] == b[1])
    if a == b: return K(1, 1)
    for x, y in ((a, b), (b, a)):
        if x[0] == 'B' and y[0] == 'S' and y[1][0] == 'stream' and len(y[1][1]) == 1 and y[1][1][0][0] in ('dec', 'flt') and y[1][1][0][3] == 'classic':
            if not re.fullmatch(rb'[-+]?(\d[\d.e+-]*|inf|nan)', x[1]): return K(1, 0)      # not the text of any number
    return atom(1, ('streq',) + tuple(sorted((a, b), key=vg.okey)))

def cat(a, b):
    if a[0] == 'B' and b[0] == 'B': return ('B', a[1] + b[1])
    if a == ('B', b''): return b
    if b == ('B', b''): return a
    return ('S', ('cat', a, b))

MODELS = []
def model(rx):
    def d(f): MODELS.append((rx, f)); return f
    return d

def args_of(fu):
    """the parameter list at the end of a demangled name"""
    e = fu.rfind(')')
    if e < 0: return '()'
    d = 0
    for i in range(e, -1, -1):
        if fu[i] == ')': d += 1
        elif fu[i] == '(':
            d -= 1
            if d == 0: return fu[i:e + 1]
    return '()'
def full(e, ins): return e.mod.fn_full.get(ins.get('f')) or ''
BS = r'^std::(__cxx11::)?basic_string<char'

@model(r'^strlen$|^std::char_traits<char>::length$|^__builtin_strlen$')
def _strlen(e, st, ins, q, a): return strlen_of(cstr(e, st, a[0]))
@model(r'^(memcmp|bcmp|__builtin_memcmp|std::char_traits<char>::compare)$')
def _memcmp(e, st, ins, q, a):
    x, y = view(e, st, a[2], a[0]), view(e, st, a[2], a[1])
    if x[0] == 'B' and y[0] == 'B': return K(32, 0 if x[1] == y[1] else 1 if x[1] > y[1] else M32)
    s = streq(x, y)
    return mkbits(32, [vg.bits_of(notv(s))[0]] + [frozenset()] * 31)
M32 = (1 << 32) - 1
@model(r'^strcmp$')
def _strcmp(e, st, ins, q, a):
    x, y = cstr(e, st, a[0]), cstr(e, st, a[1])
    if x[0] == 'B' and y[0] == 'B': return K(32, 0 if x[1] == y[1] else 1 if x[1] > y[1] else M32)
    return mkbits(32, [vg.bits_of(notv(streq(x, y)))[0]] + [frozenset()] * 31)
@model(r'^std::operator(==|!=)$')
def _eq(e, st, ins, q, a):
    fu = full(e, ins)
    if 'operator==<char' not in fu and 'operator!=<char' not in fu: return e.unknown(st, ins, q, a)
    neg = 'operator!=' in q
    par = args_of(fu)
    if len(a) == 4: r = streq(view(e, st, a[0], a[1]), view(e, st, a[2], a[3]))
    elif re.search(r', char const\*\)$', par) or par.endswith('char const*)'): r = streq(getstr(e, st, a[0]), cstr(e, st, a[1]))
    elif par.startswith('(char const*'): r = streq(cstr(e, st, a[0]), getstr(e, st, a[1]))
    elif len(a) == 2: r = streq(getstr(e, st, a[0]), getstr(e, st, a[1]))
    else: return None
    return notv(r) if neg else r
@model(BS + r'.*>::compare$|^std::basic_string_view<.*>::compare$')
def _compare(e, st, ins, q, a):
    fu = full(e, ins); me = view_at(e, st, a[0]) if 'basic_string_view<' in q[:24] else getstr(e, st, a[0])
    if len(a) == 2 and 'char const*)' in fu: o = cstr(e, st, a[1])
    elif len(a) == 2: o = getstr(e, st, a[1])
    elif len(a) == 3: o = view(e, st, a[1], a[2])
    else: return None
    if me[0] == 'B' and o[0] == 'B': return K(32, 0 if me[1] == o[1] else 1)
    return mkbits(32, [vg.bits_of(notv(streq(me, o)))[0]] + [frozenset()] * 31)
@model(BS + r'.*>::basic_string$')
def _bsctor(e, st, ins, q, a):
    par = args_of(full(e, ins))
    this = a[0]
    if par.startswith('()'): setstr(st, this, ('B', b'')); return None
    if par.startswith('(std::basic_string_view'): setstr(st, this, view_at(e, st, a[1])); return None
    if par.startswith('(char const*, unsigned long'): setstr(st, this, view(e, st, a[2], a[1])); return None
    if par.startswith('(char const*'): setstr(st, this, cstr(e, st, a[1])); return None
    if re.match(r'\(std::__cxx11::basic_string<.*> const&\)', par) and len(a) == 2: setstr(st, this, getstr(e, st, a[1])); return None
    if '&&)' in par and len(a) == 2:
        setstr(st, this, getstr(e, st, a[1])); return None
    if par.startswith('(unsigned long, char'): setstr(st, this, ('S', ('fill', a[1], a[2]))); return None
    setstr(st, this, ('S', ('made', st.fresh()))); return None
@model(BS + r'.*>::~basic_string$')
def _bsdtor(e, st, ins, q, a): return None
@model(BS + r'.*>::(size|length)$')
def _bssize(e, st, ins, q, a): return strlen_of(getstr(e, st, a[0]))
@model(BS + r'.*>::empty$')
def _bsempty(e, st, ins, q, a): return vg.cmpv(st, 'eq', strlen_of(getstr(e, st, a[0])), K(64, 0), 64)
@model(BS + r'.*>::(c_str|data)$')
def _bsdata(e, st, ins, q, a):
    c = strs(st).get(skey(to_ptr(a[0]))) or getstr(e, st, a[0])
    return data_ptr(c)
@model(BS + r'.*>::operator std::basic_string_view')
def _bsview(e, st, ins, q, a):
    c = getstr(e, st, a[0])
    return ('agg', (((0,), strlen_of(c)), ((1,), data_ptr(c))))
@model(BS + r'.*>::operator=$')
def _bsassign(e, st, ins, q, a):
    fu = full(e, ins)
    if fu.endswith('(char const*)'): v = cstr(e, st, a[1])
    elif 'basic_string_view' in fu.split('operator=')[-1]: v = view_at(e, st, a[1])
    elif fu.endswith('(char)'): v = ('S', ('char', a[1]))
    else: v = getstr(e, st, a[1])
    setstr(st, a[0], v); return a[0]
@model(BS + r'.*>::assign$')
def _bsassign2(e, st, ins, q, a):
    tail = args_of(full(e, ins))
    if tail.startswith('(char const*, unsigned long'): v = view(e, st, a[2], a[1])
    elif tail.startswith('(char const*'): v = cstr(e, st, a[1])
    elif len(a) == 2 and 'basic_string_view' not in tail: v = getstr(e, st, a[1])
    elif len(a) == 2: v = view_at(e, st, a[1])
    else: v = ('S', ('assigned', st.fresh()))
    setstr(st, a[0], v); return a[0]
@model(r'^__cxa_guard_acquire$')
def _guard(e, st, ins, q, a): return K(32, 1)
@model(r'^__cxa_guard_release$')
def _guardrel(e, st, ins, q, a): p = to_ptr(a[0]); e.store(st, p[1], p[2], 1, K(8, 1)); return None
@model(BS + r'.*>::(operator\+=|append|push_back)')
def _bsappend(e, st, ins, q, a):
    tail = args_of(full(e, ins))
    if tail.startswith('(char const*, unsigned long'): v = view(e, st, a[2], a[1])
    elif tail.startswith('(char const*'): v = cstr(e, st, a[1])
    elif tail.startswith('(char)'): v = ('B', bytes([a[1][2] & 255])) if isk(a[1]) else ('S', ('char', a[1]))
    elif len(a) == 2 and 'basic_string_view' not in tail: v = getstr(e, st, a[1])
    else: v = ('S', ('app', st.fresh()))
    setstr(st, a[0], cat(getstr(e, st, a[0]), v)); return a[0]
@model(r'^std::operator\+$')
def _bsplus(e, st, ins, q, a):
    fu = full(e, ins)
    if 'operator+<char' not in fu: return e.unknown(st, ins, q, a)
    par = args_of(fu)
    ret, x, y = a[0], a[1], a[2]
    def side(t, v): return cstr(e, st, v) if t.startswith('char const*') else ('S', ('char', v)) if t == 'char' else getstr(e, st, v)
    ts = split_args(par)
    if len(ts) != 2: setstr(st, ret, ('S', ('plus', st.fresh()))); return None
    setstr(st, ret, cat(side(ts[0], x), side(ts[1], y))); return None
def split_args(par):
    d = 0; out = []; cur = ''
    for ch in par.strip()[1:-1] if par.strip().startswith('(') else par:
        if ch in '<(': d += 1
        elif ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
@model(r'^std::(__cxx11::)?to_string$')
def _tostr(e, st, ins, q, a): setstr(st, a[0], ('S', ('decimal', a[1]))); return None
@model(r'^std::(__cxx11::)?(stoi|stol|stoul|stoull|stoll)$')
def _stoi(e, st, ins, q, a): return atom(ins['w'], ('parsed integer', getstr(e, st, a[0])))
@model(r'^std::(__cxx11::)?(stof|stod)$')
def _stof(e, st, ins, q, a): return F(('parsed float', getstr(e, st, a[0])))
@model(r'^std::allocator<')
def _alloc(e, st, ins, q, a): return None

# ------------------------------------------------------------------ sequences as logs
def snapshot(e, st, p):
    """{constant offset: (size, value)} of the object at p, and the texts inside it"""
    out = {}
    for o, sz, v in st.mem.get(p[1], ()):
        d = vsub(o, p[2])
        if isk(d) and d[2] < 1 << 20: out[d[2]] = (sz, v)
    for (b, o), c in strs(st).items():
        if b == p[1]:
            d = vsub(o, p[2])
            if isk(d) and d[2] < 1 << 20: out[('text', d[2])] = (0, getstr(e, st, P(b, o)))
    return out
@model(r'^std::vector<.*>::(push_back|emplace_back)$')
def _push(e, st, ins, q, a):
    v = to_ptr(a[0]); x = tuple((p if p[0] != 'p' else p, tuple(sorted(snapshot(e, st, p).items(), key=vg.okey)) if p[0] == 'p' else ()) for p in a[1:])
    if not x:          # a default element, to be filled in place
        k = ('elements', skey(v)); n = st.user.setdefault('made', {}); n = st.user['made'] = dict(n); i = n.get(k, 0); n[k] = i + 1
        st.events.append(('made', v, P(k + (i,)), q)); return P(k + (i,))
    st.events.append(('push', v, x, q)); e.havoc(st, v[1]) if v[1][0] not in ('al', 'arg') else st.ver.__setitem__(v[1], st.ver.get(v[1], 0) + 1)
    return P(('pushed', st.fresh())) if 'i' in ins else None

# ------------------------------------------------------------------ vectors with known storage
def vecs(st): return st.user.setdefault('vec', {})
def setvec(st, p, data, n, esz): vecs(st)[skey(p)] = (data, n if isinstance(n, tuple) else K(64, n), esz)
VEC = []
def vmodel(rx):
    def d(f): VEC.append((rx, f)); return f
    return d
def vec_of(st, p): return vecs(st).get(skey(to_ptr(p)))
VQ = r'^std::(vector|span|array)<.*>::'
def vend(v): return P(v[0][1], vadd(v[0][2], vg.vscale(v[1], v[2])))
@vmodel(VQ + r'(begin|cbegin|data)$')
def _vbegin(e, st, ins, q, a):
    v = vec_of(st, a[0]); return v[0] if v else None
@vmodel(VQ + r'(end|cend)$')
def _vend(e, st, ins, q, a):
    v = vec_of(st, a[0]); return vend(v) if v else None
@vmodel(VQ + r'size$')
def _vsize(e, st, ins, q, a):
    v = vec_of(st, a[0]); return v[1] if v else None
@vmodel(VQ + r'empty$')
def _vempty(e, st, ins, q, a):
    v = vec_of(st, a[0]); return vg.cmpv(st, 'eq', v[1], K(64, 0), 64) if v else None
@vmodel(VQ + r'(operator\[\]|at)$')
def _vidx(e, st, ins, q, a):
    v = vec_of(st, a[0])
    if not v: return None
    i = norm(st, to_int(a[1], 64)); return P(v[0][1], vadd(v[0][2], vg.vscale(i, v[2])))
@vmodel(VQ + r'front$')
def _vfront(e, st, ins, q, a):
    v = vec_of(st, a[0]); return v[0] if v else None
@vmodel(VQ + r'back$')
def _vback(e, st, ins, q, a):
    v = vec_of(st, a[0]); k = ('elements', skey(to_ptr(a[0])))
    if not v and st.user.get('made', {}).get(k): return P(k + (st.user['made'][k] - 1,))
    return P(v[0][1], vadd(v[0][2], vadd(vg.vscale(v[1], v[2]), K(64, -v[2])))) if v else None
@vmodel(VQ + r'clear$')
def _vclear(e, st, ins, q, a):
    v = vec_of(st, a[0])
    if not v: return None
    vecs(st)[skey(to_ptr(a[0]))] = (v[0], K(64, 0), v[2]); e.havoc(st, v[0][1]); return None
@vmodel(VQ + r'reserve$')
def _vreserve(e, st, ins, q, a): return None if vec_of(st, a[0]) else None
@vmodel(VQ + r'resize$')
def _vresize(e, st, ins, q, a):
    v = vec_of(st, a[0])
    if not v: return None
    n = norm(st, to_int(a[1], 64))
    st.events.append(('resize', to_ptr(a[0]), n)); vecs(st)[skey(to_ptr(a[0]))] = (v[0], n, v[2]); return None

# ------------------------------------------------------------------ text streams
def sobj(p):
    p = to_ptr(p); return ('stream object', p[1])          # one stream per object, whatever sub-object is named
def streams(st): return st.user.setdefault('streams', {})
def sget(st, p): return streams(st).get(sobj(p), dict(pieces=(), loc='global', prec=K(32, 6), src=None, bad=None))
def sput(st, p, **kw): d = dict(sget(st, p)); d.update(kw); streams(st)[sobj(p)] = d
def pieces_of(c):
    if c[0] == 'B': return (('lit', c[1]),) if c[1] else ()
    if c[1][0] == 'stream': return c[1][1]
    if c[1][0] == 'cat': return pieces_of(c[1][1]) + pieces_of(c[1][2])
    return (('txt', c),)
def join(ps):
    out = []
    for p in ps:
        if p[0] == 'lit' and out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + p[1])
        else: out.append(p)
    return tuple(out)
def text_of(ps):
    ps = join(ps)
    if not ps: return ('B', b'')
    if len(ps) == 1 and ps[0][0] == 'lit': return ('B', ps[0][1])
    if len(ps) == 1 and ps[0][0] == 'txt': return ps[0][1]
    return ('S', ('stream', ps))
def emit(st, p, *ps): sput(st, p, pieces=join(sget(st, p)['pieces'] + ps))
STREAMS = []
def smodel(rx):
    def d(f): STREAMS.append((rx, f)); return f
    return d
@smodel(r'^std::(__cxx11::)?basic_(i|o)?stringstream<.*>::basic_(i|o)?stringstream$')
def _ssctor(e, st, ins, q, a):
    streams(st).pop(sobj(a[0]), None)
    par = args_of(full(e, ins))
    if par.startswith('(std::__cxx11::basic_string'):
        c = getstr(e, st, a[1]); sput(st, a[0], src=c, pieces=() if 'istringstream' in q else pieces_of(c))
    elif par.startswith('(std::basic_string_view'): sput(st, a[0], src=view_at(e, st, a[1]))
    return None
@smodel(r'^std::(__cxx11::)?basic_(i|o)?stringstream<.*>::~basic_(i|o)?stringstream$|^std::locale::~locale$|^std::locale::locale$')
def _ssdtor(e, st, ins, q, a): return None
@smodel(r'^std::locale::classic$')
def _classic(e, st, ins, q, a): return P(('locale', 'classic'))
@smodel(r'^std::(basic_ios|basic_ostream|basic_istream|ios_base)(<.*>)?::imbue$|^std::ios_base::imbue$')
def _imbue(e, st, ins, q, a):
    # (return slot, stream, locale)
    loc = [to_ptr(x) for x in a if x[0] == 'p' and to_ptr(x)[1] == ('locale', 'classic')]
    s = [x for x in a if x[0] == 'p' and sobj(x) in streams(st)] or [a[1] if len(a) > 2 else a[0]]
    sput(st, s[-1], loc='classic' if loc else 'other'); return None
@smodel(r'^std::setprecision$')
def _setprec(e, st, ins, q, a): return a[0]
@smodel(r'^std::ios_base::precision$')
def _prec(e, st, ins, q, a):
    if len(a) > 1: sput(st, a[0], prec=vg.trunc(to_int(a[1], 64), 32))
    return None
@smodel(r'^std::operator<<$')
def _shl(e, st, ins, q, a):
    par = args_of(full(e, ins)); ts = split_args(par); t = ts[1] if len(ts) > 1 else ''
    if t.startswith('char const*'): emit(st, a[0], *pieces_of(cstr(e, st, a[1])))
    elif t.startswith('std::__cxx11::basic_string'): emit(st, a[0], *pieces_of(getstr(e, st, a[1])))
    elif t.startswith('std::basic_string_view'): emit(st, a[0], *pieces_of(view(e, st, a[1], a[2]) if len(a) > 2 else view_at(e, st, a[1])))
    elif 'Setprecision' in t: sput(st, a[0], prec=to_int(a[1], 32) if a[1][0] != 'agg' else a[1][1][0][1])
    elif t == 'char': emit(st, a[0], ('lit', bytes([a[1][2] & 255])) if isk(a[1]) else ('txt', ('S', ('char', a[1]))))
    else: emit(st, a[0], ('txt', ('S', ('inserted', st.fresh()))))
    return a[0]
@smodel(r'^std::(basic_)?ostream(<.*>)?::operator<<$')
def _oshl(e, st, ins, q, a):
    par = args_of(full(e, ins)); d = sget(st, a[0])
    if par in ('(float)', '(double)', '(long double)'): emit(st, a[0], ('flt', a[1], d['prec'], d['loc'], par[1:-1]))
    elif re.match(r'\((unsigned )?(int|short|long|long long)\)', par): emit(st, a[0], ('dec', norm(st, to_int(a[1], a[1][1] if a[1][0] != 'f' else 32)), 'unsigned' not in par, d['loc']))
    elif par == '(bool)': emit(st, a[0], ('dec', a[1], False, d['loc']))
    else: emit(st, a[0], ('txt', ('S', ('inserted', st.fresh()))))
    return a[0]
@smodel(r'^std::(basic_)?istream(<.*>)?::operator>>$')
def _ishr(e, st, ins, q, a):
    par = args_of(full(e, ins)); d = sget(st, a[0]); t = par[1:-1].rstrip('&').strip()
    sz = {'float': 4, 'double': 8, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'short': 2, 'unsigned short': 2, 'bool': 1}.get(t)
    p = to_ptr(a[1]); key = ('extract', t, d['src'] if d['src'] is not None else text_of(d['pieces']), d['loc'])
    if sz: e.store(st, p[1], p[2], sz, F(key) if t in ('float', 'double') else atom(8 * sz, key))
    else: e.havoc(st, p[1])
    sput(st, a[0], bad=atom(1, ('extraction fails', key)))
    return a[0]
@smodel(r'^std::basic_ios<.*>::(operator bool|operator!|fail)$')
def _sbool(e, st, ins, q, a):
    b = sget(st, a[0])['bad']
    if b is None: b = K(1, 0)
    return notv(b) if q.endswith('operator bool') else b
@smodel(r'^std::(__cxx11::)?basic_(i|o)?stringstream<.*>::str$')
def _sstr(e, st, ins, q, a):
    fu = full(e, ins)
    if len(a) == 2 and 'sret' in str(ins.get('args', ''))[:0] or len(a) == 2: setstr(st, a[0], text_of(sget(st, a[1])['pieces'])); return None
    return None
@model(r'^std::basic_string_view<.*>::(find|find_first_of)$|^std::__cxx11::basic_string<char.*>::find$')
def _find(e, st, ins, q, a):
    par = args_of(full(e, ins))
    if not par.startswith('(char,'): return None
    c = view_at(e, st, a[0]) if 'view' in q[:24] else getstr(e, st, a[0])
    n = norm(st, e.load(st, to_ptr(a[0])[1], to_ptr(a[0])[2], 8, 'i64', 64)) if 'view' in q[:24] else strlen_of(c)
    r = atom(64, ('find', c, a[1], a[2])); s2 = st.copy()
    if vg.assume(st, vg.cmpv(st, 'ult', r, n, 64), True): return [(st, r), (s2, K(64, M64))]
    return [(s2, K(64, M64))]
M64 = (1 << 64) - 1
@model(r'^std::basic_string_view<.*>::substr$')
def _substr(e, st, ins, q, a):
    p = to_ptr(a[0]); n = norm(st, e.load(st, p[1], p[2], 8, 'i64', 64)); d = to_ptr(e.load(st, p[1], vadd(p[2], K(64, 8)), 8, 'ptr'))
    pos, cnt = norm(st, to_int(a[1], 64)), norm(st, to_int(a[2], 64))
    rest = vsub(n, pos)
    t = decide(st, vg.cmpv(st, 'ule', cnt, rest, 64))
    ln = cnt if t is True else rest if t is False else atom(64, ('umin', cnt, rest))
    return ('agg', (((0,), ln), ((1,), P(d[1], vadd(d[2], pos)))))
@model(BS + r'.*>::resize$')
def _bsresize(e, st, ins, q, a):
    n = norm(st, to_int(a[1], 64)); old = getstr(e, st, a[0])
    if old[0] == 'B' and isk(n) and n[2] <= len(old[1]): setstr(st, a[0], ('B', old[1][:n[2]]))
    else: setstr(st, a[0], ('S', ('buffer', st.fresh(), n)))
    return None
@model(BS + r'.*>::operator\[\]$')
def _bsidx(e, st, ins, q, a):
    c = strs(st).get(skey(to_ptr(a[0]))) or getstr(e, st, a[0])
    return P(('text', c), norm(st, to_int(a[1], 64)))
@model(r'^(memchr|__builtin_memchr)$')
def _memchr(e, st, ins, q, a):
    p = to_ptr(a[0]); n = norm(st, to_int(a[2], 64)); c = view(e, st, n, p)
    r = atom(64, ('find', c, vg.trunc(to_int(a[1], 32), 8), K(64, 0))); s2 = st.copy()
    if vg.assume(st, vg.cmpv(st, 'ult', r, n, 64), True): return [(st, P(p[1], vadd(p[2], r))), (s2, vg.NULL)]
    return [(s2, vg.NULL)]
@model(r'^std::__sv_check$')
def _svcheck(e, st, ins, q, a):
    n, pos = norm(st, to_int(a[0], 64)), norm(st, to_int(a[1], 64))
    return [(st, pos)] if vg.assume(st, vg.cmpv(st, 'ule', pos, n, 64), True) else []
