"""Models of the library functions the project calls (C runtime, libstdc++ containers, LZ4, ZSTD).

Each model is a transfer function of the abstract domain; nothing is executed."""
import re
import lin
from lin import A, const, var, add, sub, scale, neg, addc, entails, is_const, lmax, ZERO
from absint import modelf, I, P, U, NULL, T, F, ceq, cnot, cge

# ------------------------------------------------------------------ element sizes
PRIM = {'unsigned char': 1, 'char': 1, 'signed char': 1, 'bool': 1, 'std::byte': 1, 'unsigned short': 2, 'short': 2, 'unsigned int': 4, 'int': 4, 'float': 4,
        'unsigned long': 8, 'long': 8, 'double': 8, 'unsigned long long': 8, 'long long': 8}
def targ(q):
    """first template argument of the class a method belongs to"""
    i = q.find('<')
    if i < 0: return None
    d = 0
    for j in range(i, len(q)):
        if q[j] == '<': d += 1
        elif q[j] == '>':
            d -= 1
            if d == 0: return q[i + 1:j].strip()
        elif q[j] == ',' and d == 1: return q[i + 1:j].strip()
    return None
def esize(eng, t):
    if t is None: return None
    t = t.strip()
    if t.startswith('const '): t = t[6:]
    if t.endswith(' const'): t = t[:-6]
    if t in PRIM: return PRIM[t]
    if t.endswith('*') or t.startswith('std::unique_ptr<'): return 8
    if t.startswith('std::basic_string_view<'): return 16
    if t.startswith('std::__cxx11::basic_string<'): return 32
    if t.startswith('std::vector<'): return 24
    if t.startswith('Span<'): return 16
    ty = eng.mod.types.get(t) or eng.mod.type(t.split('::')[-1]) if not t.startswith('std::') else eng.mod.types.get(t)
    if ty: return ty['size']
    m = re.match(r'std::pair<(.*)>$', t)
    if m:
        n = [k for k in eng.mod.types if k.startswith('std::pair<') and eng.mod.types[k]['size']]
    return None
def SZ(eng, e, t):
    return const(e) if e else var(A.get(('sizeof', t), hi=4096, lo=1))
MAXN = U(62)

# ------------------------------------------------------------------ containers
def getobj(eng, st, p, es):
    """('vec', database, nLin, esz) of the container object at p (lazily introduced)"""
    key = (p[1], p[2])
    o = st.objs.get(key)
    if o is not None and o[0] == 'vec': return o
    src = eng.resolve(st, p[1], p[2], 24)
    if src is None:
        eng.serial += 1; src = (('objx', eng.serial), ZERO, 0)
    db = ('vd',) + src
    n = var(A.get(('vn',) + src, hi=MAXN // (es or 1)))
    o = ('vec', db, n, es)
    st.objs[key] = o
    if db not in st.ext: st.ext[db] = scale(n, es) if es else None
    return o
def setobj(eng, st, p, n, es, keep=True, db=None):
    key = (p[1], p[2])
    if db is None: db = ('vd', p[1], p[2], eng.bumpserial())
    st.objs[key] = ('vec', db, n, es)
    st.ext[db] = scale(n, es) if es else None
    return db
def resize_keep(eng, st, p, n, es):
    """new size, previous elements stay valid (same storage name so that known cells survive)"""
    o = getobj(eng, st, p, es)
    db = o[1]
    st.objs[(p[1], p[2])] = ('vec', db, n, es)
    st.ext[db] = scale(n, es) if es else None
    return db
def clear_cells(eng, st, db):
    eng.havoc_base(st, db)
def vecrx(m): return r'^std::(vector<.*>|__cxx11::basic_string<char.*>|basic_string<char.*>)::(%s)$' % m
def obj_of(eng, q, args, k=0):
    t = targ(q) if '::vector<' in q or q.startswith('std::vector<') else 'char'
    return eng.as_ptr(args[k]), esize(eng, t), t

@modelf(vecrx('size|length'))
def m_size(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    return ('val', I(getobj(eng, st, p, es)[2]))
@modelf(vecrx('empty'))
def m_empty(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    return ('val', ('b', ceq(getobj(eng, st, p, es)[2])))
@modelf(vecrx('capacity|max_size'))
def m_cap(eng, st, ins, q, args):
    return None
@modelf(vecrx('data|begin|cbegin|c_str|_M_data'))
def m_data(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    return ('val', P(getobj(eng, st, p, es)[1]))
@modelf(vecrx('end|cend'))
def m_end(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    o = getobj(eng, st, p, es)
    return ('val', P(o[1], lin.mul(o[2], SZ(eng, es, t))))
@modelf(vecrx(r'operator\[\]|at'))
def m_index(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    o = getobj(eng, st, p, es); i = eng.as_int(args[1], 64)
    st_ = ins
    if q.endswith('::at'):
        r = eng.assume(st, cge(addc(sub(o[2], i), -1)), True)
        if not r: return ('throw',)
        return ('states', [(s, P(o[1], lin.mul(i, SZ(eng, es, t)))) for s in r])
    if 'basic_string' in q:
        eng.check_index(st, ins, o[1], i, o[2], 0)
    else: eng.check_index(st, ins, o[1], i, o[2], 1)
    return ('val', P(o[1], lin.mul(i, SZ(eng, es, t))))
@modelf(vecrx('front|back'))
def m_front(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    o = getobj(eng, st, p, es)
    i = ZERO if q.endswith('front') else addc(o[2], -1)
    eng.check_index(st, ins, o[1], i, o[2], 1)
    return ('val', P(o[1], lin.mul(i, SZ(eng, es, t))))
@modelf(vecrx('resize'))
def m_resize(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    n = eng.as_int(args[1], 64)
    o = getobj(eng, st, p, es)
    limit = MAXN // (es or 1)
    # returns only when the allocation succeeded
    r = eng.assume(st, cge(sub(const(limit), n)), True)
    if not r: return ('throw',)
    res = []
    for s in r:
        grow = eng.decide(s, cge(sub(o[2], n)))
        resize_keep(eng, s, p, n, es)
        # contents are kept up to the smaller size, new elements are value-initialised
        if o[2] == ZERO: eng.kill(s, o[1], None, None); eng.bump(s, o[1])
        res.append((s, None))
    return ('states', res)
@modelf(vecrx('clear'))
def m_clear(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    setobj(eng, st, p, ZERO, es); return ('val', ('o', 'void'))
@modelf(vecrx('reserve|shrink_to_fit|_M_check_len|~vector|~basic_string'))
def m_reserve(eng, st, ins, q, args): return ('val', ('o', 'void'))
@modelf(vecrx('push_back|emplace_back'))
def m_push(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    o = getobj(eng, st, p, es)
    db = o[1]
    if eng.hooks and hasattr(eng.hooks, 'on_push'): eng.hooks.on_push(eng, st, ins, p, o, args[1:], es)
    n1 = addc(o[2], 1)
    resize_keep(eng, st, p, n1, es)
    off = lin.mul(o[2], SZ(eng, es, t))
    st.ext[db] = scale(n1, es) if es else None
    if es:
        eng.kill(st, db, off, const(es))
        if len(args) > 1 and q.endswith('push_back'):
            v = args[1]
            if v[0] == 'p' and es in (1, 2, 4, 8):
                w = 8 * es
                if t == 'double' or t == 'float': x = eng.load(st, v[1], v[2], es, t)
                elif t.endswith('*') or t.startswith('std::unique_ptr'): x = eng.load(st, v[1], v[2], 8, 'ptr')
                else: x = eng.load(st, v[1], v[2], es, 'i%d' % w, w)
                st.mem[(db, off)] = (es, x)
                if t.startswith('std::unique_ptr'): eng.store(st, v[1], v[2], 8, NULL)
            elif v[0] == 'p': 
                eng.copy_mem(st, db, off, v[1], v[2], es)
    else: eng.havoc_base(st, db)
    if q.endswith('emplace_back'):
        emplace_fields(eng, st, ins, t, P(db, off), args[1:])
        return ('val', P(db, off)) if 'i' in ins else ('val', ('o', 'void'))
    return ('val', ('o', 'void'))
def emplace_fields(eng, st, ins, t, p, args):
    """element constructed in place from one argument per member (member-wise constructors / aggregates)"""
    full = eng.mod.fn_full.get(ins.get('f'), '')
    ty = eng.mod.types.get(t) or (eng.mod.type(t.split('::')[-1]) if not t.startswith('std::') else None)
    m = re.search(r'emplace_back<(.*)>\(', full)
    if not ty or not m or len(ty['members']) != len(args): return
    ats = [x.strip() for x in m.group(1).split(',')]
    if len(ats) != len(args): return
    for mem, a, at in zip(ty['members'], args, ats):
        at = re.sub(r'\b(const|&|&&)', '', at).replace('&', '').strip()
        ms = PRIM.get(mem[3]); sz = PRIM.get(at)
        if ms is None or sz is None or a[0] != 'p': continue
        fl = at in ('float', 'double')
        x = eng.load(st, a[1], a[2], sz, at if fl else 'i%d' % (8 * sz))
        if fl != (mem[3] in ('float', 'double')): continue
        st.mem[(p[1], addc(p[2], mem[1]))] = (ms, x)
@modelf(vecrx('pop_back'))
def m_pop(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args); o = getobj(eng, st, p, es)
    eng.check_index(st, ins, o[1], addc(o[2], -1), o[2], 1)
    resize_keep(eng, st, p, addc(o[2], -1), es); return ('val', ('o', 'void'))
@modelf(r'^std::vector<.*>::vector$')
def m_vctor(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    if len(args) == 1: setobj(eng, st, p, ZERO, es); return ('val', ('o', 'void'))
    a = args[1]
    if a[0] == 'i':      # vector(n [, value], alloc)
        n = a[1]
        r = eng.assume(st, cge(sub(const(MAXN // (es or 1)), n)), True)
        if not r: return ('throw',)
        for s in r: setobj(eng, s, p, n, es)
        return ('states', [(s, ('o', 'void')) for s in r])
    full = eng.mod.fn_full.get(ins.get('f'), '')
    m = re.search(r'::vector\(std::vector<.*(&&|const&)[,)]', full)
    if a[0] == 'p' and m:
        o = getobj(eng, st, a, es)
        st.objs[(p[1], p[2])] = ('vec', o[1], o[2], es) if m.group(1) == '&&' else None
        if m.group(1) == '&&': setobj(eng, st, a, ZERO, es)
        else:
            del st.objs[(p[1], p[2])]
            db = setobj(eng, st, p, o[2], es)
            if es: cpalias(eng, st, db, o[1])
        return ('val', ('o', 'void'))
    setobj(eng, st, p, var(A.get(('vctor', ins.get('i', ins['b'] * 1000 + ins['k']), eng.bumpserial()), hi=MAXN)), es)
    return ('val', ('o', 'void'))
def cpalias(eng, st, db, sb):
    """db is a fresh copy of the storage sb"""
    for (b, o), c in list(st.mem.items()):
        if b == sb: st.mem[(db, o)] = c
    for (b, o), c in list(st.objs.items()):
        if b == sb: st.objs[(db, o)] = c
    st.alias[db] = ((ZERO, 1 << 62, sb, ZERO, st.epoch.get(sb, 0)),)
@modelf(r'^std::vector<.*>::operator=$')
def m_vassign(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    full = eng.mod.fn_full.get(ins.get('f'), '')
    a = args[1]
    o = getobj(eng, st, a, es) if a[0] == 'p' else None
    if a == p: return ('val', p)
    if o is None: setobj(eng, st, p, var(A.get(('va', eng.bumpserial()), hi=MAXN)), es)
    elif '&&)' in full:
        st.objs[(p[1], p[2])] = o
        setobj(eng, st, a, ZERO, es)
    else:
        db = setobj(eng, st, p, o[2], es)
        cpalias(eng, st, db, o[1])
    return ('val', p)
@modelf(r'^std::vector<.*>::assign$')
def m_assign(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    if args[1][0] == 'i':
        r = eng.assume(st, cge(sub(const(MAXN // (es or 1)), args[1][1])), True)
        for s in r: setobj(eng, s, p, args[1][1], es)
        return ('states', [(s, None) for s in r]) if r else ('throw',)
    if args[1][0] == 'p' and len(args) > 2 and args[2][0] == 'p' and args[1][1] == args[2][1] and es == 1:
        n = sub(args[2][2], args[1][2])
        eng.access(st, ins, args[1], n, 'read')
        setobj(eng, st, p, n, es); return ('val', ('o', 'void'))
    setobj(eng, st, p, var(A.get(('va', eng.bumpserial()), hi=MAXN)), es); return ('val', ('o', 'void'))
@modelf(r'^std::vector<.*>::swap$')
def m_swap(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args); r = eng.as_ptr(args[1])
    a, b = getobj(eng, st, p, es), getobj(eng, st, r, es)
    st.objs[(p[1], p[2])], st.objs[(r[1], r[2])] = b, a
    return ('val', ('o', 'void'))
@modelf(r'^std::vector<.*>::(erase|insert)$')
def m_erase(eng, st, ins, q, args):
    p, es, t = obj_of(eng, q, args)
    o = getobj(eng, st, p, es)
    n = var(A.get(('ver', eng.bumpserial()), hi=MAXN // (es or 1)))
    if q.endswith('erase'): st.addc(sub(o[2], n))
    else: st.addc(sub(n, o[2]))
    if q.endswith('insert') and es == 1 and len(args) >= 4 and args[2][0] == 'p' and args[3][0] == 'p' and args[2][1] == args[3][1]:
        m = sub(args[3][2], args[2][2])
        eng.access(st, ins, args[2], m, 'read')
        n = add(o[2], m)
        if eng.hooks and hasattr(eng.hooks, 'on_insert'): eng.hooks.on_insert(eng, st, ins, p, o, args)
    db = setobj(eng, st, p, n, es)
    pos = args[-1] if q.endswith('erase') else args[1]
    return ('val', P(db, var(A.get(('erp', eng.bumpserial()), hi=MAXN))))

# strings ------------------------------------------------------------------
@modelf(r'^std::(__cxx11::)?basic_string<char.*>::(basic_string|operator=|assign)$')
def m_str(eng, st, ins, q, args):
    p = eng.as_ptr(args[0])
    n = None
    full = eng.mod.fn_full.get(ins.get('f'), '')
    a = args[1] if len(args) > 1 else None
    if a is not None and a[0] == 'p' and len(args) > 2 and args[2][0] == 'i' and 'char const*' in full:
        n = args[2][1]
        eng.access(st, ins, a, n, 'read')
    elif a is not None and a[0] == 'p' and a[1][0] == 'g' and 'char const*' in full:
        s = eng.mod.cstr(a[1][1], a[2][0] if is_const(a[2]) else 0)
        if s is not None: n = const(len(s))
    elif a is not None and a[0] == 'p' and 'basic_string<char' in full.split('(', 1)[-1]:
        o = st.objs.get((a[1], a[2])) or getobj(eng, st, a, 1)
        st.objs[(p[1], p[2])] = ('vec', ('vd', p[1], p[2], eng.bumpserial()), o[2], 1); st.ext[st.objs[(p[1], p[2])][1]] = addc(o[2], 1)
        if eng.hooks and hasattr(eng.hooks, 'on_string'): eng.hooks.on_string(eng, st, ins, q, args)
        return ('val', p)
    if n is None: n = var(A.get(('sl', ins['b'], ins['k'], eng.bumpserial()), hi=MAXN))
    setobj(eng, st, p, n, 1)
    if eng.hooks and hasattr(eng.hooks, 'on_string'): eng.hooks.on_string(eng, st, ins, q, args)
    return ('val', p)
@modelf(r'^std::(__cxx11::)?basic_string<char.*>::(operator\+=|append|push_back)$')
def m_append(eng, st, ins, q, args):
    p = eng.as_ptr(args[0]); setobj(eng, st, p, var(A.get(('sl', ins['b'], ins['k'], eng.bumpserial()), hi=MAXN)), 1); return ('val', p)
@modelf(r'^std::(__cxx11::)?basic_string<char.*>::operator std::basic_string_view')
def m_strsv(eng, st, ins, q, args):
    p = eng.as_ptr(args[0]); o = getobj(eng, st, p, 1)
    return ('val', ('agg', (((0,), I(o[2])), ((1,), P(o[1])))))
@modelf(r'^std::operator\+|^std::__cxx11::to_string|^std::to_string')
def m_strplus(eng, st, ins, q, args):
    if ins.get('sret') is not None:
        p = eng.as_ptr(args[ins['sret']]); setobj(eng, st, p, var(A.get(('sl', ins['b'], ins['k'], eng.bumpserial()), hi=MAXN)), 1)
    return ('val', ('o', 'void'))
@modelf(r'^std::operator(==|!=)$')
def m_streq(eng, st, ins, q, args):
    if eng.hooks and hasattr(eng.hooks, 'on_streq'):
        r = eng.hooks.on_streq(eng, st, ins, q, args)
        if r is not None: return r
    return None
@modelf(r'^std::__sv_check$')
def m_svcheck(eng, st, ins, q, args):
    n, pos = eng.as_int(args[0], 64), eng.as_int(args[1], 64)
    r = eng.assume(st, cge(sub(n, pos)), True)
    return ('states', [(s, I(pos)) for s in r]) if r else ('throw',)
@modelf(r'^std::__sv_limit$')
def m_svlimit(eng, st, ins, q, args): return None
@modelf(r'^std::(allocator|new_allocator)<')
def m_alloc(eng, st, ins, q, args): return ('val', ('o', 'void'))

# ------------------------------------------------------------------ C runtime
@modelf(r'^(llvm\.memcpy|llvm\.memmove)|^(memcpy|memmove)$')
def m_memcpy(eng, st, ins, q, args):
    d, s, n = eng.as_ptr(args[0]), eng.as_ptr(args[1]), eng.as_int(args[2], 64)
    eng.access(st, ins, d, n, 'write'); eng.access(st, ins, s, n, 'read')
    if eng.hooks and hasattr(eng.hooks, 'on_memcpy'): eng.hooks.on_memcpy(eng, st, ins, d, s, n)
    if is_const(n):
        k = n[0]
        eng.copy_mem_const(st, d, s, k)
    else:
        eng.kill(st, d[1], d[2], n)
        eng.bump(st, d[1]) if not eng.stable_base(d[1]) else None
    return ('val', d)
ESIZE = {'unsigned char': 1, 'char': 1, 'signed char': 1, 'std::byte': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4, 'long': 8, 'unsigned long': 8, 'double': 8}
def range_copy(eng, ins):
    """std::copy and relatives on plain pointers to numbers: (name, element size)"""
    full = eng.mod.fn_full.get(ins.get('f')) or ''
    m = re.search(r'\bstd::(copy|copy_n|move|fill|fill_n)<([\w: ]+?)( const)?\*(?:, ([\w: ]+?)(\*)?)?(?:, ([\w: ]+?)(\*)?)?>\(', full)
    if not m or m.group(2) not in ESIZE: return None
    k, t = m.group(1), m.group(2)
    if k in ('copy', 'move') and (m.group(4) != t or not m.group(5) or m.group(6)): return None
    if k == 'copy_n' and (m.group(6) != t or not m.group(7) or m.group(5)): return None
    return k, ESIZE[t]
@modelf(r'^std::(copy|copy_n|fill|fill_n)$')
def m_rangecopy(eng, st, ins, q, args):
    r = range_copy(eng, ins)
    if r is None: return None
    k, es = r; p0 = eng.as_ptr(args[0])
    if k in ('copy', 'move', 'fill'):
        p1 = eng.as_ptr(args[1])
        if p0[1] != p1[1]: return None
        n = sub(p1[2], p0[2])
    else: n = lin.scale(eng.as_int(args[1], 64), es)
    if k == 'copy_n' or k in ('copy', 'move'):
        d = eng.as_ptr(args[2]); m_memcpy(eng, st, ins, 'memcpy', [d, p0, I(n)]); return ('val', P(d[1], add(d[2], n)))
    eng.access(st, ins, p0, n, 'write'); eng.kill(st, p0[1], p0[2], n); eng.bump(st, p0[1])
    return ('val', P(p0[1], add(p0[2], n))) if k == 'fill_n' else ('val', ('o', 'void'))
@modelf(r'^llvm\.memset|^memset$')
def m_memset(eng, st, ins, q, args):
    d, n = eng.as_ptr(args[0]), eng.as_int(args[2], 64)
    eng.access(st, ins, d, n, 'write')
    if eng.hooks and hasattr(eng.hooks, 'on_memset'): eng.hooks.on_memset(eng, st, ins, d, args[1], n)
    eng.kill(st, d[1], d[2], n)
    v = eng.as_int(args[1], 8)
    if is_const(n) and v == ZERO and n[0] <= 256:
        st.mem[(d[1], d[2])] = (n[0], ('o', 'zero'))
    else: eng.bump(st, d[1])
    return ('val', d)
@modelf(r'^(memcmp|bcmp)$')
def m_memcmp(eng, st, ins, q, args):
    a, b, n = eng.as_ptr(args[0]), eng.as_ptr(args[1]), eng.as_int(args[2], 64)
    eng.access(st, ins, a, n, 'read'); eng.access(st, ins, b, n, 'read')
    return ('val', I(var(A.get(('memcmp', a, b, n, st.epoch.get(a[1], 0), st.epoch.get(b[1], 0)), hi=U(32)))))
@modelf(r'^(memchr|strlen)$')
def m_memchr(eng, st, ins, q, args):
    a = eng.as_ptr(args[0])
    if q == 'strlen':
        if a[1][0] == 'g' and is_const(a[2]):
            s = eng.mod.cstr(a[1][1], a[2][0])
            if s is not None: return ('val', I(const(len(s))))
        return None
    n = eng.as_int(args[2], 64)
    eng.access(st, ins, a, n, 'read')
    # null or a position inside the range
    s2 = st.copy()
    k = var(A.get(('mc', ins['i'], eng.bumpserial()), hi=MAXN))
    s2.addc(addc(sub(n, k), -1))
    return ('states', [(st, NULL), (s2, P(a[1], add(a[2], k)))])
@modelf(r'^operator new')
def m_new(eng, st, ins, q, args):
    b = ('heap', ins.get('i', 0), eng.bumpserial())
    st.ext[b] = eng.as_int(args[0], 64)
    return ('val', P(b))
@modelf(r'^operator delete|^free$')
def m_del(eng, st, ins, q, args): return ('val', ('o', 'void'))
@modelf(r'^(__cxa_throw|__cxa_rethrow|_Unwind_Resume|std::__throw_\w+|abort|std::terminate|__clang_call_terminate|std::rethrow_exception|exit|__cxa_bad_cast)$')
def m_throw(eng, st, ins, q, args):
    if eng.hooks and hasattr(eng.hooks, 'on_throw'): eng.hooks.on_throw(eng, st, ins, q, args)
    return ('throw',)
@modelf(r'^__cxa_allocate_exception$')
def m_exc(eng, st, ins, q, args): return ('val', P(('heap', ins['i'], 'exc')))
@modelf(r'^(__cxa_free_exception|__cxa_begin_catch|__cxa_end_catch|__cxa_atexit|__cxa_guard_release|__cxa_thread_atexit|llvm\.(dbg|lifetime|prefetch|assume|donothing|va_).*)$')
def m_nop(eng, st, ins, q, args):
    if q == 'llvm.assume': return ('val', ('o', 'void'))
    return None
@modelf(r'^std::(runtime_error|logic_error|out_of_range|invalid_argument|length_error|exception)::')
def m_exctor(eng, st, ins, q, args): return ('val', ('o', 'void'))
@modelf(r'^llvm\.expect')
def m_expect(eng, st, ins, q, args): return ('val', args[0])
@modelf(r'^llvm\.(ctlz|cttz|ctpop)|^std::(countl_zero|countr_zero|popcount|bit_width|__countl_zero|__countr_zero|__bit_width)$')
def m_ctz(eng, st, ins, q, args):
    w = 64
    full = eng.mod.fn_full.get(ins.get('f'), '')
    a = ins['a'][0]
    if 'unsigned int' in full or '.i32' in q: w = 32
    if 'unsigned short' in full or '.i16' in q: w = 16
    if 'unsigned char' in full or '.i8' in q: w = 8
    x = eng.as_int(args[0], w)
    nm = re.sub(r'^std::_*', '', q)
    kind = 'clz' if ('ctlz' in q or 'countl' in q) else 'ctz' if ('cttz' in q or 'countr' in q) else 'bw' if 'bit_width' in q else 'pop'
    nz = entails(st.cons, addc(x, -1)) or eng.decide(st, ceq(x)) is False
    v = var(A.get((kind, w, x, nz), hi=w - 1 if nz and kind in ('clz', 'ctz') else w))
    if kind in ('clz', 'ctz') and nz:
        # leading + trailing zeros of a non-zero word stay below the width
        o = var(A.get(('clz' if kind == 'ctz' else 'ctz', w, x, nz), hi=w - 1))
        st.addc(sub(const(w - 1), add(v, o)))
    return ('val', I(v))
@modelf(r'^llvm\.(umin|umax|smin|smax)')
def m_umin(eng, st, ins, q, args):
    w = ins.get('w') or 64
    x, y = eng.as_int(args[0], w), eng.as_int(args[1], w)
    s2 = st.copy()
    c = eng.icmp(st, 'ult' if 'u' == q[5] else 'slt', I(x), I(y), w)
    mn = 'min' in q
    r = [(s, I(x if mn else y)) for s in eng.assume(st, c, True)] + [(s, I(y if mn else x)) for s in eng.assume(s2, c, False)]
    return ('states', r)
@modelf(r'^llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow')
def m_ovf(eng, st, ins, q, args): return None
@modelf(r'^llvm\.(bswap|fshl|fshr|abs|round|floor|ceil|trunc|fabs|fma|fmuladd|is\.fpclass|copysign|rint|nearbyint|lround|llround|lrint|x86)|^(std::)?(round|roundf|lround|llround|lroundf|llroundf|floor|ceil|isnan|isfinite|isinf|fabs|abs|trunc|sqrt|lrint)$|^_mm_|^std::(bit_cast|tolower|isspace)$|^(isspace|tolower)$')
def m_pure(eng, st, ins, q, args):
    if ins['t'] == 'ptr' or 'i' not in ins: return None
    k = ('pure', re.sub(r'^std::', '', q)) + tuple(args)
    return ('val', eng.fresh(k, ins['t'], ins.get('w')))
@modelf(r'^llvm\.(type\.test|public\.type\.test)$')
def m_tt(eng, st, ins, q, args): return ('val', ('b', T))
@modelf(r'^llvm\.threadlocal\.address')
def m_tls(eng, st, ins, q, args): return ('val', args[0])
@modelf(r'^__cxa_guard_acquire')
def m_guard(eng, st, ins, q, args): return None
@modelf(r'^llvm\.eh\.typeid')
def m_typeid(eng, st, ins, q, args): return ('val', I(var(A.get(('typeid', str(args[0])), hi=U(31)))))

# ------------------------------------------------------------------ algorithms
@modelf(r'^std::(fill|fill_n|__fill)')
def m_fill(eng, st, ins, q, args):
    a, b = eng.as_ptr(args[0]), args[1]
    if b[0] == 'p' and b[1] == a[1]:
        eng.access(st, ins, a, sub(b[2], a[2]), 'write') if eng.known_le(st, a[2], b[2]) else None
    eng.havoc_base(st, a[1])
    return None

# ------------------------------------------------------------------ compressors
def comp_out(eng, st, ins, d, cap):
    eng.kill(st, d[1], d[2], cap); eng.bump(st, d[1])
@modelf(r'^LZ4_decompress_safe$')
def m_lz4d(eng, st, ins, q, args):
    s, d, n, cap = eng.as_ptr(args[0]), eng.as_ptr(args[1]), eng.as_int(args[2], 32), eng.as_int(args[3], 32)
    eng.i32arg(st, ins, n, 'compressed size'); eng.i32arg(st, ins, cap, 'capacity')
    eng.access(st, ins, s, n, 'read'); eng.access(st, ins, d, cap, 'write')
    comp_out(eng, st, ins, d, cap)
    r = var(A.get(('lz4d', ins['i'], eng.bumpserial()), hi=U(32)))
    s2 = st.copy()
    st.addc(addc(r, -(1 << 31)))                      # negative: error
    s2.addc(sub(cap, r)); s2.addc(sub(const(U(31)), r))
    return ('states', [(s2, I(r)), (st, I(r))])
@modelf(r'^LZ4_compress_default$')
def m_lz4c(eng, st, ins, q, args):
    s, d, n, cap = eng.as_ptr(args[0]), eng.as_ptr(args[1]), eng.as_int(args[2], 32), eng.as_int(args[3], 32)
    eng.i32arg(st, ins, n, 'source size'); eng.i32arg(st, ins, cap, 'capacity')
    eng.access(st, ins, s, n, 'read'); eng.access(st, ins, d, cap, 'write')
    comp_out(eng, st, ins, d, cap)
    r = var(A.get(('lz4c', ins['i'], eng.bumpserial()), hi=U(31)))
    st.addc(sub(cap, r))                               # 0: failure
    return ('val', I(r))
@modelf(r'^LZ4_compressBound$')
def m_lz4b(eng, st, ins, q, args):
    n = eng.as_int(args[0], 32)
    r = var(A.get(('lz4bound', n), hi=U(31)))
    # n + n/255 + 16 for 0 <= n <= LZ4_MAX_INPUT_SIZE, 0 otherwise
    s2 = st.copy(); res = []
    for s in eng.assume(st, cge(sub(const(0x7E000000), n)), True):
        s.addc(addc(sub(r, n), -16)); res.append((s, I(r)))
    for s in eng.assume(s2, cge(sub(const(0x7E000000), n)), False): res.append((s, I(ZERO)))
    return ('states', res)
@modelf(r'^ZSTD_(decompress|compress)$')
def m_zstd(eng, st, ins, q, args):
    d, cap, s, n = eng.as_ptr(args[0]), eng.as_int(args[1], 64), eng.as_ptr(args[2]), eng.as_int(args[3], 64)
    eng.access(st, ins, s, n, 'read'); eng.access(st, ins, d, cap, 'write')
    comp_out(eng, st, ins, d, cap)
    at = A.get(('zstd', ins['i'], eng.bumpserial()), hi=U(64))
    r = var(at)
    s2 = st.copy()
    s2.addc(sub(cap, r)); s2.opq[('opq', ('zstderr', r))] = False
    st.addc(addc(r, -(U(64) - 200))); st.opq[('opq', ('zstderr', r))] = True
    return ('states', [(s2, I(r)), (st, I(r))])
@modelf(r'^ZSTD_isError$')
def m_zerr(eng, st, ins, q, args):
    c = ('opq', ('zstderr', eng.as_int(args[0], 64)))
    return ('val', I(var(A.get(('b01', c), hi=1))))
@modelf(r'^ZSTD_compressBound$')
def m_zb(eng, st, ins, q, args):
    n = eng.as_int(args[0], 64)
    r = var(A.get(('zbound', n), hi=U(64)))
    st.addc(sub(r, n)) if eng.fits(st, n, 0xFF00FF00FF00FF00) else None
    return ('val', I(r))
@modelf(r'^ZSTD_getErrorName$')
def m_zname(eng, st, ins, q, args): return None
