"""Value graphs: exact modular / bit-level value numbering of a normalised function, per control-flow path.

Integers are kept in a canonical form: linear combinations modulo 2^w over opaque atoms, or vectors of bits that are
affine over GF(2) (exclusive-or sets of atom bits).  Memory is a map from (object, offset) to values; objects that the
function did not create are symbolic.  Paths that can only end in an exception are dropped.  Loops whose condition is
constant are followed exactly; the others are summarised by one generic iteration with everything they modify unknown.
No value is ever computed by running the project: every result is a term over the inputs."""
import hashlib
import re

ONE = '1'
def M(w): return (1 << w) - 1
class Stop(Exception): pass
class TooMany(Exception): pass

# ------------------------------------------------------------------ integers
def K(w, c): return ('k', w, c & M(w))
def atom(w, key): return ('l', w, 0, (((w, key), 1),))
def width(v): return v[1]
def isk(v): return v[0] == 'k'

def lin_of(v):
    """(constant, {atom: coefficient}) modulo 2^w"""
    if v[0] == 'k': return v[2], {}
    if v[0] == 'l': return v[2], dict(v[3])
    w, bits = v[1], v[2]
    # atom shifted left?  bits[i] = a[i-k]
    r = shifted_atom(w, bits)
    if r: return 0, {r[0]: 1 << r[1]}
    return 0, {(w, ('bits', bits)): 1}

def shifted_atom(w, bits):
    k = 0
    while k < w and not bits[k]: k += 1
    if k == w: return None
    b = bits[k]
    if len(b) != 1 or ONE in b: return None
    (a, i0), = b
    if i0 != 0 or a[0] < w - k: return None
    if a[0] != w: return None
    for i in range(k, w):
        if bits[i] != frozenset([(a, i - k)]): return None
    return a, k

_OK = {}
def okey(x):
    """a canonical order of values that does not unfold shared parts"""
    try: return _OK[x]
    except KeyError: pass
    except TypeError: return _okey(x)
    r = _OK[x] = _okey(x)
    return r
def _okey(x):
    if isinstance(x, (tuple, list)): s = b'(' + b','.join(okey(y) for y in x) + b')'
    elif isinstance(x, frozenset): s = b'{' + b','.join(sorted(okey(y) for y in x)) + b'}'
    else: s = type(x).__name__.encode() + repr(x).encode()
    return hashlib.blake2b(s, digest_size=12).digest()

def mklin(w, c, terms):
    t = {}
    for a, k in terms.items():
        k &= M(w)
        if k: t[a] = k
    c &= M(w)
    if not t: return ('k', w, c)
    if c == 0 and len(t) == 1:
        (a, k), = t.items()
        if k == 1 and isinstance(a[1], tuple) and a[1][0] == 'bits': return ('b', w, a[1][1])
    return ('l', w, c, tuple(sorted(t.items(), key=okey)))

def mkbits(w, bits):
    bits = tuple(bits)
    if all(not b or b == frozenset([ONE]) for b in bits): return ('k', w, sum(1 << i for i, b in enumerate(bits) if b))
    n0 = 0
    while not bits[n0] or bits[n0] == frozenset([ONE]): n0 += 1
    b = bits[n0]
    if len(b) == 1:
        (a, i), = b
        if i == n0 and a[0] == w and list(bits) == abits(a, None):
            if isinstance(a[1], tuple) and a[1][0] == 'lin': return ('l', w, a[1][1], a[1][2])
            if isinstance(a[1], tuple) and a[1][0] == 'bits': return ('b', w, a[1][1])
            return atom(w, a[1])
    return ('b', w, bits)

def bits_of(v, st=None):
    if v[0] == 'k': return [frozenset([ONE]) if v[2] >> i & 1 else frozenset() for i in range(v[1])]
    if v[0] == 'b':
        bits = list(v[2])
        if st is not None and st.hi:
            top = {}
            bits = [redbit(st, b, top) for b in bits]
        return bits
    w, c, t = v[1], v[2], v[3]
    if c == 0 and len(t) == 1:
        a, k = t[0]
        if k & (k - 1) == 0:
            s = k.bit_length() - 1
            return [frozenset()] * s + [abit(a, i, st) for i in range(w - s)]
        if isinstance(a[1], tuple) and a[1][0] == 'bits' and k == M(w) and not any(a[1][1][1:]): return [a[1][1][0]] * w   # minus a single bit
    return abits((w, ('lin', c, t)), st)
def abits(a, st):
    """the bits of an atom"""
    w, k = a
    h = M(w); low = 0; c = 0
    if isinstance(k, tuple) and k and k[0] == 'lin':
        c = k[1]; low = min((x & -x).bit_length() - 1 for _, x in k[2])    # the low bits do not depend on the atoms
    if st is not None and st.hi: h = abound(st, a)
    return [(frozenset([ONE]) if c >> i & 1 else frozenset()) if i < low else frozenset() if h >> i == 0 else frozenset([(a, i)]) for i in range(w)]

def abit(a, i, st):
    if st is not None:
        h = st.hi.get(a)
        if h is not None and h >> i == 0: return frozenset()
    return frozenset([(a, i)])
def redbit(st, b, top):
    """without the bits above the bound of their atom"""
    if not b: return b
    for x in b:
        if x != ONE and x[0] not in top: top[x[0]] = abound(st, x[0])
    if all(x == ONE or top[x[0]] >> x[1] for x in b): return b
    return frozenset(x for x in b if x == ONE or top[x[0]] >> x[1])
def abound(st, a):
    h = st.hi.get(a, M(a[0]))
    if isinstance(a[1], tuple) and a[1] and a[1][0] == 'lin': h = min(h, bounds(st, ('l', a[0], a[1][1], a[1][2]))[1])
    return h

def vadd(a, b):
    c1, t1 = lin_of(a); c2, t2 = lin_of(b)
    t = dict(t1)
    for x, k in t2.items(): t[x] = t.get(x, 0) + k
    return mklin(a[1], c1 + c2, t)
def vneg(a):
    c, t = lin_of(a); return mklin(a[1], -c, {x: -k for x, k in t.items()})
def vsub(a, b): return vadd(a, vneg(b))
def vscale(a, k):
    c, t = lin_of(a); return mklin(a[1], c * k, {x: y * k for x, y in t.items()})

def opaque(w, op, *args): return atom(w, (op,) + args)

def vbin(st, o, a, b, w):
    if o == 'add': return vadd(a, b)
    if o == 'sub': return vsub(a, b)
    if o == 'mul':
        if isk(a): return vscale(b, a[2])
        if isk(b): return vscale(a, b[2])
        return opaque(w, 'mul', *sorted((a, b), key=okey))
    if o in ('and', 'or', 'xor'):
        if o == 'xor' and isk(b) and b[2] == M(w): return vsub(K(w, M(w)), a) if False else mkbits(w, [x ^ frozenset([ONE]) for x in bits_of(a, st)])
        x, y = bits_of(a, st), bits_of(b, st)
        r = []
        for p, q in zip(x, y):
            if o == 'xor': r.append(p ^ q)
            elif o == 'and':
                if not p or not q: r.append(frozenset())
                elif p == frozenset([ONE]): r.append(q)
                elif q == frozenset([ONE]) or p == q: r.append(p)
                else: return opaque(w, 'and', *sorted((a, b), key=okey))
            else:
                if not p: r.append(q)
                elif not q or p == q: r.append(p)
                elif p == frozenset([ONE]) or q == frozenset([ONE]): r.append(frozenset([ONE]))
                else: return opaque(w, 'or', *sorted((a, b), key=okey))
        return mkbits(w, r)
    if o in ('shl', 'lshr', 'ashr'):
        if isk(b):
            k = b[2]
            if k >= w: return opaque(w, 'overshift', a, b)
            x = bits_of(a, st)
            if o == 'shl': return vscale(a, 1 << k) if a[0] == 'l' else mkbits(w, [frozenset()] * k + x[:w - k])
            if o == 'lshr': return mkbits(w, x[k:] + [frozenset()] * k)
            return mkbits(w, x[k:] + [x[w - 1]] * k)
        # variable shifts
        r = st.shift_rule(st, o, a, b, w) if st is not None and st.shift_rule is not None else None
        return r if r is not None else opaque(w, o, a, b)
    if o in ('udiv', 'urem', 'sdiv', 'srem'):
        if isk(a) and isk(b) and b[2] and o[0] == 's':
            x, y = (z[2] - (1 << w) if z[2] >> (w - 1) else z[2] for z in (a, b))
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return K(w, q if o == 'sdiv' else x - q * y)
        if isk(a) and isk(b) and b[2] and o[0] == 'u': return K(w, a[2] // b[2] if o == 'udiv' else a[2] % b[2])
        if isk(b) and o[0] == 'u' and b[2] & (b[2] - 1) == 0 and b[2]:
            k = b[2].bit_length() - 1
            x = bits_of(a, st)
            return mkbits(w, x[k:] + [frozenset()] * k) if o == 'udiv' else mkbits(w, x[:k] + [frozenset()] * (w - k))
        return opaque(w, o, a, b)
    raise Stop('operator ' + o)

def zext(v, w, st=None):
    if isk(v): return K(w, v[2])
    return mkbits(w, bits_of(v, st) + [frozenset()] * (w - v[1]))
def sext(v, w, st=None):
    if isk(v):
        c = v[2]
        return K(w, c - (1 << v[1]) if c >> (v[1] - 1) else c)
    b = bits_of(v, st)
    return mkbits(w, b + [b[-1]] * (w - v[1]))
def trunc(v, w, st=None):
    if isk(v): return K(w, v[2])
    if v[0] == 'l':
        if st is not None and (bounds(st, v)[1] if w >= 32 else st.hi.get(whole(v), M(v[1]))) <= M(w): return mkbits(w, bits_of(v, st)[:w])
        # a linear form truncates term by term
        c, t = v[2], {}
        for a, k in v[3]:
            kk = a[1]
            x = trunc(('b', a[0], kk[1]), w, st) if isinstance(kk, tuple) and kk[0] == 'bits' else mkbits(w, [frozenset([(a, i)]) for i in range(w)])
            cc, tt = lin_of(x)
            c += cc * k
            for y, kk in tt.items(): t[y] = t.get(y, 0) + kk * k
        return mklin(w, c, t)
    b = v[2][0]
    if len(b) == 1 and ONE not in b:
        (a, i), = b
        if i == 0 and a[0] >= w and isinstance(a[1], tuple) and a[1][0] == 'lin' and all(v[2][j] == frozenset([(a, j)]) or v[2][j] == abit(a, j, st) for j in range(w)): return trunc(('l', a[0], a[1][1], a[1][2]), w) if a[0] > w else ('l', w, a[1][1], a[1][2])
    return mkbits(w, v[2][:w])

# ------------------------------------------------------------------ other values
def P(base, off=None): return ('p', base, off if off is not None else K(64, 0))
NULL = ('p', ('null',), K(64, 0))
def F(key): return ('f', key)

def fconst(v):
    k = v[1] if v[0] == 'f' else None
    if isinstance(k, tuple) and k and k[0] == 'bits' and isk(k[1]) and k[1][1] in (32, 64):
        import struct
        return struct.unpack('<f' if k[1][1] == 32 else '<d', k[1][2].to_bytes(k[1][1] // 8, 'little'))[0]
    if isinstance(k, tuple) and k and k[0] == 'c' and isinstance(k[1], str):
        try: return float(k[1].replace('Inf', 'inf').replace('NaN', 'nan'))
        except ValueError: return None
    return None
def fcmp_const(p, x, y):
    if x != x or y != y: return p in ('une', 'uno', 'ueq', 'ult', 'ule', 'ugt', 'uge', 'true')
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]] if p[1:] in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') else p in ('ord', 'true')
def to_float(v):
    if v[0] == 'f': return v
    if v[0] in 'klb':
        c, t = lin_of(v)
        if c == 0 and len(t) == 1:
            (a, k), = t.items()
            if k == 1 and isinstance(a[1], tuple) and a[1][0] == 'fbits': return ('f', a[1][1])
        return ('f', ('bits', v))
    return ('f', ('as', v))
def to_int(v, w):
    if v[0] == 'vec':
        b = []
        for x in v[2]: b += bits_of(to_int(x, v[1]))
        return mkbits(len(b), b)
    if v[0] in 'klb':
        if v[1] == w: return v
        return trunc(v, w) if v[1] > w else zext(v, w)
    if v[0] == 'f':
        if isinstance(v[1], tuple) and v[1] and v[1][0] == 'bits' and v[1][1][1] == w: return v[1][1]
        return atom(w, ('fbits', v[1]))
    if v[0] == 'p':
        if v[1] == ('null',): return to_int(v[2], w)
        return vadd(atom(64, ('addr', v[1])), v[2]) if w == 64 else atom(w, ('addr', v))
    return atom(w, ('of', v))
def to_ptr(v):
    if v[0] == 'p': return v
    if v[0] in 'klb':
        c, t = lin_of(v)
        if not t and c == 0: return NULL
        for a, k in t.items():
            if k == 1 and isinstance(a[1], tuple) and a[1][0] == 'addr' and not isinstance(a[1][1], str):
                t2 = dict(t); del t2[a]
                return ('p', a[1][1], mklin(64, c, t2))
        return P(('int', v))
    return P(('of', v))

class St:
    def __init__(self):
        self.env = {}; self.mem = {}; self.ver = {}; self.facts = {}; self.sub = {}; self.hi = {}; self.lo = {}
        self.events = []; self.conds = []; self.serial = 0; self.user = {}; self.touched = None; self.shift_rule = None
    def copy(self):
        s = self.__class__.__new__(self.__class__)
        s.env = dict(self.env); s.mem = {b: list(c) for b, c in self.mem.items()}; s.ver = dict(self.ver)
        s.facts = dict(self.facts); s.sub = dict(self.sub); s.hi = dict(self.hi); s.lo = dict(self.lo)
        s.events = list(self.events); s.conds = list(self.conds); s.serial = self.serial
        s.user = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in self.user.items()}
        s.touched = self.touched; s.shift_rule = self.shift_rule
        return s
    def fresh(self):
        self.serial += 1; return self.serial

def whole(v):
    """the atom standing for a whole value"""
    if v[0] == 'l':
        if v[2] == 0 and len(v[3]) == 1 and v[3][0][1] == 1: return v[3][0][0]
        return (v[1], ('lin', v[2], v[3]))
    return (v[1], ('bits', v[2]))
def bounds(st, v):
    if isk(v): return v[2], v[2]
    lo, hi = bounds0(st, v)
    a = whole(v)
    return max(lo, st.lo.get(a, 0)), min(hi, st.hi.get(a, hi))
def bounds0(st, v):
    """(lower, upper) of an unsigned value"""
    w = v[1]
    c, t = lin_of(v)
    lo = hi = c
    for a, k in t.items():
        alo, ahi = arange(st, a)
        if k > M(w) >> 1:      # negative coefficient
            k -= 1 << w
            lo += k * ahi; hi += k * alo
        else: lo += k * alo; hi += k * ahi
    if lo >> w != hi >> w: return 0, M(w)
    lo &= M(w); hi &= M(w)
    return lo, hi
def rawrange(st, t, c, w):
    lo = hi = c
    for a, k in t.items():
        if k > M(w) >> 1: k -= 1 << w
        alo, ahi = arange(st, a)
        lo += k * (alo if k > 0 else ahi); hi += k * (ahi if k > 0 else alo)
    return lo, hi
def rawless(st, x, y, w):
    """x < y for linear forms that do not wrap, by the range of their difference"""
    if x[0] not in 'kl' and y[0] not in 'kl': return None
    cx, tx = lin_of(x); cy, ty = lin_of(y)
    if not set(tx) & set(ty): return None
    sg = lambda c: c - (1 << w) if c >> (w - 1) else c
    for c, t in ((sg(cx), tx), (sg(cy), ty)):
        lo, hi = rawrange(st, t, c, w)
        if lo < 0 or hi > M(w): return None
    t = dict(ty)
    for a, k in tx.items(): t[a] = (sg(t.get(a, 0)) - sg(k)) & M(w)
    t = {a: k for a, k in t.items() if k}
    lo, hi = rawrange(st, t, sg(cy) - sg(cx), w)
    return True if lo > 0 else False if hi <= 0 else None
def arange(st, a):
    """the range of an atom; a narrowed copy of a sum has the range of the sum when that fits"""
    lo, hi = st.lo.get(a, amin(a)), min(st.hi.get(a, M(a[0])), amax(a))
    if isinstance(a[1], tuple) and a[1][0] == 'bits':
        x = next((q for b in reversed(a[1][1]) for q in b if q != ONE), None)
        if x and isinstance(x[0][1], tuple) and x[0][1][0] == 'lin' and x[0][0] >= a[0]:
            l, h = bounds(st, ('l', x[0][0], x[0][1][1], x[0][1][2]))
            if h < hi or l > lo:
                fb = abits(x[0], st)
                if h <= M(a[0]) and all(b == f or b == frozenset([(x[0], i)]) and not f for i, (b, f) in enumerate(zip(a[1][1], fb))): lo, hi = max(lo, l), min(hi, h)
    return lo, hi
def amin(a):
    k = a[1]
    if isinstance(k, tuple):
        if k[0] == 'vlen': return 1
        if k[0] == 'bits': return sum(1 << i for i, b in enumerate(k[1]) if b == frozenset([ONE]))
        if k[0] == 'vb0': return 1
    return 0
def amax(a):
    k = a[1]
    if isinstance(k, tuple):
        if k[0] == 'vlen': return 10
        if k[0] == 'bits': return sum(1 << i for i, b in enumerate(k[1]) if b)
        if k[0] in ('ctlz', 'cttz'): return k[1][1]
    return M(a[0])

def apply_sub(st, v):
    """rewrite a value with the equalities known on the path"""
    if not st.sub or v[0] not in 'lb': return v
    for _ in range(4):
        if v[0] == 'l':
            hit = [a for a, k in v[3] if a in st.sub]
            if not hit: return v
            r = K(v[1], v[2])
            for a, k in v[3]: r = vadd(r, vscale(st.sub[a] if a in st.sub else atom(*a), k))
            v = r
        elif v[0] == 'b':
            ch = False; bits = []
            for b in v[2]:
                nb = frozenset()
                for x in b:
                    if x != ONE and x[0] in st.sub:
                        ch = True; nb = nb ^ bits_of(st.sub[x[0]])[x[1]]
                    else: nb = nb ^ frozenset([x])
                bits.append(nb)
            if not ch: return v
            v = mkbits(v[1], bits)
        else: return v
    return v

def norm(st, v):
    """apply what is known on the path and recognise a complete atom again"""
    v = apply_sub(st, v)
    if v[0] == 'l' and (st.hi or st.facts):
        for a, k in v[3]:
            if isinstance(a[1], tuple) and a[1][0] == 'bits':
                b = norm(st, ('b', a[0], a[1][1]))
                if b != ('b', a[0], a[1][1]) and not (b[0] == 'b' and lin_of(b)[1].get(a)): v = vadd(v, vscale(vsub(b, mklin(a[0], 0, {a: 1})), k))
        return v
    if v[0] == 'b' and (st.hi or st.facts):
        w = v[1]
        bits = [factbit(st, b) for b in bits_of(v, st)]
        at = {x[0] for b in bits for x in b if x != ONE}
        if len(at) == 1:
            a, = at
            if a[0] == w and bits == abits(a, st):
                if isinstance(a[1], tuple) and a[1][0] == 'lin': return ('l', w, a[1][1], a[1][2])
                if isinstance(a[1], tuple) and a[1][0] == 'bits': return ('b', w, a[1][1])
                return atom(w, a[1])
            k = next((i for i, b in enumerate(bits) if b), 0)
            if k and a[0] >= w and bits[k] == frozenset([(a, 0)]):
                full = abits(a, st)
                if bits[k:] == full[:w - k] and a[0] == w: return mklin(w, 0, {a: 1 << k})      # a multiple by a power of two, whether or not bits are lost
            if isinstance(a[1], tuple) and a[1][0] == 'lin' and a[0] < w and len(bits) == w and not any(bits[a[0]:]) and bits[:a[0]] == [factbit(st, b) for b in abits(a, st)]:
                r = widen(st, a, w)
                if r is not None: return r
        return mkbits(w, bits)
    return v
def widen(st, a, w):
    """a narrow sum that does not wrap around, as a wide sum"""
    n, (_, c, t) = a
    def sg(k): return k - (1 << n) if k >> (n - 1) else k
    c = sg(c); lo = hi = c; r = K(w, c & M(w))
    for x, k in t:
        k = sg(k); v = atom(*x) if not (isinstance(x[1], tuple) and x[1][0] == 'bits') else ('b', x[0], x[1][1])
        v = norm(st, zext(v, w, st)); l, h = bounds(st, v)
        l, h = max(l, st.lo.get(x, 0)), min(h, st.hi.get(x, h))
        lo += k * (l if k > 0 else h); hi += k * (h if k > 0 else l)
        r = vadd(r, vscale(v, k))
    return r if 0 <= lo and hi < 1 << n else None
def factbit(st, b):
    if not b or not st.facts: return b
    r = frozenset()
    for x in b:
        if x != ONE and x in st.facts: r = r ^ (frozenset([ONE]) if st.facts[x] else frozenset())
        else: r = r ^ frozenset([x])
    return r
def same(st, a, b):
    """are two integers equal on this path?"""
    a, b = norm(st, a), norm(st, b)
    if a == b: return True
    if a[0] not in 'klb' or b[0] not in 'klb' or a[1] != b[1]: return False
    d = norm(st, vsub(a, b))
    if isk(d): return d[2] == 0
    return [factbit(st, x) for x in bits_of(a, st)] == [factbit(st, x) for x in bits_of(b, st)]

# ------------------------------------------------------------------ conditions (values of width 1)
def nonzero_atom(st, v):
    """a zero-extended atom that is known not to be zero"""
    if v[0] != 'b': return False
    at = {x[0] for q in v[2] for x in q if x != ONE}
    if len(at) != 1: return False
    a, = at
    return st.lo.get(a, amin(a)) > 0 and a[0] <= v[1] and all(v[2][i] == abit(a, i, st) for i in range(a[0]))
def cmpv(st, p, a, b, w):
    a, b = norm(st, a), norm(st, b)
    if p in ('eq', 'ne'):
        d = vsub(a, b)
        if isk(d): r = K(1, d[2] == 0)
        else:
            la, ha = bounds(st, a); lb, hb = bounds(st, b)
            z = a if isk(b) and b[2] == 0 else b if isk(a) and a[2] == 0 else None
            if ha < lb or hb < la: r = K(1, 0)
            elif z is not None and nonzero_atom(st, z): r = K(1, 0)
            else:
                n = vneg(d)
                if okey(n) < okey(d): d = n
                r = atom(1, ('eq0', d))
                # comparing single bits: the bit itself
                x = vsub(a, b)
                if w > 1 and x[0] == 'b' and sum(1 for q in x[2] if q) == 1:
                    q = next(q for q in x[2] if q); r = mkbits(1, [q ^ frozenset([ONE])])
                elif w == 1:
                    r = mkbits(1, [bits_of(a)[0] ^ bits_of(b)[0] ^ frozenset([ONE])])
        return r if p == 'eq' else notv(r)
    sw = {'ugt': ('ult', 1, 0), 'uge': ('ult', 0, 1), 'ule': ('ult', 1, 1), 'ult': ('ult', 0, 0), 'sgt': ('slt', 1, 0), 'sge': ('slt', 0, 1), 'sle': ('slt', 1, 1), 'slt': ('slt', 0, 0)}[p]
    x, y = (b, a) if sw[1] else (a, b)
    if sw[0] == 'ult':
        lx, hx = bounds(st, x); ly, hy = bounds(st, y)
        if hx < ly: r = K(1, 1)
        elif lx >= hy: r = K(1, 0)
        elif x == y: r = K(1, 0)
        else:
            t = rawless(st, x, y, w)
            r = K(1, t) if t is not None else atom(1, ('ult', x, y))
    else:
        if isk(x) and isk(y):
            s = lambda c: c - (1 << w) if c >> (w - 1) else c
            r = K(1, s(x[2]) < s(y[2]))
        elif x == y: r = K(1, 0)
        elif max(bounds(st, x)[1], bounds(st, y)[1]) <= M(w) >> 1: return cmpv(st, p.replace('s', 'u', 1), a, b, w)
        elif isk(y) and y[2] == 0: r = mkbits(1, [bits_of(x, st)[w - 1]])
        else: r = atom(1, ('slt', x, y))
    return notv(r) if sw[2] else r
def notv(v):
    if isk(v): return K(1, 1 - v[2])
    return mkbits(1, [bits_of(v)[0] ^ frozenset([ONE])])

def literal(st, v):
    """(atom key, polarity) of a condition, or None when it is a combination"""
    b = bits_of(v)[0]
    pol = ONE not in b
    rest = [x for x in b if x != ONE]
    if len(rest) == 1: return rest[0], pol
    return None, pol

def decide(st, v):
    v = apply_sub(st, v)
    if isk(v): return bool(v[2])
    l, pol = literal(st, v)
    if l is None: return st.facts.get(v)
    a, i = l
    if a[0] == 1 and l in st.facts: return st.facts[l] == pol
    if l in st.facts: return st.facts[l] == pol
    if a[0] == 1 and isinstance(a[1], tuple):
        k = a[1]
        if k[0] == 'ult':
            x, y = apply_sub(st, k[1]), apply_sub(st, k[2])
            lx, hx = bounds(st, x); ly, hy = bounds(st, y)
            if hx < ly: return pol
            if lx >= hy: return not pol
            # transitivity through recorded facts
            if ((1, ('ult', y, x)), 0) in st.facts and st.facts[((1, ('ult', y, x)), 0)]: return not pol
        if k[0] == 'eq0':
            d = apply_sub(st, k[1])
            if isk(d): return (d[2] == 0) == pol
            lo, hi = bounds(st, d)
            if lo > 0: return not pol
            # x-y with x<y or y<x known
            for (ka, _), val in st.facts.items() if False else []: pass
    return None

def equal_bits(st, bits):
    """every bit of (x ^ y) is zero: when y is one whole atom it is x"""
    if not all(len(b) == 2 and ONE not in b for b in bits): return
    for p in {q[0] for q in bits[0]}:
        if p[0] != len(bits) or p in st.sub: continue
        if all((p, i) in b for i, b in enumerate(bits)):
            st.sub[p] = mkbits(p[0], [b - {(p, i)} for i, b in enumerate(bits)]); return

def assume(st, v, truth):
    """record a condition; False when it contradicts what is known"""
    v = apply_sub(st, v)
    if isk(v): return bool(v[2]) == truth
    d = decide(st, v)
    if d is not None: return d == truth
    st.conds.append((v, truth))
    l, pol = literal(st, v)
    if l is None:
        st.facts[v] = truth; return True
    t = truth == pol
    st.facts[l] = t
    a, i = l
    if a[0] != 1 or not isinstance(a[1], tuple):
        if a[0] == 1: st.sub[a] = K(1, t)
        return True
    k = a[1]
    if k[0] == 'eq0' and t:
        d = k[1]; c, tt = lin_of(d)
        # solve for one atom with coefficient +-1, prefer a constant right-hand side
        for x, co in sorted(tt.items(), key=lambda q: okey(q[0])):
            if co in (1, M(d[1])) and x not in st.sub and not (isinstance(x[1], tuple) and x[1][0] == 'bits' and len(tt) > 1):
                rest = dict(tt); del rest[x]
                r = mklin(d[1], c, rest)
                r = vneg(r) if co == 1 else r
                if isinstance(x[1], tuple) and x[1][0] == 'bits':
                    if isk(r):
                        for j, b in enumerate(x[1][1]):
                            bb = [q for q in b if q != ONE]
                            if len(bb) == 1 and len(b) == 1: st.hi.setdefault('bit', None); st.facts[bb[0]] = bool(r[2] >> j & 1)
                    st.sub[x] = r
                    if isk(r) and r[2] == 0: equal_bits(st, x[1][1])
                else: st.sub[x] = r
                break
    if k[0] == 'ult':
        x, y = k[1], k[2]
        def one(v): return None if isk(v) else whole(v)
        def setb(a, lo=None, hi=None):
            if lo is not None: st.lo[a] = max(st.lo.get(a, 0), lo)
            if hi is not None: st.hi[a] = min(st.hi.get(a, M(a[0])), amax(a), hi)
            if hi is not None and isinstance(a[1], tuple) and a[1][0] == 'lin' and a[0] < 64:
                v = widen(st, a, 64)          # a narrow sum that does not wrap: its single unknown is bounded as well
                if v is not None and v[0] == 'l' and len(v[3]) == 1 and v[3][0][1] < 1 << 63 and v[2] < 1 << 63 and hi >= v[2]:
                    x, k = v[3][0]; z = (hi - v[2]) // k
                    st.hi[x] = min(st.hi.get(x, M(x[0])), z)
                    if z == 0 and x not in st.sub: st.sub[x] = K(x[0], 0)
            # bits of a zero-extended or shifted atom
            if isinstance(a[1], tuple) and a[1][0] == 'bits' and hi is not None:
                for j, b in enumerate(a[1][1]):
                    if (1 << j) > hi:
                        for q in b:
                            if q != ONE and len(b) == 1:
                                at, i = q
                                # all higher bits of the same atom as well, when they are all present
                                st.facts[q] = False
                ats = {q[0] for b in a[1][1] for q in b if q != ONE}
                if len(ats) == 1:
                    at, = ats
                    pos = {q[1]: j for j, b in enumerate(a[1][1]) for q in b if q != ONE}
                    nb = at[0]
                    z = nb
                    while z > 0 and (z - 1) in pos and (1 << pos[z - 1]) > hi: z -= 1
                    if z < nb: st.hi[at] = min(st.hi.get(at, M(nb)), amax(at), M(z))
                    if all(pos.get(i, i) == i for i in range(nb)) and all(i in pos or st.hi.get(at, M(nb)) >> i == 0 for i in range(nb)) and all(not b or (len(b) == 1 and ONE not in b) for b in a[1][1]):
                        st.hi[at] = min(st.hi.get(at, M(nb)), hi)
        ox, oy = one(x), one(y)
        if t:
            hy = bounds(st, y)[1]; lx = bounds(st, x)[0]
            if ox is not None: setb(ox, hi=hy - 1)
            if oy is not None: setb(oy, lo=lx + 1)
        else:
            ly = bounds(st, y)[0]; hx = bounds(st, x)[1]
            if ox is not None: setb(ox, lo=ly)
            if oy is not None: setb(oy, hi=hx)
    return True

# ------------------------------------------------------------------ evaluator
PURE = re.compile(r'^(std::(__cxx11::basic_string|basic_string|basic_string_view|vector|array|map|unordered_map|optional|unique_ptr|function|span)<.*>::(size|length|data|c_str|begin|end|cbegin|cend|empty|front|back|operator\[\]|at|find|operator\*|operator->|get|value|has_value|capacity|operator bool)|std::(isnan|round|roundf|fabs|abs|lround|isinf|isfinite|floor|ceil|get|holds_alternative)|std::__detail::|roundf?|strlen|memcmp|std::char_traits|llvm\.(ctlz|cttz|fabs|umin|umax|smin|smax)|.*SizeOf|.*ToString)')

OBJECTS = ('al', 'arg', 'g', 'fn', 'text', 'points', 'elements')      # never at the address zero

class VG:
    def __init__(self, fn, models=(), max_paths=4000, unroll=80, sym_unroll=0, summarise=True, keep_throw=False, disjoint=None, unwind=False):
        self.fn = fn; self.mod = fn.mod; self.cfg = fn.cfg(False); self.models = [(re.compile(rx), h) for rx, h in models]
        self.max_paths = max_paths; self.unroll = unroll; self.sym_unroll = sym_unroll; self.summarise = summarise
        self.done = []; self.opaque_calls = {}; self.loops = {}; self.nsteps = 0
        # blocks from which a return is reachable without unwinding
        ok = {b for b in self.cfg.rpo if fn.blocks[b][-1]['o'] == 'ret'}
        ch = True
        while ch:
            ch = False
            for b in self.cfg.rpo:
                if b not in ok and any(s in ok for s in self.cfg.succ[b]): ok.add(b); ch = True
        self.ok = ok; self.keep_throw = keep_throw or unwind; self.unwind = unwind
        self._mm = {}
        self.header = {L.header: L for L in self.cfg.loops}
    def distinct(self, a, b): return False
    # ---------------------------------------------------------------- operands
    def val(self, st, x):
        if isinstance(x, int):
            v = st.env.get(x)
            if v is None: raise Stop('undefined value %d in %s' % (x, self.fn.q))
            return v
        k = x[0]
        if k == 'c': return K(x[2], int(x[1]))
        if k == 'n': return NULL
        if k == 'g': return P(('g', x[1]), K(64, x[2]))
        if k == 'F': return P(('fn', x[1]))
        if k == 'f': return F(('c', x[1]))
        if k == 'z': return ('f', ('zero',))
        if k == 'u': return ('f', ('undef',))
        if k == 'V': return ('f', ('vec',) + tuple(tuple(e) for e in x[1:]))
        return ('f', ('const', str(x)))
    def ival(self, st, x, w): return norm(st, to_int(self.val(st, x), w))
    # ---------------------------------------------------------------- memory
    def dist(self, st, a, b):
        """a-b as an integer when it is constant"""
        d = vsub(norm(st, a), norm(st, b))
        if isk(d): return d[2] - (1 << 64) if d[2] >> 63 else d[2]
        return None
    def after(self, st, a, sa, b):
        """b >= a + sa"""
        if sa is None: return False
        d = vsub(vsub(norm(st, b), norm(st, a)), K(64, sa) if isinstance(sa, int) else norm(st, sa))
        c, t = lin_of(d)
        c = c - (1 << 64) if c >> 63 else c
        if any(k >> 63 for k in t.values()): return False
        return c + sum(k * st.lo.get(x, amin(x)) for x, k in t.items()) >= 0
    def apart(self, st, a, sa, b, sb):
        """[a, a+sa) and [b, b+sb) cannot overlap although their distance is symbolic"""
        return self.after(st, a, sa, b) or self.after(st, b, sb, a)
    def store(self, st, base, off, size, v):
        if v[0] == 'vec':
            n = v[1] // 8
            for i, x in enumerate(v[2]): self.store(st, base, vadd(off, K(64, n * i)), n, x)
            return
        if st.touched is not None: st.touched.add((base, off if isk(off) else None, None if isinstance(size, tuple) else size))
        cells = st.mem.setdefault(base, [])
        keep = []
        for c in cells:
            d = self.dist(st, c[0], off)
            if d is None or isinstance(c[1], tuple) or isinstance(size, tuple):
                if d == 0 and c[1] == size: continue
                if self.apart(st, c[0], c[1], off, size): keep.append(c)
                else: keep.append((c[0], c[1], ('maybe', c[2])))
                continue
            if size is not None and (d >= size or (c[1] is not None and d + c[1] <= 0)): keep.append(c); continue
            if size is None and c[1] is not None and d + c[1] <= 0: keep.append(c); continue
            if size is None or c[1] is None: keep.append((c[0], c[1], ('maybe', c[2]))); continue
            if d >= 0 and d + c[1] <= size: continue      # overwritten
            # partial: split into bytes
            if c[2][0] in 'klb' or c[2][0] == 'f':
                bv = bits_of(to_int(c[2], 8 * c[1]), st) if c[2][0] != 'maybe' else None
                for i in range(c[1]):
                    if 0 <= d + i < size: continue
                    keep.append((vadd(c[0], K(64, i)), 1, mkbits(8, bv[8 * i:8 * i + 8])))
        keep.append((off, size, v))
        st.mem[base] = keep
    def byte(self, st, base, off):
        """value of one byte"""
        for o, sz, v in reversed(st.mem.get(base, ())):
            d = self.dist(st, off, o)
            if d == 0 and v[0] == 'f' and v[1][0] == 'varint': return atom(8, ('vb0', v[1][1]))
            if d is None or isinstance(sz, tuple):
                if self.apart(st, off, 1, o, sz): continue
                return atom(8, ('?', base, off, self.version(st, base), len(st.mem.get(base, ()))))
            if d < 0 or (sz is not None and d >= sz): continue
            if sz is None or v[0] == 'maybe': return atom(8, ('?', base, off, self.version(st, base), len(st.mem.get(base, ()))))
            if v[0] == 'item': return v[1].byte(self, st, d)
            iv = to_int(v, 8 * sz)
            return mkbits(8, bits_of(iv, st)[8 * d:8 * d + 8])
        return self.initial_byte(st, base, off)
    def version(self, st, base): return st.ver.get(base, 0)
    def initial_byte(self, st, base, off):
        if base[0] == 'g' and isk(off):
            g = self.mod.gbytes(base[1])
            gi = self.mod.globals.get(base[1], {})
            for o, w, x in gi.get('ints', ()) if gi.get('const') or str(base[1]).startswith('_ZZ') else ():          # built at compile time
                if o <= off[2] < o + w // 8: return K(8, int(x) >> 8 * (off[2] - o) & 255)
            if g is not None and off[2] < len(g) and self.mod.globals.get(base[1], {}).get('const', True): return K(8, g[off[2]])
        return atom(8, ('m', base, off, self.version(st, base)))
    def load(self, st, base, off, size, typ, w=None):
        isint = re.fullmatch(r'i\d+', typ) is not None
        if isint and base[0] == 'g' and str(base[1]).startswith('_ZGV') and base not in st.mem: return K(w or 8 * size, 0)     # guard of a function-local static: the first call
        sh = vshape(typ)
        if sh:
            z = sh[1] // 8
            return vec(sh[1], [self.load(st, base, vadd(off, K(64, z * i)), z, 'float' if sh[2] and z == 4 else 'double' if sh[2] else 'i%d' % sh[1]) for i in range(sh[0])])
        for o, sz, v in reversed(st.mem.get(base, ())):
            d = self.dist(st, off, o)
            if d == 0 and sz == size:
                if v[0] == 'maybe': break
                if v[0] == 'item': break
                if isint and v[0] in 'klbf' : return trunc(to_int(v, 8 * size), w or 8 * size, st) if (w or 8 * size) < 8 * size else to_int(v, 8 * size)
                if isint and v[0] == 'p': return to_int(v, 8 * size)
                if typ == 'ptr': return to_ptr(v)
                if typ in ('float', 'double'): return to_float(v)
                return v
            if d is None or isinstance(sz, tuple):
                if self.apart(st, off, size, o, sz): continue
                break
            if d + size <= 0 or (sz is not None and d >= sz): continue
            break
        if typ == 'ptr' and not self.overlaps(st, base, off, size):
            g = self.mod.globals.get(base[1]) if base[0] == 'g' else None
            if g and 'arr' in g and isk(off) and off[2] % 8 == 0 and off[2] // 8 < len(g['arr']):
                e = g['arr'][off[2] // 8]
                if e[0] in ('g', 'F'): return P(('g' if e[0] == 'g' else 'fn', e[1]), K(64, e[2] if len(e) > 2 else 0))
            return P(('ld', base, off, self.version(st, base)))
        if size > 64 or (not isint and typ not in ('float', 'double', 'ptr')):
            if not self.overlaps(st, base, off, size): return ('f', ('m', base, off, size, self.version(st, base)))
            if size > 64: return ('f', ('?', base, off, size, st.fresh()))
        bits = []
        for i in range(size): bits += bits_of(self.byte(st, base, vadd(off, K(64, i))), st)
        v = mkbits(8 * size, bits)
        if isint: return trunc(v, w, st) if w and w < 8 * size else v
        if typ == 'ptr': return to_ptr(v)
        return to_float(v)
    def overlaps(self, st, base, off, size):
        for o, sz, v in st.mem.get(base, ()):
            d = self.dist(st, off, o)
            if d is None or isinstance(sz, tuple):
                if not self.apart(st, off, size, o, sz): return True
                continue
            if d + size <= 0 or (sz is not None and d >= sz): continue
            return True
        return False
    def copy(self, st, dst, src, n):
        """memcpy"""
        if isk(n):
            n = n[2]
            if n == 0: return
            whole = [(o, sz, v) for o, sz, v in st.mem.get(src[1], ()) if sz == n and self.dist(st, o, src[2]) == 0 and v[0] not in ('maybe', 'item')]
            if whole: self.store(st, dst[1], dst[2], n, whole[-1][2]); return
            if n <= 64:
                cells = [(o, sz, v) for o, sz, v in st.mem.get(src[1], ()) if not isinstance(sz, tuple) and self.dist(st, o, src[2]) is not None and 0 <= self.dist(st, o, src[2]) and sz is not None and self.dist(st, o, src[2]) + sz <= n]
                if any(v[0] == 'p' for _, _, v in cells) or n in (16, 24, 32, 48, 64) and not cells and n > 16:
                    parts = {}
                    for o, sz, v in cells: parts[self.dist(st, o, src[2])] = (sz, v)
                    i = 0
                    while i < n:
                        if i in parts: sz, v = parts[i]
                        else:
                            sz = min(8, n - i)
                            for q in sorted(parts):
                                if q > i: sz = min(sz, q - i); break
                            v = self.load(st, src[1], vadd(src[2], K(64, i)), sz, 'i%d' % (8 * sz))
                        self.store(st, dst[1], vadd(dst[2], K(64, i)), sz, v); i += sz
                    return
                v = self.load(st, src[1], src[2], n, 'i%d' % (8 * n))
                self.store(st, dst[1], dst[2], n, v); return
            cells = [(self.dist(st, o, src[2]), sz, v) for o, sz, v in st.mem.get(src[1], ()) if not isinstance(sz, tuple)]
            v = ('f', ('mem', src[1], src[2], n, self.version(st, src[1])))
            self.store(st, dst[1], dst[2], n, v)
            for d, sz, x in cells:
                if d is not None and sz is not None and 0 <= d and d + sz <= n: self.store(st, dst[1], vadd(dst[2], K(64, d)), sz, x)
            return
        self.store(st, dst[1], dst[2], norm(st, n), ('f', ('mem', src[1], src[2], norm(st, n), self.version(st, src[1]))))
    def havoc(self, st, base):
        st.ver[base] = st.ver.get(base, 0) + 1 + 1000 * st.fresh() if False else st.ver.get(base, 0) + 1
        if base in st.mem: del st.mem[base]
        if st.touched is not None: st.touched.add((base, None, None))
    # ---------------------------------------------------------------- control
    def run(self, st, start=0):
        """follow every path from the entry; finished states are in self.done as (kind, state, value)"""
        self.work = [(start, None, st, {})]
        while self.work:
            b, prev, s, visits = self.work.pop()
            self.go(b, prev, s, visits, None)
        return self.done
    def go(self, b, prev, st, visits, stop):
        """run until a fork; pushes continuations"""
        while True:
            self.nsteps += 1
            if self.nsteps > 400000: raise TooMany('too many steps in %s' % self.fn.q)
            if b not in self.ok and not self.keep_throw: return
            if stop and prev is not None and b in stop:
                self.enter(st, prev, b); stop[b].append((prev, st)); return
            if prev is not None: self.enter(st, prev, b)
            if b in self.header:
                L = self.header[b]
                n = visits.get(b, 0)
                if prev is not None and prev not in L.blocks: n = 0
                visits = dict(visits); visits[b] = n + 1
                if n == 0 and self.summarise and not self.constant_loop(L, st):
                    for nb, pb, s2 in self.summary(L, st, visits):
                        self.push(nb, pb, s2, visits, stop)
                    return
                if n > self.unroll: raise TooMany('loop at %s is not bounded' % self.fn.loc(self.fn.blocks[b][-1]))
            nxt = self.block(b, st)
            nxt = [(s, t) for s, t in nxt if t in self.ok or self.keep_throw]
            if not nxt: return
            for s, t in nxt[1:]: self.push(t, b, s, visits, stop)
            st, prev, b = nxt[0][0], b, nxt[0][1]
            if len(self.done) + len(self.work) > self.max_paths: raise TooMany('too many paths in %s' % self.fn.q)
    def push(self, b, prev, st, visits, stop):
        self.work.append((b, prev, st, visits)) if stop is None else self.go(b, prev, st, visits, stop)
    def enter(self, st, prev, b):
        upd = {}
        for ins in self.fn.blocks[b]:
            if ins['o'] != 'phi': break
            for v, p in ins['in']:
                if p == prev: upd[ins['i']] = self.val(st, v); break
        st.env.update(upd)
    def constant_loop(self, L, st):
        """is the loop condition decided on entry (then follow it exactly)?"""
        s = st.copy(); s.touched = None
        s.facts = {}; s.lo = {}; s.hi = {}; s.sub = {a: v for a, v in s.sub.items() if isk(v)}     # decided by constants, not by what is known about the first round
        b = L.header; seen = 0
        nd = len(self.done); ev = self.opaque_calls
        try:
            prev = None
            while True:
                nxt = self.block(b, s, probe=True)
                if len(nxt) != 1:
                    live = [(x, t) for x, t in nxt if t in self.ok]
                    if len(live) != 1: return self.sym_unroll > 0
                    nxt = live
                s, t = nxt[0]
                if t not in L.blocks: return True
                if t == L.header: return True
                self.enter(s, b, t)
                # leaving test found?
                if any(x not in L.blocks for x in self.cfg.succ[b] if x in self.ok): return True
                b = t; seen += 1
                if seen > 60 or (b in self.header and b != L.header): return False
        except (Stop, TooMany): return False
        finally: del self.done[nd:]
    def summary(self, L, st, visits):
        """one generic iteration; yields the states that leave the loop"""
        key = L.header
        n = st.user.setdefault('loops met', {}).get(key, 0); st.user['loops met'][key] = n + 1
        if n: key = (key, n)                               # met again on the same path: values of its own
        killed = set(); known = {k: len(v) for k, v in self.loops.items()}
        for rnd in range(4):
            for k in list(self.loops): del self.loops[k][known.get(k, 0):]      # inner loops seen in an earlier, incomplete round
            s = st.copy(); s.touched = set(); s.events = []; s.conds = []
            for base, off, size in killed:
                if off is None or size is None: self.havoc(s, base)
                else: self.store(s, base, off, size, atom(8 * size, ('loopmem', key, base, off)) if size <= 8 else ('f', ('loopmem', key, base, off)))
            s.touched = set()
            for ins in self.fn.blocks[L.header]:
                if ins['o'] != 'phi': break
                v0 = st.env[ins['i']]
                s.env[ins['i']] = self.generic(('loopphi', key, ins['i']), ins['t'], ins.get('w'), v0)
            stop = {L.header: []}
            outs = [x for b in L.blocks for x in self.cfg.succ[b] if x not in L.blocks]
            for x in outs: stop[x] = []
            nxt = self.block(L.header, s)
            for s2, t in nxt:
                if t in self.ok: self.go(t, L.header, s2, {k: v for k, v in visits.items() if k != L.header}, stop)
            new = set()
            for t in stop:
                for p, s2 in stop[t]: new |= {(b, o, z) for b, o, z in s2.touched if not (b[0] == 'al' and b in L_allocas(self.fn, L))}
            if not self.stationary: pass
            if new <= killed: break
            killed |= new
            whole = {b for b, o, z in killed if o is None or z is None}
            killed = {(b, o, z) for b, o, z in killed if b not in whole} | {(b, None, None) for b in whole}
        body = [(s2.conds, s2.events, s2) for p, s2 in stop[L.header]]
        info = dict(header=key, entry=st, body=body, exits=[], phis={ins['i']: (st.env[ins['i']], ('loopphi', key, ins['i'])) for ins in self.fn.blocks[L.header] if ins['o'] == 'phi'}, loc=self.fn.loc(self.fn.blocks[L.header][-1]))
        self.loops.setdefault(L.header, []).append(info)
        res = []
        for t in stop:
            if t == L.header: continue
            for p, s2 in stop[t]:
                info['exits'].append(s2)
                s3 = s2.copy()
                s3.touched = st.touched
                if st.touched is not None:
                    for b, o, z in killed: st.touched.add((b, o, z))
                s3.events = st.events + [('loop', key, tuple((tuple(c), tuple(e)) for c, e, _ in body))] + s2.events
                s3.conds = st.conds + s2.conds
                res.append((t, 'skip', s3))
        return [(t, None, s) for t, _, s in res]
    stationary = True
    def generic(self, key, t, w, v0=None):
        if t == 'ptr':
            if v0 is not None and v0[0] == 'p': return ('p', v0[1], atom(64, key))
            return P(key)
        m = re.fullmatch(r'i(\d+)', t)
        if m: return atom(w or int(m.group(1)), key)
        return ('f', key)
    # ---------------------------------------------------------------- instructions
    def block(self, b, st, probe=False, k0=0):
        blk = self.fn.blocks[b]
        for k in range(k0, len(blk)):
            ins = blk[k]; o = ins['o']
            if o == 'phi': continue
            if o == 'br':
                if len(ins['s']) == 1 or ins['s'][0] == ins['s'][1]: return [(st, ins['s'][0])]
                c = to_int(self.val(st, ins['a'][0]), 1)
                d = decide(st, c)
                if d is not None: return [(st, ins['s'][0 if d else 1])]
                s2 = st.copy(); r = []
                if assume(st, c, True): r.append((st, ins['s'][0]))
                if assume(s2, c, False): r.append((s2, ins['s'][1]))
                return r
            if o == 'switch':
                v = self.ival(st, ins['a'][0], ins['cw']); r = []
                rest = st
                for cv, t in ins['cases']:
                    c = cmpv(rest, 'eq', v, K(ins['cw'], int(cv)), ins['cw'])
                    d = decide(rest, c)
                    if d is True: return r + [(rest, t)]
                    if d is False: continue
                    s2 = rest.copy()
                    if assume(s2, c, True): r.append((s2, t))
                    if not assume(rest, c, False): return r
                return r + [(rest, ins['def'])]
            if o in ('call', 'invoke'):
                thrown = None
                if o == 'invoke' and self.unwind and not probe:
                    thrown = st.copy(); thrown.events = list(thrown.events) + [('unwound', ins.get('q'), ins)]
                r = self.call(st, ins)
                up = [(thrown, ins['u'])] if thrown is not None else []
                if r is None: return up
                if o == 'invoke': return [(s, ins['n']) for s in r] + up
                if len(r) == 1: st = r[0]; continue
                if not r: return []
                # fork inside a block: finish the block for each state
                out = []
                for s in r: out += self.block(b, s, probe, k + 1)
                return out
            if o == 'ret':
                if not probe: self.done.append(('ret', st, self.val(st, ins['a'][0]) if ins.get('a') else None))
                return []
            if o in ('resume', 'unreachable'):
                if self.keep_throw and not probe: self.done.append((o, st, None))
                return []
            r = self.simple(st, ins)
            if r is not None:
                out = []
                for s in r: out += self.block(b, s, probe, k + 1)
                return out
        return []
    def simple(self, st, ins):
        o = ins['o']; env = st.env
        if o == 'alloca':
            base = ('al', ins['i'])
            if base in st.mem: del st.mem[base]
            st.ver[base] = st.ver.get(base, 0) + 1
            env[ins['i']] = P(base); return
        if o == 'load':
            p = to_ptr(self.val(st, ins['a'][0]))
            env[ins['i']] = self.onload(st, ins, p, self.load(st, p[1], apply_sub(st, p[2]), ins['sz'], ins['t'], ins.get('w'))); return
        if o == 'store':
            p = to_ptr(self.val(st, ins['a'][1])); v = self.val(st, ins['a'][0])
            if v[0] == 'f' and v[1] in (('zero',),) and ins['sz'] <= 64: v = K(8 * ins['sz'], 0)
            if v[0] in 'klb' and v[1] != 8 * ins['sz']: v = zext(v, 8 * ins['sz'], st)
            self.store(st, p[1], apply_sub(st, p[2]), ins['sz'], v); return
        if o == 'getelementptr':
            p = to_ptr(self.val(st, ins['a'][0]))
            if ins.get('off') is None: env[ins['i']] = P(('gepx', ins['i'])); return
            off = vadd(p[2], K(64, ins['off']))
            for vx, sc in ins['vars']:
                v = self.val(st, vx)
                iv = to_int(v, v[1] if v[0] in 'klb' else 64)
                if iv[1] < 64: iv = sext(iv, 64, st)
                off = vadd(off, vscale(iv, sc))
            env[ins['i']] = ('p', p[1], off); return
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            w = ins.get('w')
            sh = vshape(ins['t'])
            if sh:
                x, y = [lanes(self.val(st, q), sh[0], sh[1], False, st) for q in ins['a']]
                env[ins['i']] = vec(sh[1], [vbin(st, o, p, q, sh[1]) for p, q in zip(x, y)]); return
            if w is None: env[ins['i']] = ('f', (o, self.val(st, ins['a'][0]), self.val(st, ins['a'][1]))); return
            a, b = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
            if o == 'sub' and a[0] == 'p' and b[0] == 'p': env[ins['i']] = vsub(a[2], b[2]) if a[1] == b[1] else vsub(to_int(a, 64), to_int(b, 64)); return
            env[ins['i']] = self.shifts(st, o, self.ival(st, ins['a'][0], w), self.ival(st, ins['a'][1], w), w); return
        if o == 'icmp':
            a, b = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
            if ins['t'] != 'i1': env[ins['i']] = ('f', ('icmp', ins['p'], a, b)); return
            w = ins['cw']
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]: env[ins['i']] = cmpv(st, ins['p'], a[2], b[2], 64); return
            if a[0] == 'p' or b[0] == 'p':
                x, y = a, b
                if a[0] == 'p' and b[0] == 'p' and ins['p'] in ('eq', 'ne') and self.distinct(a[1], b[1]): env[ins['i']] = K(1, ins['p'] == 'ne'); return
                if ins['p'] in ('eq', 'ne') and ((x[0] == 'p' and x[1][0] in OBJECTS and y == NULL) or (y[0] == 'p' and y[1][0] in OBJECTS and x == NULL)):
                    env[ins['i']] = K(1, ins['p'] == 'ne'); return
            env[ins['i']] = cmpv(st, ins['p'], to_int(a, w), to_int(b, w), w); return
        if o == 'fcmp':
            a, b = self.val(st, ins['a'][0]), self.val(st, ins['a'][1]); p = ins['p']
            if ins['t'] != 'i1': env[ins['i']] = ('f', ('fcmp', p, a, b)); return
            if p == 'une' and a == b: env[ins['i']] = atom(1, ('isnan', a)); return
            if p == 'uno' and (a == b or b[1][0] == 'c'): env[ins['i']] = atom(1, ('isnan', a)); return
            if p in ('oeq',) and a == b: env[ins['i']] = notv(atom(1, ('isnan', a))); return
            if p == 'ord' and (a == b or b[1][0] == 'c'): env[ins['i']] = notv(atom(1, ('isnan', a))); return
            x, y = fconst(a), fconst(b)
            if x is not None and y is not None: env[ins['i']] = K(1, fcmp_const(p, x, y)); return
            env[ins['i']] = atom(1, ('fcmp', p, a, b)); return
        if o in ('zext', 'sext', 'trunc'):
            if not ins.get('w') or not ins.get('fw'): env[ins['i']] = ('f', (o, self.val(st, ins['a'][0]), ins['t'])); return
            v = self.ival(st, ins['a'][0], ins['fw'])
            env[ins['i']] = {'zext': zext, 'sext': sext, 'trunc': trunc}[o](v, ins['w'], st); return
        if o == 'ptrtoint': env[ins['i']] = to_int(to_ptr(self.val(st, ins['a'][0])), 64); return
        if o == 'inttoptr': env[ins['i']] = to_ptr(self.val(st, ins['a'][0])); return
        if o in ('freeze', 'addrspacecast'): env[ins['i']] = self.val(st, ins['a'][0]); return
        if o == 'bitcast':
            v = self.val(st, ins['a'][0]); t = ins['t']
            sh = vshape(t)
            if sh: env[ins['i']] = vec(sh[1], lanes(v, sh[0], sh[1], sh[2], st)); return
            if re.fullmatch(r'i\d+', t): env[ins['i']] = to_int(v, int(t[1:]))
            elif t in ('float', 'double'): env[ins['i']] = to_float(v)
            else: env[ins['i']] = v
            return
        if o == 'select':
            c = self.val(st, ins['a'][0]); a, b = self.val(st, ins['a'][1]), self.val(st, ins['a'][2])
            if c[0] not in 'klb': env[ins['i']] = ('f', ('select', c, a, b)); return
            if a == b: env[ins['i']] = a; return
            d = decide(st, c)
            if d is not None: env[ins['i']] = a if d else b; return
            s2 = st.copy(); r = []
            if assume(st, c, True): st.env[ins['i']] = a; r.append(st)
            if assume(s2, c, False): s2.env[ins['i']] = b; r.append(s2)
            return r
        if o == 'landingpad': env[ins['i']] = ('f', ('lp', ins['i'])); return
        if o == 'extractvalue':
            v = self.val(st, ins['a'][0]); ix = tuple(ins['ix'])
            if v[0] == 'agg' and ix in dict(v[1]): env[ins['i']] = dict(v[1])[ix]
            else: env[ins['i']] = self.generic(('ev', v, ix), ins['t'], ins.get('w'))
            return
        if o == 'insertvalue':
            v = self.val(st, ins['a'][0]); d = dict(v[1]) if v[0] == 'agg' else {}
            d[tuple(ins['ix'])] = self.val(st, ins['a'][1]); env[ins['i']] = ('agg', tuple(sorted(d.items()))); return
        if o == 'fence': return
        sh = vshape(ins.get('t'))
        if o == 'extractelement':
            v = self.val(st, ins['a'][0]); ix = self.val(st, ins['a'][1]); w = ins.get('w') or {'float': 32, 'double': 64}[ins['t']]
            n = 128 // w if v[0] != 'vec' else v[1] * len(v[2]) // w
            if isk(ix): env[ins['i']] = lanes(v, n, w, ins['t'] in ('float', 'double'), st)[ix[2]]
            else: env[ins['i']] = self.generic((o, v, ix), ins['t'], ins.get('w'))
            return
        if o == 'insertelement' and sh:
            v = self.val(st, ins['a'][0]); ix = self.val(st, ins['a'][2])
            ls = lanes(v, sh[0], sh[1], sh[2], st)
            if isk(ix): ls[ix[2]] = to_float(self.val(st, ins['a'][1])) if sh[2] else to_int(self.val(st, ins['a'][1]), sh[1])
            else: ls = [atom(sh[1], (o, v, ix, i)) for i in range(sh[0])]
            env[ins['i']] = vec(sh[1], ls); return
        if o == 'shufflevector' and sh and 'mask' in ins:
            a = self.val(st, ins['a'][0]); b = self.val(st, ins['a'][1])
            n = len(a[2]) if a[0] == 'vec' else sh[0]
            ls = lanes(a, n, sh[1], sh[2], st) + lanes(b, n, sh[1], sh[2], st)
            env[ins['i']] = vec(sh[1], [ls[m] if m >= 0 else atom(sh[1], ('undef', 0)) for m in ins['mask']]); return
        if sh and o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = [lanes(self.val(st, q), sh[0], sh[1], True, st) for q in ins['a']]
            env[ins['i']] = vec(sh[1], [('f', (o, 'float' if sh[1] == 32 else 'double') + tuple(sorted(q, key=okey) if o in ('fadd', 'fmul') else q)) for q in zip(x, y)]); return
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            a = [to_float(self.val(st, x)) if self.val(st, x)[0] != 'agg' else self.val(st, x) for x in ins['a']]
            if o in ('fadd', 'fmul'): a = sorted(a, key=okey)
            env[ins['i']] = ('f', (o, ins['t']) + tuple(a)); return
        if o in ('sitofp', 'uitofp'):
            env[ins['i']] = ('f', (o, ins['t'], self.val(st, ins['a'][0]))); return
        if o in ('fptosi', 'fptoui'):
            env[ins['i']] = atom(ins['w'], (o, self.val(st, ins['a'][0]))) if ins.get('w') else ('f', (o, self.val(st, ins['a'][0]))); return
        if 'i' in ins:
            ops = tuple(self.val(st, x) for x in ins.get('a', ()))
            env[ins['i']] = self.generic((o, ins['t']) + ops + ((tuple(ins['mask']),) if 'mask' in ins else ()), ins['t'], ins.get('w'))
        return
    def shifts(self, st, o, a, b, w):
        return vbin(st, o, a, b, w)
    def onload(self, st, ins, p, v): return v
    # ---------------------------------------------------------------- calls
    def model(self, q):
        if q in self._mm: return self._mm[q]
        r = None
        for rx, h in self.models:
            if rx.search(q): r = h; break
        if r is None:
            for rx, h in STD:
                if rx.search(q): r = h; break
        self._mm[q] = r
        return r
    def call(self, st, ins):
        """list of successor states (None: never returns)"""
        q = ins.get('q'); f = ins.get('f')
        args = [self.val(st, a) if not (isinstance(a, list) and a[0] == 'm') else ('f', 'md') for a in ins['a']]
        if q is None:
            c = self.val(st, ins['ind'])
            if c[0] == 'p' and c[1][0] == 'fn': f = c[1][1]; q = self.mod.fn_q.get(f, f)
            else:
                q = '<indirect>'; args = [c] + args
        if ins.get('nr'): return None
        h = self.model(q)
        r = h(self, st, ins, q, args) if h else self.unknown(st, ins, q, args)
        if r is None: r = [(st, None)]
        elif isinstance(r, tuple): r = [(st, r)]
        out = []
        for s, v in r:
            if 'i' in ins:
                if v is None: v = self.generic(('call', q, tuple(args), s.fresh()), ins['t'], ins.get('w'))
                if ins['t'] == 'ptr': v = to_ptr(v) if v[0] != 'agg' else v
                elif ins.get('w'): v = to_int(v, ins['w'])
                s.env[ins['i']] = v
            out.append(s)
        return out
    def vers(self, st, args): return tuple(self.version(st, a[1]) if a[0] == 'p' else 0 for a in args)
    def unknown(self, st, ins, q, args):
        if PURE.search(q) and 'i' in ins:
            if ins.get('sret') is None: return self.generic(('call', q, tuple(args), self.vers(st, args)), ins['t'], ins.get('w'))
        self.opaque_calls[q] = self.opaque_calls.get(q, 0) + 1
        ev = ('call', q, tuple(args), self.vers(st, args))
        st.events.append(ev)
        full = self.mod.fn_full.get(ins.get('f')) or ''
        from absint import const_params
        cm = set()
        try: cm = const_params(full, [('p', 1) if a[0] == 'p' else ('i', 0) for a in args], ins)
        except Exception: pass
        for i, a in enumerate(args):
            if i in cm: continue
            if a[0] == 'p' and a[1][0] not in ('g', 'fn', 'null'): self.havoc(st, a[1])
        if 'i' in ins: return self.generic(('ret', q, tuple(args), st.fresh()), ins['t'], ins.get('w'))
        return None

def L_allocas(fn, L):
    return {('al', ins['i']) for b in L.blocks for ins in fn.blocks[b] if ins['o'] == 'alloca'}

# ------------------------------------------------------------------ short vectors
VT = re.compile(r'^<(\d+) x (i\d+|float|double)>$')
def vshape(t):
    m = VT.match(t or '')
    if not m: return None
    e = m.group(2)
    return int(m.group(1)), (32 if e == 'float' else 64 if e == 'double' else int(e[1:])), e in ('float', 'double')
def lanes(v, n, w, fl, st=None):
    """the n lanes of width w of a vector value"""
    if v[0] == 'f' and v[1] == ('zero',): r = [K(w, 0)] * n
    elif v[0] == 'f' and v[1] == ('undef',): r = [atom(w, ('undef', i)) for i in range(n)]
    elif v[0] == 'f' and isinstance(v[1], tuple) and v[1][0] == 'vec':
        r = []
        for e in v[1][1:]: r.append(K(e[2], int(e[1])) if e[0] == 'c' else F(('c', e[1])) if e[0] == 'f' else K(w, 0) if e[0] == 'z' else atom(w, ('undef', len(r))))
        if len(r) != n: r = lanes(('vec', w * n // max(1, len(r)), tuple(r)), n, w, fl, st)
    elif v[0] == 'vec':
        if v[1] == w: r = list(v[2])
        else:
            bits = []
            for x in v[2]: bits += bits_of(to_int(x, v[1]), st)
            r = [mkbits(w, bits[w * i:w * i + w]) for i in range(n)]
    else:
        x = to_int(v, w * n); b = bits_of(x, st); r = [mkbits(w, b[w * i:w * i + w]) for i in range(n)]
    return [to_float(x) if fl else to_int(x, w) for x in r]
def vec(w, ls): return ('vec', w, tuple(ls))

# ------------------------------------------------------------------ library
STD = []
def std(rx):
    def d(f): STD.append((re.compile(rx), f)); return f
    return d

@std(r'^(llvm\.)?(memcpy|memmove)(\.|$)')
def _memcpy(e, st, ins, q, args):
    e.copy(st, to_ptr(args[0]), to_ptr(args[1]), to_int(args[2], 64)); return args[0]
@std(r'^(llvm\.)?memset(\.|$)')
def _memset(e, st, ins, q, args):
    p = to_ptr(args[0]); n = to_int(args[2], 64); b = trunc(to_int(args[1], 8 if args[1][0] in 'klb' and args[1][1] == 8 else 32), 8) if args[1][0] in 'klb' else K(8, 0)
    if isk(n) and n[2] <= 64 and n[2]: e.store(st, p[1], p[2], n[2], mkbits(8 * n[2], bits_of(b) * n[2]))
    elif isk(n) and isk(b) and b[2] == 0 and n[2] <= 4096:
        i = 0
        while i < n[2]:
            z = min(8, n[2] - i); e.store(st, p[1], vadd(p[2], K(64, i)), z, K(8 * z, 0)); i += z
    elif not isk(n) or n[2]: e.store(st, p[1], p[2], n[2] if isk(n) else None, ('f', ('memset', b, n)))
    return args[0]
@std(r'^llvm\.(lifetime|dbg|assume|experimental|invariant|type\.test|prefetch|stacksave|stackrestore|donothing|va_)')
def _nop(e, st, ins, q, args): return K(1, 1) if 'i' in ins and ins.get('w') == 1 else None
@std(r'^std::(isnan)|^llvm\.is\.fpclass')
def _isnan(e, st, ins, q, args): return atom(1, ('isnan', args[0]))
@std(r'^std::round|^roundf?$|^llvm\.round\.')
def _round(e, st, ins, q, args): return ('f', ('round', args[0]))
@std(r'^llvm\.(ctlz|cttz)\.|^__builtin_c[lt]z|^std::count[lr]_zero|^std::__count[lr]_zero')
def _clz(e, st, ins, q, args):
    w = ins.get('w') or 32
    k = 'ctlz' if 'ctlz' in q or 'clz' in q or 'countl' in q else 'cttz'
    a = args[0]
    return atom(w, (k, a))
@std(r'^llvm\.(umin|umax|smin|smax)\.')
def _minmax(e, st, ins, q, args):
    w = ins['w']; k = q.split('.')[1]
    c = cmpv(st, {'umin': 'ule', 'umax': 'uge', 'smin': 'sle', 'smax': 'sge'}[k], args[0], args[1], w)
    d = decide(st, c)
    if d is not None: return args[0] if d else args[1]
    s2 = st.copy(); r = []
    if assume(st, c, True): r.append((st, args[0]))
    if assume(s2, c, False): r.append((s2, args[1]))
    return r
@std(r'^llvm\.bswap\.')
def _bswap(e, st, ins, q, args):
    w = ins['w']; b = bits_of(args[0], st)
    return mkbits(w, [x for i in reversed(range(w // 8)) for x in b[8 * i:8 * i + 8]])
@std(r'^llvm\.(fshl|fshr)\.')
def _fsh(e, st, ins, q, args): return opaque(ins['w'], q, *args)
def V4(rx, w, fi, fo, f):
    @std(rx)
    def h(e, st, ins, q, args):
        a = [lanes(x, 4, w, fi, st) for x in args]
        return vec(w, [f(st, *[x[i] for x in a]) for i in range(4)])
def fop(o): return lambda st, *a: ('f', (o, 'float') + tuple(sorted(a, key=okey) if o in ('fadd', 'fmul') else a))
for _n, _o in (('add', 'fadd'), ('sub', 'fsub'), ('mul', 'fmul'), ('div', 'fdiv')): V4(r'^_mm_%s_ps$' % _n, 32, True, True, fop(_o))
for _n in ('add', 'sub'): V4(r'^_mm_%s_epi32$' % _n, 32, False, False, lambda st, a, b, _n=_n: vbin(st, _n, a, b, 32))
V4(r'^_mm_cvtps_epi32$|^llvm\.x86\.sse2\.cvtps2dq$', 32, True, False, lambda st, a: atom(32, ('fptosi', strip_round(a))))
V4(r'^_mm_cvtepi32_ps$', 32, False, True, lambda st, a: ('f', ('sitofp', 'float', a)))
V4(r'^_mm_cmpneq_ps$', 32, True, False, lambda st, a, b: mkbits(32, bits_of(atom(1, ('isnan', a)) if a == b else atom(1, ('fcmp', 'une', a, b))) * 32))
def strip_round(a):
    return ('f', ('round', a[1][1])) if a[0] == 'f' and isinstance(a[1], tuple) and a[1][0] == 'round' else ('f', ('round', a))
@std(r'^llvm\.x86\.sse41\.round\.ps$')
def _rps(e, st, ins, q, args): return vec(32, [('f', ('round', x)) for x in lanes(args[0], 4, 32, True, st)]) if isk(args[1]) and args[1][2] & 7 == 0 else vec(32, [('f', ('roundmode', args[1], x)) for x in lanes(args[0], 4, 32, True, st)])
@std(r'^_mm_set_(ps|epi32)$')
def _setps(e, st, ins, q, args): return vec(32, list(reversed(args)))
@std(r'^_mm_set1_(ps|epi32)$')
def _set1(e, st, ins, q, args): return vec(32, [args[0]] * 4)
@std(r'^_mm_setzero_')
def _setz(e, st, ins, q, args): return vec(32, [K(32, 0)] * 4)
@std(r'^_mm_movemask_ps$')
def _mvm(e, st, ins, q, args):
    ls = lanes(args[0], 4, 32, False, st)
    return mkbits(32, [bits_of(x, st)[31] for x in ls] + [frozenset()] * 28)
@std(r'^_mm_(load|loadu)_(ps|si128)$')
def _mml(e, st, ins, q, args): return e.load(st, args[0][1], args[0][2], 16, '<4 x float>')
@std(r'^_mm_(store|storeu)_(ps|si128)$')
def _mms(e, st, ins, q, args): e.store(st, args[0][1], args[0][2], 16, args[1]); return None
@std(r'^_mm_cast')
def _mmc(e, st, ins, q, args): return args[0]
@std(r'^llvm\.expect\.')
def _expect(e, st, ins, q, args): return args[0]
@std(r'^(__cxa_(begin|end)_catch|__cxa_free_exception|__cxa_atexit)')
def _cxa(e, st, ins, q, args): return None

# ------------------------------------------------------------------ printing
def show(v, n=160):
    out = []; left = [n]
    def put(t):
        out.append(t); left[0] -= len(t)
        if left[0] < 0: raise OverflowError
    try: _show(v, put)
    except OverflowError: pass
    return ''.join(out)[:n]
def _show(v, put):
    """a readable form; shared parts would unfold without end, so the writer stops it"""
    if isinstance(v, frozenset):
        put('{')
        for i, x in enumerate(sorted(v, key=okey)): put(' ' if i else ''); _show(x, put)
        put('}'); return
    if not isinstance(v, tuple): put(str(v)); return
    if not v: put('()'); return
    if v[0] == 'k' and len(v) == 3: put('%d' % v[2]); return
    if v[0] == 'l' and len(v) == 4:
        for i, (a, k) in enumerate(v[3]):
            if i: put('+')
            if k > M(v[1]) >> 1: k -= 1 << v[1]
            put('%d*' % k if k not in (1, -1) else '-' if k == -1 else ''); _show(a[1], put)
        if v[2]: put(('+' if v[3] else '') + str(v[2] if v[2] <= M(v[1]) >> 1 else v[2] - (1 << v[1])))
        return
    if v[0] == 'b' and len(v) == 3:
        put('bits(')
        for i, b in enumerate(v[2]):
            if i: put(' ')
            if not b: put('0')
            for j, x in enumerate(sorted(b, key=okey)):
                if j: put('^')
                if x == ONE: put('1')
                else: _show(x[0][1], put); put('.%d' % x[1])
        put(')'); return
    if v[0] == 'p' and len(v) == 3: put('&'); _show(v[1], put); put('['); _show(v[2], put); put(']'); return
    if v[0] == 'f' and len(v) == 2: put('f'); _show(v[1], put); return
    put('(')
    for i, x in enumerate(v): put(' ' if i else ''); _show(x, put)
    put(')')
