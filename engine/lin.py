"""Linear/polynomial integer expressions over non-negative atoms and entailment between them.

A Lin is (const, ((atom_id, coef), ...)) with atom ids increasing.  Every atom denotes a mathematical
integer >= 0.  Monomials of degree > 1 are atoms of kind '*' (sorted tuple of factor ids)."""
import ctypes, os

class AtomTable:
    def __init__(self):
        self.key2id = {}
        self.keys = []
        self.lo = []
        self.hi = []
        self.facts = []      # list of Lin >= 0 attached to the atom
        self.tag = []
    def get(self, key, hi=None, lo=0, facts=None):
        i = self.key2id.get(key)
        if i is not None:
            return i
        i = len(self.keys)
        self.key2id[key] = i
        self.keys.append(key)
        self.lo.append(lo)
        self.hi.append(hi)
        self.facts.append(())
        if facts:
            self.facts[i] = tuple(facts(i))
        return i

A = AtomTable()
ZERO = (0, ())
ONE = (1, ())

def const(c): return (c, ())
def var(a): return (0, ((a, 1),))
def is_const(l): return not l[1]

def add(x, y):
    if not y[1]: return (x[0] + y[0], x[1])
    if not x[1]: return (x[0] + y[0], y[1])
    d = dict(x[1])
    for a, c in y[1]:
        v = d.get(a, 0) + c
        if v: d[a] = v
        else: del d[a]
    return (x[0] + y[0], tuple(sorted(d.items())))
def scale(x, k):
    if k == 0: return ZERO
    if k == 1: return x
    return (x[0] * k, tuple((a, c * k) for a, c in x[1]))
def neg(x): return scale(x, -1)
def sub(x, y): return add(x, neg(y))
def addc(x, c): return (x[0] + c, x[1])

def mono(fs):
    fs = tuple(sorted(fs))
    if len(fs) == 1: return fs[0]
    hi = 1
    for f in fs:
        h = A.hi[f]
        if h is None: hi = None; break
        hi *= h
    lo = 1
    for f in fs: lo *= A.lo[f]
    return A.get(('*', fs), hi=hi, lo=lo)
def factors(a):
    k = A.keys[a]
    return k[1] if isinstance(k, tuple) and k[0] == '*' else (a,)
def mul(x, y):
    if not x[1]: return scale(y, x[0])
    if not y[1]: return scale(x, y[0])
    r = const(x[0] * y[0])
    r = add(r, (0, scale(x, y[0])[1]))
    r = add(r, (0, scale(y, x[0])[1]))
    for a, c in x[1]:
        for b, e in y[1]:
            r = add(r, (0, ((mono(factors(a) + factors(b)), c * e),)))
    return r
def atoms(x): return [a for a, _ in x[1]]

def lmin(x):
    """interval lower bound using only the atoms' intrinsic bounds (None = -inf)"""
    r = x[0]
    for a, c in x[1]:
        if c > 0: r += c * A.lo[a]
        else:
            h = A.hi[a]
            if h is None: return None
            r += c * h
    return r
def lmax(x):
    m = lmin(neg(x))
    return None if m is None else -m

def subst(x, m):
    """replace atoms by Lins (m: atom -> Lin); monomials are re-multiplied"""
    r = const(x[0])
    for a, c in x[1]:
        if a in m: r = add(r, scale(m[a], c)); continue
        k = A.keys[a]
        if isinstance(k, tuple) and k[0] == '*' and any(f in m for f in k[1]):
            p = ONE
            for f in k[1]: p = mul(p, m.get(f, var(f)))
            r = add(r, scale(p, c))
        else: r = add(r, (0, ((a, c),)))
    return r
def mentions(x, s):
    for a, _ in x[1]:
        if a in s: return True
        k = A.keys[a]
        if isinstance(k, tuple) and k[0] == '*' and any(f in s for f in k[1]): return True
    return False

_lib = None
def _load():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ.get('CLDN_LP', '/tmp/liblp.so'))
        _lib.lp_feasible.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_int]
    return _lib

_index = {}
stats = dict(queries=0, lp=0, quick=0, cached=0)
_cache = {}

def normal(l):
    """normalise an inequality l >= 0: divide by gcd with integer tightening"""
    from math import gcd
    g = 0
    for _, c in l[1]: g = gcd(g, abs(c))
    if g > 1:
        return (l[0] // g, tuple((a, c // g) for a, c in l[1]))
    return l

def gather(cons, q, limit=400):
    """constraints connected to q (breadth first), including the intrinsic facts of atoms"""
    todo = list(atoms(q)); seen = set(todo); rows = []; used = set()
    byatom = _index.get(cons)
    if byatom is None:
        byatom = {}
        for c in cons:
            for a, _ in c[1]:
                byatom.setdefault(a, []).append(c)
                k = A.keys[a]
                if k[0] == '*' and isinstance(k, tuple):
                    for f in k[1]:
                        if f != a: byatom.setdefault(f, []).append(c)
        if len(_index) > 3000: _index.clear()
        _index[cons] = byatom
    i = 0
    while i < len(todo) and len(rows) < limit:
        a = todo[i]; i += 1
        new = []
        for f in factors(a):
            if f not in seen: seen.add(f); todo.append(f)
        for c in byatom.get(a, ()):
            if c not in used: used.add(c); new.append(c)
        for c in A.facts[a]:
            if c not in used: used.add(c); new.append(c)
        for c in new:
            rows.append(c)
            for b in atoms(c):
                if b not in seen: seen.add(b); todo.append(b)
    return rows, seen

def entails(cons, q):
    stats['queries'] += 1
    m = lmin(q)
    if m is not None and m >= 0:
        stats['quick'] += 1
        return True
    if not q[1]: 
        return False
    q = normal(q)
    if q in cons: stats['quick'] += 1; return True
    key = (cons, q)
    r = _cache.get(key)
    if r is not None: stats['cached'] += 1; return r
    r = _entails(cons, q)
    if len(_cache) > 400000: _cache.clear()
    _cache[key] = r
    return r

def product_lemmas(cons, q):
    """f*h >= f*g (+ f) for the products f*g of q and the products f*h known, from h >= g (+ 1)"""
    neg_ = [a for a, c in q[1] if c < 0 and _ismono(a)]
    if not neg_: return ()
    rows, at = gather(cons, q, 400)
    monos = {a for a in at if _ismono(a)} | {a for a, _ in q[1] if _ismono(a)}
    for r in rows: monos |= {a for a, _ in r[1] if _ismono(a)}
    out = []
    for g in neg_[:4]:
        fg = A.keys[g][1]
        for h in sorted(monos):
            if h == g: continue
            fh = list(A.keys[h][1]); rest = list(fg)
            common = []
            for x in list(rest):
                if x in fh: fh.remove(x); rest.remove(x); common.append(x)
            if not common or not rest: continue
            hh = var(mono(tuple(fh))) if fh else ONE; gg = var(mono(tuple(rest)))
            f = var(mono(tuple(common)))
            for k in (1, 0):
                d = addc(sub(hh, gg), -k)
                if not any(_ismono(a) for a in atoms(d)) and entails(cons, d):
                    out.append(sub(sub(var(h), var(g)), scale(f, k))); break
    return out
def entails_products(cons, q):
    """entailment with the monotonicity of the products that occur in the relevant facts"""
    rows, at = gather(cons, q, 400)
    monos = sorted({a for r in rows for a, _ in r[1] if _ismono(a)})[:12]
    new = []
    for g in monos:
        for h in monos:
            if g == h: continue
            fh = list(A.keys[h][1]); fg = list(A.keys[g][1]); common = []
            for x in list(fg):
                if x in fh: fh.remove(x); fg.remove(x); common.append(x)
            if not common: continue
            hh = var(mono(tuple(fh))) if fh else ONE; gg = var(mono(tuple(fg))) if fg else ONE
            d = sub(hh, gg)
            if any(_ismono(a) for a in atoms(d)): continue
            for k in (1, 0):
                if entails(cons, addc(d, -k)): new.append(normal(sub(sub(var(h), var(g)), scale(var(mono(tuple(common))), k)))); break
    return bool(new) and _entails0(cons | frozenset(new), q)
def entails_factor(cons, q):
    """q = p*Q + R with p >= 0: enough that Q >= k and R + k*p >= 0"""
    for p in sorted({f for a, c in q[1] if _ismono(a) for f in factors(a)}):
        if not entails(cons, var(p)): continue
        Q = (0, ()); R = const(q[0])
        for a, c in q[1]:
            fs = list(factors(a))
            if _ismono(a) and p in fs: fs.remove(p); Q = add(Q, scale(var(mono(tuple(fs))), c))
            else: R = add(R, scale(var(a), c))
        for k in (1, 0, 2):
            if entails(cons, addc(Q, -k)) and entails(cons, add(R, scale(var(p), k))): return True
    return False
def _ismono(a):
    k = A.keys[a]
    return isinstance(k, tuple) and k[0] == '*'

def _entails(cons, q):
    if any(c < 0 and _ismono(a) for a, c in q[1]):
        if _entails0(cons, q): return True
        ex = product_lemmas(cons, q)
        return bool(ex) and _entails0(cons | frozenset(normal(x) for x in ex), q)
    return _entails0(cons, q)
def _entails0(cons, q):
    for c in cons:
        if c[1] == q[1] and c[0] <= q[0]: return True
    last = None
    for lim in (60, 400):
        rows, at = gather(cons, q, lim)
        rows = list(rows)
        if last is not None and len(rows) == last: return False
        last = len(rows)
        if not _feasible(rows + [addc(neg(q), -1)]): return True
    return False

def infeasible(cons, seedlins):
    """is cons (restricted to the component of seedlins) unsatisfiable?"""
    q = ZERO
    s = set()
    for l in seedlins:
        for a in atoms(l): s.add(a)
    q = (0, tuple((a, 1) for a in sorted(s)))
    rows, at = gather(cons, q)
    return not _feasible(list(rows))

def _feasible(rows):
    stats['lp'] += 1
    ats = set()
    for r in rows: ats.update(atoms(r))
    # product lemmas
    monos = [a for a in ats if isinstance(A.keys[a], tuple) and A.keys[a][0] == '*']
    extra = []
    if monos:
        ms = set(monos)
        fac = set()
        for m_ in monos: fac.update(A.keys[m_][1])
        fac = list(fac)[:8]
        base = list(rows)
        for f in fac:
            # bounds of a factor as constraints too
            if A.hi[f] is not None: base.append((A.hi[f], ((f, -1),)))
            base.append((-A.lo[f], ((f, 1),)))
        for c in base:
            if len(c[1]) > 5: continue
            for f in fac:
                p = mul(c, var(f))
                ok = True
                for a in atoms(p):
                    k = A.keys[a]
                    if isinstance(k, tuple) and k[0] == '*' and a not in ms: ok = False; break
                if ok and p[1] and any(a in ms for a in atoms(p)): extra.append(p)
        rows = rows + extra
        for r in extra: ats.update(atoms(r))
    ats = sorted(ats)
    col = {a: i for i, a in enumerate(ats)}
    full = []
    seen = set()
    for r in rows:
        if r in seen: continue
        seen.add(r); full.append(r)
    for a in ats:
        if A.lo[a] > 0: full.append((-A.lo[a], ((a, 1),)))
        if A.hi[a] is not None: full.append((A.hi[a], ((a, -1),)))
    n = len(ats)
    for r in full:
        if not r[1] and r[0] < 0: return False
    out = []
    for r in full:
        v = [0] * n
        for a, c in r[1]: v[col[a]] = c
        out.append(str(r[0]) + ' ' + ' '.join(map(str, v)))
    res = _load().lp_feasible(len(full), n, (' '.join(out)).encode(), 3000)
    return res != 0

def show(l):
    def nm(a):
        k = A.keys[a]
        if isinstance(k, tuple) and k[0] == '*': return '*'.join(nm(f) for f in k[1])
        return name(k)
    s = ' + '.join((nm(a) if c == 1 else '%d*%s' % (c, nm(a))) for a, c in l[1])
    return (s + (' + %d' % l[0] if l[0] else '')) if s else str(l[0])
def name(k):
    if isinstance(k, tuple):
        s = '.'.join(name(x) for x in k if x is not None and x != ())
        return s if len(s) < 80 else s[:77] + '..'
    return str(k)
