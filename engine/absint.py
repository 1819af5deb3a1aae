"""Forward abstract interpretation of normalised LLVM IR.

State = (SSA environment, memory cells, container objects, linear inequalities).  Disjunctive up to a bound,
loops are summarised by inductive linear invariants (Karr equalities + Houdini-filtered templates).
Nothing of the project is executed: every step manipulates symbolic bounds only."""
import re, sys, time
import lin
from lin import A, const, var, add, sub, scale, neg, addc, mul, entails, is_const, lmin, lmax, ZERO

T = ('T',); F = ('F',)
def U(w): return (1 << w) - 1
class Unsupported(Exception): pass
class Budget(Exception): pass

class St:
    __slots__ = ('env', 'mem', 'objs', 'ext', 'cons', 'ne', 'epoch', 'alias', 'opq', 'user', 'uni', 'vt', 'path')
    def __init__(self):
        self.env = {}; self.mem = {}; self.objs = {}; self.ext = {}; self.cons = frozenset(); self.ne = frozenset()
        self.epoch = {}; self.alias = {}; self.opq = {}; self.user = (); self.uni = (); self.vt = {}; self.path = ()
    def copy(self):
        s = St.__new__(St)
        s.env = dict(self.env); s.mem = dict(self.mem); s.objs = dict(self.objs); s.ext = dict(self.ext)
        s.cons = self.cons; s.ne = self.ne; s.epoch = dict(self.epoch); s.alias = dict(self.alias)
        s.opq = dict(self.opq); s.user = self.user; s.uni = self.uni; s.vt = dict(self.vt); s.path = self.path
        return s
    def addc(self, l):
        l = lin.normal(l)
        if not l[1]: return
        self.cons = self.cons | {l}
    def getu(self, k, d=None):
        for a, b in self.user:
            if a == k: return b
        return d
    def setu(self, k, v):
        self.user = tuple(sorted([(a, b) for a, b in self.user if a != k] + [(k, v)], key=lambda x: str(x[0])))

def I(l): return ('i', l)
def P(base, off=ZERO): return ('p', base, off)
NULL = ('p', ('null',), ZERO)
def vkey(v):
    return v

class Ob:
    __slots__ = ('kind', 'loc', 'fn', 'ok', 'n', 'why', 'ins', 'base', 'tag')

class Eng:
    MAXST = 24
    LOOPST = 6
    def __init__(self, fn, unwind=False, models=(), hooks=None, maxst=None, time_limit=400, unroll=0):
        self.fn = fn; self.cfg = fn.cfg(unwind); self.unwind = unwind; self.mod = fn.mod
        self.models = list(models) + STD_MODELS
        self._mm = {}
        self.hooks = hooks
        self.silent = 0
        self.obs = {}
        self.loopinfo = {}
        self.serial = 0
        self.phase = 0
        self.outcomes = []
        self.t0 = time.time(); self.limit = time_limit
        self.unroll = unroll
        self.loopcache = {}
        self.strides = {}; self.headcfg = {}; self.pins = {}; self.anybase = {}; self.curhid = None
        if maxst: self.MAXST = maxst
        self.track_ext = True
        self.opaque_calls = {}
        self.unknown_access = {}
        self.given = []; self.iterid = 0
    # ------------------------------------------------------------ obligations
    def obligation(self, ins, kind, ok, why, base=None, tag=None):
        if self.silent: return
        key = (ins['b'], ins['k'], kind, tag)
        o = self.obs.get(key)
        if o is None:
            o = Ob(); o.kind = kind; o.loc, o.fn = self.fn.locfn(ins); o.ok = True; o.n = 0; o.why = None; o.ins = ins; o.base = base; o.tag = tag
            self.obs[key] = o
        o.n += 1
        if not ok and o.ok:
            o.ok = False; o.why = why
    # ------------------------------------------------------------ values
    def val(self, st, x):
        if isinstance(x, int):
            v = st.env.get(x)
            if v is None: raise Unsupported('undefined value %r in %s' % (x, self.fn.q))
            return v
        k = x[0]
        if k == 'c':
            n = int(x[1]); w = x[2]
            if w == 1: return ('b', T if n else F)
            return I(const(n))
        if k == 'n': return NULL
        if k == 'g': return P(('g', x[1]), const(x[2]))
        if k == 'F': return P(('fn', x[1]), ZERO)
        if k == 'f': return ('o', ('fp', x[1]))
        if k == 'z': return ('o', 'zero')
        if k == 'u': return ('o', 'undef')
        if k == 'V': return ('o', ('vec',) + tuple(tuple(e) for e in x[1:]))
        return ('o', ('const', str(x)))
    def as_int(self, v, w):
        """value -> Lin (unsigned)"""
        if v[0] == 'i': return v[1]
        if v[0] == 'b':
            c = v[1]
            if c == T: return const(1)
            if c == F: return ZERO
            return var(A.get(('b01', c), hi=1))
        if v[0] == 'p':
            if v[1] == ('null',): return v[2]
            return add(var(A.get(('p2i', v[1]), hi=U(63))), v[2])
        if v[0] == 'o' and v[1] == 'undef': return var(A.get(('undef', w), hi=U(w)))
        return var(A.get(('oi', v, w), hi=U(w)))
    def as_cond(self, v):
        if v[0] == 'b': return v[1]
        if v[0] == 'i':
            l = v[1]
            if is_const(l): return T if l[0] & 1 else F
            return cnot(ceq(l))
        return ('opq', v)
    def as_ptr(self, v):
        if v[0] == 'p': return v
        if v[0] == 'i':
            l = v[1]
            if is_const(l) and l[0] == 0: return NULL
            ps = [(a, c) for a, c in l[1] if isinstance(A.keys[a], tuple) and A.keys[a][0] == 'p2i' and c == 1]
            if len(ps) == 1:
                return P(A.keys[ps[0][0]][1], sub(l, var(ps[0][0])))
            return P(('i2p', l), ZERO)
        return P(('op', v), ZERO)
    # ------------------------------------------------------------ memory
    def kill(self, st, base, off, size):
        """invalidate cells of base overlapping [off, off+size) ; size Lin or None(all)"""
        dead = []
        for key in st.mem:
            if key[0] != base: continue
            if off is None or size is None: dead.append(key); continue
            d = sub(key[1], off)   # cell start relative to write start
            csz = st.mem[key][0]
            if is_const(d):
                if d[0] + csz <= 0: continue
                if is_const(size) and d[0] >= size[0]: continue
                if d[0] >= 0 and not is_const(size) and entails(st.cons, sub(d, size)): continue
                dead.append(key)
            else:
                # disjoint if provable
                if lmin(neg(addc(d, csz))) is not None and lmin(neg(addc(d, csz))) >= 0: continue
                dead.append(key)
        for k in dead: del st.mem[k]
        deado = []
        for key in st.objs:
            if key[0] != base: continue
            if off is None or size is None: deado.append(key); continue
            d = sub(key[1], off)
            if is_const(d) and (d[0] + 24 <= 0 or (is_const(size) and d[0] >= size[0])): continue
            deado.append(key)
        for k in deado: del st.objs[k]
        st.epoch[base] = st.epoch.get(base, 0)
    def bump(self, st, base):
        self.serial += 1
        st.epoch[base] = self.serial
        st.alias.pop(base, None)
    def havoc_base(self, st, base):
        self.kill(st, base, None, None)
        self.bump(st, base)
    def resolve(self, st, base, off, size):
        """follow memcpy aliases: where does the default content of this cell come from"""
        al = st.alias.get(base)
        if al:
            for lo, n, sb, so, ep in reversed(al):
                d = sub(off, lo)
                if is_const(d) and d[0] >= 0 and d[0] + size <= n:
                    return self.resolve2(sb, add(so, d), ep, st, size)
                if is_const(d) and (d[0] >= n or d[0] + size <= 0): continue
                return None
        return (base, off, st.epoch.get(base, 0))
    def resolve2(self, sb, so, ep, st, size):
        if isinstance(ep, tuple):    # alias chain captured at copy time
            pass
        return (sb, so, ep)
    def load(self, st, base, off, size, typ, w=None, tb=None):
        key = (base, off)
        c = st.mem.get(key)
        if c is not None:
            if c[0] == size: return self.retype(st, c[1], typ, w)
            if c[0] > size and typ.startswith('i') and c[1][0] == 'i':
                l = c[1][1]
                if is_const(l): return I(const(l[0] & U(8 * size)))
                return I(var(A.get(('trunc', 8 * size, l), hi=U(8 * size))))
            self.serial += 1
            return self.fresh(('ldx', self.serial), typ, w)
        # partial overlap with another known cell?
        for k2, c2 in st.mem.items():
            if k2[0] != base: continue
            d = sub(k2[1], off)
            if is_const(d) and d[0] < size and d[0] + c2[0] > 0:
                # read inside a wider constant cell
                if c2[1][0] == 'i' and is_const(c2[1][1]) and d[0] <= 0 and d[0] + c2[0] >= size:
                    return self.retype(st, I(const((c2[1][1][0] >> (8 * -d[0])) & U(8 * size))), typ, w)
                if c2[1] == ('o', 'zero'): return self.zero(typ, w)
                self.serial += 1
                return self.fresh(('ldx', self.serial), typ, w)
        if base[0] == 'g':
            v = self.load_global(base[1], off, size, typ, w)
            if v is not None: return v
        src = self.resolve(st, base, off, size)
        if src is None:
            self.serial += 1
            return self.fresh(('ldx', self.serial), typ, w)
        v = self.fresh(('ld',) + src + (size,), typ, w)
        st.mem[key] = (size, v)
        self.instantiate(st, src, v)
        return v
    def instantiate(self, st, src, v):
        for (base, a, conds) in st.uni:
            if base != src[0]: continue
        return
    def load_global(self, g, off, size, typ, w):
        if not is_const(off): return None
        G = self.mod.globals.get(g)
        if not G: return None
        if g.startswith('_ZTV'):
            vt = self.mod.vtables.get(g)
            if vt and off[0] % 8 == 0 and off[0] // 8 < len(vt) and vt[off[0] // 8]:
                n = vt[off[0] // 8]
                return P(('fn', n), ZERO) if not n.startswith('@') else P(('g', n[1:]), ZERO)
            return None
        if not G.get('const'): return None
        b = self.mod.gbytes(g)
        if b is None or off[0] + size > len(b) or off[0] < 0: return None
        n = int.from_bytes(b[off[0]:off[0] + size], 'little')
        if typ.startswith('i'): return I(const(n))
        return None
    def zero(self, typ, w):
        if typ == 'ptr': return NULL
        if typ == 'i1': return ('b', F)
        if typ.startswith('i'): return I(ZERO)
        return ('o', 'zero')
    def fresh(self, key, typ, w=None):
        if typ == 'ptr': return P(key, ZERO)
        if re.fullmatch(r'i\d+', typ):
            w = int(typ[1:])
            if w == 1: return ('b', ('opq', key))
            return I(var(A.get(key + (w,) if isinstance(key, tuple) else (key, w), hi=U(w))))
        return ('o', key)
    def retype(self, st, v, typ, w):
        if typ == 'ptr' and v[0] != 'p':
            if v[0] == 'i': return self.as_ptr(v)
            return P(('op', v), ZERO)
        if typ == 'i1' and v[0] != 'b': return ('b', self.as_cond(v))
        if re.fullmatch(r'i\d+', typ) and v[0] not in ('i', 'b'):
            w = int(typ[1:])
            if v == ('o', 'zero'): return I(ZERO)
            return I(self.as_int(v, w))
        if not typ.startswith('i') and typ != 'ptr' and v[0] in ('i',):
            return ('o', ('bits', v, typ))
        return v
    def store(self, st, base, off, size, v):
        self.kill(st, base, off, const(size))
        st.mem[(base, off)] = (size, v)
    def copy_mem(self, st, db, do, sb, so, n):
        """memcpy with constant n between tracked objects"""
        cells = []
        for (b, o), c in st.mem.items():
            if b == sb:
                d = sub(o, so)
                if is_const(d) and 0 <= d[0] and d[0] + c[0] <= n: cells.append((d[0], c))
        objs = []
        for (b, o), c in st.objs.items():
            if b == sb:
                d = sub(o, so)
                if is_const(d) and 0 <= d[0] < n: objs.append((d[0], c))
        src = self.resolve(st, sb, so, n)
        self.kill(st, db, do, const(n))
        if src is not None and n <= 4096:
            st.alias[db] = st.alias.get(db, ()) + ((do, n, src[0], src[1], src[2]),)
            if len(st.alias[db]) > 64: self.bump(st, db)
        else:
            self.bump(st, db)
        for d, c in cells: st.mem[(db, addc(do, d))] = c
        for d, c in objs: st.objs[(db, addc(do, d))] = c
        if sb[0] == 'g':
            gb = self.mod.gbytes(sb[1])
            if gb is not None and is_const(so) and so[0] + n <= len(gb) and self.mod.globals[sb[1]].get('const'):
                for k in range(0, n, 8):
                    m = min(8, n - k)
                    if m in (1, 2, 4, 8): st.mem[(db, addc(do, k))] = (m, I(const(int.from_bytes(gb[so[0] + k:so[0] + k + m], 'little'))))
    # ------------------------------------------------------------ access checks
    def access(self, st, ins, ptr, size, kind):
        """ptr value, size Lin; records an in-bounds obligation"""
        base, off = ptr[1], ptr[2]
        if self.hooks and hasattr(self.hooks, 'on_access'): self.hooks.on_access(self, st, ins, ptr, size, kind)
        if self.silent: return
        e = st.ext.get(base)
        if e is None and base[0] == 'al': return
        if e is None and base[0] == 'g':
            G = self.mod.globals.get(base[1])
            e = const(G['sz']) if G else None
            if e is None: return
        if is_const(size) and size[0] == 0: return
        if e is None:
            if base == ('null',):
                if not (is_const(size)): return
            if not is_const(off) or not is_const(size):
                self.unknown_access[(ins['b'], ins['k'])] = (kind, self.fn.locfn(ins), lin.name(base))
            return
        lo_ok = entails(st.cons, off)
        hi_ok = lo_ok and entails(st.cons, sub(sub(e, off), size))
        if not hi_ok and lo_ok and entails(st.cons, neg(size)): hi_ok = True
        ok = lo_ok and hi_ok
        if not ok and lo_ok and lin.entails_products(st.cons, sub(sub(e, off), size)): ok = True
        if not ok and lin.infeasible(st.cons, [off, size, e]): ok = True
        if not ok and self.hooks and hasattr(self.hooks, 'refine'):
            s2 = self.hooks.refine(self, st, [off, size, e])
            if s2 is not None: ok = entails(s2.cons, off) and entails(s2.cons, sub(sub(e, off), size))
        why = None
        if not ok and DBG: print('BADCONS', lin.show(off), lo_ok, [lin.show(c) for c in st.cons if any(x in lin.show(c) for x in ('h.11', 'len.input', 'udiv', 'lshr'))])
        if not ok: why = '%s of %s byte(s) at offset %s of %s, whose size is %s' % (kind, lin.show(size), lin.show(off), lin.name(base), lin.show(e))
        self.obligation(ins, kind, ok, why, base)
    def check_index(self, st, ins, base, i, n, strict):
        if self.silent: return
        ok = entails(st.cons, i) and entails(st.cons, addc(sub(n, i), -strict))
        if not ok and lin.infeasible(st.cons, [i, n]): ok = True
        self.obligation(ins, 'index', ok, None if ok else 'index %s of a container with %s element(s)' % (lin.show(i), lin.show(n)), base)
    def i32arg(self, st, ins, l, what):
        if self.silent: return
        ok = self.fits(st, l, U(31))
        self.obligation(ins, 'intarg', ok, None if ok else '%s %s does not fit the int parameter' % (what, lin.show(l)), None, what)
    def known_le(self, st, a, b): return entails(st.cons, sub(b, a))
    def stable_base(self, b): return False
    def copy_mem_const(self, st, d, s, k):
        if k in (1, 2, 4, 8):
            # a scalar transfer: keep the value as one cell
            c = st.mem.get((s[1], s[2]))
            if c is not None and c[0] == k: v = c[1]
            else:
                v = self.load(st, s[1], s[2], k, 'i%d' % (8 * k), 8 * k)
            self.store(st, d[1], d[2], k, v); return
        self.copy_mem(st, d[1], d[2], s[1], s[2], k)
    def getext(self, st, base):
        e = st.ext.get(base)
        if e is None and base[0] == 'g':
            G = self.mod.globals.get(base[1]); return const(G['sz']) if G else None
        return e
    # ------------------------------------------------------------ conditions
    def assume(self, st, c, truth):
        if c == T: return [st] if truth else []
        if c == F: return [] if truth else [st]
        k = c[0]
        if k == 'not': return self.assume(st, c[1], not truth)
        if k == 'and':
            if truth:
                r = []
                for s in self.assume(st, c[1], True): r += self.assume(s, c[2], True)
                return r
            a = self.assume(st.copy(), c[1], False)
            b = []
            for s in self.assume(st, c[1], True): b += self.assume(s, c[2], False)
            return a + b
        if k == 'or': return self.assume(st, ('and', cnot(c[1]), cnot(c[2])), not truth)
        if k == 'opq':
            o = st.opq.get(c)
            if o is not None: return [st] if o == truth else []
            st.opq[c] = truth
            if self.hooks and hasattr(self.hooks, 'on_assume'): self.hooks.on_assume(self, st, c, truth)
            return [st]
        if k == 'ge':
            l = c[1] if truth else addc(neg(c[1]), -1)
            if entails(st.cons, l): return [st]
            if entails(st.cons, addc(neg(l), -1)): return []
            st.addc(l); positive_product(st, l)
            self.reduce_ne(st, l)
            return [st]
        if k == 'eq':
            l = c[1]
            if truth:
                if entails(st.cons, addc(l, -1)) or entails(st.cons, addc(neg(l), -1)): return []
                if l in st.ne or neg(l) in st.ne: return []
                st.addc(l); st.addc(neg(l))
                self.reduce_ne(st, l)
                return [st]
            ge, le = entails(st.cons, l), entails(st.cons, neg(l))
            if ge and le: return []
            if ge: st.addc(addc(l, -1)); positive_product(st, addc(l, -1))
            elif le: st.addc(addc(neg(l), -1)); positive_product(st, addc(neg(l), -1))
            else: st.ne = st.ne | {l}
            return [st]
        raise Unsupported('cond %r' % (c,))
    def reduce_ne(self, st, new=None):
        if not st.ne: return
        na = set()
        for a, _ in new[1] if new else (): na |= set(lin.factors(a)) | {a}
        for l in list(st.ne):
            if new and not any(a in na for a, _ in l[1]): continue
            if entails(st.cons, l): st.ne = st.ne - {l}; st.addc(addc(l, -1))
            elif entails(st.cons, neg(l)): st.ne = st.ne - {l}; st.addc(addc(neg(l), -1))
    def decide(self, st, c):
        if c == T: return True
        if c == F: return False
        k = c[0]
        if k == 'not':
            r = self.decide(st, c[1]); return None if r is None else not r
        if k == 'ge':
            if entails(st.cons, c[1]): return True
            if entails(st.cons, addc(neg(c[1]), -1)): return False
        if k == 'eq':
            l = c[1]
            if is_const(l): return l[0] == 0
            if entails(st.cons, addc(l, -1)) or entails(st.cons, addc(neg(l), -1)): return False
            if entails(st.cons, l) and entails(st.cons, neg(l)): return True
            if l in st.ne or neg(l) in st.ne: return False
        if k == 'opq': return st.opq.get(c)
        if k == 'and':
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False or b is False: return False
            if a and b: return True
        if k == 'or':
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a or b: return True
            if a is False and b is False: return False
        return None
    # ------------------------------------------------------------ arithmetic
    def fits(self, st, l, hi): return entails(st.cons, sub(const(hi), l))
    def nonneg(self, st, l): return entails(st.cons, l)
    def binop(self, st, ins, o, a, b, w):
        M = U(w)
        nuw, nsw = ins.get('nuw'), ins.get('nsw')
        ca, cb = is_const(a), is_const(b)
        if ca and cb and o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'udiv', 'urem'):
            x, y = a[0], b[0]
            if o == 'add': return const((x + y) & M)
            if o == 'sub': return const((x - y) & M)
            if o == 'mul': return const((x * y) & M)
            if o == 'and': return const(x & y)
            if o == 'or': return const(x | y)
            if o == 'xor': return const(x ^ y)
            if o == 'shl': return const((x << y) & M) if y < w else var(A.get(('poison', w), hi=M))
            if o == 'lshr': return const(x >> y) if y < w else var(A.get(('poison', w), hi=M))
            if y: return const(x // y if o == 'udiv' else x % y)
        if o == 'add':
            if ca and not cb: a, b, ca, cb = b, a, cb, ca
            if cb and b[0] > M >> 1:
                k = M + 1 - b[0]
                if self.nonneg(st, addc(a, -k)): return addc(a, -k)
            r = add(a, b)
            # (x - y) + y
            if nuw or self.fits(st, r, M): return r
            if nsw and self.fits(st, a, M >> 1) and self.fits(st, b, M >> 1):
                st.addc(sub(const(M >> 1), r)); return r
            # undo a previous wrapped subtraction: sub-atom + y
            for x, y in ((a, b), (b, a)):
                if x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1:
                    k = A.keys[x[1][0][0]]
                    if isinstance(k, tuple) and k[0] == 'sub' and k[1] == w and k[3] == y: return k[2]
            return self.wrap(st, ('add', w, a, b), w)
        if o == 'sub':
            if a == b: return ZERO
            r = sub(a, b)
            if nuw or self.nonneg(st, r): return r
            for_k = a
            if a[0] == 0 and len(a[1]) == 1 and a[1][0][1] == 1:
                k = A.keys[a[1][0][0]]
                if isinstance(k, tuple) and k[0] == 'add' and k[1] == w:
                    if k[2] == b: return k[3]
                    if k[3] == b: return k[2]
            return self.wrap(st, ('sub', w, a, b), w)
        if o == 'mul':
            r = mul(a, b)
            m = lmax(r)
            if nuw or (m is not None and m <= M) or self.fits(st, r, M): return r
            if nsw and self.fits(st, a, M >> 1) and self.fits(st, b, M >> 1): return r
            return self.wrap(st, ('mul', w, a, b), w)
        if o == 'shl':
            if cb and b[0] < w:
                r = scale(a, 1 << b[0])
                if self.fits(st, r, M): return r
            elif not cb and ca and a[0] == 1:
                at = A.get(('shl', w, a, b), hi=M)
                return var(at)
            self.shiftcheck(st, ins, b, w)
            return var(A.get(('shl', w, a, b), hi=M))
        if o in ('lshr', 'ashr'):
            if cb and b[0] < w and (o == 'lshr' or self.fits(st, a, M >> 1)):
                k = 1 << b[0]
                if all(c % k == 0 for _, c in a[1]) and a[0] % k == 0: return (a[0] // k, tuple((x, c // k) for x, c in a[1]))
                hi = lmax(a)
                at = A.get(('lshr', w, a, b), hi=min(M, hi) >> b[0] if hi is not None else M >> b[0],
                           facts=lambda i: (sub(a, scale(var(i), k)), sub(addc(scale(var(i), k), k - 1), a)))
                return var(at)
            self.shiftcheck(st, ins, b, w)
            if o == 'lshr': return var(A.get((o, w, a, b), hi=M, facts=lambda i: (sub(a, var(i)),)))
            return var(A.get((o, w, a, b), hi=M))
        if o == 'and':
            if ca: a, b, ca, cb = b, a, cb, ca
            if cb:
                m = b[0]
                if m == M: return a
                if m == 0: return ZERO
                if (m + 1) & m == 0 and self.fits(st, a, m): return a
                return var(A.get(('and', w, a, b), hi=m, facts=lambda i: (sub(a, var(i)),)))
            return var(A.get(('and', w) + tuple(sorted((a, b))), hi=M, facts=lambda i: (sub(a, var(i)), sub(b, var(i)))))
        if o == 'or':
            if cb and b[0] == 0: return a
            if ca and a[0] == 0: return b
            return var(A.get(('or', w) + tuple(sorted((a, b))), hi=self.bitmax(st, a, b, w), facts=lambda i: (sub(var(i), a), sub(var(i), b), sub(add(a, b), var(i)))))
        if o == 'xor':
            if a == b: return ZERO
            if cb and b[0] == 0: return a
            if cb and b[0] == M and w > 1: return sub(const(M), a)
            return var(A.get(('xor', w) + tuple(sorted((a, b))), hi=self.bitmax(st, a, b, w)))
        if o in ('udiv', 'urem'):
            if cb and b[0] == 0: return var(A.get((o, w, a, b), hi=M))
            if cb and b[0] == 1: return a if o == 'udiv' else ZERO
            if cb and o == 'udiv' and a[0] % b[0] == 0 and all(c % b[0] == 0 for _, c in a[1]): return (a[0] // b[0], tuple((x, c // b[0]) for x, c in a[1]))
            def fq(i):
                q = var(i); p = mul(q, b)
                return (sub(a, p), addc(sub(add(p, b), a), -1))
            nz = entails(st.cons, addc(b, -1))
            if not nz:
                return var(A.get((o, w, a, b), hi=M))
            qa = A.get(('udiv', w, a, b), hi=M, facts=fq)
            if o == 'udiv': return var(qa)
            r = sub(a, mul(var(qa), b))
            return r
        if o in ('sdiv', 'srem'):
            if self.fits(st, a, M >> 1) and self.fits(st, b, M >> 1): return self.binop(st, ins, 'u' + o[1:], a, b, w)
            return var(A.get((o, w, a, b), hi=M))
        return var(A.get((o, w, a, b), hi=M))
    def shiftcheck(self, st, ins, b, w):
        if self.hooks and getattr(self.hooks, 'check_shifts', False) and not self.silent:
            ok = self.fits(st, b, w - 1)
            self.obligation(ins, 'shift', ok, 'shift amount %s may reach the width %d' % (lin.show(b), w))
    def bitmax(self, st, a, b, w):
        m = 0
        for x in (a, b):
            h = lmax(x)
            if h is None or h > U(w): return U(w)
            m = max(m, h)
        return U(m.bit_length())
    def wrap(self, st, key, w):
        return var(A.get(key, hi=U(w)))
    def icmp(self, st, p, a, b, w):
        if a[0] == 'p' or b[0] == 'p':
            a, b = self.as_ptr(a) if a[0] != 'p' else a, self.as_ptr(b) if b[0] != 'p' else b
            if a[1] == b[1]:
                l = sub(a[2], b[2])
                return cmp_lin(p.replace('s', 'u') if p[0] == 's' else p, l)
            if p in ('eq', 'ne'):
                nz = None
                for x, y in ((a, b), (b, a)):
                    if x[1] == ('null',):
                        if y[1][0] in ('al', 'g', 'fn', 'heap', 'vd', 'arg', 'nn'): nz = False
                        else:
                            c = ('opq', ('isnull', y[1]))
                            return c if p == 'eq' else cnot(c)
                if nz is None and a[1][0] in ('al', 'g', 'heap') and b[1][0] in ('al', 'g', 'heap', 'arg'): nz = False
                if nz is False: return F if p == 'eq' else T
            return ('opq', ('pcmp', p, a, b))
        if w == 1:
            ca, cb = self.as_cond(a), self.as_cond(b)
            if p in ('eq', 'ne'):
                for x, y in ((ca, cb), (cb, ca)):
                    if x in (T, F):
                        r = y if (x == T) == (p == 'eq') else cnot(y)
                        return r
            return ('opq', ('icmp1', p, ca, cb))
        if a[0] not in ('i', 'b') and b[0] not in ('i', 'b') and p in ('eq', 'ne'):
            return ('opq', ('cmp', p, a, b))
        x, y = self.as_int(a, w), self.as_int(b, w)
        # comparison of a 0/1 value with a constant
        for u, v in ((x, y), (y, x)):
            if is_const(v) and u[0] == 0 and len(u[1]) == 1 and u[1][0][1] == 1:
                k = A.keys[u[1][0][0]]
                if isinstance(k, tuple) and k[0] == 'b01' and p in ('eq', 'ne'):
                    if v[0] == 0: return cnot(k[1]) if p == 'eq' else k[1]
                    if v[0] == 1: return k[1] if p == 'eq' else cnot(k[1])
                    return F if p == 'eq' else T
        if p in ('eq', 'ne') or p[0] == 'u': return cmp_lin(p, sub(x, y))
        H = U(w) >> 1
        if is_const(y) and y[0] == 0 and p in ('slt', 'sge'):
            c = ('ge', addc(x, -(H + 1)))
            return c if p == 'slt' else cnot(c)
        if is_const(y) and y[0] == U(w) and p in ('sgt', 'sle'):
            c = ('ge', addc(x, -(H + 1)))
            return cnot(c) if p == 'sgt' else c
        px, py = self.fits(st, x, H), self.fits(st, y, H)
        if px and py: return cmp_lin('u' + p[1:], sub(x, y))
        # y known non-negative: x >s y  ==> x in (y, H]
        if py:
            base = cmp_lin('u' + p[1:], sub(x, y))
            if p in ('sgt', 'sge'): return ('and', base, ('ge', sub(const(H), x)))
            return cnot(('and', cnot(base), ('ge', sub(const(H), x))))
        if px:
            base = cmp_lin('u' + p[1:], sub(x, y))
            if p in ('slt', 'sle'): return ('and', base, ('ge', sub(const(H), y)))
            return cnot(('and', cnot(base), ('ge', sub(const(H), y))))
        return ('opq', ('icmp', p, x, y))
    # ------------------------------------------------------------ instructions
    def exec_block(self, st, b):
        """run block b from st; returns list of (state, succ) edges"""
        if time.time() - self.t0 > self.limit: raise Budget('time limit in %s' % self.fn.q)
        out = []
        work = [(st, 0)]
        blk = self.fn.blocks[b]
        while work:
            st, k = work.pop()
            while k < len(blk):
                ins = blk[k]
                o = ins['o']
                if o == 'phi': k += 1; continue
                r = self.step(st, ins)
                k += 1
                if r is None: continue
                kind = r[0]
                if kind == 'edges':
                    out += r[1]; break
                if kind == 'dead': break
                if kind == 'fork':
                    for s2 in r[1][1:]: work.append((s2, k))
                    if not r[1]: break
                    st = r[1][0]; continue
            else:
                raise Unsupported('block without terminator')
        return out
    def finish(self, kind, st, ins, v=None):
        if not self.silent: self.outcomes.append((kind, st, ins, v))
        return ('dead',)
    def step(self, st, ins):
        o = ins['o']; env = st.env
        if o == 'alloca':
            base = ('al', ins['i'])
            env[ins['i']] = P(base)
            st.ext[base] = const(ins['sz']) if ins['sz'] >= 0 else None
            return
        if o == 'load':
            p = self.as_ptr(self.val(st, ins['a'][0]))
            self.access(st, ins, p, const(ins['sz']), 'read')
            env[ins['i']] = self.load(st, p[1], p[2], ins['sz'], ins['t'], ins.get('w'), ins.get('tb'))
            if self.hooks and hasattr(self.hooks, 'on_load'): self.hooks.on_load(self, st, ins, p, env[ins['i']])
            return
        if o == 'store':
            p = self.as_ptr(self.val(st, ins['a'][1])); v = self.val(st, ins['a'][0])
            self.access(st, ins, p, const(ins['sz']), 'write')
            if self.hooks and hasattr(self.hooks, 'on_store'): self.hooks.on_store(self, st, ins, p, v)
            self.store(st, p[1], p[2], ins['sz'], v)
            return
        if o == 'getelementptr':
            p = self.as_ptr(self.val(st, ins['a'][0]))
            if ins.get('off') is None: env[ins['i']] = P(('gepx', ins['i']), ZERO); return
            off = addc(p[2], ins['off'])
            for vx, sc in ins['vars']:
                l = self.as_int(self.val(st, vx), 64)
                if not (self.fits(st, l, U(63))):
                    # possibly negative index: only exact when it is a wrapped (a-b) atom
                    l0 = l
                    l = self.signed(st, l, 64)
                    if l is None and self.silent:
                        l = l0      # exact when the final pass (invariants assumed) proves that it is not negative
                    if l is None:
                        self.serial += 1
                        off = add(off, scale(var(A.get(('idx', self.serial), hi=None)), 1)); continue
                off = add(off, scale(l, sc))
            env[ins['i']] = P(p[1], off)
            return
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            w = ins.get('w')
            a, b = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
            if w is None: env[ins['i']] = ('o', (o, a, b)); return
            if w == 1:
                x, y = self.as_cond(a), self.as_cond(b)
                if o == 'xor':
                    if y == T: env[ins['i']] = ('b', cnot(x)); return
                    if y == F: env[ins['i']] = ('b', x); return
                    if x == T: env[ins['i']] = ('b', cnot(y)); return
                elif o == 'and': env[ins['i']] = ('b', cand(x, y)); return
                elif o == 'or': env[ins['i']] = ('b', cnot(cand(cnot(x), cnot(y)))); return
                env[ins['i']] = ('b', ('opq', (o, x, y))); return
            # pointer difference
            if o == 'sub' and w == 64:
                pass
            env[ins['i']] = I(self.binop(st, ins, o, self.as_int(a, w), self.as_int(b, w), w))
            return
        if o == 'icmp':
            a, b = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
            if ins['t'] != 'i1': env[ins['i']] = ('o', ('icmp', ins['p'], a, b)); return
            env[ins['i']] = ('b', self.icmp(st, ins['p'], a, b, ins['cw'])); return
        if o == 'fcmp':
            env[ins['i']] = ('b', ('opq', ('fcmp', ins['p'], self.val(st, ins['a'][0]), self.val(st, ins['a'][1])))) if ins['t'] == 'i1' else ('o', ('fcmp', ins['p'], self.val(st, ins['a'][0]), self.val(st, ins['a'][1]))); return
        if o in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            v = self.val(st, ins['a'][0]); fw = ins.get('fw'); w = ins.get('w')
            if o in ('freeze',): env[ins['i']] = v; return
            if o == 'zext' and fw: env[ins['i']] = I(self.as_int(v, fw)) if v[0] in ('i', 'b') or True else v; return
            if o == 'sext' and fw and w:
                l = self.as_int(v, fw)
                if fw == 1: env[ins['i']] = I(scale(l, U(w))) if is_const(l) else I(var(A.get(('sext', w, l), hi=U(w)))); return
                if self.fits(st, l, U(fw) >> 1): env[ins['i']] = I(l)
                elif is_const(l): env[ins['i']] = I(const(l[0] | (U(w) ^ U(fw)) if l[0] >> (fw - 1) else l[0]))
                else: env[ins['i']] = I(var(A.get(('sext', fw, w, l), hi=U(w))))
                return
            if o == 'trunc' and fw and w:
                if w == 1:
                    env[ins['i']] = ('b', self.trunc1(st, v, fw)); return
                l = self.as_int(v, fw)
                if is_const(l): env[ins['i']] = I(const(l[0] & U(w)))
                elif self.fits(st, l, U(w)): env[ins['i']] = I(l)
                else: env[ins['i']] = I(var(A.get(('trunc', w, l), hi=U(w), facts=lambda i: (sub(l, var(i)),))))
                return
            if o == 'ptrtoint': env[ins['i']] = I(self.as_int(self.as_ptr(v), 64)); return
            if o == 'inttoptr': env[ins['i']] = self.as_ptr(v); return
            env[ins['i']] = self.retype(st, ('o', ('bitcast', v)) if not (v[0] == 'p' or (v[0] == 'i' and ins['t'].startswith('i'))) else v, ins['t'], w)
            return
        if o == 'select':
            c = self.val(st, ins['a'][0])
            if c[0] != 'b': env[ins['i']] = ('o', ('select', c, self.val(st, ins['a'][1]), self.val(st, ins['a'][2]))); return
            a, b = self.val(st, ins['a'][1]), self.val(st, ins['a'][2])
            cc = c[1]
            if ins['t'] == 'i1':
                x, y = self.as_cond(a), self.as_cond(b)
                if y == F: env[ins['i']] = ('b', cand(cc, x)); return
                if x == T: env[ins['i']] = ('b', cnot(cand(cnot(cc), cnot(y)))); return
            if a == b: env[ins['i']] = a; return
            d = self.decide(st, cc)
            if d is not None: env[ins['i']] = a if d else b; return
            s2 = st.copy()
            r = []
            for s in self.assume(st, cc, True): s.env[ins['i']] = a; r.append(s)
            for s in self.assume(s2, cc, False): s.env[ins['i']] = b; r.append(s)
            return ('fork', r) if r else ('dead',)
        if o == 'br':
            if len(ins['s']) == 1: return ('edges', [(st, ins['s'][0])])
            c = self.as_cond(self.val(st, ins['a'][0]))
            if ins['s'][0] == ins['s'][1]: return ('edges', [(st, ins['s'][0])])
            d = self.decide(st, c) if c[0] in ('T', 'F', 'ge', 'eq', 'opq') else None
            if d is not None: 
                return ('edges', [(st, ins['s'][0 if d else 1])])
            s2 = st.copy()
            e = [(s, ins['s'][0]) for s in self.assume(st, c, True)] + [(s, ins['s'][1]) for s in self.assume(s2, c, False)]
            return ('edges', e)
        if o == 'switch':
            l = self.as_int(self.val(st, ins['a'][0]), ins['cw'])
            e = []
            cur = st
            # group cases by target
            rest = [st]
            for cv, tgt in ins['cases']:
                nr = []
                for s in rest:
                    s2 = s.copy()
                    for t in self.assume(s2, ceq(addc(l, -int(cv))), True): e.append((t, tgt))
                    nr += self.assume(s, ceq(addc(l, -int(cv))), False)
                rest = nr
            for s in rest: e.append((s, ins['def']))
            return ('edges', e)
        if o in ('call', 'invoke'):
            return self.call(st, ins)
        if o == 'ret':
            v = self.val(st, ins['a'][0]) if ins.get('a') else None
            return self.finish('ret', st, ins, v)
        if o == 'resume': return self.finish('throw', st, ins)
        if o == 'unreachable': return self.finish('unreachable', st, ins) if False else ('dead',)
        if o == 'landingpad':
            env[ins['i']] = ('o', ('lp', ins['i'])); return
        if o == 'extractvalue':
            v = self.val(st, ins['a'][0])
            ix = tuple(ins['ix'])
            if v[0] == 'agg' and ix in dict(v[1]): env[ins['i']] = self.retype(st, dict(v[1])[ix], ins['t'], ins.get('w')); return
            if v == ('o', 'zero'): env[ins['i']] = self.zero(ins['t'], ins.get('w')); return
            env[ins['i']] = self.fresh(('ev', v, ix), ins['t'], ins.get('w')); return
        if o == 'insertvalue':
            v = self.val(st, ins['a'][0]); x = self.val(st, ins['a'][1])
            d = dict(v[1]) if v[0] == 'agg' else {}
            d[tuple(ins['ix'])] = x
            env[ins['i']] = ('agg', tuple(sorted(d.items()))); return
        if o == 'fence': return
        if o in ('cmpxchg', 'atomicrmw'):
            env[ins['i']] = self.fresh(('at', ins['i'], self.bumpserial()), ins['t'], ins.get('w')); return
        # floats, vectors
        if 'i' in ins:
            ops = tuple(self.val(st, x) for x in ins.get('a', ()))
            if re.fullmatch(r'i\d+', ins['t']):
                w = int(ins['t'][1:])
                if w == 1: env[ins['i']] = ('b', ('opq', (o,) + ops))
                else: env[ins['i']] = I(var(A.get((o, w) + ops, hi=U(w))))
            elif ins['t'] == 'ptr': env[ins['i']] = P((o,) + ops, ZERO)
            else: env[ins['i']] = ('o', (o, ins['t']) + ops)
        return
    def bumpserial(self):
        self.serial += 1; return self.serial
    def trunc1(self, st, v, fw):
        if v[0] == 'b': return v[1]
        l = self.as_int(v, fw)
        if is_const(l): return T if l[0] & 1 else F
        if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1:
            k = A.keys[l[1][0][0]]
            if isinstance(k, tuple) and k[0] == 'b01': return k[1]
            return ('opq', ('bool', l))
        return ('opq', ('bool', l))
    def signed(self, st, l, w):
        """Lin of the signed value if it can be expressed exactly"""
        if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1:
            k = A.keys[l[1][0][0]]
            if isinstance(k, tuple) and k[0] == 'sub' and k[1] == w: return sub(k[2], k[3])
            if isinstance(k, tuple) and k[0] == 'add' and k[1] == w and is_const(k[3]) and k[3][0] > U(w) >> 1: return addc(k[2], k[3][0] - U(w) - 1)
        if is_const(l): return const(l[0] - (1 << w) if l[0] >> (w - 1) else l[0])
        return None
    # ------------------------------------------------------------ calls
    def model(self, q):
        if q in self._mm: return self._mm[q]
        r = None
        for rx, h in self.models:
            if rx.search(q): r = h; break
        self._mm[q] = r
        return r
    def call(self, st, ins):
        q = ins.get('q'); f = ins.get('f')
        args = [self.val(st, a) if not (isinstance(a, list) and a[0] == 'm') else ('o', 'md') for a in ins['a']]
        if q is None:
            callee = self.val(st, ins['ind'])
            if callee[0] == 'p' and callee[1][0] == 'fn':
                f = callee[1][1]; q = self.mod.fn_q.get(f, f)
            else:
                if self.hooks and hasattr(self.hooks, 'on_indirect'):
                    r = self.hooks.on_indirect(self, st, ins, callee, args)
                    if r is not NotImplemented: return self.after(st, ins, r)
                return self.after(st, ins, self.opaque(st, ins, '<indirect>', args))
        if f == 'llvm.type.test':
            vt = args[0]
            st.vt[vt] = ins.get('md')
            return self.after(st, ins, ('val', ('b', T)))
        if self.hooks and hasattr(self.hooks, 'on_call'):
            r = self.hooks.on_call(self, st, ins, q, f, args)
            if r is not None and r is not NotImplemented: return self.after(st, ins, r)
        h = self.model(q)
        if h is not None: r = h(self, st, ins, q, args)
        else:
            if not self.silent: self.opaque_calls[q] = self.opaque_calls.get(q, 0) + 1
            r = self.opaque(st, ins, q, args)
        return self.after(st, ins, r)
    def after(self, st, ins, r):
        """r: None (void/fresh) | ('val', v) | ('states', [(st, v)]) | ('throw',) | ('stop',)"""
        if r is not None and r[0] == 'throw':
            if ins['o'] == 'invoke' and self.unwind:
                return ('edges', [(st, ins['u'])])
            return self.finish('throw', st, ins)
        if r is not None and r[0] == 'stop': return ('dead',)
        states = []
        if r is None or r[0] == 'val':
            v = r[1] if r else None
            states = [(st, v)]
        else: states = r[1]
        res = []
        extra = []
        for s, v in states:
            if self.unwind and ins['o'] == 'invoke' and not ins.get('nt') and not (self.hooks and hasattr(self.hooks, 'no_unwind') and self.hooks.no_unwind(ins)):
                u = s.copy(); extra.append((u, ins['u']))
            if ins.get('nr'):
                if self.unwind and ins['o'] == 'call': self.finish('throw', s, ins)
                continue
            if 'i' in ins:
                if v is None: v = self.fresh(('call', ins.get('q'), ins['i'], self.bumpserial()), ins['t'], ins.get('w'))
                s.env[ins['i']] = self.retype(s, v, ins['t'], ins.get('w')) if v[0] != 'agg' else v
            res.append(s)
        if ins['o'] == 'invoke':
            return ('edges', [(s, ins['n']) for s in res] + extra)
        if not res: return ('dead',)
        if len(res) == 1 and res[0] is st: return None
        return ('fork', res)
    def opaque(self, st, ins, q, args):
        """unknown callee: forget what it may modify"""
        if q.startswith('std::') or q.startswith('__'):
            tgt = args[:1]
            if ins.get('sret') is not None: tgt = [args[ins['sret']]] + args[:2]
        else:
            cm = const_params(self.mod.fn_full.get(ins.get('f')) or '', args, ins)
            tgt = [a for i, a in enumerate(args) if i not in cm]
        for a in tgt:
            if a[0] == 'p' and a[1][0] not in ('g', 'fn', 'null'): self.havoc_base(st, a[1])
        if 'i' in ins and ins['t'] not in ('ptr',) and not ins['t'].startswith('i'):
            return ('val', ('o', ('call', q, self.bumpserial())))
        return None
    # ------------------------------------------------------------ control
    def push(self, st, src, dst):
        """evaluate phis of dst for edge src->dst"""
        upd = {}
        for ins in self.fn.blocks[dst]:
            if ins['o'] != 'phi': break
            for v, p in ins['in']:
                if p == src:
                    upd[ins['i']] = self.val(st, v) if not (isinstance(v, list) and v[0] == 'u') else self.fresh(('undef', ins['i']), ins['t'], ins.get('w'))
                    break
        live = self.cfg.livein[dst]
        env = st.env
        ne = {k: env[k] for k in live if k in env}
        ne.update(upd)
        st.env = ne
        # drop cells of dead stack objects
        al = self.cfg.alloca_live[dst]; esc = self.cfg.alloca_esc
        dead = [k for k in st.mem if k[0][0] == 'al' and len(k[0]) == 2 and k[0][1] not in al and k[0][1] not in esc]
        for k in dead: del st.mem[k]
        deado = [k for k in st.objs if k[0][0] == 'al' and len(k[0]) == 2 and k[0][1] not in al and k[0][1] not in esc]
        for k in deado: del st.objs[k]
        return st
    def merge_same(self, states):
        groups = {}
        for s in states:
            k = (tuple(sorted(s.env.items(), key=lambda x: x[0])), frozenset(s.mem.items()), frozenset(s.objs.items()), s.user, frozenset((b, e) for b, e in s.epoch.items()))
            try: groups.setdefault(k, []).append(s)
            except TypeError: groups.setdefault(id(s), []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                a.cons = self.join_cons(a, b)
                a.ne = a.ne & b.ne
                a.opq = {k: v for k, v in a.opq.items() if b.opq.get(k) == v}
                a.vt = {k: v for k, v in a.vt.items() if b.vt.get(k) == v}
                a.uni = tuple(x for x in a.uni if x in b.uni)
                a.ext.update({k: v for k, v in b.ext.items() if k not in a.ext})
                a.alias = {k: v for k, v in a.alias.items() if b.alias.get(k) == v}
            out.append(a)
        return out
    def join_cons(self, a, b):
        if a.cons == b.cons: return a.cons
        common = a.cons & b.cons
        r = set(common)
        for c in a.cons - common:
            if entails(b.cons, c): r.add(c)
        for c in b.cons - common:
            if entails(a.cons, c): r.add(c)
        # a>=k joined with a==... is handled by entailment; ne as disjunction is dropped
        return frozenset(r)
    def merge_force(self, states, limit):
        """generalise until at most `limit` states remain"""
        while len(states) > limit:
            a = states.pop(); b = states.pop()
            # prefer merging states of equal shape
            best = None
            states2 = states + [a, b]
            bi = None
            for i in range(len(states2)):
                for j in range(i + 1, min(len(states2), i + 6)):
                    d = self.shape_diff(states2[i], states2[j])
                    if best is None or d < best: best = d; bi = (i, j)
            i, j = bi
            m = self.generalise(states2[i], states2[j])
            states = [s for k, s in enumerate(states2) if k not in (i, j)] + [m]
        return states
    def shape_diff(self, a, b):
        d = 0
        for k in a.env:
            if a.env[k] != b.env.get(k): d += 2 if a.env[k][0] == 'i' else 5
        d += len(set(a.mem.items()) ^ set(b.mem.items()))
        if a.user != b.user: d += 1000
        return d
    def generalise(self, a, b):
        r = a.copy()
        names = []
        self.serial += 1
        sid = self.serial
        pend = []
        def gv(x, y, tag):
            if x == y: return x
            if x[0] == 'i' and y[0] == 'i':
                h = None
                hx, hy = lmax(x[1]), lmax(y[1])
                if hx is not None and hy is not None: h = max(hx, hy)
                at = A.get(('j', sid, tag), hi=h)
                pend.append((at, x[1], y[1]))
                return I(var(at))
            if x[0] == 'p' and y[0] == 'p' and x[1] == y[1]:
                at = A.get(('jo', sid, tag), hi=None)
                pend.append((at, x[2], y[2]))
                return P(x[1], var(at))
            if x[0] == 'b': return ('b', ('opq', ('j', sid, tag)))
            if x[0] == 'p': return P(('j', sid, tag), ZERO)
            return ('o', ('j', sid, tag))
        for k in list(r.env):
            if k in b.env: r.env[k] = gv(a.env[k], b.env[k], ('e', k))
            else: del r.env[k]
        for k in list(r.mem):
            if k in b.mem and b.mem[k][0] == a.mem[k][0]: r.mem[k] = (a.mem[k][0], gv(a.mem[k][1], b.mem[k][1], ('m', k)))
            else:
                del r.mem[k]
                r.epoch[k[0]] = ('j', sid)
        for k in b.mem:
            if k not in a.mem: r.epoch[k[0]] = ('j', sid)
        for k in set(a.epoch) | set(b.epoch):
            if a.epoch.get(k, 0) != b.epoch.get(k, 0): r.epoch[k] = ('j', sid)
        for k in list(r.objs):
            if b.objs.get(k) != a.objs[k]:
                x, y = a.objs[k], b.objs.get(k)
                if y is not None and x[0] == 'vec' and y[0] == 'vec' and x[1] == y[1]:
                    at = A.get(('jn', sid, k), hi=None); pend.append((at, x[2], y[2])); r.objs[k] = ('vec', x[1], var(at))
                else: del r.objs[k]
        for k in list(r.ext):
            if k in b.ext and b.ext[k] != a.ext[k] and a.ext[k] is not None and b.ext[k] is not None:
                at = A.get(('je', sid, k), hi=None); pend.append((at, a.ext[k], b.ext[k])); r.ext[k] = var(at)
        for k, v in b.ext.items(): r.ext.setdefault(k, v)
        # constraints
        ca, cb = a.cons, b.cons
        for at, x, y in pend:
            v = var(at)
            ca = ca | {sub(v, x), sub(x, v)}; cb = cb | {sub(v, y), sub(y, v)}
        new = set()
        common = a.cons & b.cons
        new |= common
        for c in (a.cons | b.cons) - common:
            if entails(ca, c) and entails(cb, c): new.add(c)
        # candidate relations of the joined values
        for at, x, y in pend:
            v = var(at)
            cands = [sub(v, x), sub(x, v), sub(v, y), sub(y, v)]
            for e in cands:
                if e[1] and entails(ca, e) and entails(cb, e): new.add(lin.normal(e))
            # facts about x transferred to v
            for c in a.cons:
                if len(x[1]) == 1 and x[1][0][1] == 1 and x[1][0][0] in dict(c[1]):
                    c2 = lin.subst(c, {x[1][0][0]: addc(v, -x[0])})
                    if entails(ca, c2) and entails(cb, c2): new.add(lin.normal(c2))
        # affine relations common to both sides (Karr join): combinations of the joined values whose
        # difference between the two states cancels
        if pend:
            ra, rb = self.reducer(a), self.reducer(b)
            ids = list(range(min(len(pend), 24)))
            dl = {i: sub(rb(pend[i][2]), ra(pend[i][1])) for i in ids}
            # quantities that did not get a new name may also be related: an equality of one side that
            # mentions them is covered by the entailment filter above
            for comb in nullspace(ids, [dl]):
                if len(comb) > 6: continue
                e = ZERO
                for i, k in comb.items(): e = add(e, scale(sub(var(pend[i][0]), pend[i][1]), k))
                if e[1]:
                    e1 = lin.normal(e)
                    if entails(ca, e1) and entails(cb, e1): new.add(e1)
                    e1 = lin.normal(neg(e))
                    if entails(ca, e1) and entails(cb, e1): new.add(e1)
        r.cons = frozenset(new)
        r.ne = a.ne & b.ne
        r.opq = {k: v for k, v in a.opq.items() if b.opq.get(k) == v}
        r.vt = {k: v for k, v in a.vt.items() if b.vt.get(k) == v}
        r.uni = tuple(x for x in a.uni if x in b.uni)
        r.alias = {k: v for k, v in a.alias.items() if b.alias.get(k) == v}
        if a.user != b.user: r.user = a.user if not self.hooks or not hasattr(self.hooks, 'join_user') else self.hooks.join_user(a.user, b.user)
        return r
    def region(self, blocks, entry, entry_states, header, children):
        """acyclic propagation through a region; returns (exit edges, latch states)"""
        order = [b for b in self.cfg.rpo if b in blocks]
        inner = {}
        child_of = {}
        for c in children:
            for b in c.blocks: child_of[b] = c
        pend = {entry: list(entry_states)}
        exits = []; latch = []
        def route(s, src, dst):
            if dst == header and header is not None:
                latch.append((src, self.push(s, src, dst))); return
            if dst not in blocks:
                exits.append((src, dst, self.push(s, src, dst))); return
            pend.setdefault(dst, []).append(self.push(s, src, dst))
        for b in order:
            c = child_of.get(b)
            if c is not None and b != c.header: continue
            sts = pend.pop(b, None)
            if not sts: continue
            sts = self.merge_same(sts)
            if len(sts) > self.MAXST: sts = self.merge_force(sts, self.MAXST)
            if c is not None:
                for src, dst, s in self.loop(c, sts):
                    if dst == header and header is not None: latch.append((src, s))
                    elif dst not in blocks: exits.append((src, dst, s))
                    else: pend.setdefault(dst, []).append(s)
                continue
            for s in sts:
                if self.hooks and hasattr(self.hooks, 'on_block'): self.hooks.on_block(self, s, b)
                for s2, dst in self.exec_block(s, b): route(s2, b, dst)
        return exits, latch
    # ------------------------------------------------------------ loops
    def loop(self, L, states):
        out = []
        if len(states) > self.LOOPST and not self.unroll: states = self.merge_force(states, self.LOOPST)
        for s in states: out += self.loop1(L, s)
        # merge exits per edge
        by = {}
        for src, dst, s in out: by.setdefault((src, dst), []).append(s)
        res = []
        for (src, dst), ss in by.items():
            for s in self.merge_same(ss): res.append((src, dst, s))
        return res
    def loop1(self, L, st0):
        # bounded unrolling first (only if the trip count is decided by constants)
        if self.unroll:
            r = self.try_unroll(L, st0)
            if r is not None: return r
        cfgk = (L.header,)
        phis = [i for i in self.fn.blocks[L.header] if i['o'] == 'phi']
        self.serial += 1
        hid = ('h', L.header, self.serial)
        outer = self.iterid; oh = self.curhid
        try: return self.loop2(L, st0, phis, hid)
        finally: self.iterid = outer; self.curhid = oh
    def loop2(self, L, st0, phis, hid):
        self.silent += 1
        dirty = {}; newbases = set(); dobjs = set(); dext = set(); duser = False
        self.headcfg[hid] = [{}]; self.anybase[hid] = set(); self.pins[hid] = set()
        cands = None
        it = 0
        conds = []
        try:
            while True:
                it += 1
                if it > 60: raise Unsupported('modified set does not stabilise')
                H, hv = self.header_state(L, st0, phis, hid, dirty, newbases, dobjs)
                sv = self.serial
                ex, la = self.region(L.blocks, L.header, self.heads(H, hv), L.header, L.children)
                changed = False
                for src, s in la:
                    for k, c in st0.mem.items():
                        if k not in dirty and k[0] not in newbases:
                            c2 = s.mem.get(k)
                            if k[0][0] == 'al' and len(k[0]) == 2 and k[0][1] not in self.cfg.alloca_live[L.header] and k[0][1] not in self.cfg.alloca_esc: continue
                            if c2 is None or c2 != c:
                                dirty[k] = c[0]; changed = True
                    mine = lambda b: b[0] in ('vd', 'heap') and isinstance(b[-1], int) and b[-1] > sv      # born in this iteration
                    for b, e in s.epoch.items():
                        if not mine(b) and b not in newbases and e != H.epoch.get(b, 0): newbases.add(b); changed = True
                    for k in s.mem:
                        if k not in H.mem and k[0] not in newbases and not mine(k[0]):
                            # distinguish a lazily loaded default from a store
                            c2 = s.mem[k]
                            src_ = self.resolve(H, k[0], k[1], c2[0])
                            if src_ is not None:
                                d = self.fresh(('ld',) + src_ + (c2[0],), self.tyof(c2))
                                if d == c2[1]: continue
                            if k[0][0] == 'al' and len(k[0]) == 2 and k[0][1] not in self.cfg.alloca_live[L.header] and k[0][1] not in self.cfg.alloca_esc: continue
                            newbases.add(k[0]); changed = True
                    for k, o_ in H.objs.items():
                        if s.objs.get(k) != o_ and k not in dobjs:
                            if k[0][0] == 'al' and len(k[0]) == 2 and k[0][1] not in self.cfg.alloca_live[L.header] and k[0][1] not in self.cfg.alloca_esc: continue
                            dobjs.add(k); changed = True
                    if s.user != H.user and not duser:
                        duser = True
                if self.note_bases(hid, st0, hv, la): changed = True
                if not changed: break
            if not la:
                pass
            strides = self.find_strides(hid, hv, la)
            if strides:
                H, hv = self.header_state(L, st0, phis, hid, dirty, newbases, dobjs, strides)
                ex, la = self.region(L.blocks, L.header, self.heads(H, hv), L.header, L.children)
            cands = self.candidates(L, st0, H, hv, la)
            rounds = 0
            while cands:
                rounds += 1
                H, hv = self.header_state(L, st0, phis, hid, dirty, newbases, dobjs, strides)
                for c in cands: H.addc(c)
                ex, la = self.region(L.blocks, L.header, self.heads(H, hv), L.header, L.children)
                keep = []
                bad = 0
                for c in cands:
                    ok = True
                    for src, s in la:
                        m = self.latch_map(hv, s)
                        if m is None: ok = False; break
                        l = lin.subst(c, m)
                        if c in getattr(self, 'lemma', ()):
                            h, m_ = self.lemma[c]
                            if DBG and L.header in DBG: print('LOOP lem', L.header, lin.show(c), lin.show(m[h]), c in H.cons, [lin.show(x) for x in H.cons if lin.mentions(x,{h})])
                            if h in m and entails(s.cons, addc(sub(m[h], var(h)), -1)) and entails(s.cons, addc(sub(var(h), m[h]), 1)) and entails(s.cons, addc(var(m_), -1)) and entails(s.cons, sub(var(m_), scale(m[m_], 2))): continue
                        if not entails(s.cons, l) and not lin.infeasible(s.cons, [l]): ok = False; break
                    if ok: keep.append(c)
                    else: bad += 1
                if DBG and L.header in DBG: print('LOOP round', L.header, rounds, 'dropped', [lin.show(c) for c in set(cands) - set(keep)][:12], [lin.show(x) for _, s in la for x in self.latch_map(hv, s).values()][:4])
                if not bad: break
                if rounds > 4:
                    # constant bounds of a quantity that already lost a bound only fail one per round
                    failed = {c[1][0][0] for c in set(cands) - set(keep) if len(c[1]) == 1}
                    keep = [c for c in keep if c in self.lemma or not (len(c[1]) == 1 and c[1][0][0] in failed and c[1][0][1] < 0)]
                if rounds > 12:
                    ks = set(keep); keep = [c for c in keep if c in self.lemma or neg(c) in ks or len(c[1]) > 1]
                if rounds > 16:
                    ks = set(keep); keep = [c for c in keep if c in self.lemma or neg(c) in ks]
                cands = keep
                if rounds > 24: cands = []; break
        finally:
            self.silent -= 1
        H, hv = self.header_state(L, st0, phis, hid, dirty, newbases, dobjs, strides)
        for c in cands or (): H.addc(c)
        ex, la = self.region(L.blocks, L.header, self.heads(H, hv), L.header, L.children)
        if DBG and L.header in DBG: print('LOOP', L.header, 'silent', self.silent, 'CANDS', [lin.show(c) for c in cands or ()], 'DELTA', [{lin.show(var(h)): lin.show(self.reducer(s)(sub(x, var(h)))) for h, x in self.latch_map(hv, s).items()} for _, s in la])
        self.note_loop(L, st0, H, hv, la, cands)
        if self.hooks and hasattr(self.hooks, 'on_loop'): self.hooks.on_loop(self, L, st0, H, hv, la, ex)
        # exits keep header atoms as plain symbols
        return ex
    def tyof(self, c):
        v = c[1]
        if v[0] == 'p': return 'ptr'
        if v[0] == 'b': return 'i1'
        if v[0] == 'i': return 'i%d' % (8 * c[0])
        return 'float'
    def unwrap(self, l, depth=0):
        """the value of sums if they do not wrap (only used to find candidates)"""
        m = {}
        for a, _ in l[1]:
            k = A.keys[a]
            if isinstance(k, tuple) and len(k) >= 3 and depth < 6:
                if k[0] == 'add' and len(k) == 4: m[a] = self.unwrap(add(k[2], k[3]), depth + 1)
                elif k[0] == 'sub' and len(k) == 4: m[a] = self.unwrap(sub(k[2], k[3]), depth + 1)
                elif k[0] == 'trunc' and len(k) == 3 and isinstance(k[2], tuple): m[a] = self.unwrap(k[2], depth + 1)
        return lin.subst(l, m) if m else l
    def header_state(self, L, st0, phis, hid, dirty, newbases, dobjs, strides=()):
        self._str = strides or {}; self.curhid = hid
        """fresh symbols for everything the loop modifies"""
        self.iterid = self.bumpserial()
        H = st0.copy()
        hv = {}   # atom -> ('env', id) | ('envp', id) | ('mem', key) | ('memp', key)
        for ph in phis:
            v = st0.env.get(ph['i'])
            if v is None: continue
            H.env[ph['i']] = self.generic(v, hid + (('e', ph['i']),), ('env', ph['i']), hv, ph.get('w'))
        for b in newbases:
            H.epoch[b] = hid
            H.alias.pop(b, None)
            for k in [k for k in H.mem if k[0] == b and k not in dirty]:
                c = H.mem[k]
                H.mem[k] = (c[0], self.generic(c[1], hid + (('m', k),), ('mem', k), hv, 8 * c[0]))
        for k, sz in dirty.items():
            c = st0.mem.get(k)
            if c is None: continue
            H.mem[k] = (sz, self.generic(c[1], hid + (('m', k),), ('mem', k), hv, 8 * sz))
        for k in dobjs:
            o = st0.objs.get(k)
            if o is None: continue
            if o[0] == 'vec':
                at = A.get(hid + (('o', k),), hi=None)
                hv[at] = ('obj', k, o[2])
                nb = ('vd', hid, k)
                H.objs[k] = ('vec', nb, var(at)) + tuple(o[3:])
                es = o[3] if len(o) > 3 else None
                H.ext[nb] = scale(var(at), es) if es else None
            else: del H.objs[k]
        return H, hv
    def note_bases(self, hid, st0, hv, la):
        """pointers modified by the loop that refer to another object in the next iteration: such a pointer, and the numbers kept
        next to it, take one of finitely many values fixed before the loop (one head per combination), or nothing is known about it"""
        pins, lost = self.pins[hid], self.anybase[hid]
        get = lambda s, w: s.env.get(w[1]) if w[0] == 'env' else (s.mem[w[1]][1] if w[1] in s.mem else None)
        first = min(hv) if hv else 0
        def fixed(v):
            if v is None: return False
            if v[0] == 'p': return (v[1] in st0.ext or v[1] == ('null',)) and all(invariant(f, first, hid[2]) for a, _ in v[2][1] for f in lin.factors(a))
            return v[0] == 'i' and all(invariant(f, first, hid[2]) for a, _ in v[1][1] for f in lin.factors(a))
        new = set()
        for at, w in hv.items():
            if len(w) == 4 and any((lambda v: v is not None and not (v[0] == 'p' and v[1] == w[3]))(get(s, w)) for _, s in la): new.add(w[:2])
        if new:
            near = {w[1][0] for w in new if w[0] == 'mem'}
            for at, w in hv.items():
                if len(w) == 3 and w[0] == 'mem' and w[1][0] in near and w[:2] not in lost and all((lambda v: fixed(v) or (v is not None and v[0] == 'i' and len(v[1][1]) == 1 and v[1] == var(v[1][1][0][0]) and v[1][1][0][0] in hv))(get(s, w)) for _, s in la): new.add(w[:2])
        changed = bool(new)
        bad = set() if changed else {w for w in pins if any(not fixed(get(s, w)) for _, s in la)} - lost
        new |= pins
        if not bad and not changed:
            for _, s in la:
                cfg = {w: get(s, w) for w in pins}
                if cfg not in self.headcfg[hid]: self.headcfg[hid].append(cfg); changed = True
            if len(self.headcfg[hid]) > 6: bad = set(pins)
        if bad: lost |= bad; changed = True
        if changed and (bad or new != pins): self.pins[hid] = new - lost; self.headcfg[hid] = [{w: get(st0, w) for w in self.pins[hid]}]
        return changed
    def heads(self, H, hv):
        out = [H]
        for cfg in self.headcfg[self.curhid][1:]:
            h = H.copy()
            for (kind, key), v in cfg.items():
                if kind == 'env': h.env[key] = v
                else: h.mem[key] = (h.mem[key][0], v)
            out.append(h)
        return out
    def generic(self, v, key, where, hv, w):
        if v[0] == 'p' and where in self.anybase[self.curhid]: return P(key, ZERO)
        if where in self.pins[self.curhid]: return v
        if v[0] == 'i':
            w = w or 64
            g = self._str.get(key)
            if g is not None:
                at = A.get(key + ('#',), hi=U(62), facts=lambda i: (sub(const(U(w)), add(v[1], mul(g, var(i)))), add(v[1], mul(g, var(i))))); hv[at] = where + (ZERO,); self.strides[at] = (g, v[1])
                return I(add(v[1], mul(g, var(at))))
            at = A.get(key, hi=U(w)); hv[at] = where + (v[1],)
            return I(var(at))
        if v[0] == 'b': return ('b', ('opq', key))
        if v[0] == 'p':
            if v[1] == ('null',): return P(key, ZERO)
            g = self._str.get(key)
            if g is not None:
                at = A.get(key + ('#',), hi=U(62)); hv[at] = where + (ZERO, v[1]); self.strides[at] = (g, v[2])
                return P(v[1], add(v[2], mul(g, var(at))))
            at = A.get(key, hi=None); hv[at] = where + (v[2], v[1])
            return P(v[1], var(at))
        return ('o', key)
    def find_strides(self, hid, hv, la):
        """quantities that advance by the same loop-invariant amount on every iteration"""
        out = {}
        lms = [(self.latch_map(hv, s), self.reducer(s)) for _, s in la]
        if not lms: return out
        for h in hv:
            if h in self.strides: continue
            ds = [red(sub(m[h], var(h))) for m, red in lms]
            d = ds[0]
            if any(x != d for x in ds[1:]) or (d[1] and any(len(lin.factors(a)) > 1 and not invariant(a, min(hv), hid[2]) for a, _ in d[1])):
                # a varying but non-negative number of invariant steps
                for p in sorted({f for x in ds for a, _ in x[1] for f in lin.factors(a)}):
                    if not invariant(p, min(hv), hid[2]) or lin.lmin(var(p)) is None or lin.lmin(var(p)) < 0: continue
                    qs = []
                    for x in ds:
                        if x[0] or not all(p in lin.factors(a) for a, _ in x[1]): break
                        q = ZERO
                        for a, c in x[1]: f = list(lin.factors(a)); f.remove(p); q = add(q, scale(var(lin.mono(tuple(f))) if f else const(1), c))
                        qs.append(q)
                    else:
                        for sg in (1, -1):
                            if all((lin.lmin(scale(q, sg)) or 0) >= 0 and lin.lmin(scale(q, sg)) is not None for q in qs): out[A.keys[h]] = scale(var(p), sg); break
                    if A.keys[h] in out: break
                continue
            if d == ZERO: continue
            if is_const(d):
                if abs(d[0]) > 1 and abs(d[0]) < 1 << 32: out[A.keys[h]] = d
            elif d[0] == 0 and len(d[1]) == 1 and abs(d[1][0][1]) == 1 and all(invariant(a, min(hv), hid[2]) for a in lin.factors(d[1][0][0])): out[A.keys[h]] = d
        return out
    def unstride(self, at, l):
        g, e = self.strides[at]
        l = sub(l, e)
        if is_const(g):
            if l[0] % g[0] or any(c % g[0] for _, c in l[1]): return None
            return (l[0] // g[0], tuple((a, c // g[0]) for a, c in l[1]))
        a, k = g[1][0]
        fs = lin.factors(a)
        if l[0]: return None
        r = ZERO
        for b, c in l[1]:
            f = list(lin.factors(b))
            try:
                for x in fs: f.remove(x)
            except ValueError: return None
            r = add(r, scale(var(lin.mono(tuple(f))) if f else const(1), c * k))
        return r
    def latch_map(self, hv, s):
        m = {}
        for at, w in hv.items():
            if w[0] == 'env': v = s.env.get(w[1])
            elif w[0] == 'mem':
                c = s.mem.get(w[1]); v = c[1] if c else None
            else:
                o = s.objs.get(w[1]); v = ('i', o[2]) if o else None
            if v is None: m[at] = var(A.get(('lost', at, self.bumpserial()), hi=A.hi[at])); continue
            if len(w) == 4:   # pointer offset
                if v[0] != 'p' or v[1] != w[3]: m[at] = var(A.get(('lost', at, self.bumpserial()))); continue
                m[at] = v[2]
            else:
                if v[0] == 'i': m[at] = v[1]
                elif v[0] == 'b': m[at] = self.as_int(v, 8)
                else: m[at] = var(A.get(('lost', at, self.bumpserial()), hi=A.hi[at]))
            if at in self.strides:
                q = self.unstride(at, m[at])
                m[at] = q if q is not None else var(A.get(('lost', at, self.bumpserial()), hi=A.hi[at]))
        return m
    def candidates(self, L, st0, H, hv, la):
        out = []
        hs = list(hv)
        init = {h: hv[h][2] for h in hs}
        lm = [(self.latch_map(hv, s), s) for _, s in la]
        for h in hs:
            e = init[h]
            v = var(h)
            out += [sub(v, e), sub(e, v)]
            if A.hi[h] is not None:
                out.append((A.hi[h] >> 1, ((h, -1),)))
            for k in (1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 255, 4095, 65535):
                if is_const(e) and e[0] <= k and (A.hi[h] is None or A.hi[h] >= k) : out.append((k, ((h, -1),)))
            if is_const(e) and e[0] > 1: out.append((-1, ((h, 1),)))
        # affine equalities preserved by every latch (Karr)
        if hs and lm:
            for conv in (lambda x: x, self.unwrap):
              deltas = []
              for m, s in lm:
                red = self.reducer(s)
                deltas.append({h: red(sub(conv(m[h]), var(h))) for h in hs})
              cnt = [h for h in hs if all(d[h] == const(1) for d in deltas)]
              new = min(hs)
              inv = sorted({a for d in deltas for h in hs for a, _ in d[h][1] if a < new and not lin._ismono(a)})
              pseudo = {('*', a): (a, cnt[0]) for a in inv} if cnt and len(inv) <= 6 else {}      # quantities that grow by a loop-invariant symbol per iteration
              for d, (m, s) in zip(deltas, lm):
                  red = self.reducer(s) if pseudo else None
                  for p, (a, i) in pseudo.items(): d[p] = red(var(a))
              for comb in nullspace(hs + list(pseudo), deltas):
                  e = ZERO
                  for h, k in comb.items():
                      e = add(e, scale(lin.mul(var(pseudo[h][0]), sub(var(pseudo[h][1]), init[pseudo[h][1]])) if h in pseudo else sub(var(h), init[h]), k))
                  if e[1]: out += [e, neg(e)]
        # a quantity that is halved on every iteration until it is zero bounds every counter of the loop by its width
        self.lemma = getattr(self, 'lemma', {})
        for m_ in hs:
            if DBG and L.header in DBG: print('LOOP halve', L.header, lin.show(var(m_)), [(lin.show(m[m_]), entails(s.cons, addc(var(m_), -1)), entails(s.cons, sub(var(m_), scale(m[m_], 2))), [lin.show(f) for a,_ in m[m_][1] for f in A.facts[a]]) for m, s in lm], A.hi[m_])
            if not lm or not all(entails(s.cons, addc(var(m_), -1)) and entails(s.cons, sub(var(m_), scale(m[m_], 2))) for m, s in lm): continue
            W = next((w for w in (8, 16, 32) if entails(st0.cons, sub(const((1 << w) - 1), init[m_]))), 64)
            for h in hs:
                if h != m_ and A.hi[h] is not None and A.hi[h] >= W and is_const(init[h]):
                    c = lin.normal((W + init[h][0], ((h, -1),))); self.lemma[c] = (h, m_); out.append(c)
        # never more than a number the function was given
        given = [a for a in self.given if A.hi[a] is not None]
        for h in hs:
            if A.hi[h] is not None and A.hi[h] > U(32) and len(given) <= 4: out += [sub(var(a), var(h)) for a in given]
        # bounds from comparisons seen inside the loop (conditions added on the way)
        seen = set()
        hset = set(hs)
        newc = set()
        for _, s in la: newc |= (s.cons - H.cons)
        if DBG and L.header in DBG: print('LOOP new', L.header, [lin.show(c) for c in newc][:12], [[lin.show(c) for c in s.cons if 'h.1' in lin.show(c)] for _, s in la], [lin.show(c) for c in H.cons if lin.mentions(c, hset)], lin.show(sub(*[var(hs[0])]*2)), [lin.show(v[1]) for v in H.env.values() if v[0]=='i' and lin.mentions(v[1], hset)], [[lin.show(l) for l in s.ne] for _, s in la][:2])
        for c in newc:
            if lin.mentions(c, hset) and len(c[1]) <= 4:
                for d in (0, 1, 2, 4, 8): newc_ = lin.normal(addc(c, d)); seen.add(newc_)
        for _, s in la:
            for l in s.ne:
                if lin.mentions(l, hset): seen.add(lin.normal(l)); seen.add(lin.normal(neg(l)))
        # entry facts about the initial values carried over to the symbols
        for c in st0.cons:
            for h in hs:
                e = init[h]
                if len(e[1]) == 1 and e[1][0][1] == 1 and e[1][0][0] in dict(c[1]):
                    seen.add(lin.normal(lin.subst(c, {e[1][0][0]: addc(var(h), -e[0])})))
        # conditions at exits negated are covered by the above; relate pairs with equal initial value shape
        for c in seen:
            if c[1]: out.append(c)
        # initial values inside products: h <= bound where bound is any loop-invariant Lin compared with h
        extra = self.hooks.loop_candidates(self, L, st0, H, hv) if self.hooks and hasattr(self.hooks, 'loop_candidates') else ()
        out += list(extra)
        res = []; s_ = set()
        for c in out:
            c = lin.normal(c)
            if not c[1] or c in s_: continue
            s_.add(c)
            # must hold initially
            l = lin.subst(c, init)
            if entails(st0.cons, l): res.append(c)
        return res
    def reducer(self, s):
        """gaussian elimination with the equalities of a state (newest atoms eliminated first)"""
        eqs = []
        for c in s.cons:
            if neg(c) in s.cons and c[1]: 
                a, k = c[1][-1]
                if abs(k) == 1: eqs.append((a, scale(c, -k) if True else c, k, c))
        m = {}
        for a, _, k, c in eqs:
            # a*k + rest = 0 -> a = -rest/k
            rest = sub(c, (0, ((a, k),)))
            m.setdefault(a, scale(rest, -k))
        def red(l):
            for _ in range(8):
                l2 = lin.subst(l, m)
                if l2 == l: return l
                l = l2
            return l
        return red
    def note_loop(self, L, st0, H, hv, la, cands):
        if self.silent: return
        info = self.loopinfo.setdefault(L.header, dict(runs=0, term=True, why=None, loc=None))
        info['runs'] += 1
        # ranking function: some quantity that is >= 0 at the header and decreases at every latch
        if not la: return
        hs = list(hv)
        lms = [(self.latch_map(hv, s), s) for _, s in la]
        cset = set()
        for h in hs: cset.add(var(h)); 
        for _, s in la:
            for c in s.cons - H.cons:
                if lin.mentions(c, set(hs)): cset.add(c)
        for c in H.cons:
            if lin.mentions(c, set(hs)): cset.add(c)
        ok = False
        for r in sorted(cset, key=lambda c: len(c[1])):
            good = True
            for m, s in lms:
                n = lin.subst(r, m)
                # r(H) - r(latch) >= 1 and r(H) >= 0 at this iteration
                if not entails(s.cons, addc(sub(r, n), -1)) or not entails(s.cons, addc(r, 0)):
                    good = False; break
            if good: ok = True; info['rank'] = lin.show(r); break
        if not ok:
            info['term'] = False
            info['why'] = 'no quantity decreases on every iteration'
    def try_unroll(self, L, st0):
        """execute iteration by iteration while every latch leaves exactly bounded states"""
        out = []
        cur = [st0]
        n = 0
        self.silent += 1
        saved = (self.serial,)
        try:
            test = [s.copy() for s in cur]
            while test:
                n += 1
                if n > self.unroll: return None
                ex, la = self.region(L.blocks, L.header, test, L.header, L.children)
                test = self.merge_same([s for _, s in la])
                if len(test) > 16: return None
        finally:
            self.silent -= 1
        k = 0
        while cur:
            k += 1
            if k > self.unroll + 1: return None
            ex, la = self.region(L.blocks, L.header, cur, L.header, L.children)
            out += ex
            cur = self.merge_same([s for _, s in la])
        return out
    # ------------------------------------------------------------ entry
    def run(self, st):
        blocks = set(self.cfg.rpo)
        self.region(blocks, 0, [st], None, self.cfg.top)
        return self.outcomes

def positive_product(st, l):
    """a*q >= 1 with a >= 0 and integers: q >= 1 and a*q >= a"""
    if l[0] >= 0 or not l[1]: return
    common = None
    for a, _ in l[1]:
        f = set(lin.factors(a))
        common = f if common is None else common & f
        if not common: return
    for c in common:
        r = ZERO
        for a, k in l[1]:
            f = list(lin.factors(a)); f.remove(c)
            r = add(r, scale(var(lin.mono(tuple(f))) if f else const(1), k))
        if not r[1]: continue
        st.addc(addc(r, -1)); st.addc(addc(var(c), -1)); st.addc(sub((0, l[1]), var(c)))

PURE = {'add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'trunc', 'zext', 'sext', 'b01', 'p2i', 'umin', 'umax', 'smin', 'smax'}
def invariant(a, first, serial):
    """is the value of an atom the same in every iteration of the loop whose first symbol is `first`"""
    if a < first: return True
    fs = lin.factors(a)
    if len(fs) > 1: return all(invariant(x, first, serial) for x in fs)
    return invkey(A.keys[a], first, serial)
def invkey(k, first, serial):
    if not isinstance(k, tuple): return True
    if len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], tuple) and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) for x in k[1]):
        return all(invariant(x, first, serial) for x, _ in k[1])
    if not k: return True
    t = k[0]
    if t == '*': return all(invariant(x, first, serial) for x in k[1])
    if t in PURE: return all(invkey(x, first, serial) for x in k[1:])
    if t in ('arg', 'len', 'bytes', 'g', 'al', 'field offset', 'resolution of field', 'info', 'point_step', 'mininput'): return all(invkey(x, first, serial) for x in k[1:])
    if t == 'ld': return isinstance(k[3], int) and k[3] <= serial and invkey(k[1], first, serial) and invkey(k[2], first, serial)
    if t == 'vd': return not isinstance(k[-1], int) or k[-1] <= serial
    return False

def depends(key, hid, seen=None):
    """does an atom key (transitively) mention symbols of this loop"""
    if seen is None: seen = set()
    if key == hid: return True
    if not isinstance(key, tuple): return False
    if len(key) == 2 and isinstance(key[0], int) and isinstance(key[1], tuple) and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) for x in key[1]):
        for a, _ in key[1]:
            if a not in seen and a < len(A.keys):
                seen.add(a)
                if depends(A.keys[a], hid, seen): return True
        return False
    if key and key[0] == '*':
        for a in key[1]:
            if a not in seen:
                seen.add(a)
                if depends(A.keys[a], hid, seen): return True
        return False
    return any(depends(k, hid, seen) for k in key)

_cp = {}
DBG = {int(x) for x in __import__('os').environ.get('ABSDBG', '').split(',') if x}
def const_params(full, args, ins):
    """indexes of the IR arguments that correspond to reference/pointer-to-const parameters (or a const this)"""
    key = (full, len(args), ins.get('sret'))
    if key in _cp: return _cp[key]
    r = set(); _cp[key] = r
    m = re.search(r'\)( const)?$', full)
    if not m: return r
    depth = 0; end = m.start(); i = end; ps = []; last = end
    while i > 0:
        i -= 1; c = full[i]
        if c in ')>': depth += 1
        elif c in '(<':
            if depth == 0:
                ps.append(full[i + 1:last]); break
            depth -= 1
        elif c == ',' and depth == 0: ps.append(full[i + 1:last].strip()); last = i
    ps = [p.strip() for p in reversed(ps)]
    if ps == ['']: ps = []
    parts = [2 if re.match(r'(Cloudini::)?Span<.*>$|std::(basic_)?string_view|std::span', p) or p in ('Cloudini::ConstBufferView', 'Cloudini::BufferView') else 1 for p in ps]
    k = 1 if ins.get('sret') is not None else 0
    extra = len(args) - k - sum(parts)
    if extra not in (0, 1): return r
    if extra == 1:
        if m.group(1): r.add(k)
        k += 1
    for p, n in zip(ps, parts):
        if n == 1 and re.search(r' const[&*]$', p): r.add(k)
        k += n
    return r

def H_id(hs):
    k = A.keys[hs[0]]
    return k[:3] if isinstance(k, tuple) and k and k[0] == 'h' else k
def nullspace(hs, deltas):
    """integer combinations k_h with sum k_h*delta_h == 0 for every latch"""
    from fractions import Fraction
    from math import lcm
    cols = []
    for d in deltas:
        keys = set()
        for h in hs:
            keys.update(a for a, _ in d[h][1])
        for key in [None] + sorted(keys):
            cols.append([Fraction(d[h][0] if key is None else dict(d[h][1]).get(key, 0)) for h in hs])
    # solve M k = 0
    M = [c for c in cols if any(c)]
    n = len(hs); piv = []; r = 0
    for c in range(n):
        p = next((i for i in range(r, len(M)) if M[i][c]), None)
        if p is None: continue
        M[r], M[p] = M[p], M[r]
        k = M[r][c]; M[r] = [x / k for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c]:
                f = M[i][c]; M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(c); r += 1
    free = [c for c in range(n) if c not in piv]
    res = []
    for f in free:
        v = [Fraction(0)] * n; v[f] = Fraction(1)
        for i, c in enumerate(piv): v[c] = -M[i][f]
        den = 1
        for x in v: den = lcm(den, x.denominator)
        if den > 64: continue
        res.append({hs[i]: int(x * den) for i, x in enumerate(v) if x})
    return res

def cnot(c):
    if c == T: return F
    if c == F: return T
    if c[0] == 'not': return c[1]
    if c[0] == 'ge': return ('ge', addc(neg(c[1]), -1))
    return ('not', c)
def cand(a, b):
    if a == F or b == F: return F
    if a == T: return b
    if b == T: return a
    return ('and', a, b)
def cge(l):
    if is_const(l): return T if l[0] >= 0 else F
    return ('ge', l)
def ceq(l):
    if is_const(l): return T if l[0] == 0 else F
    if l[1][0][1] < 0: l = neg(l)
    return ('eq', l)
def cmp_lin(p, l):
    """l = a - b"""
    if p == 'eq': return ceq(l)
    if p == 'ne': return cnot(ceq(l))
    if p == 'uge': return cge(l)
    if p == 'ugt': return cge(addc(l, -1))
    if p == 'ule': return cge(neg(l))
    if p == 'ult': return cge(addc(neg(l), -1))
    raise Unsupported(p)

STD_MODELS = []
def modelf(rx):
    def d(f):
        STD_MODELS.append((re.compile(rx), f)); return f
    return d
sys.modules.setdefault('absint', sys.modules[__name__])
import stdmodels  # noqa: E402  (registers the library models)
