"""Loops of a value graph: how often a loop runs, and why it ends.

A loop is described by the values it carries round (phis and memory cells).  Nothing here depends on names or on the
order of statements: the carried value that proves the claim is searched for."""
import vg
from vg import K, P, atom, isk, M, norm, same, vsub, vadd, decide, cmpv, lin_of, show, zext, bounds, to_int, apply_sub

class Var:
    """one carried value: symbol at the start of a round, first value, and its step in every round"""
    def __init__(self, sym, entry, after): self.sym = sym; self.entry = entry; self.after = after
    def step(self, s, a): return norm(s, vsub(norm(s, a), norm(s, self.sym)))
def grown(e, s, v, hd, lower, depth=0):
    """values of v with the carried values of inner loops replaced by their first values plus what they grew by; one per way into the loop"""
    inner = [(a, a[1]) for a in lin_of(v)[1] if isinstance(a[1], tuple) and a[1][0] in ('loopphi', 'loopmem') and a[1][1] != hd]
    if not inner or depth > 3: return [v]
    a, key = inner[0]; out = []
    for L in e.loops.get(key[1][0] if isinstance(key[1], tuple) else key[1], ()):
        if L['header'] != key[1]: continue
        for c in variables(e, L):
            if c.sym != atom(*a) or c.entry is None: continue
            ok = True
            for (_, _, t), x in zip(L['body'], c.after):
                for y in grown(e, t, norm(t, x), key[1], lower, depth + 1):
                    d = norm(t, vsub(y, c.sym))
                    if not (isk(d) and d[2] <= M(d[1]) >> 1) and smallest(t, d, lower, 0) is None: ok = False
            if not ok: return [v]
            g = (a[0], ('grown', key)); s.lo[g] = 0; s.hi[g] = 1 << 40
            k = lin_of(v)[1][a]
            out += grown(e, s, vadd(vsub(v, vg.vscale(atom(*a), k)), vg.vscale(vadd(c.entry, atom(*g)), k)), hd, lower, depth + 1)
    return out or [v]
def num(v):
    if v is None: return None
    if v[0] == 'p': return to_int(v, 64)
    return v if v[0] in 'klb' else None
def variables(e, L):
    out = []
    for i, (v0, key) in L['phis'].items():
        v = num(v0)
        if v is None: continue
        w = v[1]
        if v0[0] == 'p':
            sym = to_int(P(v0[1], atom(64, key)), 64)
            after = [num(s.env.get(i, v0)) for _, _, s in L['body']]
            out.append(Var(sym, v, after))
            sym = to_int(P(key), 64)
            out.append(Var(sym, v, after))
        else: out.append(Var(atom(w, key), v, [num(s.env.get(i, v0)) for _, _, s in L['body']]))
    cells = {}
    for _, _, s in L['body']:
        for base, cs in s.mem.items():
            if base[0] == 'al' and not any(True for _ in cs): continue
            for off, size, v in cs:
                if isinstance(size, tuple): size = size[2] if isk(size) else None
                if size in (1, 2, 4, 8): cells.setdefault((base, off, size), None)
    for base, off, size in cells:
        key = ('loopmem', L['header'], base, off)
        try:
            e0 = L['entry'].copy()
            v0 = e.load(e0, base, off, size, 'i%d' % (8 * size), 8 * size); v0 = num(v0)
            after = [num(e.load(s.copy(), base, off, size, 'i%d' % (8 * size), 8 * size)) for _, _, s in L['body']]
        except Exception: continue
        out.append(Var(atom(8 * size, key), v0, after))
    return [v for v in out if all(a is not None and a[1] == v.sym[1] for a in v.after)]

def mentions(v, hd):
    """does a value depend on something the loop changes?"""
    if isinstance(v, tuple):
        if len(v) >= 2 and v[0] in ('loopphi', 'loopmem') and v[1] == hd: return True
        return any(mentions(x, hd) for x in v if isinstance(x, (tuple, frozenset)))
    if isinstance(v, frozenset): return any(mentions(x, hd) for x in v)
    return False
def exits_normal(L): return L['exits']

def counted(e, L, N, ends=None):
    """the loop runs exactly N times whenever it is left by one of the states `ends` (default: every exit)"""
    ends = L['exits'] if ends is None else ends
    if not L['body'] or not ends: return False
    for v in variables(e, L):
        w = v.sym[1]
        n = N if N[1] == w else (zext(N, w) if N[1] < w else None)
        if n is None: continue
        bod = [s for _, _, s in L['body']]
        st = [v.step(s, a) for s, a in zip(bod, v.after)]
        up = all(isk(x) and x[2] == 1 for x in st); down = all(isk(x) and x[2] == M(w) for x in st)
        if not up and not down: continue
        if v.entry is None: continue
        if up:
            first = v.entry; last = vadd(v.entry, n)
            if not isk(v.entry) and any(mentions(v.entry, L['header']) for _ in (0,)): continue
            ok = all(below(s, v.sym, last, isk(first) and first[2] == 0) for s in bod) and all(reached(s, v.sym, last, isk(first) and first[2] == 0) for s in ends)
        else:
            first = vsub(v.entry, n)
            if not same(L['entry'], first, K(w, 0)): continue
            ok = all(decide(s, cmpv(s, 'eq', v.sym, K(w, 0), w)) is False for s in bod) and all(decide(s, cmpv(s, 'eq', v.sym, K(w, 0), w)) is True for s in ends)
        if ok: return True
    return False
def below(s, x, n, zero):
    w = x[1]
    return (zero and decide(s, cmpv(s, 'ult', x, n, w)) is True) or decide(s, cmpv(s, 'eq', x, n, w)) is False
def reached(s, x, n, zero):
    w = x[1]
    return (zero and decide(s, cmpv(s, 'ult', x, n, w)) is False) or decide(s, cmpv(s, 'eq', x, n, w)) is True

def limits(s, v, hd):
    """values that bound the carried value from above (strictly, or by inequality) in a round"""
    w = v.sym[1]; x = norm(s, v.sym); out = []
    for c, t in s.conds:
        for k in atoms_of(c):
            if k[0] in ('ult', 'slt'):
                a, b = apply_sub(s, k[1]), apply_sub(s, k[2])
                if a[1] > w and norm(s, zext(v.sym, a[1])) == norm(s, a) and not mentions(b, hd):
                    lo, hi = bounds(s, b)
                    if hi <= M(w) and (decide(s, cmpv(s, k[0], a, b, a[1])) is True or said(c, t, k)):
                        t = norm(s, vg.trunc(b, w, s)); out.append(('wide', min(hi, bounds(s, t)[1]), t, K(w, 0)))
                for y, z in ((a, b),):
                    d = vsub(y, x) if y[1] == w else None
                    if d is not None and not mentions(d, hd) and not mentions(z, hd): out.append(('lt', k[0], z, d))
            if k[0] == 'eq0':
                d = apply_sub(s, k[1])
                if d[1] != w: continue
                for sg in (1, M(w)):
                    b = vsub(x, vg.vscale(d, sg))
                    if not mentions(b, hd): out.append(('ne', None, b, None))
    return out
def said(c, t, k):
    """is the condition, as it was taken, exactly that the comparison k holds?"""
    try: n, m = lin_of(c)
    except Exception: return False
    if len(m) != 1: return False
    (a, q), = m.items()
    return a == (1, k) and bool(q & 1) and bool(t) ^ bool(n & 1)
def atoms_of(c):
    out = []
    def walk(v):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] in ('ult', 'slt') and isinstance(v[1], tuple): out.append(v); return
            if len(v) == 2 and v[0] == 'eq0' and isinstance(v[1], tuple): out.append(v); return
            for x in v: walk(x)
        elif isinstance(v, frozenset):
            for x in v: walk(x)
    walk(c); return out

def ranking(e, L, allowed, lower=None):
    """why the loop ends: (kind, text) or None.  allowed(bound, state) says whether a bound is one the caller accepts; lower(state, value) gives
    a smallest value of a step"""
    halving(e); hd = L['header']; bod = [s for _, _, s in L['body']]
    if not bod: return ('no round', 'the loop is left in its first round')
    best = None
    for v in variables(e, L):
        w = v.sym[1]; st = [v.step(s, a) for s, a in zip(bod, v.after)]
        pos = [smallest(s, x, lower) for s, x in zip(bod, st)]
        if any(p is None for p in pos): pos = [min([q if q is not None else -1 for q in (smallest(s, norm(s, vsub(y, v.sym)), lower) for y in grown(e, s, norm(s, a), hd, lower))]) for s, a in zip(bod, v.after)]
        if all(p is not None and p >= 1 for p in pos):            # grows: needs a limit
            why = []
            for s, x in zip(bod, st):
                ok = None
                for kind, o, b, d in limits(s, v, hd):
                    if kind == 'wide':
                        t = bounds(s, x)[1]
                        if t > M(w) >> 1 or o - 1 + t > M(w): continue
                    elif kind == 'lt':
                        c = cmpv(s, o, vadd(v.sym, d), b, w)
                        if decide(s, c) is not True: continue
                    else:
                        if decide(s, cmpv(s, 'eq', v.sym, b, w)) is not False: continue
                        if isk(x) and x[2] == 1: pass
                        elif isk(x) and even_end(L, v, b, x): pass
                        else: continue
                    if allowed(b, s): ok = b; break
                    best = best or ('bound not accepted: %s' % show(b, 160))
                if ok is None: break
                why.append(ok)
            if len(why) == len(bod): return ('counted', 'up to %s' % show(why[0], 120))
        neg = [smallest(s, vg.vneg(x), lower) for s, x in zip(bod, st)]
        neg = [n if n is not None else (low_sum(s, v.sym, vg.vneg(x)) or None) for n, s, x in zip(neg, bod, st)]
        if all(p is not None and p >= 1 for p in neg):            # shrinks and never wraps
            if all(nowrap(s, v.sym, norm(s, vg.vneg(x))) for s, x in zip(bod, st)):
                if v.entry is not None and allowed(v.entry, L['entry']): return ('shrinks', 'from %s' % show(v.entry, 120))
                best = best or ('first value not accepted: %s' % (show(v.entry, 160) if v.entry else None))
        if all(halves(s, v.sym, a) for s, a in zip(bod, v.after)) and all(decide(s, cmpv(s, 'eq', v.sym, K(w, 0), w)) is False or bounds(s, v.sym)[0] > 0 for s in bod):
            return ('halves', 'bits are shifted out of a %d-bit value' % w)
        if all(decide(s, cmpv(s, 'ult', v.sym, norm(s, a), w)) is True for s, a in zip(bod, v.after)) and bod and all(doubled(s, v.sym, a) for s, a in zip(bod, v.after)): return ('doubles', '')
    return (None, best or 'no carried value moves towards a bound')
def halving(e):
    """a loop that shifts bits out of a w-bit value runs at most w times: its counters are bounded"""
    if getattr(e, 'halved', None) is not None: return
    e.halved = {}
    for hd, ls in e.loops.items():
        for L in ls:
            vs = variables(e, L); bod = [s for _, _, s in L['body']]
            h = [v for v in vs if bod and all(halves(s, v.sym, a) for s, a in zip(bod, v.after)) and all(decide(s, cmpv(s, 'eq', v.sym, K(v.sym[1], 0), v.sym[1])) is False for s in bod)]
            if not h: continue
            n = min(v.sym[1] for v in h)
            for v in vs:
                if v.entry is None or not isk(v.entry) or v.entry[2] + n > M(v.sym[1]): continue
                if all(isk(d) and d[2] in (0, 1) for d in (v.step(s, a) for s, a in zip(bod, v.after))):
                    for k in lin_of(v.sym)[1]: e.halved[k] = max(e.halved.get(k, 0), v.entry[2] + n)
    for ls in e.loops.values():
        for L in ls:
            for s in [L['entry']] + [s for _, _, s in L['body']] + list(L['exits']):
                for k, n in e.halved.items(): s.hi[k] = min(s.hi.get(k, n), n)
def even_end(L, v, b, x):
    """stepping by x from the first value meets the bound"""
    if v.entry is None: return False
    if iterates(norm(L['entry'], v.entry), norm(L['entry'], b)): return True
    d = norm(L['entry'], vsub(b, v.entry)); c, t = lin_of(d)
    return c % x[2] == 0 and all(k % x[2] == 0 for k in t.values())
def iterates(a, b):
    """begin() and end() of the same container"""
    def call(v):
        c, t = lin_of(v)
        if c or len(t) != 1: return None
        (k, n), = t.items()
        k = k[1]
        if n == 1 and isinstance(k, tuple) and k[0] == 'addr': k = k[1]
        return k if n == 1 and isinstance(k, tuple) and k[0] == 'call' else None
    x, y = call(a), call(b)
    return bool(x and y and x[1].endswith('begin') and y[1].endswith('end') and x[1].rsplit('::', 1)[0] == y[1].rsplit('::', 1)[0] and x[2] == y[2])
def smallest(s, x, lower, least=1):
    if isk(x): return x[2] if 0 < x[2] <= M(x[1]) >> 1 else None
    lo, hi = bounds(s, x)
    if lo >= least and hi <= M(x[1]) >> 1: return lo
    if lower:
        r = lower(s, x)
        if r is not None and r >= least: return r
    return None
def low_sum(s, x, t):
    """smallest value of a sum whose parts were each compared with x, so that the sum did not wrap"""
    t = norm(s, t); c, m = lin_of(t); w = x[1]
    if c > 64 or any(k > 64 for k in m.values()): return 0
    for a in m:
        v = atom(*a)
        if bounds(s, v)[1] > 1 << 48 and decide(s, cmpv(s, 'ult', x, v, w)) is not False and decide(s, cmpv(s, 'ult', v, x, w)) is not True and not nowrap(s, x, t): return 0
    return c + sum(k * s.lo.get(a, 0) for a, k in m.items())
def nowrap(s, x, t):
    """x >= t, from a chain of checks: each part of t was compared with what was left"""
    w = x[1]
    if decide(s, cmpv(s, 'ult', x, t, w)) is False: return True
    facts = [(apply_sub(s, k[0][1][1]), apply_sub(s, k[0][1][2])) for k, v in s.facts.items() if v is False and isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) and len(k[0]) == 2 and isinstance(k[0][1], tuple) and k[0][1][:1] == ('ult',)]
    todo = [(K(w, 0), 0)]; seen = set()
    while todo:
        done, n = todo.pop()
        left = norm(s, vsub(x, done)); rest = norm(s, vsub(t, done))
        if isk(rest) and rest[2] == 0: return True
        if isk(rest) and bounds(s, left)[0] >= rest[2]: return True
        if isk(rest) and rest[2] == 1 and decide(s, cmpv(s, 'eq', left, K(w, 0), w)) is False: return True
        if decide(s, cmpv(s, 'ult', norm(s, vsub(rest, K(w, 1))), left, w)) is True: return True
        if n >= 6 or done in seen: continue
        seen.add(done)
        for y, z in facts:
            if y[1] == w and z[1] == w and same(s, y, left): todo.append((norm(s, vadd(done, z)), n + 1))
        if decide(s, cmpv(s, 'eq', left, K(w, 0), w)) is False: todo.append((norm(s, vadd(done, K(w, 1))), n + 1))
        lo = bounds(s, left)[0]
        for k in (1, 2, 4, 8):
            if lo >= k: todo.append((norm(s, vadd(done, K(w, k))), n + 1))
    return False
def halves(s, x, a):
    a = norm(s, a); x = norm(s, x)
    bx = vg.bits_of(x)
    if a[0] not in 'kb': return False
    ba = vg.bits_of(a)
    for k in range(1, x[1]):
        if ba == tuple(bx[k:]) + (frozenset(),) * k or list(ba) == list(bx[k:]) + [frozenset()] * k: return True
    return False
def doubled(s, x, a): return same(s, a, vadd(x, x))
