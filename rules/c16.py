"""C16: cloud sizes are computed without wrap-around."""
import re
import build, ir
from rules import c11

EXPLAIN = ("Every multiplication in the library (LLVM IR before optimisation, all functions of the core and PCL parts) is found.  A product narrower than 64 bits whose operands are not known to be "
 "small (constants, widened bytes, masked values) is followed through casts, sums, selections, local variables, minima, parameters and return values of library functions; it must not be widened afterwards, "
 "compared, used as an offset, or handed to a function of the standard library as a count.  A 64-bit product must not be cut to fewer bits and then used in one of these ways or returned, unless the value was "
 "compared with a limit that fits before the cut.  A loop whose bound is a 64-bit product must not count in a narrower variable.  Narrow products that are only stored as a field of a message (row_step) are no sizes and are allowed.")

DERIVE = ('add', 'sub', 'or', 'phi', 'select', 'freeze', 'mul', 'udiv', 'sdiv', 'lshr', 'shl', 'and')
class Fn:
    def __init__(self, f):
        self.f = f; self.d = {}; self.uses = {}; self.stores = {}
        for n, a in enumerate(f.args): self.d[a['i']] = dict(o='arg', i=a['i'], w=int(a['t'][1:]) if re.fullmatch(r'i\d+', a['t']) else None, n=n)
        for bi, b in enumerate(f.blocks):
            for k, i in enumerate(b):
                if 'i' in i: self.d[i['i']] = i
                ops = list(i.get('a') or [])
                if i['o'] == 'phi': ops = incoming(i)
                for n, a in enumerate(ops):
                    if isinstance(a, int): self.uses.setdefault(a, []).append((i, n, bi))
def incoming(i): return [x[0] for x in i['in']]

def width(F, a):
    if isinstance(a, int): return F.d.get(a, {}).get('w')
    return a[2] if isinstance(a, list) and a[0] == 'c' else None

def hi(F, a, depth=0):
    """largest value of an operand as far as its definition shows it"""
    if isinstance(a, list):
        if a[0] == 'c':
            w = a[2]; v = int(a[1]); return v & ((1 << w) - 1) if v >= 0 else (1 << w) - 1
        return None
    i = F.d.get(a)
    if i is None or depth > 6: return None
    w = i.get('w'); full = (1 << w) - 1 if w else None; o = i['o']
    if o == 'zext':
        h = hi(F, i['a'][0], depth + 1); sw = i.get('fw') or width(F, i['a'][0])
        return min(x for x in (h, (1 << sw) - 1 if sw else None, full) if x is not None)
    if o == 'and':
        c = [hi(F, x, depth + 1) for x in i['a']]; c = [x for x in c if x is not None]
        return min(c) if c else full
    if o == 'lshr' and isinstance(i['a'][1], list):
        h = hi(F, i['a'][0], depth + 1); return h >> int(i['a'][1][1]) if h is not None else full
    if o == 'select':
        h = [hi(F, x, depth + 1) for x in i['a'][1:]]; return max(h) if all(x is not None for x in h) else full
    if o == 'add':
        h = [hi(F, x, depth + 1) for x in i['a']]
        if all(x is not None for x in h) and full is not None and sum(h) <= full: return sum(h)
        return full
    if o == 'sub' and w:
        # digits: a byte minus a constant
        h = hi(F, i['a'][0], depth + 1); c = i['a'][1]
        if h is not None and h <= 255 and isinstance(c, list): return 255
        return full
    if o == 'urem' and isinstance(i['a'][1], list): return int(i['a'][1][1]) - 1
    if o == 'udiv' and isinstance(i['a'][1], list):
        h = hi(F, i['a'][0], depth + 1); return h // max(1, int(i['a'][1][1])) if h is not None else full
    return full

def small_product(F, i):
    if i['o'] == 'shl':
        if not isinstance(i['a'][1], list): return hi(F, i['a'][0]) in (0, 1)          # a bit mask
        h = hi(F, i['a'][0]); return h is not None and h << int(i['a'][1][1]) <= (1 << (i['w'] - 1)) - 1
    h = [hi(F, x) for x in i['a']]
    return all(x is not None for x in h) and h[0] * h[1] <= (1 << (i['w'] - 1)) - 1

def points_to(F, a, depth=0):
    """local variables a pointer may be the address of"""
    i = F.d.get(a) if isinstance(a, int) else None
    if i is None or depth > 6: return set()
    if i['o'] == 'alloca': return {a}
    if i['o'] == 'select': return points_to(F, i['a'][1], depth + 1) | points_to(F, i['a'][2], depth + 1)
    if i['o'] == 'phi': return set().union(*[points_to(F, x, depth + 1) for x in incoming(i)] or [set()])
    if i['o'] in ('bitcast', 'freeze'): return points_to(F, i['a'][0], depth + 1)
    return set()
class Flow:
    """follows one value through the library"""
    def __init__(self, fns): self.fns = fns; self.sites = {}
    def callers(self, name):
        if not self.sites:
            for n, F in self.fns.items():
                for b in F.f.blocks:
                    for i in b:
                        if i.get('f') in self.fns: self.sites.setdefault(i['f'], []).append((F, i))
        return self.sites.get(name, [])
    def run(self, F, start, sinks):
        """sinks(F, instruction, operand number, value) -> text or None; yields (text, F, instruction)"""
        seen = set(); todo = [(F, start, ())]; found = []
        while todo:
            F, v, path = todo.pop()
            if (F.f.name, v) in seen: continue
            seen.add((F.f.name, v))
            for i, n, b in F.uses.get(v, []):
                o = i['o']
                t = sinks(F, i, n, v)
                if t: found.append((t, F, i)); continue
                if o in DERIVE:
                    if 'i' in i: todo.append((F, i['i'], path))
                elif o == 'store' and n == 0:
                    for p in points_to(F, i['a'][1]):
                        for q in F.d:
                            j = F.d[q]
                            if j['o'] == 'load' and p in points_to(F, j['a'][0]): todo.append((F, q, path))
                elif o == 'ret':
                    for G, c in self.callers(F.f.name):
                        if 'i' in c: todo.append((G, c['i'], path))
                elif o in ('call', 'invoke'):
                    if i.get('f') in self.fns:
                        G = self.fns[i['f']]
                        if n < len(G.f.args): todo.append((G, G.f.args[n]['i'], path))
                    elif re.match(r'^(llvm\.)?[us](min|max)', str(i.get('q') or i.get('f') or '')) and 'i' in i: todo.append((F, i['i'], path))
        return found

def fixed_sinks(cut):
    def s(F, i, n, v):
        o = i['o']
        if o in ('zext', 'sext'): return 'widened'
        if o in ('uitofp', 'sitofp') : return None
        if o == 'icmp':
            return 'compared'
        if o == 'getelementptr': return 'used as an offset' if n > 0 else None
        if o in ('call', 'invoke') and i.get('f') not in FNS and not re.match(r'^llvm\.(dbg|lifetime|assume)', str(i.get('q') or i.get('f') or '')) and not re.match(r'^(llvm\.)?[us](min|max)', str(i.get('q') or i.get('f') or '')):
            return 'handed to %s' % (i.get('q') or i.get('f') or 'a function')
        return None
    return s
FNS = {}

def lib(f): return not c11.std_fn(f.full) and not c11.std_fn(f.q) and ('src/' in str(f.file) or 'include/cloudini' in str(f.file) or re.search(r'Cloudini|cloudini|cldn_', f.full))

def checked_before(F, v, w):
    """was the value, or what it is made of, compared with a limit of at most w bits?"""
    vals = {v}; todo = [v]
    while todo:
        x = todo.pop(); i = F.d.get(x)
        if not i: continue
        if i['o'] in ('add', 'sub', 'freeze', 'zext'): ops = [a for a in i['a'] if isinstance(a, int)]
        elif i['o'] == 'phi': ops = [a for a in incoming(i) if isinstance(a, int)]
        elif i['o'] == 'select': ops = [a for a in i['a'][1:] if isinstance(a, int)]
        elif i['o'] == 'load':
            ops = [j['a'][0] for b in F.f.blocks for j in b if j['o'] == 'store' and points_to(F, j['a'][1]) & points_to(F, i['a'][0]) and isinstance(j['a'][0], int)]
            ops += [q for q, j in F.d.items() if j['o'] == 'load' and q != x and points_to(F, j['a'][0]) & points_to(F, i['a'][0])]
        else: ops = []
        for a in ops:
            if a not in vals: vals.add(a); todo.append(a)
    for x in vals:
        for i, n, b in F.uses.get(x, []):
            if i['o'] == 'icmp':
                o = i['a'][1 - n]
                if isinstance(o, list) and o[0] == 'c' and 0 < int(o[1]) <= 1 << w: return True
    return False

def wide_derived(F, v, flow=None):
    """is a value made of a product of two unknown factors?"""
    seen = set(); todo = [v]
    while todo:
        x = todo.pop()
        if not isinstance(x, int) or x in seen: continue
        seen.add(x); i = F.d.get(x)
        if not i: continue
        if i['o'] in ('mul', 'udiv') and i.get('w') == 64 and all(isinstance(a, int) for a in i['a']) and (i['o'] == 'udiv' or not small_product(F, i)): return i
        if i['o'] in ('add', 'sub', 'freeze', 'mul'): todo += [a for a in i['a']]
        elif i['o'] == 'phi': todo += incoming(i)
        elif i['o'] == 'select': todo += i['a'][1:]
        elif i['o'] in ('call', 'invoke') and i.get('f') in FNS:
            G = FNS[i['f']]
            for b in G.f.blocks:
                t = b[-1]
                if t['o'] == 'ret' and t.get('a') and isinstance(t['a'][0], int) and wide_derived(G, t['a'][0]): return i
        elif i['o'] == 'load':
            ps = points_to(F, i['a'][0])
            for b in F.f.blocks:
                for j in b:
                    if j['o'] == 'store' and points_to(F, j['a'][1]) & ps: todo.append(j['a'][0])
    return None

def analyse(ctx, group):
    m = build.module(group, [r'.'], noinline=[r'^(?!std::|__gnu_cxx)'])
    fns = {f.name: Fn(f) for f in m.roots if lib(f)}
    FNS.clear(); FNS.update(fns)
    flow = Flow(fns); nw = nn = nt = nl = 0
    for F in fns.values():
        name = c11.short(F.f.full)
        for b in F.f.blocks:
            for i in b:
                if i['o'] in ('mul', 'shl') and i.get('w') and i['w'] < 64:
                    if small_product(F, i): ctx.count('narrow products of small factors'); continue
                    nn += 1; bad = flow.run(F, i['i'], fixed_sinks(False))
                    if i['o'] == 'shl' and not bad: continue
                    ctx.ob('a size is not multiplied in fewer than 64 bits', '%s, %s' % (name, F.f.loc(i)), not bad, bad and '%d-bit product %s at %s' % (i['w'], bad[0][0], bad[0][1].f.loc(bad[0][2])))
                elif i['o'] == 'mul' and i.get('w') == 64:
                    nw += 1; bad = [a for a in i['a'] if narrow_sum(F, a, flow)]
                    ctx.ob('a size is not multiplied in fewer than 64 bits', '%s, %s' % (name, F.f.loc(i)), not bad, 'a factor is summed up over a loop in fewer bits' if bad else '64 bits')
                elif i['o'] == 'trunc' and isinstance(i['a'][0], int) and (i.get('fw') or width(F, i['a'][0]) or 0) == 64 and i.get('w', 0) >= 16:
                    p = wide_derived(F, i['a'][0])
                    if not p: continue
                    nt += 1
                    if checked_before(F, i['a'][0], i['w']): ctx.ob('a size is not cut to fewer bits', '%s, %s' % (name, F.f.loc(i)), True, 'compared with a limit before'); continue
                    s0 = fixed_sinks(True)
                    def sink(G, j, n, v): return s0(G, j, n, v) or ('returned' if j['o'] == 'ret' and not flow.callers(G.f.name) else None)
                    bad = flow.run(F, i['i'], sink)
                    ctx.ob('a size is not cut to fewer bits', '%s, %s' % (name, F.f.loc(i)), not bad, bad and 'product cut to %d bits and %s at %s' % (i['w'], bad[0][0], bad[0][1].f.loc(bad[0][2])))
                elif i['o'] == 'icmp':
                    for n in (0, 1):
                        x, y = i['a'][n], i['a'][1 - n]
                        j = F.d.get(x) if isinstance(x, int) else None
                        if not j or j['o'] not in ('zext', 'sext') or not isinstance(y, int): continue
                        if not counts(F, j['a'][0]) or not wide_derived(F, y): continue
                        nl += 1; ctx.ob('a loop over the points does not count in fewer than 64 bits', '%s, %s' % (name, F.f.loc(i)), False, 'a %s-bit counter is compared with a 64-bit product' % width(F, j['a'][0]))
    return len(fns), nw, nn, nt
def counts(F, a):
    """a variable that is increased by itself: a loop counter"""
    i = F.d.get(a) if isinstance(a, int) else None
    if not i: return False
    if i['o'] == 'phi': return any(adds(F, x, {a}) for x in incoming(i))
    if i['o'] == 'load':
        ps = points_to(F, i['a'][0]); loads = {q for q, l in F.d.items() if l['o'] == 'load' and points_to(F, l['a'][0]) & ps}
        return bool(ps) and any(j['o'] == 'store' and points_to(F, j['a'][1]) & ps and adds(F, j['a'][0], loads) for b in F.f.blocks for j in b)
    return False

def base(F, a, depth=0):
    """(pointer, constant offset) a pointer is computed from"""
    i = F.d.get(a) if isinstance(a, int) else None
    if i and i['o'] == 'getelementptr' and not i.get('vars') and depth < 6:
        b, o = base(F, i['a'][0], depth + 1); return b, o + int(i.get('off') or 0)
    return a, 0
def captured(flow, F, p):
    """variables of an enclosing function that a pointer kept in a closure is the address of"""
    j = F.d.get(p) if isinstance(p, int) else None
    if not j or j['o'] != 'load' or not F.f.args: return []
    b, off = base(F, j['a'][0])
    if b != F.f.args[0]['i']: return []
    out = []
    for G, c in flow.callers(F.f.name):
        x, xo = base(G, c['a'][0])
        if G.d.get(x, {}).get('o') != 'alloca': continue
        for bl in G.f.blocks:
            for k in bl:
                if k['o'] == 'store' and base(G, k['a'][1]) == (x, xo + off) and G.d.get(k['a'][0] if isinstance(k['a'][0], int) else None, {}).get('o') == 'alloca': out.append((G, k['a'][0]))
    return out
def strip(F, a):
    while isinstance(a, int) and F.d.get(a, {}).get('o') in ('zext', 'sext', 'trunc', 'freeze'): a = F.d[a]['a'][0]
    return a
def adds(F, a, vals):
    """is an operand the sum of one of the values and something?"""
    k = F.d.get(strip(F, a)) if isinstance(a, int) else None
    return bool(k) and k['o'] in ('add', 'sub') and any(strip(F, x) in vals for x in k['a'] if isinstance(x, int))
def compared(F, vals):
    """is a variable, or what it becomes by an addition, compared with something of its own width?"""
    vs = set(vals) | {i['i'] for y in vals for i, n, b in F.uses.get(y, []) if i['o'] in ('add', 'sub') and 'i' in i}
    return any(i['o'] == 'icmp' for y in vs for i, n, b in F.uses.get(y, []))
def summed_variable(G, x):
    loads = {q for q, l in G.d.items() if l['o'] == 'load' and l['a'][0] == x}
    return any(j['o'] == 'store' and j['a'][1] == x and adds(G, j['a'][0], loads) for b in G.f.blocks for j in b) and not compared(G, loads)

def narrow_sum(F, a, flow):
    """a widened variable that a loop adds up without comparing it with anything of its own width"""
    for x in [a] + [y for j in [F.d.get(a) if isinstance(a, int) else None] if j and j['o'] in ('add', 'sub') for y in j['a']]:
        j = F.d.get(x) if isinstance(x, int) else None
        if not j or j['o'] not in ('zext', 'sext') or (width(F, j['a'][0]) or 64) < 32: continue
        l = F.d.get(j['a'][0]) if isinstance(j['a'][0], int) else None
        if l and l['o'] == 'load' and any(summed_variable(G, x) for G, x in captured(flow, F, l['a'][0])): return True
        if not counts(F, j['a'][0]): continue
        v = j['a'][0]; vs = {v}; k = F.d[v]
        if k['o'] == 'load':
            ps = points_to(F, k['a'][0]); vs |= {q for q, l in F.d.items() if l['o'] == 'load' and points_to(F, l['a'][0]) & ps}
        if not compared(F, vs): return True
    return False

def run(ctx):
    for g in ('core', 'pcl'):
        n, w, nn, t = analyse(ctx, g)
        ctx.need(n > (40 if g == 'core' else 3), 'only %d library functions in part %s' % (n, g))
        ctx.set('%s: functions' % g, n); ctx.set('%s: products in 64 bits' % g, w); ctx.set('%s: products in fewer bits' % g, nn); ctx.set('%s: products cut to fewer bits' % g, t)
        if g == 'core': ctx.need(w >= 10, 'only %d products found' % w)
