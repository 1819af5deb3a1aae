"""Two threads sharing one object: the synchronisation automata of both are read off the LLVM IR (control flow with unwind edges, the
values of flags and pointers kept as constants, everything else unknown) and the pairs of program points that can be reached together
are computed.  Used by the rules on the encoder and its compression thread."""
import re
from collections import deque
from absint import const_params

TOP = None
BIG = 8
class Unsupported(Exception): pass

class Access:
    __slots__ = ()

class Code:
    def __init__(self, fn):
        self.fn = fn; self.blocks = fn.blocks
        n = len(fn.blocks)
        def uses(ins):
            o = set()
            for a in ins.get('a', []):
                if isinstance(a, int): o.add(a)
            if isinstance(ins.get('ind'), int): o.add(ins['ind'])
            for v in ins.get('vars', []):
                if isinstance(v, (list, tuple)):
                    o |= {x for x in v if isinstance(x, int)} if not isinstance(v[0], int) else {v[0]}
                elif isinstance(v, int): o.add(v)
            return o
        self.uses = uses
        self.succ = [self.targets(b[-1]) for b in fn.blocks]
        phiuse = [set() for _ in range(n)]
        for b in fn.blocks:
            for i in b:
                if i['o'] != 'phi': break
                for v, p in i['in']:
                    if isinstance(v, int): phiuse[p].add(v)
        self.phiuse = phiuse
        livein = [set() for _ in range(n)]; ch = True
        while ch:
            ch = False
            for k in range(n - 1, -1, -1):
                l = self.through(k, 0, livein)
                if l != livein[k]: livein[k] = l; ch = True
        self.livein = livein; self.cache = {}
    @staticmethod
    def targets(t):
        s = list(t.get('s', []))
        if t['o'] == 'switch': s += [x[1] for x in t['cases']] + [t['def']]
        if t['o'] == 'invoke': s += [x for x in (t.get('n'), t.get('u')) if x is not None]
        return s
    def through(self, k, frm, livein):
        out = set(self.phiuse[k])
        for s in self.succ[k]:
            out |= livein[s] - {i['i'] for i in self.blocks[s] if i['o'] == 'phi'}
        for ins in reversed(self.blocks[k][frm:]):
            if 'i' in ins: out.discard(ins['i'])
            if ins['o'] != 'phi': out |= self.uses(ins)
        return out
    def live(self, k, frm):
        key = (k, frm)
        if key not in self.cache: self.cache[key] = self.through(k, frm, self.livein)
        return self.cache[key]

class Fr:
    __slots__ = ('c', 'b', 'i', 'prev', 'env')
    def __init__(self, c, b=0, i=0, prev=None, env=None): self.c, self.b, self.i, self.prev, self.env = c, b, i, prev, env or {}
    def copy(self): return Fr(self.c, self.b, self.i, self.prev, dict(self.env))

class T:
    """local state of a thread"""
    __slots__ = ('who', 'frames', 'mem', 'held')
    def __init__(self, who): self.who = who; self.frames = []; self.mem = {}; self.held = frozenset()
    def copy(self):
        t = T(self.who); t.frames = [f.copy() for f in self.frames]; t.mem = dict(self.mem); t.held = self.held; return t
    def freeze(self, m):
        fs = []; roots = []
        for k, f in enumerate(self.frames):
            top = k == len(self.frames) - 1
            lv = f.c.live(f.b, f.i if top else f.i + 1)
            ins = f.c.blocks[f.b][f.i]
            if not top and 'i' in ins: lv = lv - {ins['i']}
            roots += [f.env.get(a) for a in lv]
            fs.append((m.idx[f.c], f.b, f.i, f.prev if ins['o'] == 'phi' else None, tuple(sorted(((a, v) for a, v in f.env.items() if v is not None and (a in lv or a in f.c.allocas)), key=lambda x: x[0]))))
        roots += getattr(m, 'sh_roots', ())
        keep = set(); byb = {}
        for k, v in self.mem.items(): byb.setdefault(k[0], []).append(v)
        def mark(v):
            if not isinstance(v, tuple) or not v: return
            if v[0] == 'agg':
                for _, w in v[1]: mark(w)
            elif v[0] == 'p' and isinstance(v[1], tuple) and v[1][0] == 'al' and v[1] not in keep:
                keep.add(v[1])
                for w in byb.get(v[1], ()): mark(w)
            elif v[0] == 'lam' and len(v) > 2: mark(v[2])
        for v in roots: mark(v)
        return (self.who, tuple(fs), tuple(sorted(((k, v) for k, v in self.mem.items() if k[0] in keep or k[0][1] == -1), key=repr)), self.held)
    @staticmethod
    def thaw(z, m):
        t = T(z[0]); t.mem = dict(z[2]); t.held = z[3]
        for c, b, i, p, e in z[1]: t.frames.append(Fr(m.codes[c], b, i, p, dict(e)))
        return t

class Machine:
    def __init__(self, funcs, layout, pinned, this_ty, skip):
        """funcs: symbol -> Func; layout: [(offset, end, name, type)] of the shared object; pinned: offset -> constant"""
        self.mod = next(iter(funcs.values())).mod
        self.codes = []; self.idx = {}; self.by = {}
        for s, f in funcs.items():
            c = Code(f); c.allocas = {i['i'] for b in f.blocks for i in b if i['o'] == 'alloca'}
            self.idx[c] = len(self.codes); self.codes.append(c); self.by[s] = c
        self.layout = layout; self.pinned = pinned; self.skip = skip
        self.problems = {}; self.lines = {}; self.steps = 0
        self.counters = {lo for lo, hi, n, t in layout if re.search(r'\blong\b|size_t|float|double', t) and '<' not in t}
        self.opaque = set(); self.segcache = {}
    # ------------------------------------------------------------ problems
    def problem(self, kind, where, detail): self.problems.setdefault((kind, where), detail)
    def member(self, off):
        for lo, hi, n, t in self.layout:
            if lo <= off < hi: return n
        return 'offset %d' % off
    # ------------------------------------------------------------ values
    def val(self, f, x):
        if isinstance(x, int): return f.env.get(x)
        k = x[0]
        if k == 'c': return ('k', int(x[1])) if abs(int(x[1])) < (1 << 40) else TOP
        if k == 'n': return ('k', 0)
        if k == 'F': return ('fn', x[1])
        if k == 'g': return ('p', ('g', x[1]), x[2])
        return TOP
    # ------------------------------------------------------------ memory
    def access(self, ctx, loc, w, ins):
        ctx['acc'].add((loc, w)); self.lines.setdefault((loc, w, ctx['who']), self.where(ctx, ins))
    def where(self, ctx, ins):
        return ctx['fn'].locfn(ins)[0]
    def touch(self, ctx, p, w, ins):
        if p is None or p[0] != 'p': return
        b = p[1]
        if b == 'this':
            if p[2] is None: return
            n = self.member(p[2])
            if n not in self.skip: self.access(ctx, n, w, ins)
        elif isinstance(b, tuple) and b[0] == 'o': self.access(ctx, '*' + b[1], w, ins)
    def load(self, ctx, t, sh, p, size, ins):
        self.touch(ctx, p, False, ins)
        if p is None or p[0] != 'p' or p[2] is None: return TOP
        if p[1] == 'this':
            if p[2] in self.pinned: return ('k', self.pinned[p[2]])
            return sh.get(p[2])
        if p[1] == ('arg', 'info') and p[2] in self.pinned: return ('k', self.pinned[p[2]])
        if p[1] == ('arg', 'output'): return ('p', ('o', 'output of the caller'), 0) if p[2] == 0 else TOP
        if isinstance(p[1], tuple) and p[1][0] == 'al': return t.mem.get((p[1], p[2]))
        return TOP
    def store(self, ctx, t, sh, p, v, size, ins):
        self.touch(ctx, p, True, ins)
        if p is None or p[0] != 'p': return
        if p[2] is None:
            if isinstance(p[1], tuple) and p[1][0] == 'al':
                for k in [k for k in t.mem if k[0] == p[1]]: t.mem.pop(k)
            return
        if p[1] == 'this':
            for k in [k for k in sh if isinstance(k, int) and p[2] <= k < p[2] + size and k != p[2]]: sh.pop(k)
            if p[2] in self.counters: v = None
            if v is None: sh.pop(p[2], None)
            else: sh[p[2]] = v
        elif isinstance(p[1], tuple) and p[1][0] == 'al':
            for k in [k for k in t.mem if k[0] == p[1] and p[2] <= k[1] < p[2] + size]: t.mem.pop(k)
            if v is not None: t.mem[(p[1], p[2])] = v
    def memcpy(self, ctx, t, sh, d, s, n, ins):
        self.touch(ctx, s, False, ins); self.touch(ctx, d, True, ins)
        n = n[1] if n and n[0] == 'k' else None
        if d is None or d[0] != 'p': return
        got = {}
        if s is not None and s[0] == 'p' and s[2] is not None and n is not None:
            if s[1] == 'this': got = {k - s[2]: v for k, v in sh.items() if isinstance(k, int) and s[2] <= k < s[2] + n}
            elif s[1] == ('arg', 'output'): got = {0: ('p', ('o', 'output of the caller'), 0)}
            else: got = {k[1] - s[2]: v for k, v in t.mem.items() if k[0] == s[1] and s[2] <= k[1] < s[2] + n}
        if d[2] is None: self.store(ctx, t, sh, d, None, 0, ins); return
        if d[1] == 'this':
            for k in [k for k in sh if isinstance(k, int) and d[2] <= k < d[2] + (n or 1 << 30)]: sh.pop(k)
            for k, v in got.items():
                if d[2] + k not in self.counters: sh[d[2] + k] = v
        elif isinstance(d[1], tuple) and d[1][0] == 'al':
            for k in [k for k in t.mem if k[0] == d[1] and d[2] <= k[1] < d[2] + (n or 1 << 30)]: t.mem.pop(k)
            for k, v in got.items(): t.mem[(d[1], d[2] + k)] = v
    # ------------------------------------------------------------ running a segment
    def segment(self, z, shz):
        """run from the position of a frozen thread to the next synchronisation; returns (accesses, [(frozen thread or end, shared)])"""
        key = (z, shz)
        if key in self.segcache: return self.segcache[key]
        acc = set(); outs = set(); seen = set()
        work = [(z, shz)]
        while work:
            k = work.pop()
            if k in seen: continue
            seen.add(k); self.steps += 1
            if self.steps > 400000: raise Unsupported('too many states')
            t = T.thaw(k[0], self); sh = dict(k[1])
            for t2, s2, end in self.straight(t, sh, acc):
                fs = freeze_sh(s2)
                if end is not None: outs.add((end, fs))
                else: work.append((t2.freeze(self), fs))
        r = (frozenset(acc), sorted(outs, key=repr))
        self.segcache[key] = r
        return r
    def straight(self, t, sh, acc):
        """one block's worth of instructions; returns list of (thread, shared, end)"""
        while True:
            f = t.frames[-1]; ins = f.c.blocks[f.b][f.i]; ctx = dict(acc=acc, who=t.who, fn=f.c.fn)
            o = ins['o']
            if o in ('call', 'invoke'):
                sy = self.sync(t, sh, f, ins)
                if sy is not None: return [(t, sh, ('at', t.freeze(self), sy))]
                r = self.call(ctx, t, sh, f, ins)
                if r is not None: return r
                continue
            if o == 'ret':
                v = self.val(f, ins['a'][0]) if ins.get('a') else TOP
                return self.ret(t, sh, v)
            if o == 'resume': return self.throw(t, sh, pop=True)
            if o == 'unreachable': return []
            if o == 'br':
                s = ins['s']
                if len(s) == 1 or not ins.get('a'): self.jump(f, s[0]); return [(t, sh, None)]
                v = self.val(f, ins['a'][0])
                if v is not None and v[0] == 'k': self.jump(f, s[0] if v[1] & 1 else s[1]); return [(t, sh, None)]
                if s[0] == s[1]: self.jump(f, s[0]); return [(t, sh, None)]
                t2 = t.copy(); self.jump(t.frames[-1], s[0]); self.jump(t2.frames[-1], s[1])
                for tt, tv in ((t, 1), (t2, 0)):
                    if isinstance(ins['a'][0], int): tt.frames[-1].env[ins['a'][0]] = ('k', tv)
                return [(t, dict(sh), None), (t2, dict(sh), None)]
            if o == 'switch':
                v = self.val(f, ins['a'][0])
                if v is not None and v[0] == 'k':
                    d = ins['def']
                    for c, b in ins['cases']:
                        if int(c) == v[1]: d = b
                    self.jump(f, d); return [(t, sh, None)]
                r = []
                for b in sorted({ins['def']} | {x[1] for x in ins['cases']}):
                    t2 = t.copy(); self.jump(t2.frames[-1], b); r.append((t2, dict(sh), None))
                return r
            self.simple(ctx, t, sh, f, ins)
            f.i += 1
    def jump(self, f, b):
        vals = {}
        for ins in f.c.blocks[b]:
            if ins['o'] != 'phi': break
            v = next((self.val(f, x) for x, p in ins['in'] if p == f.b), TOP)
            vals[ins['i']] = v
        f.prev = f.b; f.b = b; f.i = len(vals)
        for k, v in vals.items(): f.env[k] = v
    def ret(self, t, sh, v):
        dep = len(t.frames) - 1
        t.frames.pop()
        for k in [k for k in t.mem if k[0][1] == dep]: t.mem.pop(k)
        if not t.frames: return [(t, sh, ('end', 'return'))]
        f = t.frames[-1]; ins = f.c.blocks[f.b][f.i]
        if 'i' in ins: f.env[ins['i']] = v
        self.advance(f, ins)
        return [(t, sh, None)]
    def advance(self, f, ins):
        if ins['o'] == 'invoke': self.jump(f, ins['n'])
        else: f.i += 1
    def throw(self, t, sh, pop=False):
        """unwind from the current instruction"""
        first = not pop
        while t.frames:
            f = t.frames[-1]; ins = f.c.blocks[f.b][f.i]
            if (first or not pop) and ins['o'] == 'invoke' and ins.get('u') is not None:
                self.jump(f, ins['u']); return [(t, sh, None)]
            dep = len(t.frames) - 1
            t.frames.pop(); pop = False; first = False
            for k in [k for k in t.mem if k[0][1] == dep]: t.mem.pop(k)
        return [(t, sh, ('end', 'exception'))]
    def simple(self, ctx, t, sh, f, ins):
        o = ins['o']; env = f.env; a = ins.get('a', [])
        if o == 'alloca': env[ins['i']] = ('p', ('al', len(t.frames) - 1, ins['i']), 0); return
        if o == 'getelementptr':
            p = self.val(f, a[0])
            if p is None or p[0] != 'p': env[ins['i']] = TOP; return
            if isinstance(p[1], tuple) and p[1][0] == 'o': env[ins['i']] = p; return
            env[ins['i']] = ('p', p[1], p[2] + ins['off'] if p[2] is not None and not ins.get('vars') and ins.get('off') is not None else (None if p[1] != 'this' else p[2] + (ins.get('off') or 0) if p[2] is not None else None)); return
        if o == 'load': env[ins['i']] = self.load(ctx, t, sh, self.val(f, a[0]), ins['sz'], ins); return
        if o == 'store': self.store(ctx, t, sh, self.val(f, a[1]), self.val(f, a[0]), ins['sz'], ins); return
        if 'i' not in ins: return
        if o in ('trunc', 'zext', 'sext', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            v = self.val(f, a[0])
            if v is not None and v[0] == 'k' and o == 'trunc' and ins.get('w'): v = ('k', v[1] & ((1 << ins['w']) - 1))
            if v is not None and v[0] == 'k' and o == 'sext' and ins.get('fw') == 1 and v[1]: v = ('k', (1 << ins['w']) - 1)
            env[ins['i']] = v; return
        if o == 'icmp':
            x, y = self.val(f, a[0]), self.val(f, a[1]); p = ins['p']; env[ins['i']] = TOP
            if x is None or y is None: return
            if x[0] == 'k' and y[0] == 'k':
                i, j = x[1], y[1]
                env[ins['i']] = ('k', int({'eq': i == j, 'ne': i != j}.get(p, {'gt': i > j, 'ge': i >= j, 'lt': i < j, 'le': i <= j}.get(p[1:], False))))
            elif p in ('eq', 'ne') and (x[0] != y[0] or x[0] == 'p'):
                if x[0] != y[0]: e = False
                elif x[1] != y[1]: e = False
                elif x[2] is None or y[2] is None or isinstance(x[1], tuple) and x[1][0] == 'o': return
                else: e = x[2] == y[2]
                env[ins['i']] = ('k', int(e == (p == 'eq')))
            return
        if o in ('and', 'or', 'xor'):
            x, y = self.val(f, a[0]), self.val(f, a[1]); r = TOP
            kx, ky = x is not None and x[0] == 'k', y is not None and y[0] == 'k'
            if kx and ky: r = ('k', {'and': x[1] & y[1], 'or': x[1] | y[1], 'xor': x[1] ^ y[1]}[o])
            elif o == 'and' and (kx and x[1] == 0 or ky and y[1] == 0): r = ('k', 0)
            elif o == 'or' and ins.get('w') == 1 and (kx and x[1] == 1 or ky and y[1] == 1): r = ('k', 1)
            env[ins['i']] = r; return
        if o in ('add', 'sub', 'mul'): env[ins['i']] = TOP; return
        if o == 'select':
            c = self.val(f, a[0])
            x, y = self.val(f, a[1]), self.val(f, a[2])
            env[ins['i']] = (x if c[1] else y) if c is not None and c[0] == 'k' else x if x == y else TOP; return
        if o == 'insertvalue':
            v = self.val(f, a[0]); d = dict(v[1]) if v is not None and v[0] == 'agg' else {}
            x = self.val(f, a[1]); d[tuple(ins['ix'])] = x
            env[ins['i']] = ('agg', tuple(sorted((k, z) for k, z in d.items() if z is not None))); return
        if o == 'extractvalue':
            v = self.val(f, a[0]); env[ins['i']] = dict(v[1]).get(tuple(ins['ix'])) if v is not None and v[0] == 'agg' else TOP; return
        env[ins['i']] = TOP
    # ------------------------------------------------------------ synchronisation
    def thisoff(self, p): return p[2] if p is not None and p[0] == 'p' and p[1] == 'this' else None
    def sync(self, t, sh, f, ins):
        """the synchronisation performed by a call, or None"""
        q = ins.get('q') or ''
        if not q.startswith('std::'): return None
        a = [self.val(f, x) for x in ins['a']]
        full = self.mod.fn_full.get(ins.get('f')) or ''
        m = re.match(r'std::(unique_lock|lock_guard|scoped_lock)<.*>::(~?\w+)$', q)
        if m:
            op = m.group(2)
            if op in ('unique_lock', 'lock_guard', 'scoped_lock'):
                if len(a) < 2: return None
                off = self.thisoff(a[1])
                if off is None: return None
                if 'defer_lock' in full or 'adopt_lock' in full: return ('bind', off, a[0], 'adopt' in full)
                return ('acquire', off, a[0])
            if op.startswith('~') or op == 'unlock':
                b = t.mem.get((a[0][1], a[0][2])) if a and a[0] is not None and a[0][0] == 'p' else None
                if b is not None and b[0] == 'lk' and b[2]: return ('release', b[1], a[0])
                return None
            if op == 'lock':
                b = t.mem.get((a[0][1], a[0][2])) if a[0] is not None and a[0][0] == 'p' else None
                if b is not None and b[0] == 'lk': return ('acquire', b[1], a[0])
            return None
        m = re.match(r'std::(?:recursive_|timed_)?mutex::(lock|unlock)$', q)
        if m:
            off = self.thisoff(a[0])
            if off is None: return None
            return ('acquire', off, None) if m.group(1) == 'lock' else ('release', off, None)
        m = re.match(r'std::(?:_V2::)?condition_variable(?:_any)?::(wait|wait_for|wait_until|notify_one|notify_all)$', q)
        if m:
            off = self.thisoff(a[0])
            if off is None: raise Unsupported('condition variable that is not a member')
            if m.group(1).startswith('notify'): return ('notify', off)
            b = t.mem.get((a[1][1], a[1][2])) if a[1] is not None and a[1][0] == 'p' else None
            if b is None or b[0] != 'lk': raise Unsupported('wait with an unknown lock')
            return ('wait', off, b[1], m.group(1) != 'wait')
        m = re.match(r'std::thread::(thread|join|detach)$', q)
        if m:
            if m.group(1) == 'thread':
                if len(a) < 2 or '&&)' in full and re.search(r'thread\(std::thread&&\)$', full): return None
                return ('start', a[0], self.thread_fn(t, sh, a, full))
            return (m.group(1), a[0])
        if re.match(r'std::(atomic|__atomic_base)<.*>::|std::atomic_flag::', q):
            off = self.thisoff(a[0])
            if off is not None: return ('atomic', off, q.split('::')[-1])
        return None
    def thread_fn(self, t, sh, a, full):
        p = a[1]
        v = t.mem.get((p[1], p[2])) if p is not None and p[0] == 'p' else None
        if v is not None and v[0] == 'fn': return (v[1], True)
        s = self.closure_fn(full, 'thread')
        if s: return (s, p)
        raise Unsupported('the function run by the thread is not known')
    def closure_fn(self, full, what):
        k = full.find('::%s<' % what)
        if k < 0: return None
        txt = full[k + len(what) + 3:]; d = 0
        for i, c in enumerate(txt):
            if c in '<({[': d += 1
            elif c in ')}]' or c == '>' and txt[i - 1] != '-': d -= 1
            if (c == ',' and d == 0) or d < 0: txt = txt[:i]; break
        txt = txt.strip().rstrip('&').strip()
        for s, c in self.by.items():
            if c.fn.full.startswith(txt + '::operator()(') : return s
        return None
    # ------------------------------------------------------------ calls
    def reach(self, t, v, seen=None):
        """objects reachable from a value through local memory"""
        seen = set() if seen is None else seen
        if v is None: return []
        if v[0] == 'agg': return [x for _, w in v[1] for x in self.reach(t, w, seen)]
        if v[0] == 'lam': return self.reach(t, v[2], seen) if len(v) > 2 else []
        if v[0] != 'p': return []
        if isinstance(v[1], tuple) and v[1][0] == 'al':
            if v[1] in seen: return []
            seen.add(v[1])
            return [x for k, w in t.mem.items() if k[0] == v[1] for x in self.reach(t, w, seen)]
        if isinstance(v[1], tuple) and v[1][0] == 'o': return [v]
        return []
    def push(self, t, c, args):
        fr = Fr(c)
        for p, v in zip(c.fn.args, args): fr.env[p['i']] = v
        t.frames.append(fr)
        if len(t.frames) > 12: raise Unsupported('recursion')
    def fresh(self, t, sh):
        txt = repr((sh, t.mem, [f.env for f in t.frames], self.other))
        n = 0
        while "'buffer %d'" % n in txt: n += 1
        return ('p', ('o', 'buffer %d' % n), 0)
    def call(self, ctx, t, sh, f, ins):
        q = ins.get('q') or ''; sym = ins.get('f')
        args = [self.val(f, x) if not (isinstance(x, list) and x[0] == 'm') else TOP for x in ins['a']]
        if 'ind' in ins and not q:
            v = self.val(f, ins['ind'])
            if v is not None and v[0] == 'fn': sym = v[1]
            elif v is not None and v[0] == 'lam':
                c = self.by.get(v[1])
                if c is not None:
                    clo = t.mem.get((args[0][1], args[0][2])) if args and args[0] is not None and args[0][0] == 'p' else None
                    self.push(t, c, [clo if clo is not None else args[0] if args else TOP] + [TOP] * 8)
                    return [(t, sh, None)]
        if sym in self.by:
            self.push(t, self.by[sym], args); return [(t, sh, None)]
        r = self.model(ctx, t, sh, f, ins, q, args)
        if r == 'done': self.advance(t.frames[-1], ins) ; return None if ins['o'] == 'call' else [(t, sh, None)]
        if r is not None: return r
        # opaque
        self.opaque.add(q or '<indirect>')
        full = self.mod.fn_full.get(sym) or ''
        try: cm = const_params(full, [('p', 1) if x is not None and x[0] == 'p' else ('i', 0) for x in args], ins)
        except Exception: cm = set()
        for i, x in enumerate(args):
            if x is None: continue
            if x[0] == 'p' and x[1] == 'this':
                off = x[2]
                if off is None: continue
                w = i not in cm
                if off == 0 and self.layout[0][3].startswith('Cloudini::EncodingInfo') and 'EncodingInfo' not in full and not re.search(r'vector|string', q): continue
                self.touch(ctx, x, w, ins)
                if w:
                    n = self.member(off); lo, hi = next(((l, h) for l, h, nn, _ in self.layout if nn == n), (off, off + 1))
                    for k in [k for k in sh if isinstance(k, int) and lo <= k < hi]:
                        if not (sh[k][0] == 'p' and isinstance(sh[k][1], tuple) and sh[k][1][0] == 'o'): sh.pop(k)
            else:
                for ob in self.reach(t, x): self.touch(ctx, ob, True, ins)
        v = TOP
        if 'i' in ins: f.env[ins['i']] = TOP
        outs = []
        if not ins.get('nt') and not re.match(r'^(__cxa_(begin|end)_catch|operator delete)', q):
            t2 = t.copy(); s2 = dict(sh)
            if t.who == 'worker': s2['failed'] = 1
            outs += self.throw(t2, s2)
        if ins.get('nr'): return outs
        if not outs and ins['o'] == 'call':
            f.i += 1; return None
        self.advance(f, ins)
        outs.append((t, sh, None))
        return outs
    def cell(self, t, sh, p):
        if p is None or p[0] != 'p' or p[2] is None: return TOP
        return sh.get(p[2]) if p[1] == 'this' else t.mem.get((p[1], p[2]))
    def put(self, t, sh, p, v):
        if p is None or p[0] != 'p' or p[2] is None: return
        if p[1] == 'this':
            if v is None: sh.pop(p[2], None)
            else: sh[p[2]] = v
        else:
            if v is None: t.mem.pop((p[1], p[2]), None)
            else: t.mem[(p[1], p[2])] = v
    def model(self, ctx, t, sh, f, ins, q, a):
        full = self.mod.fn_full.get(ins.get('f')) or ''
        def ret(v):
            if 'i' in ins: f.env[ins['i']] = v
            return 'done'
        if q.startswith('llvm.'):
            if q.startswith(('llvm.memcpy', 'llvm.memmove')): self.memcpy(ctx, t, sh, a[0], a[1], a[2], ins); return ret(TOP)
            if q.startswith('llvm.memset'):
                self.touch(ctx, a[0], True, ins)
                if a[2] is not None and a[0] is not None and a[0][0] == 'p' and a[0][2] is not None and a[1] == ('k', 0):
                    lo, hi = a[0][2], a[0][2] + a[2][1]
                    if a[0][1] == 'this':
                        for l, h, n, ty in self.layout:
                            if lo <= l < hi and l not in self.counters: sh[l] = ('k', 0)
                        for k in [k for k in sh if isinstance(k, int) and lo <= k < hi]: sh[k] = ('k', 0)
                    elif isinstance(a[0][1], tuple) and a[0][1][0] == 'al':
                        for k in [k for k in t.mem if k[0] == a[0][1] and lo <= k[1] < hi]: t.mem[k] = ('k', 0)
                return ret(TOP)
            if q.startswith('llvm.eh.typeid') : return ret(TOP)
            return None if 'i' in ins and False else ret(TOP)
        if q in ('__cxa_throw', '__cxa_rethrow') or re.match(r'^std::__throw_', q):
            if t.who == 'worker': sh['failed'] = 1
            return self.throw(t, sh)
        if q == 'std::rethrow_exception':
            p = self.cell(t, sh, a[0])
            if p != ('exc',): self.problem('a recorded failure can be rethrown', self.where(ctx, ins), 'the exception that is rethrown can be empty')
            if t.who == 'client' and not sh.get('failed'): self.problem('only failures of this call are reported', self.where(ctx, ins), 'a failure is rethrown although the worker did not fail since the last report')
            if t.who == 'client': sh['failed'] = 0
            return self.throw(t, sh)
        if q in ('__clang_call_terminate', 'std::terminate', 'abort', '__cxa_call_unexpected'): return []
        if q in ('__cxa_begin_catch',): return ret(TOP)
        if q == '__cxa_end_catch': return ret(TOP)
        if q == 'std::current_exception':
            p = a[0] if a else None
            self.put(t, sh, p, ('exc',)); return ret(TOP)
        m = re.match(r'std::__exception_ptr::exception_ptr::(~?\w+|operator=|operator bool)$', q)
        if m:
            op = m.group(1)
            if op == 'exception_ptr' or op == 'operator=':
                self.touch(ctx, a[0], True, ins)
                if len(a) == 1: v = ('k', 0)
                elif 'nullptr' in full or a[1] == ('k', 0): v = ('k', 0)
                else: self.touch(ctx, a[1], False, ins); v = self.cell(t, sh, a[1])
                if op == 'operator=' and a[1] is not None and a[1][0] == 'p' and a[1][1] != 'this' and '&&' in full and v is not None: self.put(t, sh, a[1], ('k', 0))
                self.put(t, sh, a[0], v); return ret(a[0])
            if op == 'operator bool':
                self.touch(ctx, a[0], False, ins); v = self.cell(t, sh, a[0])
                return ret(('k', int(v == ('exc',))) if v is not None else TOP)
            return ret(TOP)
        m = re.match(r'std::thread::(~?thread|operator=|joinable)$', q)
        if m:
            op = m.group(1); c = self.cell(t, sh, a[0])
            if op == 'joinable': return ret(('k', int(bool(c is not None and c[1]))) if c is not None else TOP)
            if op == '~thread':
                if c is not None and c[1]: self.problem('a running thread is never dropped', self.where(ctx, ins), 'a std::thread that was not joined is destroyed')
                return ret(TOP)
            if op == 'operator=':
                if c is not None and c[1]: self.problem('a running thread is never dropped', self.where(ctx, ins), 'a std::thread that was not joined is overwritten')
            if op == 'operator=' or len(a) > 1:
                v = self.cell(t, sh, a[1]); self.put(t, sh, a[0], v); self.put(t, sh, a[1], ('k', 0)); return ret(a[0])
            self.put(t, sh, a[0], ('k', 0)); return ret(TOP)
        if re.match(r'std::function<.*>::function$', q) or re.match(r'std::function<.*>::operator=$', q):
            s = self.closure_fn(full, 'function')
            if s and a[0] is not None and a[0][0] == 'p' and a[0][2] is not None:
                self.put(t, sh, a[0], a[1] if a[1] is not None else TOP); self.put(t, sh, ('p', a[0][1], a[0][2] + 24), ('lam', s)); self.put(t, sh, ('p', a[0][1], a[0][2] + 16), ('k', 1)); return ret(TOP)
            return None
        if re.match(r'std::function<.*>::operator\(\)$', q):
            v = self.cell(t, sh, ('p', a[0][1], a[0][2] + 24)) if a[0] is not None and a[0][0] == 'p' and a[0][2] is not None else None
            if v is not None and v[0] == 'lam' and v[1] in self.by:
                self.push(t, self.by[v[1]], [self.cell(t, sh, a[0])] + [TOP] * 8); return [(t, sh, None)]
        if re.match(r'std::(unique_lock|lock_guard|scoped_lock)<.*>::', q):
            op = q.split('::')[-1]
            if op == 'owns_lock' or op == 'operator bool':
                b = self.cell(t, sh, a[0]); return ret(('k', b[2]) if b is not None and b[0] == 'lk' else TOP)
            if op.startswith('~') or op == 'release': self.put(t, sh, a[0], None); return ret(TOP)
            if op in ('unique_lock', 'operator=') and len(a) > 1:
                self.put(t, sh, a[0], self.cell(t, sh, a[1])); self.put(t, sh, a[1], None); return ret(TOP)
            return ret(TOP)
        if re.match(r'std::(mutex|condition_variable|_V2::condition_variable_any)::~?(mutex|condition_variable\w*)$', q): return ret(TOP)
        if q in ('operator new[]', 'operator new'):
            v = self.fresh(t, sh)
            t2 = t.copy(); s2 = dict(sh)
            if t.who == 'worker': s2['failed'] = 1
            outs = self.throw(t2, s2)
            f.env[ins['i']] = v; self.advance(f, ins); outs.append((t, sh, None)); return outs
        if q.startswith('operator delete'):
            self.touch(ctx, a[0], True, ins); return ret(TOP)
        if re.match(r'std::swap<', full) or q == 'std::swap':
            if len(a) == 2 and a[0] is not None and a[1] is not None:
                self.touch(ctx, a[0], True, ins); self.touch(ctx, a[1], True, ins)
                x, y = self.cell(t, sh, a[0]), self.cell(t, sh, a[1]); self.put(t, sh, a[0], y); self.put(t, sh, a[1], x); return ret(TOP)
        m = re.match(r'std::unique_ptr<.*>::(\w+|operator=|~unique_ptr)$', q)
        if m and a and a[0] is not None and a[0][0] == 'p':
            op = m.group(1); c = self.cell(t, sh, a[0])
            if op == 'get': self.touch(ctx, a[0], False, ins); return ret(c)
            if op == 'swap' and len(a) == 2:
                self.touch(ctx, a[0], True, ins); self.touch(ctx, a[1], True, ins)
                y = self.cell(t, sh, a[1]); self.put(t, sh, a[0], y); self.put(t, sh, a[1], c); return ret(TOP)
            if op == '~unique_ptr':
                self.touch(ctx, a[0], True, ins); self.touch(ctx, c, True, ins); self.put(t, sh, a[0], None); return ret(TOP)
        return None

def names(x, out):
    if isinstance(x, str):
        if x.startswith('buffer '): out.setdefault(x)
        elif x.startswith('*buffer '): out.setdefault(x[1:])
    elif isinstance(x, tuple):
        for y in x: names(y, out)
    elif isinstance(x, frozenset):
        for y in sorted(x, key=repr): names(y, out)
_ren = {}
def rename(x, ren):
    if isinstance(x, str):
        if x.startswith('buffer '): return ren.get(x, x)
        if x.startswith('*buffer '): return '*' + ren.get(x[1:], x[1:])
        return x
    if isinstance(x, tuple): return tuple(rename(y, ren) for y in x)
    if isinstance(x, frozenset): return frozenset(rename(y, ren) for y in x)
    return x

def freeze_sh(sh): return tuple(sorted(((k, v) for k, v in sh.items() if v is not None and v != 0 or k == 'failed'), key=lambda x: repr(x[0])))

# ---------------------------------------------------------------------- the two threads together
class Pair:
    """explores the joint states of a client (constructor; then any sequence of calls; destructor) and the worker it starts"""
    OUT = '*output of the caller'
    def __init__(self, m, ctor, calls, dtor, limit=60000):
        self.m = m; self.ctor = ctor; self.calls = calls; self.dtor = dtor; self.limit = limit
        self.races = {}; self.after = {}; self.nsync = 0; self.pairs = set(); self.syncs = {'client': set(), 'worker': set()}
        self.alive_calls = set()
    # a thread component:  ('out',) ('done',) ('none',) ('ended',) | ('seg', stage, accs, end) | ('at', stage, z, sy) | ('blk', stage, z, sy, woken)
    def begin(self, c, args, who, sh, mem=()):
        t = T(who); self.m.push(t, c, args); t.mem = dict(mem)
        return t.freeze(self.m)
    def run(self, stage, z, sh, other):
        self.m.other = other
        key = (z, sh, other)
        acc, outs = self.m.segment(z, sh)
        return [(('seg', stage, acc, end), s) for end, s in outs]
    def start_calls(self):
        r = []
        for nm, c in self.calls: r.append((nm, c, self.argv(c)))
        return r
    def argv(self, c):
        a = [('p', 'this', 0)]
        for p in c.fn.args[1:]:
            if p['t'] != 'ptr' or 'coerce' in p['name']: a.append(TOP)
            elif 'EncodingInfo const&' in c.fn.full: a.append(('p', ('arg', 'info'), 0))
            elif 'Span<unsigned char>&' in c.fn.full: a.append(('p', ('arg', 'output'), 0))
            else: a.append(TOP)
        return a
    def explore(self):
        m = self.m
        init = []
        z = self.begin(self.ctor, self.argv(self.ctor), 'client', ())
        for comp, sh in self.run('the constructor', z, freeze_sh({'failed': 0}), ('none',)): init.append((comp, ('none',), sh, ()))
        self.seen = {}; self.edges = {}; work = deque()
        for s in init:
            if s not in self.seen: self.seen[s] = None; work.append(s)
        while work:
            s = work.popleft()
            if len(self.seen) > self.limit: raise Unsupported('too many joint states')
            self.check(s)
            es = []
            for spur, n in self.succ(s):
                n = self.canon(n); es.append((spur, n))
                if n not in self.seen: self.seen[n] = s; work.append(n)
            self.edges[s] = es
        self.deadlocks()
    def canon(self, s):
        for _ in range(2):
            if s[0][0] == 'seg' and not s[0][2] and s[0][3][0] == 'at': s = (('at', s[0][1], s[0][3][1], s[0][3][2]),) + s[1:]
            if s[1][0] == 'seg' and not s[1][2] and s[1][3][0] == 'at': s = (s[0], ('at', s[1][1], s[1][3][1], s[1][3][2])) + s[2:]
        order = {}; 
        names(s[2], order); names(s[0], order); names(s[1], order)
        ren = {k: 'buffer %d' % i for i, k in enumerate(order)}
        if all(k == v for k, v in ren.items()): return s
        r = rename(s, ren)
        return r
    def check(self, s):
        cl, wk, sh, own = s
        ca = cl[2] if cl[0] == 'seg' else frozenset({(self.OUT, True)}) if cl[0] in ('out', 'done') else None
        wa = wk[2] if wk[0] == 'seg' else None
        if ca and wa:
            self.pairs.add((ca, wa))
            cm = {}
            for l, w in ca: cm[l] = cm.get(l, False) or w
            for l, w in wa:
                if l in cm and (w or cm[l]):
                    if cl[0] != 'seg': self.after.setdefault(l, self.m.lines.get((l, w, 'worker'), '?')); continue
                    self.races.setdefault(l, (self.m.lines.get((l, cm[l], 'client')) or self.m.lines.get((l, not cm[l], 'client')) or 'the caller', self.m.lines.get((l, w, 'worker'), '?'), cl[1] if cl[0] == 'seg' else 'after the call'))
    def succ(self, s):
        cl, wk, sh, own = s
        r = []
        if cl[0] == 'out':
            for nm, c, av in self.start_calls():
                d = dict(sh); d['failed'] = 0
                z = self.begin(c, av, 'client', sh)
                for comp, s2 in self.run(nm, z, freeze_sh(d), wk): r.append((False, (comp, wk, s2, own)))
            z = self.begin(self.dtor, self.argv(self.dtor), 'client', sh)
            for comp, s2 in self.run('the destructor', z, sh, wk): r.append((False, (comp, wk, s2, own)))
        for which in (0, 1): r += self.step(s, which)
        return r
    def step(self, s, which):
        comp = s[which]; oth = s[1 - which]; sh, own = s[2], s[3]; k = comp[0]; me = ('client', 'worker')[which]; m = self.m
        mk = lambda c, sh2=sh, own2=own, o=oth: (c, o, sh2, own2) if which == 0 else (o, c, sh2, own2)
        if k == 'seg':
            end = comp[3]
            if end[0] == 'at': return [(False, mk(('at', comp[1], end[1], end[2])))]
            if any(o == me for _, o in own): self.m.problem('locks are released', comp[1], 'a mutex is still held when %s ends' % comp[1])
            if which == 1:
                if end[1] == 'exception': m.problem('no exception leaves the worker', comp[1], 'an exception leaves the function run by the worker thread (the program is terminated)')
                return [(False, mk(('ended', end[1])))]
            d = dict(sh)
            if comp[1] == 'the constructor':
                if end[1] == 'exception':
                    if oth[0] not in ('none', 'ended'): m.problem('the worker does not outlive the object', comp[1], 'the constructor fails while the worker is running')
                    return []
                return [(False, mk(('out',)))]
            if comp[1] == 'the destructor':
                if oth[0] not in ('none', 'ended'): m.problem('the worker does not outlive the object', comp[1], 'the destructor returns while the worker is running')
                if end[1] == 'exception': m.problem('the destructor does not throw', comp[1], '')
                return [(False, mk(('done',)))]
            if end[1] == 'return' and d.get('failed'): m.problem('a failure of the worker is reported', comp[1], '%s returns normally although the worker failed' % comp[1])
            d['failed'] = 0
            return [(False, mk(('out',), freeze_sh(d)))]
        if k == 'at': return self.exec(s, which)
        if k == 'blk':
            _, stage, z, sy, woken = comp
            if any(o for l, o in own if l == sy[2]): 
                return [] if woken else [(not sy[3], mk(('blk', stage, z, sy, True)))]
            if not woken: return [(not sy[3], mk(('blk', stage, z, sy, True)))]
            own2 = tuple(sorted(set(own) | {(sy[2], me)}))
            return [(False, x) for x in self.resume(which, stage, z, sh, own2, oth)]
        return []
    def resume(self, which, stage, z, sh, own, oth, setcell=None, ret=TOP):
        """complete the call at which the thread stands and run to its next synchronisation"""
        m = self.m; t = T.thaw(z, m); d = dict(sh); f = t.frames[-1]; ins = f.c.blocks[f.b][f.i]
        if 'i' in ins: f.env[ins['i']] = ret
        if setcell: m.put(t, d, setcell[0], setcell[1])
        m.advance(f, ins)
        out = []
        for comp, s2 in self.run(stage, t.freeze(m), freeze_sh(d), oth): out.append((comp, oth, s2, own) if which == 0 else (oth, comp, s2, own))
        return out
    def throwing(self, which, stage, z, sh, own, oth):
        m = self.m; t = T.thaw(z, m); d = dict(sh); out = []
        for t2, s2, end in m.throw(t, d):
            if end is not None: comps = [(('seg', stage, frozenset(), end), freeze_sh(s2))]
            else: comps = self.run(stage, t2.freeze(m), freeze_sh(s2), oth)
            for comp, s3 in comps: out.append((comp, oth, s3, own) if which == 0 else (oth, comp, s3, own))
        return out
    def exec(self, s, which):
        comp, oth = s[which], s[1 - which]; sh, own = s[2], s[3]; m = self.m
        _, stage, z, sy = comp; me = ('client', 'worker')[which]; op = sy[0]
        N = lambda xs: [(False, x) for x in xs]
        t = T.thaw(z, m); f = t.frames[-1]; ins = f.c.blocks[f.b][f.i]; where = f.c.fn.locfn(ins)[0]
        self.syncs[me].add((op, where))
        if op == 'acquire':
            o = dict(own).get(sy[1])
            if o == me: m.problem('no thread locks a mutex it holds', where, 'the mutex is locked again by its owner'); return []
            if o: return []
            return N(self.resume(which, stage, z, sh, tuple(sorted(own + ((sy[1], me),))), oth, (sy[2], ('lk', sy[1], 1)) if sy[2] else None))
        if op == 'bind': return N(self.resume(which, stage, z, sh, own, oth, (sy[2], ('lk', sy[1], int(sy[3])))))
        if op == 'release':
            if dict(own).get(sy[1]) != me: m.problem('locks are released by their owner', where, 'a mutex that is not held is unlocked')
            own2 = tuple(x for x in own if x[0] != sy[1])
            return N(self.resume(which, stage, z, sh, own2, oth, (sy[2], ('lk', sy[1], 0)) if sy[2] else None))
        if op == 'wait':
            if dict(own).get(sy[2]) != me: m.problem('a thread waits with the mutex locked', where, ''); return []
            own2 = tuple(x for x in own if x[0] != sy[2])
            c = ('blk', stage, z, sy, False)
            return [(False, (c, oth, sh, own2) if which == 0 else (oth, c, sh, own2))]
        if op == 'notify':
            o2 = oth
            if oth[0] == 'blk' and oth[3][1] == sy[1]: o2 = ('blk', oth[1], oth[2], oth[3], True)
            return N(self.resume(which, stage, z, sh, own, o2))
        if op == 'start':
            out = N(self.throwing(which, stage, z, sh, own, oth))
            if which == 1: raise Unsupported('the worker starts a thread')
            if oth[0] not in ('none', 'ended'): m.problem('there is one worker at a time', where, 'a second worker is started while the first one runs'); return out
            fn, arg = sy[2]; c = m.by.get(fn)
            if c is None: raise Unsupported('the function run by the thread was not analysed')
            wt = T('worker')
            if arg is True: m.push(wt, c, [('p', 'this', 0)])
            else:
                ptr = ('p', ('al', -1, 0), 0)
                for k2, v in t.mem.items():
                    if arg is not None and arg[0] == 'p' and k2[0] == arg[1]: wt.mem[(('al', -1, 0), k2[1] - (arg[2] or 0))] = v
                m.push(wt, c, [ptr])
            zw = wt.freeze(m)
            # the worker may run before the creating call returns
            for comp2, s2 in self.run('the worker', zw, sh, ('blk', stage, z)):
                for st in self.resume(0, stage, z, s2, own, comp2, (sy[1], ('k', 1))): out.append((False, st))
            return out
        if op == 'join':
            if oth[0] == 'none': m.problem('only a started thread is joined', where, ''); return []
            if oth[0] != 'ended': return []
            return N(self.resume(which, stage, z, sh, own, ('none',), (sy[1], ('k', 0))))
        if op == 'detach': m.problem('the worker is joined', where, 'the worker is detached'); return N(self.resume(which, stage, z, sh, own, oth, (sy[1], ('k', 0))))
        if op == 'atomic':
            d = dict(sh); a = [m.val(f, x) for x in ins['a']]; nm = sy[2]; v = TOP
            if nm in ('store', 'operator='): 
                if len(a) > 1 and a[1] is not None: d[sy[1]] = a[1]
                else: d.pop(sy[1], None)
                v = a[1] if len(a) > 1 else TOP
            elif nm.startswith(('load', 'operator')) and nm not in ('operator++', 'operator--', 'operator+=', 'operator-='): v = d.get(sy[1])
            elif nm == 'exchange':
                v = d.get(sy[1])
                if len(a) > 1 and a[1] is not None: d[sy[1]] = a[1]
                else: d.pop(sy[1], None)
            else: d.pop(sy[1], None)
            return N(self.resume(which, stage, z, freeze_sh(d), own, oth, None, v))
        raise Unsupported('synchronisation ' + op)
    def normal(self, name):
        """(states between calls, those from which a call of that name never returns normally)"""
        outs = [s for s in self.seen if s[0][0] == 'out']
        pred = {}
        for s, es in self.edges.items():
            if s[0][0] == 'out': continue
            for spur, n in es:
                if not spur: pred.setdefault(n, []).append(s)
        good = set(); work = [s for s in self.seen if s[0][0] == 'seg' and s[0][1] == name and s[0][3] == ('end', 'return')]
        good.update(work)
        while work:
            for p in pred.get(work.pop(), ()):
                if p not in good: good.add(p); work.append(p)
        return len(outs), sum(1 for s in outs if not any(n in good for _, n in self.edges[s]))
    def deadlocks(self):
        good = {s for s in self.seen if s[0][0] in ('out', 'done')}
        pred = {}
        for s, es in self.edges.items():
            for spur, n in es:
                if not spur: pred.setdefault(n, []).append(s)
            # a failing constructor ends the history
            if not es and s[0][0] == 'seg' and s[0][3] == ('end', 'exception') and s[0][1] == 'the constructor': good.add(s)
        work = list(good)
        while work:
            x = work.pop()
            for p in pred.get(x, ()):
                if p not in good: good.add(p); work.append(p)
        for s in self.seen:
            if s in good: continue
            cl, wk = s[0], s[1]
            w = cl[1]; p = '?'
            if cl[0] in ('at', 'blk'):
                t = T.thaw(cl[2], self.m); f = t.frames[-1]; p = f.c.fn.locfn(f.c.blocks[f.b][f.i])[0]
            elif cl[0] == 'seg' and any(n != s for _, n in self.edges[s]): continue
            if not all(n in self.seen and n not in good for _, n in self.edges[s]): continue
            pw = wk[0]
            if wk[0] in ('at', 'blk'):
                t = T.thaw(wk[2], self.m); f = t.frames[-1]; pw = f.c.fn.locfn(f.c.blocks[f.b][f.i])[0]
            if self.edges[s] and not all(sp for sp, _ in self.edges[s]): continue
            self.m.problem('every wait ends', p, '%s can wait for ever at %s (worker: %s)' % (w, p, pw))
        # states that are not dead but from which the call never ends
        if any(s not in good for s in self.seen) and not any(k[0] == 'every wait ends' for k in self.m.problems):
            bad = next(s for s in self.seen if s not in good)
            self.m.problem('every wait ends', bad[0][1], '%s may never end' % bad[0][1])
