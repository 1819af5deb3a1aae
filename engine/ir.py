"""Loads the JSON produced by cldnir and offers CFG helpers (dominators, natural loops, liveness)."""
import os
REPO = os.environ.get('CLDN_REPO', '/repo') + '/'
import json

class Module:
    def __init__(self, path):
        m = json.load(open(path))
        self.m = m
        self.strs = m['strs']; self.types = m['types']; self.enums = m['enums']
        self.globals = m['globals']; self.vtables = m['vtables']; self.typeinfo = m['typeinfo']
        self.index = m['index']
        self.fn_q = {e[0]: e[1] for e in self.index}
        self.fn_full = {e[0]: e[2] for e in self.index}
        self.roots = [Func(self, f) for f in m['roots']]
        self.raw = [Func(self, f) for f in m['raw']]
    def find(self, pred, raw=False):
        return [f for f in (self.raw if raw else self.roots) if pred(f)]
    def root(self, sub):
        r = [f for f in self.roots if f.full.startswith(sub) or f.q == sub or f.name == sub]
        return r
    def enum(self, suffix):
        r = [(k, v) for k, v in self.enums.items() if k == suffix or k.endswith('::' + suffix)]
        if not r: return None
        return {k: int(v) for k, v in r[0][1].items() if not k.startswith('@')}
    def type(self, suffix):
        r = [v for k, v in self.types.items() if k == suffix or k.endswith('::' + suffix)]
        return r[0] if r else None
    def cstr(self, gname, off=0):
        g = self.globals.get(gname)
        if not g or 'strhex' not in g: 
            if g and g.get('zero'): return ''
            return None
        b = bytes.fromhex(g['strhex'])[off:]
        return b.split(b'\0')[0].decode('latin1')
    def gbytes(self, gname):
        g = self.globals.get(gname)
        if not g: return None
        if 'strhex' in g: return bytes.fromhex(g['strhex'])
        if g.get('zero'): return bytes(g['sz'])
        if 'arr' in g:
            out = b''
            for e in g['arr']:
                if e[0] != 'c': return None
                out += int(e[1]).to_bytes(g['esz'], 'little')
            return out
        if 'int' in g: return int(g['int']).to_bytes(g['sz'], 'little')
        return None

TERM = ('br', 'switch', 'invoke', 'ret', 'resume', 'unreachable')

class Func:
    def __init__(self, mod, f):
        self.mod = mod; self.f = f
        self.name = f['name']; self.q = f['q']; self.full = f['full']; self.blocks = f['blocks']
        self.args = f['args']; self.file = f.get('file', ''); self.line = f.get('line', 0)
        self.dtypes = f.get('dtypes', [])
        self.N = len(self.blocks)
        self._succ = [self._succs(b) for b in range(self.N)]
        self._cfg = {}
        for bi, b in enumerate(self.blocks):
            for k, ins in enumerate(b): ins['b'] = bi; ins['k'] = k
        self.defs = {}
        for b in self.blocks:
            for ins in b:
                if 'i' in ins: self.defs[ins['i']] = ins
    def _succs(self, b):
        t = self.blocks[b][-1]; o = t['o']
        if o == 'br': return list(dict.fromkeys(t['s']))
        if o == 'switch': return list(dict.fromkeys([c[1] for c in t['cases']] + [t['def']]))
        if o == 'invoke': return [t['n'], t['u']]
        return []
    def loc(self, ins):
        d = ins.get('d')
        if not d: return '?:0'
        return '%s:%d' % (self.mod.strs[d[1]].replace(REPO, ''), d[0])
    def locfn(self, ins):
        """innermost project frame and the enclosing function names"""
        d = ins.get('d')
        if not d: return '?', '?'
        fr = [(self.mod.strs[d[k + 1]], d[k], self.mod.strs[d[k + 2]]) for k in range(0, len(d), 3)]
        for f, l, fn in fr:
            if f.startswith(REPO): return '%s:%d' % (f.replace(REPO, ''), l), fn
        return '%s:%d' % (fr[0][0], fr[0][1]), fr[0][2]
    def frames(self, ins):
        d = ins.get('d') or []
        return [(self.mod.strs[d[k + 1]], d[k], self.mod.strs[d[k + 2]]) for k in range(0, len(d), 3)]
    def cfg(self, unwind):
        if unwind in self._cfg: return self._cfg[unwind]
        c = CFG(self, unwind); self._cfg[unwind] = c
        return c

def ops_of(ins):
    r = []
    for a in ins.get('a', ()):
        if isinstance(a, int): r.append(a)
    for v in ins.get('vars', ()) or ():
        if isinstance(v[0], int): r.append(v[0])
    if isinstance(ins.get('ind'), int): r.append(ins['ind'])
    return r

class Loop:
    __slots__ = ('header', 'blocks', 'latches', 'children', 'parent')

class CFG:
    def __init__(self, fn, unwind):
        self.fn = fn
        N = fn.N
        self.succ = []
        for b in range(N):
            t = fn.blocks[b][-1]
            if t['o'] == 'invoke' and not unwind: self.succ.append([t['n']])
            else: self.succ.append(fn._succ[b])
        # reachable + rpo
        seen = [False] * N; order = []
        st = [(0, iter(self.succ[0]))]; seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True; st.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); st.pop()
        self.rpo = order[::-1]; self.num = {b: i for i, b in enumerate(self.rpo)}
        self.preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]: self.preds[s].append(b)
        self.idom = self._idom(self.rpo, self.preds, self.num)
        self._loops()
        self._live()
    @staticmethod
    def _idom(rpo, preds, num):
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new: idom[b] = new; ch = True
        return idom
    def dominates(self, a, b):
        while True:
            if a == b: return True
            n = self.idom.get(b)
            if n is None or n == b: return False
            b = n
    def _loops(self):
        loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.num[s] <= self.num[b] and self.dominates(s, b):
                    L = loops.get(s)
                    if L is None:
                        L = Loop(); L.header = s; L.blocks = {s}; L.latches = set(); L.children = []; L.parent = None; loops[s] = L
                    L.latches.add(b)
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in L.blocks:
                            L.blocks.add(x); stack.extend(self.preds[x])
        ls = sorted(loops.values(), key=lambda l: len(l.blocks))
        self.top = []
        for i, L in enumerate(ls):
            for M in ls[i + 1:]:
                if L.header in M.blocks and M is not L:
                    L.parent = M; M.children.append(L); break
            else: self.top.append(L)
        self.loops = ls
        self.loop_of = {}
        for L in sorted(ls, key=lambda l: -len(l.blocks)):
            for b in L.blocks: self.loop_of[b] = L
    def _live(self):
        use = {}; de = {}; phiuse = {}
        for b in self.rpo:
            u = set(); d = set()
            for ins in self.fn.blocks[b]:
                if ins['o'] == 'phi':
                    d.add(ins['i'])
                    for v, p in ins['in']:
                        if isinstance(v, int): phiuse.setdefault(p, set()).add(v)
                    continue
                for x in ops_of(ins):
                    if x not in d: u.add(x)
                if 'i' in ins: d.add(ins['i'])
            use[b] = u; de[b] = d
        self.livein = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set(phiuse.get(b, ()))
                for s in self.succ[b]: out |= self.livein[s]
                n = use[b] | (out - de[b])
                if n != self.livein[b]: self.livein[b] = n; ch = True
        # values defined in block by phi are kept by the caller
        # alloca liveness: blocks from which an alloca (or an address derived from it) is still used
        der = {}
        for b in self.rpo:
            for ins in self.fn.blocks[b]:
                if ins['o'] == 'alloca': der[ins['i']] = {ins['i']}
        root = {a: a for a in der}
        esc = set()
        ch = True
        while ch:
            ch = False
            for b in self.rpo:
                for ins in self.fn.blocks[b]:
                    o = ins['o']
                    if o in ('getelementptr', 'bitcast') and isinstance(ins['a'][0], int) and ins['a'][0] in root and ins['i'] not in root:
                        root[ins['i']] = root[ins['a'][0]]; ch = True
                    elif o in ('phi', 'select'):
                        vs = [v for v, _ in ins['in']] if o == 'phi' else ins['a'][1:]
                        for v in vs:
                            if isinstance(v, int) and v in root:
                                if o == 'phi' or o == 'select':
                                    esc.add(root[v])
        for b in self.rpo:
            for ins in self.fn.blocks[b]:
                o = ins['o']
                if o == 'store' and isinstance(ins['a'][0], int) and ins['a'][0] in root: esc.add(root[ins['a'][0]])
                elif o in ('ret', 'insertvalue', 'ptrtoint'):
                    for x in ops_of(ins):
                        if x in root: esc.add(root[x])
                elif o in ('call', 'invoke'):
                    # the address may be kept by library objects: treat as escaping unless a known leaf
                    for x in ops_of(ins):
                        if x in root and not ins.get('q', '').startswith(('llvm.', 'std::runtime_error', 'std::__cxx11::basic_string', 'std::operator', 'std::vector', 'std::allocator')):
                            esc.add(root[x])
        self.alloca_esc = esc
        usesin = {}
        for b in self.rpo:
            s = set()
            for ins in self.fn.blocks[b]:
                for x in ops_of(ins):
                    if x in root: s.add(root[x])
                if ins['o'] == 'phi':
                    for v, _ in ins['in']:
                        if isinstance(v, int) and v in root: s.add(root[v])
            usesin[b] = s
        self.alloca_live = {b: set(usesin[b]) for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                n = set(usesin[b])
                for s in self.succ[b]: n |= self.alloca_live[s]
                if n != self.alloca_live[b]: self.alloca_live[b] = n; ch = True
