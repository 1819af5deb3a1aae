"""element loops over vectors and typestate along the control-flow graph"""
import re
from ir import ops_of

def last(q): return (q or '').split('::')[-1]
class Fn:
    def __init__(self, f):
        self.f = f; self.cfg = f.cfg(False); self.blocks = f.blocks
        ok = {b for b in self.cfg.rpo if f.blocks[b][-1]['o'] == 'ret'}
        ch = True
        while ch:
            ch = False
            for b in self.cfg.rpo:
                if b not in ok and any(s in ok for s in self.cfg.succ[b]): ok.add(b); ch = True
        self.ok = ok
        self.header = {L.header: L for L in self.cfg.loops}
        self.argi = {a['i'] for a in f.args}
    def d(self, v): return self.f.defs.get(v) if isinstance(v, int) else None
    def chase(self, p):
        """(root, constant offset) of a pointer"""
        off = 0
        for _ in range(64):
            d = self.d(p)
            if d is None: break
            if d['o'] == 'getelementptr' and not d.get('vars'): off += d.get('off', 0); p = d['a'][0]
            elif d['o'] in ('bitcast', 'freeze'): p = d['a'][0]
            elif d['o'] == 'call' and last(d.get('q')) in ('forward', 'move', 'addressof', '__addressof'): p = d['a'][0]
            else: break
        return (p if isinstance(p, int) else tuple(map(str, p)) if isinstance(p, list) else p), off
    def loops_of(self, b):
        L = self.cfg.loop_of.get(b)
        while L: yield L; L = L.parent
    def exits(self, L):
        return [(b, s) for b in L.blocks for s in self.cfg.succ[b] if s not in L.blocks and s in self.ok]
    def step_phi(self, v, b):
        """(loop, initial value, step) of an induction variable"""
        d = self.d(v)
        if not d or d['o'] != 'phi': return None
        L = self.header.get(d['b'])
        if not L: return None
        init = [x for x, p in d['in'] if p not in L.blocks]; nxt = [x for x, p in d['in'] if p in L.blocks]
        if len(set(map(str, init))) != 1 or len(set(map(str, nxt))) != 1: return None
        n = self.d(nxt[0])
        if not n: return None
        if n['o'] == 'getelementptr' and n['a'][0] == v and not n.get('vars'): return L, init[0], n['off']
        if n['o'] == 'add' and v in n['a']:
            c = [x for x in n['a'] if x != v]
            if len(c) == 1 and isinstance(c[0], list) and c[0][0] == 'c': return L, init[0], int(c[0][1])
        return None
    def element(self, p, esz=None):
        """the loop that walks a vector when p points at (or into) the current element: dict(loop, vec, full, why)"""
        root, off = self.chase(p)
        d = self.d(root)
        if d is None: return None
        if d['o'] == 'call' and last(d.get('q')) in ('operator[]', 'at') and len(d['a']) == 2:
            vec = self.chase(d['a'][0]); s = self.step_phi(d['a'][1], d['b'])
            if not s: return dict(loop=None, vec=vec, full=False, why='one element', off=off)
            L, init, step = s; zero = isinstance(init, list) and init[:2] == ['c', '0']
            bound = 'size'; iv = d['a'][1]
        elif d['o'] == 'getelementptr' and len(d.get('vars') or ()) == 1:
            s = self.step_phi(d['vars'][0][0], d['b'])
            b = self.d(d['a'][0])
            if not s or not b or b['o'] != 'call': return None
            vec = self.chase(b['a'][0]); L, init, step = s; zero = isinstance(init, list) and init[:2] == ['c', '0'] and last(b.get('q')) in ('begin', 'data'); bound = 'size'; iv = d['vars'][0][0]
        else:
            s = self.step_phi(root, d['b'])
            if not s: return None
            L, init, step = s; iv = root
            ir, io = self.chase(init); i = self.d(ir)
            if not i or i['o'] != 'call' or not i.get('a'): return None
            vec = self.chase(i['a'][0]); zero = io == 0 and last(i.get('q')) in ('begin', 'cbegin', 'data'); bound = 'end'
        ex = self.exits(L); why = None
        if not zero: why = 'does not start at the first element'
        elif step <= 0 or (bound == 'size' and step != 1): why = 'skips elements'
        elif len(ex) != 1: why = 'leaves the loop in %d ways' % len(ex)
        else:
            t = self.blocks[ex[0][0]][-1]; c = self.d(t['a'][0]) if t['o'] == 'br' and t.get('a') else None
            while c and c['o'] == 'xor': c = self.d(c['a'][0])
            if not c or c['o'] != 'icmp' or iv not in c['a']: why = 'does not end at the last element'
            else:
                o = [x for x in c['a'] if x != iv]; e = self.d(self.chase(o[0])[0]) if o else None
                if not e or e['o'] != 'call' or last(e.get('q')) not in ('end', 'cend', 'size') or self.chase(e['a'][0]) != vec or self.chase(o[0])[1] != 0: why = 'does not end at the last element'
        return dict(loop=L, vec=vec, full=why is None, why=why, off=off)

    def virtual(self, ins, slots):
        """(base class, method, object's element source) of a virtual call on a field codec"""
        if ins['o'] not in ('call', 'invoke') or 'ind' not in ins: return None
        sl = self.d(ins['ind'])
        if not sl or sl['o'] != 'load': return None
        vt, off = self.chase(sl['a'][0]); v = self.d(vt)
        if not v or v['o'] != 'load' or v.get('tb', [''])[0] != 'vtable pointer': return None
        cls = None
        for b in self.cfg.rpo:
            for x in self.blocks[b]:
                if x['o'] == 'call' and x.get('q') in ('llvm.type.test', 'llvm.public.type.test') and x['a'][0] == vt:
                    g = re.search(r'(FieldEncoder|FieldDecoder)\w*E$', x.get('md', ''))
                    if g: cls = g.group(1)
        if cls is None: return None
        o = self.d(v['a'][0]); el = None
        if o and o['o'] == 'load': el = self.element(o['a'][0])
        elif o and o['o'] == 'call' and last(o.get('q')) in ('operator->', 'get', 'operator*'): el = self.element(o['a'][0])
        return cls, slots.get(cls, {}).get(off), el

    def fixpoint(self, init, transfer, edge, meet):
        """forward dataflow: state per block entry"""
        inn = {self.cfg.rpo[0]: init}; work = [self.cfg.rpo[0]]
        while work:
            work.sort(key=lambda b: self.cfg.num[b]); b = work.pop(0)
            s = inn[b]
            for ins in self.blocks[b]: s = transfer(ins, s)
            for t in self.cfg.succ[b]:
                n = edge(b, t, s)
                if n is None: continue
                m = n if t not in inn else meet(inn[t], n)
                if t not in inn or m != inn[t]:
                    inn[t] = m
                    if t not in work: work.append(t)
        return inn
