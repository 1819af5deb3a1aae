"""C06: chunks and messages are independent."""
import re
import build, memsafe, effects, cfactory
from rules import c18
from effects import Fn, last

EXPLAIN = ("(1) The state a field codec's reset() leaves is the state its constructor leaves, for every member that is not a parameter of the field (value graphs of both "
 "functions). (2) In every function that calls encode/decode of field codecs, a typestate analysis over the control-flow graph shows that each such call is preceded, "
 "since the function was entered or the last chunk was handed out, by a loop that resets every codec of the vector. (3) For the adaptive integer fields a "
 "path-sensitive dataflow analysis over one chunk shows that no member other than the committed mode and scratch capacity is read before it is written in that chunk.")

STAGE = [r'Cloudini::detail::(Encode|Decode)\w*Stage1\w*$']
def boundary(fn, ins):
    """the chunk encoded so far is handed out: call of a callback or of the chunk writer"""
    if ins['o'] not in ('call', 'invoke'): return False
    q = ins.get('q') or ''
    if re.search(r'WriteStage1Chunk$|CompressChunk$|DecompressChunk$|std::function<.*>::operator\(\)$', q): return True
    if 'ind' in ins:
        s = fn.d(ins['ind'])
        return bool(s and s['o'] == 'load' and (s.get('tb') or [''])[0] != 'vtable pointer' and not is_vcall(fn, s))
    return False
def is_vcall(fn, slot):
    v = fn.d(fn.chase(slot['a'][0])[0])
    return bool(v and v['o'] == 'load' and (v.get('tb') or [''])[0] == 'vtable pointer')

def resets(ctx, m):
    slots = memsafe.vslots(m); seen = {}
    for f in m.roots:
        fn = Fn(f); calls = []
        for b in fn.cfg.rpo:
            for ins in f.blocks[b]:
                v = fn.virtual(ins, slots)
                if v: calls.append((ins, v))
        uses = [(i, v) for i, v in calls if v[1] in ('encode', 'decode')]
        if not uses: continue
        w = f.q.split('::')[-1]
        done = {}          # exit edge of a loop that resets every codec -> class
        for ins, (cls, meth, el) in calls:
            if meth != 'reset': continue
            ok = el is not None and el['full'] and all(fn.cfg.dominates(ins['b'], l) for l in el['loop'].latches)
            ctx.ob('a reset loop covers every codec', '%s: %s::reset' % (w, cls), ok, 'at %s: %s' % (fn.f.locfn(ins)[0], el['why'] if el else 'the codec is not an element of a vector that is walked'))
            if ok:
                for e in fn.exits(el['loop']): done[e] = cls
        # per class: 2 reset and not used, 1 used since the reset, 0 unknown
        byins = {id(i): v for i, v in uses}
        def transfer(ins, s):
            if id(ins) in byins: return tuple((c, min(x, 1) if c == byins[id(ins)][0] else x) for c, x in s)
            if boundary(fn, ins): return tuple((c, 0 if x == 1 else x) for c, x in s)
            return s
        def edge(b, t, s): return tuple((c, 2 if c == done.get((b, t)) else x) for c, x in s)
        inn = fn.fixpoint((('FieldDecoder', 0), ('FieldEncoder', 0)), transfer, edge, lambda a, b: tuple((c, min(x, y)) for (c, x), (_, y) in zip(a, b)))
        for ins, (cls, meth, el) in uses:
            s = inn.get(ins['b'], ())
            for x in f.blocks[ins['b']]:
                if x is ins: break
                s = transfer(x, s)
            ctx.ob('codecs are reset before the first value of a chunk', '%s: %s::%s' % (w, cls, meth), dict(s).get(cls, 0) > 0, 'at %s: a path from the start of the chunk does not pass a loop that resets the codecs' % fn.f.locfn(ins)[0])
            seen.setdefault((cls, meth), []).append(w); ctx.count('codec call sites')
    for k in (('FieldEncoder', 'encode'), ('FieldDecoder', 'decode')):
        ctx.need(seen.get(k), 'no call of %s::%s found' % k)

STRUCT = 'V5AdaptiveIntField'
MODE = ('committed', 'committed_mode')
SETUP = ('field_index', 'name', 'type', 'offset', 'bytes_per_value')
CLEARS = ('clear', 'assign', 'operator=')
NEUTRAL = ('reserve', 'capacity', '~vector', 'shrink_to_fit')

def adaptive(ctx, m, f):
    """one chunk of the version 5 encoder, for one abstract adaptive field"""
    fn = Fn(f); w = f.q.split('::')[-1]
    ty = next((t for t in m.types if STRUCT in str(t)), None) if hasattr(m, 'types') else None
    mem = None
    for t in (m.types if isinstance(m.types, dict) else {}):
        if t.endswith(STRUCT): mem = {x[0]: x for x in m.types[t]['members']} if 'members' in m.types[t] else None; ty = t
    ctx.need(ty, 'adaptive field state not found')
    mem = cfactory.members(m, ty)
    at = {c[1]: n for n, c in mem.items()}
    size = (m.type(ty) or {}).get('size')
    def member_at(off):
        best = max((o for o in at if o <= off), default=None)
        return at.get(best)
    # pointers to the element and to its members
    isel = {}
    def elem(p):
        """member name when p points into an adaptive field"""
        root, off = fn.chase(p)
        if not isinstance(root, int): return None
        if root not in isel:
            e = fn.element(root)
            ok = False
            d = fn.d(root)
            # the gep type tells what is walked
            for b in fn.cfg.rpo:
                for x in fn.blocks[b]:
                    if x['o'] == 'getelementptr' and x['a'][0] == root and STRUCT in x.get('st', ''): ok = True
                    if x['o'] in ('load', 'store') and STRUCT in (x.get('tb') or [''])[0] and fn.chase(x['a'][-1])[0] == root: ok = True
            isel[root] = ok and (d is None or d['o'] != 'alloca') and (e is not None)
        return member_at(off) if isel[root] else None
    # chunk loop: the outermost loop that contains the accesses
    acc = {}
    for b in fn.cfg.rpo:
        for ins in fn.blocks[b]:
            n = None
            if ins['o'] == 'load': n = elem(ins['a'][0]); k = 'read'
            elif ins['o'] == 'store': n = elem(ins['a'][1]); k = 'write'
            elif ins['o'] == 'call' and re.match(r'llvm\.mem(set|cpy|move)', ins.get('q') or ''):
                for i in (0, 1):
                    p0 = ins['a'][i] if isinstance(ins['a'][i], int) else None
                    if p0 is None or elem(p0) is None or (i and 'set' in ins['q']): continue
                    o0 = fn.chase(p0)[1]; ln = ins['a'][2]; ln = int(ln[1]) if isinstance(ln, list) and ln[0] == 'c' else 1
                    for o1, n1 in at.items():
                        if o0 <= o1 < o0 + ln: acc.setdefault(b, []).append((ins, n1, 'write' if i == 0 else 'read'))
                continue
            elif ins['o'] in ('call', 'invoke') and ins.get('a') and ins.get('q'):
                for i, a in enumerate(ins['a']):
                    n = elem(a) if isinstance(a, int) else None
                    if n: k = ('write' if i == 0 and last(ins['q']) in CLEARS else 'none' if last(ins['q']) in NEUTRAL else 'read'); break
            if n: acc.setdefault(b, []).append((ins, n, k))
    ctx.need(acc, 'no access to the adaptive state found')
    tops = {}
    for b in acc:
        ls = list(fn.loops_of(b))
        if ls: tops[ls[-1].header] = tops.get(ls[-1].header, 0) + len(acc[b])
    ctx.need(tops, 'chunk loop not found')
    H = max(tops, key=tops.get); CL = fn.header[H]
    # element loops inside: exactly one turn for the abstract field
    eloops = {}
    for L in fn.cfg.loops:
        if L.header in CL.blocks and L is not CL:
            for ins in fn.blocks[L.header]:
                if ins['o'] == 'phi':
                    if isel.get(ins['i']): eloops[L.header] = L
                    e = fn.element(ins['i']) if ins['t'] == 'ptr' else None
    chunk_local = {}
    def key(n): return n
    viol = {}
    members = sorted(set(x[1] for l in acc.values() for x in l))
    # dataflow: set of (committed or None, streaming.., written set, turn set)
    bools = [n for n in mem if mem[n][3] == 'bool' and n in members]
    def run(report):
        start = frozenset([((('committed', None),), frozenset(), frozenset())])
        inn = {H: start}; work = [H]
        def get(v, n): return dict(v).get(n)
        def put(v, n, x):
            d = dict(v); d[n] = x; return tuple(sorted(d.items()))
        steps = 0
        while work:
            steps += 1
            if steps > 200000: raise RuntimeError('adaptive dataflow does not end')
            work.sort(key=lambda b: fn.cfg.num[b]); b = work.pop(0)
            cur = inn[b]
            for ins, n, k in acc.get(b, ()):
                nxt = set()
                for v, wr, turn in cur:
                    if k == 'read' and n not in wr and n not in SETUP and n not in MODE: report(ins, n, v, wr)
                    if k == 'write':
                        wr2 = wr | {n}
                        v2 = v
                        if n in bools:
                            x = ins['a'][0] if ins['o'] == 'store' else ins['a'][1] if 'memset' in (ins.get('q') or '') else None; v2 = put(v, n, bool(int(x[1])) if isinstance(x, list) and x[0] == 'c' else None)
                        nxt.add((v2, wr2, turn))
                    else: nxt.add((v, wr, turn))
                cur = frozenset(nxt)
            t = fn.blocks[b][-1]
            # branch on a boolean member
            tested = None
            if t['o'] == 'br' and len(t['s']) == 2:
                c = fn.d(t['a'][0]); neg = False
                for _ in range(6):
                    if c and c['o'] == 'xor' and any(isinstance(x, list) for x in c['a']): neg = not neg; c = fn.d([x for x in c['a'] if isinstance(x, int)][0])
                    elif c and c['o'] in ('trunc', 'zext', 'freeze'): c = fn.d(c['a'][0])
                    elif c and c['o'] == 'icmp' and c['p'] in ('eq', 'ne') and any(isinstance(x, list) and x[0] == 'c' and x[1] == '0' for x in c['a']):
                        if c['p'] == 'eq': neg = not neg
                        c = fn.d([x for x in c['a'] if isinstance(x, int)][0])
                    else: break
                if c and c['o'] == 'load':
                    n = elem(c['a'][0])
                    if n in bools: tested = (n, neg)
            for s in fn.cfg.succ[b]:
                if s not in CL.blocks or s == H: continue
                out = set()
                for v, wr, turn in cur:
                    v2 = tuple((k, x) for k, x in v if not isinstance(k, tuple))
                    if tested:
                        n, neg = tested; val = (t['s'][0] == s) != neg; have = get(v2, n)
                        if have is not None and have != val: continue
                        v2 = put(v2, n, val)
                    # exactly one turn of an element loop
                    tr = turn
                    if s in eloops and b in eloops[s].blocks: tr = turn | {s}
                    if b in eloops and s not in eloops[b].blocks and s in fn.ok and b not in turn: continue
                    if b in eloops and s in eloops[b].blocks and s != b and b in turn: continue
                    if b in eloops and s not in eloops[b].blocks: tr = tr - {b}
                    out.add((v2, wr, tr))
                if not out: continue
                m_ = inn.get(s, frozenset()) | out
                if s not in inn or m_ != inn[s]:
                    inn[s] = m_
                    if s not in work: work.append(s)
        return steps, sum(len(x) for x in inn.values())
    GEN = [n for n in members if n not in SETUP and n not in MODE]
    def report(ins, n, v, wr): viol.setdefault(n, []).append((ins, v, wr))
    st = run(report)
    isvec = lambda n: (mem[n][3] or '').startswith('std::vector')
    RULE = 'adaptive state is written before it is read in each chunk'; SCR = 'scratch that survives a chunk carries a generation'
    vecs = {n for n in viol if isvec(n)}
    gens = {n for n in viol if not isvec(n) and counter(fn, acc, n)}
    for n in GEN:
        if n not in viol: ctx.ob(RULE, '%s: %s' % (w, n), True); continue
        bad = viol[n]
        if n in vecs and gens: bad = [x for x in bad if not (x[0]['o'] == 'call' and last(x[0]['q']) in ('size', 'empty')) and not (x[2] & gens)]
        elif n in gens: bad = [x for x in bad if not increments(fn, x[0], n, acc) and not (x[2] & set(m_ for m_ in mem if isvec(m_) and m_ in vecs))]
        ctx.ob(SCR if n in vecs or n in gens else RULE, '%s: %s' % (w, n), not bad, bad and 'at %s: what an earlier chunk left is used%s' % (fn.f.locfn(bad[0][0])[0], ' (%s)' % ', '.join('%s=%s' % x for x in bad[0][1])))
    ctx.set('adaptive dataflow', dict(members=len(members), accesses=sum(map(len, acc.values())), states=st[1]))

def counter(fn, acc, n):
    """the member is advanced from its own value"""
    return any(increments(fn, ins, n, acc) for l in acc.values() for ins, k, kind in l if k == n and kind == 'read')
def increments(fn, ld, n, acc):
    """the value loaded is only used to store its successor"""
    if ld['o'] != 'load': return False
    use = [x for b in fn.cfg.rpo for x in fn.blocks[b] if ld['i'] in effects.ops_of(x) or (x['o'] == 'phi' and any(v == ld['i'] for v, _ in x['in']))]
    st = {id(i) for l in acc.values() for i, k, kind in l if k == n and kind == 'write'}
    if not use: return False
    for u in use:
        if u['o'] not in ('add', 'sub') or not any(isinstance(a, list) and a[0] == 'c' and int(a[1]) for a in u['a']): return False
        if not any(id(x) in st and x['a'][0] == u['i'] for b in fn.cfg.rpo for x in fn.blocks[b] if x['o'] == 'store'): return False
    return True

def run(ctx):
    c18.initial(ctx, both=False, relation=False)
    m = build.module('core', [r'Cloudini::detail::(Encode|Decode)\w*Stage1\w*\([^$]*$', r'Cloudini::Pointcloud(En|De)coder::(encode|decode|decodeChunk)\([^$]*$'], noinline=STAGE)
    resets(ctx, m)
    for f in m.roots:
        if re.search(r'detail::Encode\w*Stage1', f.q) and any(STRUCT in (x.get('tb') or [''])[0] for b in f.blocks for x in b): adaptive(ctx, m, f)
