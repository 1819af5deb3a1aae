"""Joint exploration of the encoder and its compression thread, shared by C07 and C08."""
import re
import build, conc, cfactory, par

ENC = 'Cloudini::PointcloudEncoder'
MODES = [(c, t) for c in (0, 1, 2) for t in (0, 1)]

def one(l, what):
    from check import NoAnswer
    if len(l) != 1: raise NoAnswer('%s: %d candidates' % (what, len(l)))
    return l[0]

def explore(ctx):
    m = build.module('core', [r'^%s::' % ENC, r'^Cloudini::detail::EncodeV5Stage1\([^$]*$'],
                     noinline=[r'^Cloudini::detail::', r'^Cloudini::(Max|EncodeHeader)'], inline_extra=[r'^std::condition_variable(_any)?::wait'])
    t = ctx.need(m.type(ENC), 'class PointcloudEncoder not found'); ei = cfactory.members(m, 'Cloudini::EncodingInfo')
    ms = sorted(t['members'], key=lambda x: x[1])
    lay = [(x[1], ms[k + 1][1] if k + 1 < len(ms) else t['size'], x[0], x[3]) for k, x in enumerate(ms)]
    info = one([x for x in lay if x[3] == 'Cloudini::EncodingInfo'], 'the encoding information of the encoder')
    skip = {x[2] for x in lay if re.match(r'(const )?std::(_V2::)?(recursive_|timed_)*(mutex|condition_variable|shared_mutex)', x[3])}
    funcs = {f.name: f for f in m.roots}
    ctor = one([f for f in m.roots if f.q == ENC + '::PointcloudEncoder' and 'EncodingInfo' in f.full], 'constructor')
    dtor = one([f for f in m.roots if f.q == ENC + '::~PointcloudEncoder'], 'destructor')
    calls = [f for f in m.roots if f.q == ENC + '::encode']
    ctx.need(calls, 'encode not found')
    def job(mode):
        comp, thr = mode
        pin = {info[0] + ei['compression_opt'][1]: comp, info[0] + ei['use_threads'][1]: thr}
        M = conc.Machine(funcs, lay, pin, t, skip); M.other = None
        nm = lambda f: 'encode(' + re.sub(r'.*::encode\(', '', f.full).replace(', std::allocator<unsigned char>', '')
        p = conc.Pair(M, M.by[ctor.name], [(nm(f), M.by[f.name]) for f in calls], M.by[dtor.name])
        err = None
        try: p.explore()
        except conc.Unsupported as e: err = str(e)
        shared = {}
        for a, b in p.pairs:
            for who, acc in (('client', a), ('worker', b)):
                for l, w in acc: shared.setdefault(re.sub(r'\d+$', 'N', l), set()).add(who)
        wk = {l for (l, w, who) in M.lines if who == 'worker'}; clk = {l for (l, w, who) in M.lines if who == 'client'}
        usable = {}
        return dict(mode=mode, err=err, races=p.races, after=p.after, problems=M.problems, states=len(p.seen), steps=M.steps, pairs=len(p.pairs),
                    both=sorted(wk & clk), worker=sorted(wk), syncs={k: sorted(v) for k, v in p.syncs.items()}, opaque=len(M.opaque),
                    normal={} if err else {n: p.normal(n) for n, _ in p.calls}, lines=sum(1 for f in funcs.values() for b in f.blocks for _ in b))
    return par.run([lambda mode=mode: job(mode) for mode in MODES]), funcs

def report(ctx, res, funcs, pick):
    """pick(kind) tells whether a kind of problem belongs to the property"""
    for r in res:
        ctx.need(r['err'] is None or r['races'] or r['after'] or r['problems'], 'compression %d, threads %d: %s' % (r['mode'] + (r['err'],)))
        ctx.count('joint states', r['states']); ctx.count('thread states', r['steps']); ctx.count('pairs of concurrent segments', r['pairs'])
    full = [r for r in res if r['mode'][1] and r['mode'][0]]
    ctx.set('functions', sorted(f.q for f in funcs.values())); ctx.set('synchronisation points of the encoding thread', full[0]['syncs']['client'])
    ctx.set('synchronisation points of the worker', full[0]['syncs']['worker'])
    ctx.set('state used by both threads', full[0]['both'])
    for r in res:
        for (kind, where), d in sorted(r['problems'].items()):
            if pick(kind): ctx.ob(kind, where, False, d)
