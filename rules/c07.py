"""C07: the encoding thread and the compression thread never race."""
from rules import threads

EXPLAIN = ("The synchronisation automata of both threads (constructor, encode overloads, destructor, worker function, with unwind edges; "
 "flags, pointers to buffers, lock objects and the thread member kept as constants, other values unknown) are extracted from LLVM IR, "
 "and every joint state of the two threads is enumerated: any sequence of calls, any interleaving of the code between synchronisation "
 "operations, spurious wake-ups, and an exception out of every call that may throw.  Two segments that can be executed at the same time "
 "must not access the same member of the encoder, the same buffer or the caller's output, unless both only read.")
KINDS = ('locks are released', 'locks are released by their owner', 'no thread locks a mutex it holds', 'a thread waits with the mutex locked', 'there is one worker at a time')

def run(ctx):
    res, funcs = threads.explore(ctx)
    threads.report(ctx, res, funcs, lambda k: k in KINDS)
    full = [r for r in res if r['mode'][1] and r['mode'][0]]
    if any(not r['worker'] for r in full): ctx.notes.append('no worker accesses state in some mode')
    for r in res:
        md = 'compression %d, threads %d' % r['mode']
        for l in sorted(set(r['both']) | set(r['worker']) | set(r['races']) | set(r['after'])):
            if l.startswith('*buffer'): continue
            race = r['races'].get(l) or r['after'].get(l) and ('the caller', r['after'][l], 'after the call')
            ctx.ob('not accessed by both threads at once', '%s (%s)' % (l, md), race is None, race and '%s (%s) while the worker is at %s' % (race[0], race[2], race[1]))
        bufs = {l: x for l, x in r['races'].items() if l.startswith('*buffer')}
        for l, race in list(bufs.items())[:1] or [(None, None)]:
            ctx.ob('buffers are handed over', md, race is None, race and 'a buffer is used at %s (%s) while the worker uses it at %s' % (race[0], race[2], race[1]))
        for k in KINDS: ctx.ob(k, md, not any(x[0] == k for x in r['problems']))
