"""C08: background compression is always awaited, reported and joined."""
from rules import threads

EXPLAIN = ("Same enumeration of the joint states of the encoding thread and the worker as C07, with a ghost bit for a failure of the worker "
 "that has not been reported yet.  In every state: no call returns or throws while the worker can still access the caller's output; a call "
 "during which the worker failed does not return normally and rethrows a recorded exception; a failure is reported once; no exception "
 "leaves the worker; every wait has a continuation without spurious wake-ups until the call ends (no lost notification, no dead lock, no "
 "join without end); the destructor ends with the worker joined; after every call, normal or not, a later call can end normally.")
KINDS = ('every wait ends', 'a failure of the worker is reported', 'a recorded failure can be rethrown', 'only failures of this call are reported',
         'no exception leaves the worker', 'the worker does not outlive the object', 'the destructor does not throw', 'a running thread is never dropped',
         'the worker is joined', 'only a started thread is joined')

def run(ctx):
    res, funcs = threads.explore(ctx)
    threads.report(ctx, res, funcs, lambda k: k in KINDS)
    for r in res:
        md = 'compression %d, threads %d' % r['mode']
        race = r['after'].get('*output of the caller')
        ctx.ob('no call ends while the worker can touch the output', md, race is None, race and 'the worker can still be at %s' % race)
        for k in KINDS: ctx.ob(k, md, not any(x[0] == k for x in r['problems']))
        for n, (tot, bad) in sorted(r['normal'].items()):
            ctx.ob('the encoder stays usable', '%s (%s)' % (n, md), not bad, 'after a call, %s can never return normally' % n)
            ctx.count('states between calls', tot)
