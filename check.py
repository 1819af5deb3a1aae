#!/usr/bin/env python3
"""check.py <property> : decides one property on the current tree of /repo by static analysis.

exit 0: every obligation holds (listed findings are printed as KNOWN-FINDING); exit 1: VIOLATION; exit 2: the
analysis could not be carried out (an anchor of the rule does not exist any more)."""
import sys, os, json, time, traceback, importlib
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [VERIF, os.path.join(VERIF, 'engine')]
sys.setrecursionlimit(20000)

class NoAnswer(Exception): pass

class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.obs = []; self.cov = {}; self.notes = []; self.findings = load_known()
    def ob(self, rule, where, ok, detail='', key=None):
        """one obligation: rule applied at a construct; ok decides it"""
        self.obs.append((rule, where, bool(ok), detail, key or ('%s|%s' % (rule, where))))
        return bool(ok)
    def need(self, cond, msg):
        if not cond: raise NoAnswer(msg)
        return cond
    def count(self, key, n=1): self.cov[key] = self.cov.get(key, 0) + n
    def set(self, key, v): self.cov[key] = v

def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].split(' :: ')[0].split() if '=' in x)
                d['text'] = l.split(' :: ', 1)[1] if ' :: ' in l else ''
                out.append(d)
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    ctx = Ctx(prop, tier)
    rule = importlib.import_module('rules.' + prop.lower())
    err = None
    try:
        import build
        build.tools()
        rule.run(ctx)
        if not ctx.obs: err = 'no obligations were generated'
    except NoAnswer as e: err = str(e)
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, e); traceback.print_exc()
    bad = {}
    known = {}
    for rule_, where, ok, detail, key in ctx.obs:
        if ok: continue
        f = next((f for f in ctx.findings if f.get('property') == prop and f.get('key') == key.replace(' ', '_')), None)
        if f: known[f['key']] = f
        else: bad.setdefault((rule_, where), (detail, key))
    for f in known.values(): print('KNOWN-FINDING: property=%s %s' % (prop, f['text']))
    n = len(ctx.obs); good = sum(1 for o in ctx.obs if o[2])
    rules = {}
    for o in ctx.obs:
        r = rules.setdefault(o[0], [0, 0]); r[0] += 1; r[1] += o[2]
    level = getattr(rule, 'LEVEL', 'other')
    cov = dict(explanation=rule.EXPLAIN, rules={k: dict(obligations=v[0], discharged=v[1]) for k, v in rules.items()},
               obligations=n, discharged=good, analysed=ctx.cov, known_findings=len(known), notes=ctx.notes[:20],
               samples=[dict(rule=o[0], where=o[1], ok=o[2], detail=str(o[3])[:200]) for o in ctx.obs[:6]])
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=cov, wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if bad:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        rp = os.path.join(VERIF, 'replay', prop + '.json')
        json.dump([dict(rule=k[0], where=k[1], detail=str(v[0]), key=v[1]) for k, v in bad.items()], open(rp, 'w'), indent=1)
        for k, v in list(bad.items())[:12]: print('  [%s] %s: %s' % (k[0], k[1], str(v[0])[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if err:
        print('NO ANSWER property=%s: %s' % (prop, err)); return 2
    print('ok property=%s obligations=%d rules=%d %.1fs' % (prop, n, len(rules), time.time() - t0))
    return 0

if __name__ == '__main__': sys.exit(main())
