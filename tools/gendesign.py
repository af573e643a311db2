#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, the last evidence, known_findings.txt, seeded/ and the texts below."""
import json, glob, os, re, sys
sys.path.insert(0, '/verif/tools')
from manifest_data import CHECKS, NA
from design_data import HEAD, ORACLE, TRIALS, FALSE_ALARMS, TAIL, NOSEED
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
find, fixed = {}, {}
for l in open('/verif/known_findings.txt'):
    m = re.match(r'finding: property=(\S+) key=(\S+) :: (.*)', l)
    if m: find.setdefault(m[1], []).append((m[2], m[3]))
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fixed.setdefault(m[1], []).append((m[2], m[3]))
seeds = {}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(f)); d['id'] = os.path.basename(os.path.dirname(f)); seeds.setdefault(d['property'], []).append(d)
out = [HEAD.strip(), '\n## The properties one by one\n']
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in NA:
        out.append('Not applicable: ' + NA[i] + '\n'); continue
    tech, note = CHECKS[i]
    e = json.load(open('/verif/evidence/%s.json' % i)); c = e['coverage']
    out.append('*Technique*: %s.\n' % tech)
    out.append('*What is decided*: %s\n' % c['explanation'])
    if i in ORACLE: out.append('*Oracle*: %s\n' % ORACLE[i])
    out.append('*Bounds*: %s%s\n' % (note, (' Assumed: ' + '; '.join(e['assumptions']) + '.') if e['assumptions'] else ''))
    out.append('*Why tests cannot*: %s\n' % p['why_tests_cant'])
    out.append('*Coverage on the committed tree*: %d constructs, %d obligations (what is counted is in the evidence).\n' % (c['constructs_analysed'], c['obligations_checked']))
    if i in TRIALS: out.append('*Trials*: %s\n' % TRIALS[i])
    if i in find: out.append('*Known findings*: %s\n' % '; '.join('`%s` %s' % (k, t) for k, t in (find[i] if len(find[i]) <= 6 else find[i][:2])) + ('' if len(find[i]) <= 6 else '(and %d more of the same kind, see known_findings.txt)\n' % (len(find[i]) - 2)))
    if i in fixed: out.append('*Repaired*: %s\n' % '; '.join('%s (%s)' % (t, h) for h, t in fixed[i]))
    if i in seeds: out.append('*Planted bugs (all caught)*: %s\n' % ', '.join('`%s`' % s['id'] for s in seeds[i]))
    elif i in NOSEED: out.append('*Planted bugs*: %s\n' % NOSEED[i])
out.append('## Planted bugs\n')
out.append('| bug | caught by | what it breaks | needs |\n|---|---|---|---|')
for i in sorted(seeds):
    for s in seeds[i]:
        out.append('| %s | %s | %s | %s |' % (s['id'], i, s['what_it_breaks'], s['needs']))
out.append('\n## False alarms that were corrected\n\n' + FALSE_ALARMS.strip() + '\n\n' + TAIL.strip())
open('/verif/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len('\n'.join(out)))
