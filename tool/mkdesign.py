"""writes DESIGN.md from design/*.md, the rule registry and the list of properties"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import lib, rules_all, na  # noqa
V = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
rd = lambda n: open(os.path.join(V, 'design', n)).read().strip() + '\n'
o = [rd('head.md')]
o.append('\n## The properties and how each is decided\n\nThe text under "Rule" is also the `level_note` of the check in MANIFEST.json.\n')
GROUPS = [('N', 'ADNL transport'), ('R', 'RLDP'), ('D', 'DHT'), ('O', 'Overlay'), ('C', 'Concurrency, crashes, recursion'), ('U', 'Data structures and unsafe code')]
for g, name in GROUPS:
    o.append('\n### %s\n' % name)
    for p in props:
        if p['id'][0] == g and p['id'] in lib.RULES:
            r = lib.RULES[p['id']]
            o.append('\n**%s %s.** %s\n\n*Rule (%s):* %s\n' % (p['id'], p['title'], p['statement'], r['technique'], r['note']))
o.append('\n### Not applicable\n')
for p in props:
    if p['id'] not in lib.RULES:
        o.append('\n**%s %s.** %s\n\n*Why not:* %s\n' % (p['id'], p['title'], p['statement'], na.REASONS[p['id']]))
o.append('\n' + rd('tail.md'))
s = ''.join(o)
sd = os.path.join(V, 'seeded')
rows = []
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m.get('property'), m.get('what_it_breaks', '').replace('\n', ' ').replace('|', '/')))
s += '\n### Seeded bugs and the checks that catch them\n\n| bug | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
