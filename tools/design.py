#!/usr/bin/env python3
"""fills the per-property table and the list of planted changes of DESIGN.md from evidence/, tools/notes.json, seeded/"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
notes = json.load(open('tools/notes.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
out = ['<!-- table -->', '## Properties', '', '| property | contracts (bounded) | functions | obligations | stated loop invariants | callee contracts | time |', '|---|---|---|---|---|---|---|']
for p in props:
    e = json.load(open('evidence/%s.json' % p['id']))
    c = e['coverage']
    k = c['contracts']
    out.append('| %s %s | %d (%d) | %d | %d of %d | %d | %d | %.0f s |' % (p['id'], p['title'], len(k['proved']) + len(k.get('bounded') or []), len(k.get('bounded') or []), c['n_functions'], c['discharged'], c['obligations'],
                                                            len(c['loops_with_stated_invariant']), len(c['callee_contracts_used']), e['wall_s']))
out += ['', 'Contracts marked bounded are proved for all values but a fixed number of pieces and are not counted as proved; all others hold for every size.', 'Time: quick check with 8 cores.', '']
for p in props:
    out.append('* **%s** %s' % (p['id'], notes[p['id']].strip()))
out += ['', '<!-- end -->']
s = open('DESIGN.md').read()
table = '\n'.join(out)
s = re.sub(r'<!-- table -->(.*?<!-- end -->)?', lambda m: table, s, count=1, flags=re.S)
seeds = ['<!-- seeds -->', 'Each is caught by the check of its own property.', '']
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    seeds.append('* `%s` (%s): %s' % (d, m['property'], ' '.join(m['what_it_breaks'].split())))
i = s.index('<!-- seeds -->')
open('DESIGN.md', 'w').write(s[:i] + '\n'.join(seeds) + '\n')
