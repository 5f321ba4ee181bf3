"""Rewrites the generated sections (contracts, defects, planted bugs) of DESIGN.md from ledger, known findings and seeded/."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(H + '/ledger.json'))
K = json.load(open(H + '/known_findings.json'))
M = '<!-- generated -->'
t = open(H + '/DESIGN.md').read().split(M)[0].rstrip('\n') + '\n\n' + M + '\n'
t += '## 4. Contracts (b = bounded stand-in)\n\n| property | contracts |\n|---|---|\n'
for p in sorted(L):
    t += f"| {p} | " + ', '.join(f"{k}{'' if v == 'proved' else ' (b)'}" for k, v in sorted(L[p].items())) + ' |\n'
n = sum(v == 'proved' for d in L.values() for v in d.values())
t += f'\n{n} contracts proved, {sum(len(d) for d in L.values()) - n} bounded.\n'
t += '\n## 5. Genuine defects (repaired in /repo, one fix: commit each)\n\n' + ''.join('* ' + x[7:] + '\n' for x in K['fixed'])
t += '\nRecorded, not repaired: ' + ('none' if not K['findings'] else '; '.join(json.dumps(x) for x in K['findings'])) + '.\n'
t += '\n## 6. Planted bugs\n\n| id | property | needs | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    t += f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m.get('caught_by', '')} |\n"
if os.path.exists(H + '/tools/notes.md'):
    t += '\n' + open(H + '/tools/notes.md').read()
open(H + '/DESIGN.md', 'w').write(t)
