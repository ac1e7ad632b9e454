"""fills the generated parts of DESIGN.md (from tools/design.md.in)"""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = json.load(open(os.path.join(R, 'tools', 'design_table.json')))
P = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
notes = json.load(open(os.path.join(R, 'tools', 'notes.json')))
rows, na = [], []
for p in P:
    i = p['id']
    if os.path.exists(os.path.join(R, 'harness', i.lower() + '.py')):
        rows.append('| %s %s | %s |' % (i, p['title'], ' | '.join(T.get(i, ['', '', '']))))
    else:
        na.append('* %s (%s) is not claimed: %s' % (i, p['title'], notes.get('NA ' + i, 'no check was built in the time available.')))
fixes, known = [], []
for l in open(os.path.join(R, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fixes.append('* %s, `%s`: %s' % m.groups())
    m = re.match(r'property=(\S+) tag=(\S+) (.*)', l)
    if m: known.append('* %s, `%s`: %s' % m.groups())
seeds = []
for s in sorted(os.listdir(os.path.join(R, 'seeded'))):
    j = json.load(open(os.path.join(R, 'seeded', s, 'meta.json')))
    seeds.append('| %s | %s | %s |' % (s, j['property'], T.get('seed ' + s, 'check %s' % j['property'])))
t = open(os.path.join(R, 'tools', 'design.md.in')).read()
t = t.replace('@TABLE@', '\n'.join(rows)).replace('@FIXES@', '\n'.join(fixes)).replace('@KNOWN@', '\n\n' + '\n'.join(known) if known else 'none at present.')
t = t.replace('@SEEDS@', '\n'.join(seeds)).replace('@NA@', '\n'.join(na))
open(os.path.join(R, 'DESIGN.md'), 'w').write(t)
