"""fills the PROPS and SEEDS parts of DESIGN.md between markers"""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + '/tools/techniques.json'))
M = json.load(open(V + '/MANIFEST.json'))
claimed = {c['property'] for c in M['checks']}
na = {c['property']: c['reason'] for c in M['not_applicable']}
out = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    t = T.get(i, {})
    out.append(f"* **{i} {p['title']}** — " + (f"{t.get('technique', '')}. {t.get('how', '')}" if i in claimed else 'not claimed: ' + na.get(i, '')))
seeds = []
caught = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    seeds.append(f"* {i} ({m['property']}): {m['what_it_breaks']} — needs {m['needs']}. {caught.get(i, '')}")
s = open(V + '/DESIGN.md').read()
for tag, body in (('PROPS', out), ('SEEDS', seeds)):
    a, b = f'<!-- {tag} -->', f'<!-- /{tag} -->'
    blk = a + '\n' + '\n'.join(body) + '\n' + b
    if a in s:
        s = re.sub(re.escape(a) + '.*?' + re.escape(b), lambda _: blk, s, flags=re.S)
    else:
        s = s.replace('\n' + tag + '\n', '\n' + blk + '\n')
open(V + '/DESIGN.md', 'w').write(s)
