"""writes MANIFEST.json from properties.jsonl, the rules present and the reasons below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C34': 'Layout, overlap and drawn size are decided by the Graphviz program at run time; the source of this package says nothing about them that a static rule could check.',
    'C35': 'Contrast and difference between derived colours depend on numeric colour values computed by an outside library at run time; no sound static bound is in reach.',
    'C36': 'The depth of recursion and the running time depend on the length of paths in the graph; the code recurses per node (a path of ~1000 nodes exceeds the interpreter limit), which a static rule can name but not bound.',
}
NA.update(json.load(open(os.path.join(V, 'tools', 'unclaimed.json'))) if os.path.exists(os.path.join(V, 'tools', 'unclaimed.json')) else {})
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in NA or not os.path.exists(os.path.join(V, 'checker', 'rules', i.lower() + '.py')):
        na.append({'property': i, 'reason': NA.get(i, 'No static check for it has been completed.')})
        continue
    t = TECH.get(i, {})
    checks.append({
        'property': i,
        'quick_cmd': f'python3 checker/run.py --property {i}',
        'thorough_cmd': f'python3 checker/run.py --property {i} --tier thorough',
        'technique': t.get('technique', 'static effect-summary analysis of the syntax trees'),
        'level': 'other',
        'level_note': t.get('note', 'Decided for every input by abstract interpretation of the current source; code the analysis cannot follow is reported as undecided, not as a violation.'),
    })
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q checker', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
