"""mkseed.py SEEDS.py [name]: build /verif/seeded/<id>/ from a list of edits with demonstrations and confirm each
in a scratch copy: applies to HEAD, changes original lines, tests pass, demo 0 without and non-zero with it.
SEEDS.py defines SEEDS = [(id, property, [(file, old, new)], needs, what_it_breaks, demo python source)]"""
import sys, os, json, subprocess, shutil, tempfile, importlib.util, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '50c554a'
sp = importlib.util.spec_from_file_location('c', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
only = sys.argv[2] if len(sys.argv) > 2 else ''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


fails = 0
for i, prop, edits, needs, breaks, demo in m.SEEDS:
    if only not in i:
        continue
    d = tempfile.mkdtemp(prefix='seed')
    try:
        sh(f'git clone -q /repo {d}/r', '/')
        r = d + '/r'
        msg = []
        for f, old, new in edits:
            p = f'{r}/abstract/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                msg.append(f'{f}: {s.count(old)} matches of {old[:50]!r}')
            open(p, 'w').write(s.replace(old, new, 1))
        diff = sh('git diff', r).stdout
        out = os.path.join(V, 'seeded', i)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        open(out + '/demo.py', 'w').write(demo)
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        # every removed line must be an original one
        for f in sorted({e[0] for e in edits}):
            orig = sh(f'git show {BASE}:abstract/{f}', r).stdout.splitlines()
            rem = [l[1:] for l in sh(f'git diff abstract/{f}', r).stdout.splitlines() if l.startswith('-') and not l.startswith('---')]
            new = [l for l in rem if l.strip() and l not in orig]
            if not rem or new:
                msg.append(f'{f}: changes lines that are not original: {new[:2]}')
        shutil.copytree(out, d + '/demo')
        t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider', r, env=dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1'))
        if t.returncode:
            msg.append('tests fail: ' + t.stdout[-200:])
        a = sh(f'bash {d}/demo/demo.sh', r)
        if a.returncode == 0:
            msg.append('demo passes with the change')
        sh('git checkout -q -- .', r)
        b = sh(f'bash {d}/demo/demo.sh', r)
        if b.returncode != 0:
            msg.append('demo fails without the change: ' + (b.stdout + b.stderr)[-400:])
        print(i, prop, 'ok' if not msg else '; '.join(msg), '|', (a.stdout + a.stderr).strip().splitlines()[-1:] )
        fails += bool(msg)
    finally:
        shutil.rmtree(d)
print('failures:', fails)
