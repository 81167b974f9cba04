"""trial.py FILE [-p C01,C02] [-n name]: apply each edit of a corpus to a scratch copy of the package and
report what the checks say.  FILE defines EDITS = [(name, {props}|None, [(file, old, new), ...])]"""
import sys, os, shutil, tempfile, subprocess, importlib.util, argparse
from concurrent.futures import ProcessPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checker'))
ALL = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, 'checker', 'rules')) if f.startswith('c') and f.endswith('.py'))

def apply(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, 'abstract', f)
        s = open(p).read()
        if s.count(old) < 1:
            return f'{f}: text not found: {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new, 1))
    return None

def one(job):
    name, want, edits, props, tests = job
    d = tempfile.mkdtemp(prefix='trial')
    try:
        shutil.copytree('/repo/abstract', d + '/abstract')
        e = apply(d, edits)
        if e:
            return name, want, 'ERROR ' + e, {}, None
        t = None
        if tests:
            for x in ('setup.py', 'README.md'):
                if os.path.exists('/repo/' + x): shutil.copy('/repo/' + x, d)
            r = subprocess.run(['python3', '-m', 'pytest', '-q', '-x', 'abstract/test'], cwd=d, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=d))
            t = r.returncode
            if t: t = r.stdout[-300:]
        out = {}
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(V, 'checker', 'run.py'), '--property', p, '--repo', d, '--evidence', d + '/ev'], capture_output=True, text=True)
            msg = [l for l in r.stdout.splitlines() if not l.startswith('  ') and not l.startswith('VIOLATION') and ': ' in l][:1]
            und = ('\n' + r.stdout).count('\n  undecided')
            out[p] = (r.returncode, (msg or [''])[0] if r.returncode != 2 and r.returncode < 3 else r.stderr[-300:], und)
        return name, want, None, out, t
    finally:
        shutil.rmtree(d)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file'); ap.add_argument('-p'); ap.add_argument('-n'); ap.add_argument('-t', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sp = importlib.util.spec_from_file_location('c', a.file); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    props = a.p.split(',') if a.p else ALL
    jobs = [(n, w, e, props, a.t) for n, w, e in m.EDITS if not a.n or a.n in n]
    miss = 0
    with ProcessPoolExecutor(8) as ex:
        
        for name, want, err, out, t in ex.map(one, jobs):
            hit = sorted(p for p, (c, _, _) in out.items() if c == 1)
            bad = {p: m for p, (c, m, _) in out.items() if c not in (0, 1)}
            und = sorted(f'{p}:{u}' for p, (c, _, u) in out.items() if u)
            if want is None:
                st = 'quiet' if not hit and not bad else 'FALSE ALARM'
            else:
                st = 'caught' if set(want) & set(hit) else 'caught-by-other' if hit else 'MISSED'
            if err: st = err
            if st not in ('quiet', 'caught'): miss += 1
            print(f'{st:16} {name:40} hit={",".join(hit)} und={",".join(und)}' + (f' BROKEN {bad}' if bad else '') + (f' TESTS {t}' if t else ''))
            if a.v or st == 'FALSE ALARM':
                for p in hit: print('      ', p, out[p][1][:500])
            sys.stdout.flush()
    print('not as wanted:', miss, 'of', len(jobs))
main()
