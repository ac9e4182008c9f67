"""Run the checks against every planted change, on a copy of /repo's sources.  usage: seeds.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile, time
V = '/verif'
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = f'{V}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(['cp', '-a', '/repo/src', t + '/src'], check=True)
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + t, d + '/patch.diff'], check=True, cwd='/')
        t0 = time.time()
        r = subprocess.run(['python3', 'check.py', prop], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, SA_ROOT=t + '/src'))
        out = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'violation' in l.lower()][:2]
        print(f'{i} {prop} rc={r.returncode} {time.time() - t0:.0f}s', '; '.join(out)[:200], flush=True)
