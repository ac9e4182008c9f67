"""Make /verif/seeded/<id> from a description: confirm that the change builds, passes the tests, and that its demo
fails with it and passes without it.  usage: plant.py FILE.py [ID...]   (FILE.py defines BUGS and PRELUDE)

Entry: (id, property, needs, what it breaks, [(file, old, new), ...], demo)."""
import json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
mod = runpy.run_path(sys.argv[1])
only = set(sys.argv[2:])
base = json.load(open('/opt/vp/BASELINE.json'))
STABLE = set(base if isinstance(base, list) else base.get('stable', base.get('passed', base.get('tests', []))))

SH = '''#!/bin/sh
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def plant(bug):
    bid, prop, needs, breaks, edits, demo = bug
    w = f'/tmp/plants/{bid}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    for f, old, new in edits:
        p = f'{w}/src/dliswriter/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            return bid, f'text occurs {s.count(old)} times in {f}: {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    d = f'/tmp/plants/{bid}.dir'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.py', 'w').write(mod['PRELUDE'] + demo)
    open(f'{d}/demo.sh', 'w').write(SH)
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    clean = subprocess.run(['sh', f'{d}/demo.sh'], cwd='/repo', capture_output=True, text=True)
    if clean.returncode:
        return bid, 'demo fails on the unchanged tree: ' + clean.stderr[-600:] + clean.stdout[-300:]
    bad = subprocess.run(['sh', f'{d}/demo.sh'], cwd=w, capture_output=True, text=True)
    if not bad.returncode:
        return bid, 'demo passes with the change ' + bad.stdout[-300:]
    env = dict(os.environ, PYTHONPATH=w + '/src', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               GLIBC_TUNABLES='glibc.malloc.hugetlb=1')
    os.makedirs(w + '/src/tests/outputs', exist_ok=True)
    t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--timeout=300', '-x'],
                       cwd=w, env=env, capture_output=True, text=True)
    tail = t.stdout.strip().splitlines()[-1:] or ['?']
    shutil.rmtree(w, ignore_errors=True)
    fails = [l for l in t.stdout.splitlines() if l.startswith(('FAILED', 'ERROR'))]
    if t.returncode:
        return bid, 'tests: ' + tail[0] + ' ' + ' '.join(fails)[:200]
    dest = f'/verif/seeded/{bid}'
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(d, dest)
    shutil.rmtree(d)
    why = (bad.stderr.strip().splitlines() or ['?'])[-1]
    return bid, f'OK ({tail[0]}; demo: {why[:120]})'


with ThreadPoolExecutor(3) as ex:
    for bid, msg in ex.map(plant, [b for b in mod['BUGS'] if not only or b[0] in only]):
        print(bid, msg, flush=True)
