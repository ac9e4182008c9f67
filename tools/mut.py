"""mut.py Cxx[,Cyy] file 'old' 'new' [...]: run checks on a copy of /repo/src with text replaced (development aid)"""
import os, shutil, subprocess, sys, tempfile
props, f = sys.argv[1].split(','), sys.argv[2]
d = tempfile.mkdtemp(prefix='mut')
shutil.copytree('/repo/src', d + '/src')
p = f'{d}/src/dliswriter/{f}'
s = open(p).read()
for old, new in zip(sys.argv[3::2], sys.argv[4::2]):
    assert s.count(old) >= 1, f'not found: {old}'
    s = s.replace(old, new)
open(p, 'w').write(s)
for c in props:
    r = subprocess.run([sys.executable, 'check.py', c, 'quick'], capture_output=True, text=True, cwd='/verif',
                       env=dict(os.environ, SA_ROOT=d + '/src'))
    ls = [x[:220] for x in r.stdout.splitlines()]
    print(c, 'exit', r.returncode, *ls[:3], sep='\n  ')
shutil.rmtree(d)
