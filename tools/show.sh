#!/bin/sh
# run one check and show what stayed undecided
python3 check.py "$@"; P=$1
python3 - $P <<'P'
import json,sys,collections
d=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))
for u in d['coverage']['undecided_samples'][:12]: print(' U', u[:330])
for k,n in list(d['coverage']['rejections'].items())[:6]: print(' R', n, k[:150])
s=sorted(d['coverage']['per_scenario'],key=lambda r:-r['wall'])[:5]
print(' slow', [(r['name'][:50],r['wall'],r['paths']) for r in s])
P
