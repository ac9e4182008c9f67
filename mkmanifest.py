#!/usr/bin/env python3
"""writes MANIFEST.json from the property modules present in sa/props"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
IDS = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = {
    'default': 'static analysis: abstract interpretation (trace-partitioned value and effect analysis) of the package '
               'source from the public API to the byte term of the file, compared with a reference reader of RP66',
}
NOTE = ('Decides the property on every partition of the listed abstract specifications (unknown numbers, texts, '
        'lengths and array elements) from the source of /repo, without importing or running it.  Trusted: the models '
        'of the Python runtime, standard library, numpy and h5py in sa/, and the reference reader sa/spec.py.  Not '
        'covered: specifications outside the families listed in the evidence, loops beyond the stated bound; '
        'partitions that cannot be decided are counted in the evidence and never raise an alarm.')
REASON = {}


def main():
    checks, na = [], []
    for p in IDS:
        if os.path.exists(os.path.join(HERE, 'sa', 'props', p + '.py')):
            checks.append(dict(property=p, quick_cmd=f'python3 check.py {p}',
                               thorough_cmd=f'python3 check.py {p} --thorough',
                               technique=TECH.get(p, TECH['default']), level='other', level_note=NOTE))
        else:
            na.append(dict(property=p, reason=REASON.get(p, 'no check is registered yet')))
    m = dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na,
             notes='All checks are static analyses of /repo/src; nothing of /repo is imported or executed by them.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
