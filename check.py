#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property of /repo's current source.

Exit 0: no violation found.  Exit 1 with `VIOLATION property=<id> replay=<path>`: a violation, described in <path>.
"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

LEVEL = 'other'


def work(args):
    prop, tier, seed, i = args
    from sa import harness
    mod = importlib.import_module('sa.props.' + prop)
    sc = scenarios(mod, tier, seed)[i]
    try:
        return harness.run_scenario(sc, prop, seed)
    except Exception as e:                     # never an alarm
        import traceback
        return dict(name=sc.name, paths=0, obligations=0, rules={}, violations=[], raises={}, steps=0,
                    undecided=[f'analyser: {type(e).__name__}: {e} {traceback.format_exc(limit=-6)[-900:]}'], wall=0)


_cache = {}


def scenarios(mod, tier, seed):
    k = (mod.__name__, tier, seed)
    if k not in _cache:
        _cache[k] = mod.scenarios(tier, seed)
    return _cache[k]


def known(prop):
    """listed genuine defects that are not repaired: property, substring identifying the finding"""
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f'known: property={prop} '):
                out.append(line.split(' ', 2)[2])
    return out


def main():
    if '--selftest' in sys.argv:
        return selftest()
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    prop = args[0]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    if '--quick' in sys.argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 700 if tier == 'quick' else 840
    ev_dir = os.path.join(HERE, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    results, fatal = [], None
    static = None
    mod = importlib.import_module('sa.props.' + prop)
    try:
        from sa import harness
        harness.engine()
        if hasattr(mod, 'static_rules'):
            static = mod.static_rules(tier)
        scs = scenarios(mod, tier, seed)
        only = os.environ.get('SA_ONLY')           # development: scenarios whose name contains this text
        jobs = [(prop, tier, seed, i) for i in range(len(scs)) if not only or only in scs[i].name]
        n = min(8, os.cpu_count() or 1, max(1, len(jobs)))
        if n == 1:
            for j in jobs:
                results.append(work(j))
        else:
            pool = mp.get_context('fork').Pool(n, maxtasksperchild=200)
            first = None
            it = pool.imap_unordered(work, jobs, chunksize=1)
            while len(results) < len(jobs):
                left = budget - (time.time() - t0)
                try:
                    results.append(it.next(timeout=max(0.1, left)))
                except mp.TimeoutError:
                    fatal = f'time budget: {len(jobs) - len(results)} scenarios not finished'
                    break
                if results[-1]['violations'] and first is None:
                    first = time.time()
                if sum(bool(r['violations']) for r in results) >= 5 or first and time.time() - first > 60:
                    break                      # enough to show; the rest is not analysed
            pool.terminate()
            pool.join()
    except Exception as e:
        # a tree this analysis cannot read is reported as not analysed, never as a violation
        import traceback
        where = getattr(e, 'loc', None)
        fatal = f'{type(e).__name__}: {e} {where or traceback.format_exc(limit=-2)}'
    results.sort(key=lambda r: r['name'])
    violations = []
    for r in results:
        violations.extend(r['violations'])
    if static:
        violations.extend(static.get('violations', ()))
    kf = known(prop)
    listed = []
    fresh = []
    for v in violations:
        text = v['scenario'] + ' ' + ' '.join(v['findings'])
        hit = next((k for k in kf if all(w in text for w in k.split(' :: ')[0].split(' && '))), None)
        if hit:
            if hit not in listed:
                listed.append(hit)
        else:
            fresh.append(v)
    wall = time.time() - t0
    undecided = [f"{r['name']}: {u}" for r in results for u in r['undecided']]
    rules = {}
    for r in results:
        for k, c in r['rules'].items():
            rules[k] = rules.get(k, 0) + c
    obl = sum(r['obligations'] for r in results)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=LEVEL,
        coverage=dict(
            explanation=getattr(mod, 'EXPLANATION', mod.__doc__ or prop).strip(),
            scenarios=len(results), partitions=sum(r['paths'] for r in results), obligations=obl,
            undecided_partitions=len(undecided), undecided_samples=undecided[:15],
            obligations_by_rule=rules,
            transfer_functions_applied=sum(r['steps'] for r in results),
            rejections=sum_raises(results),
            per_scenario=[{k: r[k] for k in ('name', 'paths', 'obligations', 'wall')} for r in results][:None if os.environ.get('SA_ALL') else 400],
            modules_analysed=modules(), source_root=os.environ.get('SA_ROOT', '/repo/src'),
            **({'structural': {k: v for k, v in static.items() if k != 'violations'}} if static else {}),
            **({'incomplete': fatal} if fatal else {})),
        assumptions=['models of the Python runtime, standard library, numpy and h5py in sa/ are faithful',
                     'loops whose trip count is unknown are unrolled up to the bound of the scenario; partitions '
                     'beyond it are reported as undecided'],
        wall_s=round(wall, 2), violations=len(fresh))
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in listed:
        print(f'KNOWN-FINDING: property={prop} {k}')
    print(f'{prop} {tier}: {len(results)} scenarios, {ev["coverage"]["partitions"]} partitions, {obl} obligations, '
          f'{len(undecided)} undecided, {len(fresh)} violations, {wall:.1f} s' + (f' [{fatal[:300]}]' if fatal else ''))
    if fresh:
        rp = os.path.join(ev_dir, f'{prop}-violation.json')
        with open(rp, 'w') as f:
            json.dump(fresh[:20], f, indent=1, default=str)
        for v in fresh[:3]:
            print('  ', v['scenario'], '|', v['rule'], '|', str(v['message'])[:400], '|', str(v['instance'])[:200])
        print(f'VIOLATION property={prop} replay={rp}')
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    if obl == 0 and not (static and static.get('obligations')):
        print(f'{prop}: nothing could be decided on this tree')
        sys.stdout.flush()
        os._exit(2)                            # the analysis itself is broken: neither held nor violated
    os._exit(0)


def selftest():
    """the reference reader must reject corrupted files, whatever the tree says"""
    from sa import spec
    from sa.ctx import Ctx
    good = (b'   1V1.00RECORD 8192' + b'X'.ljust(60) + b'\x00\x18\xff\x01' + b'\x00\x14\x01\x00' + b'0' * 12
            + b'\x01\x01\x01\x04')
    bad = {'marker': good.replace(b'\xff\x01', b'\xff\x02'), 'cut': good[:-1], 'extra': good + b'\x00',
           'odd': good.replace(b'\x00\x14', b'\x00\x13'), 'pad': good[:-1] + b'\x50',
           'label': good.replace(b'V1.00', b'V2.00')}
    spec.parse_phys(Ctx(), good)
    for k, b in bad.items():
        try:
            spec.parse_phys(Ctx(), b)
        except spec.Bad:
            continue
        print('selftest: the reference reader accepts', k)
        sys.exit(2)
    print('selftest: ok')


def modules():
    try:
        from sa import harness
        return len(harness.engine()[0].modules)
    except Exception:
        return 0


def sum_raises(results):
    out = {}
    for r in results:
        for k, n in r['raises'].items():
            out[k] = out.get(k, 0) + n
    return dict(sorted(out.items(), key=lambda kv: -kv[1])[:40])


if __name__ == '__main__':
    main()
