"""Every explicitly formatted record decodes under the RP66 component grammar.

Abstract interpretation of every object type with every parameter alone, subsets of parameters, every multiplicity,
units, set names and object counts; a strict reader of the component grammar must consume each record without a byte
left over, and the template, counts, codes and absent marks must agree with the objects defined.  Specifications the
writer refuses are not judged.
"""
import random

from .kinds import *


def judge(J, S, t):
    V = jd.View(J, S, t)
    jd.match(V)
    for x, o in V.map.items():
        for l, a in o.attrs.items():
            e = x.attrs.get(l)
            J.check(a.absent or a.values is not None, 'value-or-absent', f'{x}.{l}: {a}')
            if e is ANY or l == 'FILE-ID' or e is None and l == 'DIMENSION':
                continue
            if e is None:
                J.check(a.absent, 'absent-marked', f'{x}.{l}: nothing was assigned, the file has {a}')
            else:
                J.check(not a.absent, 'value-present', f'{x}.{l}: {e} was assigned, marked absent in the file')
                if not a.absent:
                    J.check(len(a.values) == len(e.values), 'count', f'{x}.{l}: {len(e.values)} values were assigned, '
                                                                     f'{len(a.values)} are in the file')


LISTY = (TS, NUMS, NEST, 'coords', 'param', DIM)
CONFLICT = {'calibration_measurement': ('dimension', 'axis'), 'computation': ('dimension', 'axis', 'zones', 'values'),
            'parameter': ('dimension', 'axis', 'zones')}


def listy(vk):
    return vk in LISTY or vk.startswith(('refs:', 'enums:'))


def values_of(vk, p, B, n):
    """the n-th concrete value for a parameter, cycling through the multiplicities"""
    vs = [f for l, f in variants(vk, p) if 'any' not in l and 'unknown' not in l and '200' not in l and 'many' not in l
          and 'control' not in l and 'not a number' not in l]
    return vs[n % len(vs)](B)


def masks(kind, q, seed):
    ps = list(KINDS[kind])
    n = len(ps)
    if n <= 5:
        return [m for m in range(2 ** n)]
    out = {0, 2 ** n - 1}
    out.update(1 << i for i in range(n))
    out.update((2 ** n - 1) ^ (1 << i) for i in range(n))
    out.update((1 << i) - 1 for i in range(n))
    r = random.Random(f'{seed}{kind}')
    for _ in range(20 if q else 120):
        out.add(r.getrandbits(n))
    return sorted(out)


def subsets(kind, ms, units, set_names, rot):
    """one object for each subset of the parameters, dealt over the named and unnamed sets"""
    def b(S):
        S.dlis()
        B = Base(S)
        ps = KINDS[kind]
        for k, m in enumerate(ms):
            chosen = {}
            for i, (p, vk) in enumerate(ps.items()):
                if m >> i & 1:
                    if p in CONFLICT.get(kind, ()) and bin(m & sum(1 << j for j, q in enumerate(ps) if q in
                                                                    CONFLICT[kind])).count('1') > 1:
                        continue
                    if (kind, p) == ('computation', 'values'):
                        chosen[p] = 2.5
                    elif (kind, p) in (('frame', 'index_type'), ('parameter', 'values')):
                        chosen[p] = {'index_type': 'TIME', 'values': [1.5]}[p]
                    elif p in ('dimension', 'axis', 'zones'):
                        continue
                    elif p == 'field_name':
                        chosen[p] = 'F'
                    elif vk in (NUMS, NEST):
                        chosen[p] = [0.5 * j + i for j in range((1, 2, 3, 5, 127, 128, 200)[(k + rot) % 7])]
                    elif vk == DTN and kind == 'zone':
                        chosen[p] = [XDT(S.CT), 3, -2.5, XDT(S.CT)][(k + rot) % 4]
                    else:
                        chosen[p] = values_of(vk, p, B, k + i + rot)
            if kind == 'zone' and any(isinstance(v, XDT) for v in chosen.values()):
                chosen['domain'] = 'TIME'
            un = {p: UNITS[(k + i) % len(UNITS)] for i, p in enumerate(chosen) if ps[p] in HAS_UNITS} if units else None
            nm = set_names[k % len(set_names)]
            put(B, kind, f'O{k}', chosen, 'kw', un, **({'set_name': nm} if nm is not None else {}))
        return S.write()
    return b


def one_of_each(param_of, names=None):
    """a value given to one parameter of every object type that has a parameter of the kind"""
    def b(S):
        S.dlis()
        B = Base(S)
        i = 0
        for kind, ps in KINDS.items():
            for p, vk in ps.items():
                v = param_of(B, kind, p, vk)
                if v is MISSING:
                    continue
                put(B, kind, f'{kind}-{p}', {p: v}, ('kw', 'dict', 'AttrSetup')[i % 3])
                i += 1
        return S.write()
    return b


def empties(route, how):
    """empty lists wherever a list is accepted"""
    def b(S):
        S.dlis()
        B = Base(S)
        i = 0
        for kind, ps in KINDS.items():
            for p, vk in ps.items():
                if not listy(vk) or (vk != NEST and how in ('nested', 'partly')):
                    continue
                v = {'list': [], 'tuple': (), 'nested': [[]], 'partly': [[], [1.5]]}[how]
                if (kind, p) == ('frame', 'channels'):
                    continue
                put(B, kind, f'{kind}-{p}', {p: v}, route)
        return S.write()
    return b


def empty_one(kind, p, route, v):
    def b(S):
        S.dlis()
        B = Base(S)
        put(B, kind, 'BEFORE', {})
        put(B, kind, 'EMPTY', {p: v}, route)
        put(B, kind, 'AFTER', {})
        return S.write()
    return b


def emptied(kind, p, vk):
    """a value replaced by an empty list before writing"""
    def b(S):
        S.dlis()
        B = Base(S)
        x = put(B, kind, 'OBJ', {p: values_of(vk, p, B, 1) if (kind, p) != ('parameter', 'values') else [1]})
        S.set(S.get(x.handle, S.attr_name(kind, p)), 'value', S.lst([]))
        x.absent(S.label(kind, p))
        x.attrs.pop('DIMENSION', None) if kind == 'calibration_measurement' else None
        if kind in ('calibration_measurement', 'parameter', 'computation') and p != 'dimension':
            x.any('DIMENSION')
        return S.write()
    return b


def number_of(kind, n, named):
    """n objects in one set"""
    def b(S):
        S.dlis()
        B = Base(S)
        ps = KINDS[kind]
        for i in range(n):
            ch = {}
            for j, (p, vk) in enumerate(ps.items()):
                if (i + j) % 3 == 0 and vk in (T, I, NUM):
                    ch[p] = S.text(f'{p}{i % 7}', i % 7 + 1) if vk in (T, I) else float(i)
            put(B, kind, f'O{i}', ch, **({'set_name': named} if named else {}))
        return S.write()
    return b


def name_lengths(kind, ln):
    """set and object names of every length class"""
    def b(S):
        S.dlis()
        B = Base(S)
        put(B, kind, S.text('object', ln), {}, set_name=S.text('set', ln))
        put(B, kind, 'SECOND', {})
        return S.write()
    return b


def sizes(n):
    """multiplicities around the borders of the count's encoding"""
    def v(B, kind, p, vk):
        if vk == TS:
            return [f't{i}' for i in range(n)]
        if vk in (NUMS, 'coords') or vk == NEST and kind != 'computation':
            return [float(i) for i in range(n)]
        if vk.startswith('refs:') and n <= 200 and p != 'zones':
            k = vk[5:]
            return [B.ref(k if k != 'any' else 'zone', i) for i in range(n)]
        if vk == DIM and kind not in ('parameter', 'computation'):
            return [1] * n
        return MISSING
    return v


def units_only(S):
    """units assigned, no value"""
    S.dlis()
    B = Base(S)
    for kind, ps in KINDS.items():
        for p, vk in ps.items():
            if vk in HAS_UNITS and kind not in ('origin',):
                x = put(B, kind, f'{kind}-{p}', {})
                S.set(S.get(x.handle, S.attr_name(kind, p)), 'units', 'm')
    return S.write()


def channel_attrs(S):
    """dimension and element limit lists given by the user"""
    S.dlis()
    lf = S.lf(fh_id='H')
    S.origin(lf)
    cs = []
    for i, (w, d, e) in enumerate(((None, [1], [1]), (3, [3], [3]), (3, None, [4]), (4, [4], None), (2, [2], []))):
        k = {}
        if d is not None:
            k['dimension'] = d
        if e is not None:
            k['element_limit'] = e
        x = S.add(lf, 'channel', f'C{i}', data=S.array(f'C{i}', '<f4', (2,) if w is None else (2, w)), **k)
        x.any('DIMENSION').any('ELEMENT-LIMIT')
        cs.append(x)
    S.add(lf, 'frame', 'F', channels=cs)
    return S.write()


def payloads(S):
    """explicit records around indirect ones"""
    S.dlis()
    B = Base(S)
    n = put(B, 'no_format', 'NF', {})
    m = put(B, 'no_format', 'NG', {}, set_name='OTHER')
    for i, x in enumerate((n, m, n)):
        S.nof_data(B.lf, x, S.bytes(f'p{i}', 10 * i))
    return S.write()


def maxlens(ml):
    """explicit records cut into many segments"""
    def b(S):
        S.dlis(max_record_length=ml)
        B = Base(S)
        for kind, ps in KINDS.items():
            ch = {p: values_of(vk, p, B, 0) for p, vk in ps.items() if vk in (T, I, NUM, TS, NUMS)
                  and p not in ('coefficients', 'references', 'plus_tolerances', 'minus_tolerances')}
            put(B, kind, f'O-{kind}', ch)
        return S.write()
    return b


def lfs(n, names):
    def b(S):
        S.dlis()
        for i in range(n):
            lf = S.lf(fh_id=f'H{i}', fh_sequence_number=i + 1)
            sn = dict(set_name=names(i))
            S.origin(lf, f'O{i}', **sn)
            c = S.add(lf, 'channel', f'C{i}', data=S.array(f'C{i}', '<f4', (2,)), **sn)
            S.add(lf, 'frame', f'F{i}', channels=[c], **sn)
            S.add(lf, 'comment', f'K{i}', text=[f'text {i}', ''], **sn)
            S.add(lf, 'zone', f'Z{i}', **sn)
        return S.write()
    return b


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []

    def add(name, b, **k):
        out.append(Scenario(name, b, judge, expect='any', **k))

    for kind, ps in KINDS.items():
        ms = masks(kind, q, seed)
        for units in (False, True):
            for names in ((None,), ('SET-1',), (None, 'SET-1', 'SET-2')):
                for rot in (0, 1) if q else (0, 1, 2, 3, 4):
                    add(f'{kind}: {len(ms)} subsets, units {units}, sets {names}, {rot}',
                        subsets(kind, ms, units, names, rot))
        for p, vk in ps.items():
            for label, f in variants(vk, p + '-'):
                if 'date-time' in label and 'any' in label:
                    continue
                if 'any' in label or 'unknown' in label or listy(vk):
                    def b(S, f=f, p=p, kind=kind):
                        S.dlis()
                        B = Base(S)
                        put(B, kind, 'O', {p: f(B)})
                        put(B, kind, 'P', {})
                        return S.write()
                    add(f'{kind}.{p}: {label}', b)
            if listy(vk):
                for route in ('kw', 'dict', 'AttrSetup', 'later'):
                    for n, v in (('empty list', []), ('empty tuple', ()), ('nested empty', [[]]),
                                 ('empty and not', [[], [1.5]])):
                        if 'e' in n[:6] and n in ('nested empty', 'empty and not') and vk != NEST:
                            continue
                        add(f'{kind}.{p}: {n} by {route}', empty_one(kind, p, route, v))
                add(f'{kind}.{p}: emptied', emptied(kind, p, vk))
            elif vk not in (T, I) or q is False:
                add(f'{kind}.{p}: empty list for a single value', empty_one(kind, p, 'kw', []))
        for n in (0, 1, 2, 3, 127, 130) if q else (0, 1, 2, 3, 127, 128, 129, 300, 600):
            add(f'{kind}: {n} objects', number_of(kind, n, None))
        add(f'{kind}: 40 objects in a named set', number_of(kind, 40, 'NAMED'))
        for ln in (1, 127, 128, 255):
            add(f'{kind}: names of {ln}', name_lengths(kind, ln))
    for how in ('list', 'tuple', 'nested', 'partly'):
        for route in ('kw', 'AttrSetup', 'later'):
            add(f'every empty {how} by {route}', empties(route, how))
    for n in (1, 2, 126, 127, 128, 129, 200, 255, 256) if q else (1, 2, 126, 127, 128, 129, 200, 255, 256, 16383, 16384):
        add(f'lists of {n}', one_of_each(sizes(n)), seconds=120)
    add('units without values', units_only)
    add('channel dimensions and limits', channel_attrs)
    add('no-format data between', payloads)
    for ml in (20, 22, 64, 300, 1024):
        add(f'every type in records of {ml}', maxlens(ml), seconds=120)
    add('two logical files', lfs(2, lambda i: f'LF{i}'))
    add('three logical files, one unnamed', lfs(3, lambda i: f'LF{i}' if i else None))
    return out
