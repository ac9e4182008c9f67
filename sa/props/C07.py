"""Object identity is unique and every reference resolves in its logical file.

Abstract interpretation of object graphs: every reference attribute with every admissible target, repeated names, named
and unnamed sets, several origins, chosen origin references and every position of the origin among the calls.  Each
decoded reference (attribute values and the references opening data records) must be the identity of exactly the
object passed; identities must be pairwise different and origin fields those of ORIGIN objects of the logical file.
"""
import itertools
import random

from .kinds import *

MARK = dict(axis='axis_id', calibration='method', calibration_coefficient='label',
            calibration_measurement='measurement_type', channel='long_name', comment='text', computation='long_name',
            equipment='trademark_name', frame='description', group='description', long_name='quantity',
            message='message_type', no_format='description', origin='product', parameter='long_name',
            process='description', tool='description', well_reference_point='permanent_datum', zone='description')


def judge(J, S, t):
    V = jd.View(J, S, t)
    jd.match(V)
    jd.references(V)
    jd.noformat(V)
    jd.frame_data(V, lambda f: f.rows)


def obj(S, lf, kind, name, tag=None, **k):
    """an object recognisable in the file whatever its name"""
    p = MARK.get(kind)
    if p and tag and p not in k:
        k[p] = tag
    x = S.add(lf, kind, name, **k)
    if p and tag:
        x.mark = S.label(kind, p)
    return x


def ch(S, lf, name, tag=None, rows=2, **k):
    a = S.array(tag or name, '<f8', (rows,))
    x = obj(S, lf, 'channel', name, tag, data=a, **k)
    x.arr, x.castname, x.desc = a, None, ('f8', [1])
    return x


def fr(S, lf, name, chans, tag=None, **k):
    f = obj(S, lf, 'frame', name, tag, channels=chans, **k)
    f.rows = row_terms(S, [(c.arr, None) for c in chans])
    return f


REFS = [(kind, p, vk) for kind, ps in KINDS.items() for p, vk in ps.items() if 'ref' in vk]
ANYKIND = [k for k in KINDS if k not in ('origin',)]


def target_kind(vk):
    return vk.split(':')[1] if ':' in vk else vk


def every_ref(later, dup, named, origin_last=False, explicit=None):
    """every reference attribute; dup: targets share their names, so only copy numbers tell them apart"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        sn = {'set_name': named} if named else {}
        if not origin_last:
            S.origin(lf)
            if explicit is not None:
                S.origin(lf, 'SECOND', file_set_number=43, origin_reference=explicit)
        ex = {'origin_reference': explicit} if explicit is not None else {}
        tg = {}

        def target(k, i):
            if (k, i) not in tg:
                nm = f'T-{k}' if dup else f'T-{k}-{i}'
                if k == 'channel':
                    tg[k, i] = ch(S, lf, nm, f'{k}{i}', **sn, **(ex if i % 2 else {}))
                elif k == 'frame':
                    c = ch(S, lf, f'FC{i}', f'fc{i}')
                    tg[k, i] = fr(S, lf, nm, [c], f'{k}{i}', **sn)
                else:
                    tg[k, i] = obj(S, lf, k, nm, f'{k}{i}', **sn, **(ex if i % 2 else {}))
            return tg[k, i]
        n = 0
        for kind, p, vk in REFS:
            k = target_kind(vk)
            kinds = ANYKIND if k == 'any' else [k]
            multi = vk.startswith('refs')
            for kk in kinds:
                for i in (2, 0, 1) if not multi else (0,):
                    ts = [target(kk, j) for j in ((2, 0, 1, 2) if multi else (i,))]
                    val = ts if multi else ts[0]
                    n += 1
                    nm = f'OBJ{n}'
                    if kind == 'channel':
                        x = ch(S, lf, nm, f'cx{n}', **({} if later else {p: val}))
                    elif kind == 'splice':
                        x = obj(S, lf, kind, nm, **({} if later else {p: val}))
                    else:
                        x = obj(S, lf, kind, nm, **({} if later else {p: val}))
                    if p == MARK.get(kind):
                        x.mark = None
                    if later:
                        S.set(S.get(x.handle, S.attr_name(kind, p)), 'value', S.val(val))
                        x.attrs[S.label(kind, p)] = Exp(list(ts))
        every = [x for x in lf.objs if x.kind == 'channel']
        used = {id(c) for f in lf.frames for c in f.channels}
        rest = {}
        for c in every:
            if id(c) not in used:
                rest.setdefault(c.name, []).append(c)
        for n in range(max(map(len, rest.values()))):         # same-named channels go to different frames
            fr(S, lf, f'ALL{n}', [cs[n] for cs in rest.values() if n < len(cs)])
        if origin_last:
            S.origin(lf)
            if explicit is not None:
                S.origin(lf, 'SECOND', file_set_number=43, origin_reference=explicit)
        return S.write()
    return b


def unknown_names(kind, n, ln, same_set=True):
    """objects with unknown names that may or may not coincide, and references to each of them"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        xs = []
        for i in range(n):
            sn = {} if same_set or not i else {'set_name': f'S{i}'}
            if kind == 'channel':
                x = ch(S, lf, S.text(f'n{i}', ln), f'tag{i}', dataset_name=f'ds{i}', **sn)
            else:
                x = obj(S, lf, kind, S.text(f'n{i}', ln), f'tag{i}', **sn)
            xs.append(x)
        if kind == 'channel':
            for i, x in enumerate(xs):
                fr(S, lf, f'FRAME{i}', [x])
        else:
            fr(S, lf, 'F', [ch(S, lf, 'BASE-CHANNEL', 'base')])
        for i, x in enumerate(xs):
            obj(S, lf, 'group', f'G{i}', object_list=[x])
        obj(S, lf, 'group', 'REV', object_list=xs[::-1])
        return S.write()
    return b


def copies(kind, order):
    """same-named objects over several sets, interleaved with others; every copy referred to"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        xs = []
        for i, (nm, sn) in enumerate(order):
            k = {'set_name': sn} if sn else {}
            if kind == 'channel':
                x = ch(S, lf, nm, f'tag{i}', dataset_name=f'ds{i}', **k)
            elif kind == 'frame':
                x = fr(S, lf, nm, [ch(S, lf, f'C{i}', f'c{i}')], f'tag{i}', **k)
            else:
                x = obj(S, lf, kind, nm, f'tag{i}', **k)
            xs.append(x)
        if kind == 'channel':
            for i, x in enumerate(xs):
                fr(S, lf, 'F', [x], f'frame{i}')
        elif kind != 'frame':
            fr(S, lf, 'F', [ch(S, lf, 'BASE-CHANNEL', 'base')])
        for i, x in enumerate(xs):
            obj(S, lf, 'group', f'G{i}', object_list=[x])
        if kind == 'no_format':
            for i, x in enumerate(xs + xs[::-1]):
                S.nof_data(lf, x, b'payload %d' % i)
        return S.write()
    return b


def origins(where, refs, others, sets=None):
    """origins inserted at given positions among the calls; refs: their origin references (None: default)"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        todo = dict(where)
        cs = []
        zs = []
        for i in range(6):
            for j in [j for j, w in where if w == i]:
                k = {'set_name': sets[j]} if sets and sets[j] else {}
                if refs[j] is not None:
                    k['origin_reference'] = refs[j]
                S.origin(lf, f'ORIGIN{j}', file_set_number=100 + j, **k)
            if i == 5:
                break
            o = {'origin_reference': others[i]} if others[i] is not None else {}
            c = ch(S, lf, f'C{i}', f'c{i}', **o)
            cs.append(c)
            z = obj(S, lf, 'zone', 'Z', f'z{i}', **o)
            zs.append(z)
            obj(S, lf, 'group', f'G{i}', object_list=[c, z] + zs, **o)
            if i == 2:
                n = obj(S, lf, 'no_format', 'NF', **o)
        fr(S, lf, 'F1', cs[:3])
        fr(S, lf, 'F2', cs[3:])
        S.nof_data(lf, n, b'abc')
        return S.write()
    return b


def renamed(what):
    """identity changed between creation and writing"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        S.origin(lf, 'SECOND', file_set_number=7, origin_reference=7)
        c, d = ch(S, lf, 'C', 'c'), ch(S, lf, 'D', 'd')
        z = obj(S, lf, 'zone', 'Z', 'z')
        z2 = obj(S, lf, 'zone', 'Z2', 'z2')
        f = fr(S, lf, 'F', [c, d])
        g = obj(S, lf, 'group', 'G', object_list=[z, c, f, z2])
        nf = obj(S, lf, 'no_format', 'NF')
        S.nof_data(lf, nf, b'payload')
        xs = {'zone': z, 'channel': c, 'frame': f, 'no_format': nf, 'group': g}
        if what[0] == 'written':
            S.write('/out/before.dlis')
        for w in what:
            if w in xs:
                S.set(xs[w].handle, 'name', 'RENAMED')
                xs[w].name = 'RENAMED'
            elif w.startswith('origin:'):
                x = xs[w[7:]]
                S.set(x.handle, 'origin_reference', 7)
                x.explicit_origin = 7
            elif w.startswith('same:'):
                S.set(z2.handle, 'name', 'Z')
                z2.name = 'Z'
        return S.write()
    return b


def foreign(kind, how):
    """references to objects of another logical file or another file object"""
    def b(S):
        S.dlis()
        lf, lf2 = S.lf(fh_id='H'), S.lf(fh_id='H2', fh_sequence_number=2)
        for i, l in enumerate((lf, lf2)):
            S.origin(l, f'O{i}', set_name=f'L{i}', file_set_number=50 + i)
        c = ch(S, lf, 'C', 'c', set_name='L0')
        c2 = ch(S, lf2, 'C', 'c2', set_name='L1', dataset_name='DS2')
        z = obj(S, lf, 'zone', 'Z', 'z', set_name='L0')
        z2 = obj(S, lf2, 'zone', 'Z', 'z2', set_name='L1')
        a2 = obj(S, lf2, 'axis', 'A', 'a2', set_name='L1')
        if how == 'frame':
            fr(S, lf, 'F', [c2], set_name='L0')
        else:
            fr(S, lf, 'F', [c], set_name='L0')
        fr(S, lf2, 'F', [c2], set_name='L1')
        if how == 'group':
            obj(S, lf, 'group', 'G', object_list=[z, z2], set_name='L0')
        elif how == 'zones':
            obj(S, lf, 'splice', 'G', zones=[z2], set_name='L0')
        elif how == 'axis':
            obj(S, lf, 'parameter', 'G', axis=a2, set_name='L0')
        elif how == 'later':
            S.set(S.get(c.handle, 'axis'), 'value', a2.handle)
            c.attrs['AXIS'] = Exp([a2])
        elif how == 'channels':
            obj(S, lf, 'tool', 'T', channels=[c2], set_name='L0')
        elif how == 'none':
            obj(S, lf, 'group', 'G', object_list=[z, c], set_name='L0')
            obj(S, lf2, 'group', 'G', object_list=[z2, c2], set_name='L1')
        return S.write()
    return b


def graph(seed, n, nlf=1):
    """a random graph: repeated names, named sets, several origins at random places, references to anything"""
    def b(S):
        r = random.Random(seed)
        S.dlis()
        for l in range(nlf):
            one_graph(S, r, S.lf(fh_id=f'H{l}', fh_sequence_number=l + 1), n, f'L{l}' if nlf > 1 else None)
        return S.write()
    return b


def one_graph(S, r, lf, n, pre):
    orefs = r.sample([1, 5, 127, 128, 300, 70000], r.choice([1, 1, 2, 3]))
    at = sorted(r.sample(range(n), len(orefs)))
    if r.random() < 0.4:
        at[0] = 0
    have = []
    by = {}
    free = []

    def setname():
        s = r.choice([None, None, 'S1', 'S2'])
        return {'set_name': f'{pre}-{s}' if pre else s} if s or pre else {}

    for i in range(n):
        for j, w in enumerate(at):
            if w == i:
                S.origin(lf, r.choice(['OR', 'OR2']), file_set_number=60 + j, origin_reference=orefs[j], product=f'p{j}',
                         **setname()).mark = 'PRODUCT'
        kind = r.choice(ANYKIND)
        nm = r.choice(['A', 'B', 'C'])
        k = setname()
        if r.random() < 0.25:
            k['origin_reference'] = r.choice(orefs)
        later = []
        for kd, p, vk in REFS:
            if kd != kind or r.random() < 0.4 or p == MARK.get(kind):
                continue
            t = target_kind(vk)
            pool = have if t == 'any' else by.get(t, [])
            if not pool or (kind, p) in (('calibration_measurement', 'axis'), ('parameter', 'axis'),
                                         ('computation', 'axis'), ('channel', 'axis')) and r.random() < 0.5:
                continue
            ts = [r.choice(pool) for _ in range(r.randint(1, 4))] if vk.startswith('refs') else [r.choice(pool)]
            v = ts if vk.startswith('refs') else ts[0]
            if r.random() < 0.3:
                later.append((p, v, ts))
            else:
                k[p] = v
        if kind == 'channel':
            x = ch(S, lf, nm, f't{pre}{i}', dataset_name=f'ds{pre}{i}', **k)
            free.append(x)
        elif kind == 'frame':
            if not free or r.random() < 0.3:
                free.append(ch(S, lf, nm, f'f{pre}{i}', dataset_name=f'fds{pre}{i}', **setname()))
            take = []
            for c in r.sample(free, min(len(free), r.randint(1, 3))):
                if all(c.name != d.name for d in take):
                    take.append(c)
                    free.remove(c)
            x = fr(S, lf, nm, take, f't{i}', **k)
        else:
            if kind == 'splice':
                k.pop('zones', None)
                k.pop('input_channels', None)
                nm = f'SPLICE{i}'
            if kind == 'path':
                nm = f'PATH{i}'
            x = obj(S, lf, kind, nm, f't{i}', **k)
        for p, v, ts in later:
            S.set(S.get(x.handle, S.attr_name(kind, p)), 'value', S.val(v))
            x.attrs[S.label(kind, p)] = Exp(list(ts))
        have.append(x)
        by.setdefault(kind, []).append(x)
        if kind == 'no_format' or by.get('no_format') and r.random() < 0.1:
            S.nof_data(lf, r.choice(by['no_format']), b'data %d' % i)
    if free or not lf.frames:
        if not free:
            free.append(ch(S, lf, 'LAST', f'last{pre}', **setname()))
        while free:
            take = list({c.name: c for c in free}.values())
            fr(S, lf, 'A', take, f'rest{pre}{len(free)}', **setname())
            for c in take:
                free.remove(c)


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []

    def add(name, b, expect='any', **k):
        out.append(Scenario(name, b, judge, expect=expect, **k))

    for later in (False, True):
        for dup in (False, True):
            for named in (None, 'SET'):
                for last in (False, True):
                    for ex in (None, 0, 9):
                        add(f'every reference attribute, later {later}, repeated names {dup}, set {named}, origin last '
                            f'{last}, chosen origin {ex}', every_ref(later, dup, named, last, ex), seconds=120)
    for kind in ('zone', 'axis', 'equipment', 'channel', 'long_name', 'no_format', 'group', 'parameter'):
        for n, ln in ((2, 2), (2, 5), (3, 4)):
            for ss in (True, False):
                add(f'{n} {kind} objects with any names of {ln}, one set {ss}', unknown_names(kind, n, ln, ss))
    A, B = ('A', None), ('A', 'S')
    for kind in MARK:
        if kind in ('origin', 'comment'):
            continue
        for order in ([A, A], [A, ('B', None), A], [A, B], [B, A, B, A], [('A', 'S'), ('A', 'T'), A],
                      [('A', 'S'), ('B', 'S'), ('A', 'T'), ('B', 'T'), ('A', 'S')], [A] * 6):
            add(f'{kind}: copies {order}', copies(kind, order))
    add('130 objects with one name', copies('zone', [A] * 130))
    add('257 objects with one name', copies('zone', [A] * 257))
    no = [None] * 5
    for w in ([(0, 0)], [(0, 1)], [(0, 3)], [(0, 5)]):
        for rf in (None, 0, 1, 2, 127, 128, 16384):
            add(f'origin at {w[0][1]}, reference {rf}', origins(w, [rf], no))
            if rf is not None:
                add(f'origin at {w[0][1]}, reference {rf} named by all', origins(w, [rf], [rf] * 5))
    for w in ([(0, 0), (1, 0)], [(0, 0), (1, 5)], [(0, 2), (1, 4)], [(0, 5), (1, 5)], [(1, 0), (0, 3)]):
        for rf in ([None, None], [1, 2], [2, 1], [5, 0], [0, 5], [None, 5], [5, None]):
            for oth in (no, [rf[1], None, rf[0], None, rf[1]], [None, rf[1], None, rf[1], None]):
                for sets in (None, (None, 'S'), ('S', None), ('S', 'S')):
                    add(f'origins at {w} with references {rf}, objects choose {oth}, sets {sets}',
                        origins(w, rf, oth, sets))
    for rf in ([1, 1], [0, 0], [None, 42]):
        add(f'two origins with references {rf}', origins([(0, 0), (1, 0)], rf, no))
    for rf in itertools.product((None, 0, 1, 2, 3), repeat=3):
        if len({r for r in rf if r is not None}) == sum(r is not None for r in rf):
            add(f'origins with references {rf}', origins([(0, 0), (1, 0), (2, 4)], rf, no))
            for sets in ((None, 'S', None), ('S', None, 'T')) if None in rf else ():
                add(f'origins with references {rf} in sets {sets}', origins([(0, 0), (1, 2), (2, 2)], rf, no, sets))
    for rf in itertools.product((None, 2, 3, 4, 5), repeat=4 if q else 5):
        if len({r for r in rf if r is not None}) == sum(r is not None for r in rf):
            add(f'origins with references {rf}', origins([(i, 0) for i in range(len(rf))], rf, no))
    add('an origin reference that no origin has', origins([(0, 0)], [3], [None, 9, None, None, None]))
    for what in (('zone',), ('channel',), ('frame',), ('no_format',), ('group',), ('origin:zone',),
                 ('origin:channel', 'origin:frame'), ('origin:no_format',), ('same:',), ('zone', 'channel', 'frame'),
                 ('written', 'zone', 'frame', 'origin:channel'), ('written', 'same:'), ('written', 'origin:frame')):
        add(f'identity changed: {what}', renamed(what))
    for how in ('frame', 'group', 'zones', 'axis', 'later', 'channels', 'none'):
        add(f'references between logical files: {how}', foreign(None, how))
    for s in range(150 if q else 1500):
        add(f'graph {s}', graph(f'{seed}-{s}', 6 + s % 40, 1 if s % 5 else 2))
    return out
