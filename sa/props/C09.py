"""Each logical file has the mandated order: header, origin, sets, then data.

Abstract interpretation of specifications whose calls come in every order (origins first, between, last, several; sets
created in any order, named and unnamed; several logical files; headers with unknown sequence numbers and identifiers).
The sequence of logical records decoded from the file is compared with the mandated one.
"""
import itertools
import random

from .kinds import *


def judge(J, S, t):
    V = jd.View(J, S, t)
    jd.match(V)
    jd.order(V)


STEP = ('origin', 'zone', 'channel', 'frame', 'noformat', 'payload', 'group', 'origin2')


def steps(order, sets=None, rows=2, header=None, late_defining=False):
    """the calls of a small specification in the given order"""
    def b(S):
        S.dlis()
        lf = S.lf(**(header or dict(fh_id='HEADER')))
        st = {}
        do(S, lf, order, sets or {}, st)
        return S.write()
    return b


def do(S, lf, order, sets, st, tag=''):
    def sn(k):
        return {'set_name': sets[k]} if sets.get(k) is not None else {}
    pend = []
    for k in order:
        if k == 'origin':
            S.origin(lf, 'O1' + tag, **sn(k))
        elif k == 'origin2':
            S.origin(lf, 'O2' + tag, file_set_number=77, **sn(k))
        elif k == 'origin3':
            S.origin(lf, 'O3' + tag, file_set_number=78, **sn(k))
        elif k in ('zone', 'zone2'):
            S.add(lf, 'zone', k.upper() + tag, **sn(k))
        elif k in ('channel', 'channel2'):
            c = S.add(lf, 'channel', k.upper() + tag, data=S.array(k + tag, '<f4', (2,)), **sn(k))
            st.setdefault('cs', []).append(c)
        elif k in ('frame', 'frame2'):
            n = 0 if k == 'frame' else 1
            while len(st.setdefault('cs', [])) <= n:
                i = len(st['cs'])
                st['cs'].append(S.add(lf, 'channel', f'EXTRA{i}' + tag, data=S.array(f'e{i}' + tag, '<f4', (2,)),
                                      **sn('channel')))
            S.add(lf, 'frame', k.upper() + tag, channels=[st['cs'][n]], **sn(k))
        elif k == 'noformat':
            st['nf'] = S.add(lf, 'no_format', 'NF' + tag, **sn(k))
        elif k == 'payload':
            if 'nf' in st:
                S.nof_data(lf, st['nf'], b'12345')
            else:
                nf = st['nf'] = S.add(lf, 'no_format', 'NF' + tag, **sn('noformat'))
                S.nof_data(lf, nf, b'early')
        elif k == 'group':
            S.add(lf, 'group', 'G' + tag, **sn(k))
        elif k == 'frames' and not lf.frames:
            pass
    if not lf.frames:
        do(S, lf, ['channel', 'frame'], sets, st, tag + 'X')


def header(**k):
    def b(S):
        S.dlis()
        lf = S.lf(**{a: v(S) if callable(v) else v for a, v in k.items()})
        S.origin(lf)
        c = S.add(lf, 'channel', 'C', data=S.array('C', '<f4', (1,)))
        S.add(lf, 'frame', 'F', channels=[c])
        return S.write()
    return b


def renamed_header(S):
    """header id changed after the origin was added"""
    S.dlis()
    lf = S.lf(fh_id='FIRST')
    S.origin(lf)
    c = S.add(lf, 'channel', 'C', data=S.array('C', '<f4', (1,)))
    S.add(lf, 'frame', 'F', channels=[c])
    h = S.get(lf.handle, 'file_header')
    S.set(h, 'header_id', 'SECOND')
    lf.fh_id = 'SECOND'
    lf.objs[0].exp('FILE-ID', ['SECOND'])
    return S.write()


def many(n, sets, inter, seed=0):
    """several logical files, calls interleaved"""
    def b(S):
        S.dlis()
        r = random.Random(seed)
        lfs = [S.lf(fh_id=f'HEADER-{i}', fh_sequence_number=10 * i + 1) for i in range(n)]
        st = [{} for _ in lfs]
        todo = [['origin', 'zone', 'channel', 'frame', 'noformat', 'payload', 'group', 'channel2', 'frame2'] for _ in lfs]
        if seed:
            for t in todo:
                r.shuffle(t)
        if inter:
            for ks in zip(*todo):
                for i, k in enumerate(ks):
                    part(S, lfs[i], k, sets(i), st[i], f'-{i}')
        else:
            for i in range(n):
                for k in todo[i]:
                    part(S, lfs[i], k, sets(i), st[i], f'-{i}')
        return S.write()
    return b


def part(S, lf, k, sn, st, tag):
    keep = list(lf.frames)
    d = {x: sn for x in ('origin', 'origin2', 'zone', 'channel', 'frame', 'noformat', 'group', 'channel2', 'frame2')}
    if not lf.frames:
        lf.frames.append(None)
        do(S, lf, [k], d, st, tag)
        lf.frames.remove(None)
    else:
        do(S, lf, [k], d, st, tag)


def header_objects(S):
    """a second object put into the header's set by other means"""
    S.dlis()
    a = S.lf(fh_id='A')
    b = S.lf(fh_id='B', fh_sequence_number=2)
    for i, lf in enumerate((a, b)):
        S.origin(lf, f'O{i}', set_name=f'S{i}')
        c = S.add(lf, 'channel', f'C{i}', data=S.array(f'C{i}', '<f4', (1,)), set_name=f'S{i}')
        S.add(lf, 'frame', f'F{i}', channels=[c], set_name=f'S{i}')
    return S.write()


def default_origin(**k):
    """origin with generated file set number and creation time"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        c = S.add(lf, 'channel', 'C', data=S.array('C', '<f4', (1,)))
        S.add(lf, 'frame', 'F', channels=[c])
        S.add(lf, 'origin', 'O', **k)
        return S.write()
    return b


def rejected_set(S):
    """sets left empty by failed calls do not reach the file"""
    S.dlis()
    lf = S.lf(fh_id='H')
    S.origin(lf)
    c = S.add(lf, 'channel', 'C', data=S.array('C', '<f4', (1,)))
    S.add(lf, 'frame', 'F', channels=[c])
    for kind, k in (('zone', dict(domain='NOWHERE')), ('equipment', dict(status=7)), ('splice', dict(zones=[3])),
                    ('group', dict(object_list=['x']))):
        try:
            S.call(lf.handle, 'add_' + kind, 'BAD', set_name='ONLY-BAD', **{a: S.val(v) for a, v in k.items()})
        except PyRaise:
            continue
        raise Cut('accepted')
    return S.write()


def queried(S):
    """reading the properties of a logical file creates no sets"""
    S.dlis()
    lf = S.lf(fh_id='H')
    for p in ('zones', 'channels', 'frames', 'origins', 'axes', 'groups', 'no_formats', 'tools'):
        try:
            list(S.it.iterate(S.get(lf.handle, p)))
        except PyRaise:
            pass
    S.origin(lf)
    c = S.add(lf, 'channel', 'C', data=S.array('C', '<f4', (1,)))
    S.add(lf, 'frame', 'F', channels=[c])
    for p in ('zones', 'channels', 'frames', 'origins', 'axes', 'groups', 'no_formats', 'tools'):
        try:
            list(S.it.iterate(S.get(lf.handle, p)))
        except PyRaise:
            pass
    return S.write()


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []

    def add(name, b, expect='any', **k):
        out.append(Scenario(name, b, judge, expect=expect, **k))

    r = random.Random(seed)
    base = ['origin', 'zone', 'channel', 'frame', 'noformat', 'payload', 'group', 'origin2']
    perms = [list(p) for p in itertools.permutations(['origin', 'channel', 'frame', 'noformat', 'payload'])]
    for p in perms:
        add(f'order {p}', steps(p))
    more = base + ['zone2', 'channel2', 'frame2', 'origin3']
    kinds = ('origin', 'origin2', 'origin3', 'zone', 'zone2', 'channel', 'channel2', 'frame', 'frame2', 'noformat', 'group')
    for i in range(150 if q else 1500):
        p = list(more)
        r.shuffle(p)
        sets = {k: r.choice([None, None, 'SA', 'SB', '']) for k in kinds}
        add(f'order {i}: {p}, sets {sorted((k, v) for k, v in sets.items() if v)}', steps(p, sets))
    for n in (1, 9, 10, 9999999999, 10 ** 10, 0, -1, 123456789):
        add(f'header sequence number {n}', header(fh_id='H', fh_sequence_number=n))
    add('any header sequence number', header(fh_id='H', fh_sequence_number=lambda S: S.int('seq', 1, 10 ** 10 - 1)))
    add('any header sequence number, out of range too', header(fh_id='H', fh_sequence_number=lambda S: S.int('seq', -100, 10 ** 12)))
    for n in (0, 1, 2, 10, 64, 65, 66):
        add(f'any header id of {n}', header(fh_id=lambda S, n=n: S.text('hid', n) if n else ''))
    for t in ('', ' ', ' lead', 'trail ', 'a' * 65, 'lower case', '0', 'tab\t', 'X' * 66, '\x00'):
        add(f'header id {t!r}', header(fh_id=t))
    for t in ('0', 'A', '9', ' '):
        add(f'header identifier {t!r}', header(fh_id='H', fh_identifier=t))
    for n in (2, 3, 4):
        for inter in (False, True):
            for sets in ('all named', 'first unnamed', 'none named'):
                f = {'all named': lambda i: f'LF{i}', 'first unnamed': lambda i: f'LF{i}' if i else None,
                     'none named': lambda i: None}[sets]
                for s in (0, 1, 2, 3) if q else range(12):
                    add(f'{n} logical files, interleaved {inter}, sets {sets}, order {s}', many(n, f, inter, s))
    add('header id changed later', renamed_header)
    add('two logical files, own sets', header_objects)
    add('sets of rejected objects', rejected_set)
    add('sets queried', queried)
    add('generated file set number', default_origin(creation_time=XDT(Sc.CT)))
    for n in (0, 1, 16384, 2 ** 30 - 1):
        add(f'file set number {n}', default_origin(creation_time=XDT(Sc.CT), file_set_number=n))
    add('any file set number', lambda S: default_origin(creation_time=XDT(Sc.CT),
                                                        file_set_number=S.int('fsn', 0, 2 ** 30 - 1))(S))
    return out
