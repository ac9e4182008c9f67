"""All data sources are equivalent and the row window selects exactly its rows.

Relational abstract interpretation: one frame over unknown data is written from inline arrays, a dict, a structured
array and an HDF5 file (data sets renamed, permuted, with unused ones in between), with and without a row window; every
byte term must equal that of the file written from pre-sliced inline arrays, whatever the values, and the rows decoded
from it must be the elements of exactly the selected rows in the frame's channel order.
"""
import random

from .C10 import first_diff
from .data import *


def judge(J, S, t):
    base = t['files'][0]
    V = jd.View(J, S, base)
    jd.match(V)
    jd.frame_data(V, lambda f: f.rows)
    for i, f in enumerate(t['files'][1:]):
        J.check(J.bytes_eq(base, f), 'same-bytes', f'{t["options"][i + 1]}: the file differs from {t["options"][0]}: '
                                                   f'{first_diff(J, base, f)}')


def sliced(S, c, n, lo, hi):
    """rows lo..hi as an array of its own"""
    w = c.width or 1
    d = npm.plain(c.dt)
    es = c.elems(n)[lo * w:hi * w]
    st = npm.Store([(e, d.order) for e in es], caller=True, name=c.dsname)
    return npm.NArr(st, d, (hi - lo,) if c.width is None else (hi - lo, c.width), list(range(len(es))))


def rel(chans, n, win=(0, None), srcs=SOURCES, ins=(None,), extra=(), permute=None, fk=None, dlis=None, several=False,
        rename=None):
    """the pre-sliced inline arrays first, then every source with every input chunk size"""
    def b(S):
        lo, hi = win
        end = n if hi is None else hi
        out = dict(files=[], options=['pre-sliced arrays'])

        def frames():
            fr = [('FRAME', [C(**c) for c in chans], dict(fk or {}))]
            if several:
                fr.append(('SECOND', [C('Z1', '<u2'), C('Z2', '>f4', 3)], {}))
            return fr
        T = S
        T.dlis(**(dlis or {}))
        lf = T.lf(fh_id='H')
        T.origin(lf)
        fr = frames()
        hs = {}
        order = [c for _, cs, _ in fr for c in cs]
        for c in ([order[j] for j in permute] if permute else order):
            k = dict(c.attrs)
            if c.cast:
                k['cast_dtype'] = np_type(T, NPNAME[c.cast])
            hs[id(c)] = T.add(lf, 'channel', c.name, data=sliced(T, c, n, lo, end), **k)
            hs[id(c)].desc = c.written()
        for nm, cs, k in fr:
            f = T.add(lf, 'frame', nm, channels=[hs[id(c)] for c in cs], **k)
            f.rows = [list(r) for r in zip(*[c.slots(T, n) for c in cs])][lo:end]
        T.PATH = '/out/base.dlis'
        out['files'].append(T.write())
        for s in srcs:
            for i in ins:
                T = S.fresh()
                T.PATH = f'/out/{s}{i}.dlis'
                T.dlis(**(dlis or {}))
                lf = T.lf(fh_id='H')
                T.origin(lf)
                fr = frames()
                if rename and s != 'inline':
                    for _, cs, _ in fr:
                        for c in cs:
                            if c.name in rename:
                                key = c.dsname
                                c.ds = rename[c.name] if isinstance(rename, dict) else rename(c.name)
                                keep(c, key)
                kw = supply(T, lf, fr, s, n, [C(**e) for e in extra], permute)
                if lo:
                    kw['from_idx'] = lo
                if hi is not None:
                    kw['to_idx'] = hi
                if i is not None:
                    kw['input_chunk_size'] = i
                out['files'].append(T.write(**kw))
                out['options'].append(f'{s}, rows {lo}..{hi}, input chunk {i}')
        return out
    return b


def keep(c, key):
    """the data set is renamed, its elements stay"""
    es = c.elems

    def elems(rows, k=None):
        return es(rows, k or key)
    c.elems = elems


def later_name(S):
    """data set names assigned after creation, data given at write"""
    out = dict(files=[], options=[])
    for i in range(2):
        T = S if not i else S.fresh()
        T.PATH = f'/out/{i}.dlis'
        T.dlis()
        lf = T.lf(fh_id='H')
        T.origin(lf)
        A, B = C('A', '<i4'), C('B', '>u2', 2)
        xs = []
        for c in (A, B):
            x = T.add(lf, 'channel', c.name, **({} if i else {'data': c.array(T, 3)}))
            x.desc = c.written()
            xs.append(x)
        f = T.add(lf, 'frame', 'F', channels=xs)
        f.rows = [list(r) for r in zip(*[c.slots(T, 3) for c in (A, B)])]
        kw = {}
        if i:
            for x, c, n in zip(xs, (A, B), ('one', 'two')):
                S.set(x.handle, 'dataset_name', n)
            kw['data'] = {'two': B.array(T, 3), 'one': A.array(T, 3), 'A': B.array(T, 3, key='unused')}
        out['files'].append(T.write(**kw))
        out['options'].append('renamed' if i else 'inline')
    return out


def overriding(S):
    """channels named like other channels' data sets"""
    out = dict(files=[], options=[])
    for i, src in enumerate(('inline', 'dict', 'struct', 'h5')):
        T = S if not i else S.fresh()
        T.PATH = f'/out/{i}.dlis'
        T.dlis()
        lf = T.lf(fh_id='H')
        T.origin(lf)
        A, B = C('A', '<i4', ds='B'), C('B', '<i4', ds='A')       # crossed
        for c, k in ((A, 'x'), (B, 'y')):
            c.elems = (lambda rows, key=None, k=k, c=c: [npm.ECell(k, (j,), 'i', 4) for j in range(rows)])
        fr = [('F', [A, B], {})]
        if src == 'inline':
            A.ds, B.ds = None, None
        kw = supply(T, lf, fr, src, 3)
        out['files'].append(T.write(**kw))
        out['options'].append(src)
    return out


SMALL = [dict(name='A', dt='<i4'), dict(name='B', dt='>u2', width=2), dict(name='D', dt='<f4', width=1)]


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []

    def add(name, b, expect='ok', **k):
        out.append(Scenario(name, b, judge, expect=expect, **k))

    r = random.Random(seed)
    for n in (1, 2, 6) if q else (1, 2, 3, 6, 11):
        for lo in range(0, n):
            for hi in [None] + list(range(lo + 1, n + 1)):
                add(f'{n} rows, window {lo}..{hi}, every source', rel(SMALL, n, (lo, hi), ins=(None, 1, 2, 4, 100)))
    for dt in ALL_DT:
        for o in '<>':
            add(f'{o}{dt}', rel([dict(name='A', dt=o + dt), dict(name='B', dt=o + dt, width=2),
                                 dict(name='D', dt=o + dt, width=3, order='F'), dict(name='E', dt=o + dt, special=True)],
                                5, (1, 4), ins=(None, 2)))
    for cast in ALL_DT:
        for a in ('<i4', '>f8', '<u2', '>i8', '<u8'):
            add(f'{a} cast to {cast}', rel([dict(name='A', dt=a, cast=cast), dict(name='B', dt=a, cast=cast, width=2)],
                                           4, (1, 3), ins=(None, 1)))
    names = dict(A='x', B='some/path', D='D-data')
    ex = [dict(name='unused', dt='<f8'), dict(name='A', dt='<f4', width=7), dict(name='0', dt='<i2')]
    for win in ((0, None), (2, 4)):
        add(f'renamed data sets, window {win}', rel(SMALL, 5, win, srcs=SOURCES, rename=names, ins=(None, 2)))
        add(f'renamed data sets with unused ones, window {win}', rel(SMALL, 5, win, rename=names, extra=ex,
                                                                     srcs=('dict', 'struct', 'struct reversed', 'h5',
                                                                           'h5 reversed')))
        add(f'unused data sets, window {win}', rel(SMALL, 5, win, extra=[ex[0], ex[2]], ins=(None, 3)))
        for p in ((2, 1, 0), (1, 2, 0), (0, 2, 1)):
            add(f'channels created in order {p}, window {win}', rel(SMALL, 5, win, permute=p, ins=(None, 2)))
            add(f'channels created in order {p}, renamed, window {win}', rel(SMALL, 5, win, permute=p, rename=names))
        add(f'two frames, window {win}', rel(SMALL, 5, win, several=True, ins=(None, 2)))
    add('data set names of groups', rel(SMALL, 4, srcs=('h5', 'dict'), rename=dict(A='/grp/a', B='grp/sub/b', D='/D')))
    one = [dict(name='A', dt='<f8', ds='X', late=True), dict(name='B', dt='<f8', ds='X', late=True, cast='f4'),
           dict(name='D', dt='<i2')]
    add('channels sharing a data set', rel(one, 4, (1, 3), srcs=('dict', 'struct', 'h5')))
    for vals in ([1, 2, 3, 4, 5, 6, 7], [7, 5, 4, 3, 3, 1, 0], [0, 10, 20, 30, 5, 5, 9], [3, 3, 3, 3, 3, 3, 3]):
        for dt in ('<f8', '>i4', '<u1', '>f4'):
            idx = [dict(name='I', dt=dt, values=[float(v) if 'f' in dt else v for v in vals]), dict(name='B', dt='<u1', width=2)]
            for win in ((0, None), (0, 3), (3, None), (2, 6), (4, 5)):
                add(f'index {vals} as {dt}, window {win}', rel(idx, 7, win, fk=dict(index_type='BOREHOLE-DEPTH'),
                                                              srcs=('inline', 'dict', 'struct', 'h5'), ins=(None, 2)))
    for i in range(40 if q else 400):
        n = r.randint(1, 8)
        cs = []
        for j in range(r.randint(1, 5)):
            cs.append(dict(name=f'C{j}', dt=r.choice('<>') + r.choice(ALL_DT), width=r.choice([None, 1, 2, 3]),
                           order=r.choice('CF'), special=r.random() < .3))
            if r.random() < .3:
                cs[-1]['cast'] = r.choice(ALL_DT)
        lo = r.randrange(n)
        hi = r.choice([None] + list(range(lo + 1, n + 1)))
        p = list(range(len(cs)))
        r.shuffle(p)
        rn = {c['name']: f'ds {j}' for j, c in enumerate(cs) if r.random() < .5}
        add(f'random {i}: {len(cs)} channels, {n} rows, {lo}..{hi}', rel(cs, n, (lo, hi), permute=p, rename=rn,
                                                                        ins=(None, r.randint(1, n)),
                                                                        extra=[ex[0]] if r.random() < .5 else ()))
    add('data set names assigned later', later_name)
    add('crossed names', overriding)
    # windows that select nothing or leave the data: refused or exact
    def out_of(lo, hi, src):
        def b(S):
            S.dlis()
            lf = S.lf(fh_id='H')
            S.origin(lf)
            kw = supply(S, lf, [('F', [C(**c) for c in SMALL], {})], src, 5)
            S.want = [f.rows[lo:hi] for f in lf.frames]
            for f in lf.frames:
                f.rows = f.rows[max(0, lo):hi] if (lo >= 0 and (hi is None or hi >= 0)) else []
            return dict(files=[S.write(from_idx=lo, to_idx=hi, **kw)], options=[f'{src} {lo}..{hi}'])
        return b
    for src in ('inline', 'dict', 'struct', 'h5'):
        for lo, hi in ((5, None), (6, None), (0, 6), (3, 3), (4, 2), (0, 0), (-1, None), (0, -1), (2, 100), (-5, -1)):
            add(f'window {lo}..{hi} of 5 rows from {src}', out_of(lo, hi, src), expect='any')
    return out
