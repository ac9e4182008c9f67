"""Writing never alters the caller's data.

Effect analysis over the memory model of the analyser: every array handed to the program (inline data, dict values, the
structured array, the data sets of an HDF5 file) is a view over a store of cells owned by the caller, with unknown
elements.  The program is interpreted for every kind of source, dtype, byte order, layout, cast, chunk size and window,
for several frames and logical files, for writes which succeed and for writes which fail at every stage; after every
write the bytes of every cell of the caller's stores - also those around and between the elements the program was given
a view of -, the dtype and shape of the arrays, the keys of the dict and the objects under them must be what they were
before the first call.
"""
import random

from .data import *
from .C14 import quiet

SRC = ('inline', 'dict', 'struct', 'struct reversed', 'h5', 'h5 reversed', 'mixed')


class Watch:
    """what the caller owns, as it was when it was handed over"""
    def __init__(self, S):
        self.S = S
        self.arrays, self.dicts = {}, {}
        call, it = S.call, S.it

        def watched(o, name, *a, **k):
            for x in list(a) + list(k.values()):
                self.see(x)
            if name == 'write':
                for sets in it.h5files.values():
                    for x in sets.values():
                        self.see(x)
            return call(o, name, *a, **k)
        S.call = watched
        fresh = S.fresh

        def again(**force):
            T = fresh(**force)
            t = T.call

            def f(o, name, *a, **k):
                for x in list(a) + list(k.values()):
                    self.see(x)
                return t(o, name, *a, **k)
            T.call = f
            return T
        S.fresh = again

    def see(self, x):
        if isinstance(x, npm.NArr):
            if id(x) not in self.arrays:
                self.arrays[id(x)] = (x, mem(x.store), x.dt.key(), tuple(x.shape), list(x.pos), x.store)
        elif isinstance(x, VDict):
            if id(x) not in self.dicts:
                self.dicts[id(x)] = (x, [(k, v) for k, v in items(x)])
            for _, v in items(x):
                self.see(v)

    def judge(self, J):
        S = self.S
        for x, before, dt, shape, pos, st in self.arrays.values():
            nm = st.name
            J.check(J.bytes_eq(before, mem(x.store)), 'same-bytes',
                    f'the memory of the array {nm!r} supplied by the caller is not what it was ({blame(S, x.store)})')
            J.check(x.store is st and x.dt.key() == dt and tuple(x.shape) == shape and list(x.pos) == pos, 'same-type',
                    f'the array {nm!r} supplied by the caller: dtype {x.dt!r}, shape {x.shape} ({blame(S, st)})')
        for d, before in self.dicts.values():
            now = items(d)
            ks, ls = [k for k, _ in before], [k for k, _ in now]
            J.check(ks == ls or (None if sorted(map(str, ks)) == sorted(map(str, ls)) else False), 'same-keys',
                    f'the keys of the dict passed as data are {ls}, not {ks}')
            for k, v in before:
                w = dict(now).get(k)
                if w is v:
                    J.ok('same-values')
                elif w is not None or k in ls:
                    same = isinstance(w, npm.NArr) and isinstance(v, npm.NArr) and w.dt.key() == v.dt.key() and \
                        w.shape == v.shape
                    eq = J.bytes_eq(whole(w), whole(v)) if same else False
                    J.check(None if eq else eq, 'same-values',
                            f'dict[{k!r}] passed as data is another object, {w!r}, than before')
        for e in S.events:
            if e[0] == 'h5-write' or e[0] == 'h5-mode' and e[2] not in ('r', 'r+', 'a'):
                J.fail('file-unchanged', f'the HDF5 file {e[1]} of the caller is written to ({e[-1]})')
            elif e[0] == 'h5-mode' and e[2] != 'r':
                J.maybe('file-unchanged', f'the HDF5 file {e[1]} of the caller is opened in mode {e[2]!r} ({e[-1]})')
            elif e[0] == 'h5-open':
                J.ok('file-unchanged')


def items(d):
    return list(d.d.values())


def mem(st):
    """the bytes of a store"""
    return mk('b', [npm.elem_part(e, o if o != '|' else '>', e.kind, e.size) for e, o in st.cells
                    if not isinstance(e, npm.EObj)])


def whole(a):
    return mk('b', [npm.elem_part(e, o if o != '|' else '>', e.kind, e.size) for p in a.pos
                    for e, o in a.store.cells[p:p + a.dt.nbase()]])


def blame(S, st):
    w = [str(e[-1]) for e in S.events if e[0] in ('array-write', 'array-meta') and e[1] is st]
    return 'altered at ' + ', '.join(sorted(set(w))[:4]) if w else 'altered'


def judge(J, S, t):
    if isinstance(t, dict) and t.get('written') is False:
        J.ok('failed-write')
    S.watch.judge(J)


def around(a, n=2, m=3):
    """the same array as a view into a larger buffer of the caller"""
    st = a.store
    e0 = st.cells[0][0] if st.cells else None
    pad = lambda k: [(npm.ECell(f'around {st.name}', (j,), e0.kind, e0.size), st.cells[0][1]) for j in range(k)]
    if e0 is not None and a.dt.fields is None:
        st.cells = pad(n) + st.cells + pad(n + m)[n:]
        a.pos = [p + n for p in a.pos]
    return a


def spec(chans, source='inline', rows=4, write=None, frames=None, extra=(), fk=None, dlis=None, before=None, twice=False,
         bad=None, permute=None, padded=False, lfs=1, shared=False):
    """one write; `before(S)` arranges for a failure, bad: keywords of channels added without a frame"""
    def b(S):
        S.watch = Watch(S)
        S.dlis(**(dlis or {}))
        kws = []
        for i in range(lfs):
            lf = S.lf(fh_id=f'H{i}') if lfs > 1 else S.lf(fh_id='H')
            sn = {'set_name': f'S{i}'} if i else {}
            S.origin(lf, **sn)
            cs = [C(**c) for c in chans]
            if sn:
                for c in cs:
                    c.attrs = dict(c.attrs, **sn)
            if padded:
                for c in cs:
                    arr = c.array
                    c.array = (lambda T, rows, key=None, arr=arr: around(arr(T, rows, key)))
            fr = [('F', cs, dict(fk or {}, **sn))]
            for nm, more in (frames or []):
                fr.append((nm, [C(**c) for c in more], dict(sn)))
            kws.append(supply(S, lf, fr, source, rows, [C(**e) for e in extra], permute))
        kw = kws[0]
        kw.update(write or {})
        if before:
            before(S)
        out = dict(written=True)
        for i in range(2 if twice else 1):
            try:
                S.write(**kw)
            except PyRaise as e:
                if not e.exc.cls.issub(S.it.builtins['Exception']):
                    raise
                out['written'] = False
        return out
    return b


def same_array(S):
    """one array behind several channels, frames and logical files"""
    S.watch = Watch(S)
    S.dlis()
    a = C('A', '>i4').array(S, 4)
    b = C('B', '<f8', 2, order='F').array(S, 4)
    for i in range(2):
        lf = S.lf(fh_id=f'H{i}')
        sn = {'set_name': f'S{i}'} if i else {}
        S.origin(lf, **sn)
        for j in range(2):
            x = S.add(lf, 'channel', f'A{j}', data=a, cast_dtype=np_type(S, NPNAME[('i2', 'f4')[j]]), **sn)
            y = S.add(lf, 'channel', f'B{j}', data=b, **sn)
            S.add(lf, 'frame', f'F{j}', channels=[x, y], **sn)
    quiet(S, lambda: S.write(input_chunk_size=2))
    quiet(S, lambda: S.write(from_idx=1, to_idx=3))
    return {}


def columns(kind):
    """channels whose arrays are views into one buffer: columns of a matrix, fields of a structured array, rows"""
    def b(S):
        S.watch = Watch(S)
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        d = npm.plain('>f4')
        if kind == 'columns':
            st = npm.Store([(npm.ECell('matrix', (k,), 'f', 4), '>') for k in range(12)], caller=True, name='matrix')
            vs = [npm.NArr(st, d, (4,), [r * 3 + j for r in range(4)]) for j in range(3)]
        elif kind == 'overlapping':
            st = npm.Store([(npm.ECell('buffer', (k,), 'f', 4), '>') for k in range(9)], caller=True, name='buffer')
            vs = [npm.NArr(st, d, (4,), list(range(j, j + 4))) for j in range(3)]
        elif kind == 'reversed':
            st = npm.Store([(npm.ECell('buffer', (k,), 'f', 4), '>') for k in range(9)], caller=True, name='buffer')
            vs = [npm.NArr(st, d, (4,), list(range(j + 3, j - 1, -1))) for j in range(3)]
        elif kind == 'repeated':
            st = npm.Store([(npm.ECell('buffer', (k,), 'f', 4), '>') for k in range(3)], caller=True, name='buffer')
            vs = [npm.NArr(st, d, (4,), [j] * 4) for j in range(3)]
        else:
            t = struct_array(S, [C('X', '>f4'), C('Y', '<f8', 2), C('Z', '<i2')], 4)
            vs = [t.field(S.it, n) for n in ('X', 'Y', 'Z')]
        xs = [S.add(lf, 'channel', f'C{j}', data=v) for j, v in enumerate(vs)]
        S.add(lf, 'frame', 'F', channels=xs)
        quiet(S, lambda: S.write(input_chunk_size=3))
        if kind == 'columns':
            quiet(S, lambda: S.write(to_idx=2))
        return {}
    return b


def override(S):
    """data passed to write() under names the logical file already has arrays for; extra keys; write() twice"""
    S.watch = Watch(S)
    S.dlis()
    lf = S.lf(fh_id='H')
    S.origin(lf)
    x = S.add(lf, 'channel', 'A', data=C('A', '<f8').array(S, 3, 'first'))
    y = S.add(lf, 'channel', 'B', data=C('B', '<f8').array(S, 3, 'second'))
    z = S.add(lf, 'channel', 'D')
    S.add(lf, 'frame', 'F', channels=[x, y, z])
    d = VDict()
    for k, key in (('D', 'given'), ('A', 'other'), ('unused', 'unused')):
        S.it.dict_set(d, k, C(k, '>f4').array(S, 3, key))
    e = VDict()
    S.it.dict_set(e, 'D', C('D', '<i2').array(S, 3, 'third'))
    for data in (d, e, d):
        quiet(S, lambda: S.write(data=data))
    return {}


def attribute_arrays(S):
    """lists of values given for attributes; data of a rejected channel"""
    S.watch = Watch(S)
    S.dlis()
    lf = S.lf(fh_id='H')
    S.origin(lf)
    quiet(S, lambda: S.add(lf, 'channel', 'R', data=C('R', '>i8').array(S, 3), properties=['nonsense']))
    quiet(S, lambda: S.add(lf, 'channel', 'Q', data=C('Q', '>f2').array(S, 3), cast_dtype=S.name('DLISFile')))
    x = S.add(lf, 'channel', 'A', data=C('A', '>f4', 2, stride=2).array(S, 3))
    S.add(lf, 'frame', 'F', channels=[x])
    quiet(S, lambda: S.write())
    return {}


BASIC = [dict(name='A', dt='<i4'), dict(name='B', dt='>u2', width=2), dict(name='D', dt='>f8', width=1)]


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []
    r = random.Random(seed)

    def add(name, b, **k):
        out.append(Scenario(name, b, judge, expect='ok', **k))

    for s in SRC:
        for dt in ALL_DT + ('i8', 'u8', 'f2', 'b1'):
            for o in '<>':
                ch = [dict(name='A', dt=o + dt), dict(name='B', dt=o + dt, width=2, order='F')]
                add(f'{o}{dt} from {s}', spec(ch, s, 3, twice=True))
                add(f'{o}{dt} from {s}, index, chunks, window',
                    spec([dict(c, values=[1, 2, 4, 3, 5, 6, 7, 8]) for c in ch] if dt != 'b1' else ch, s, 4,
                         dict(input_chunk_size=2, from_idx=1), fk=dict(index_type='BOREHOLE-DEPTH')))
    for s in SRC:
        for dt in ('>f4', '<f4', '>i2', '<i4', '<i8', '>u8', '>f8'):
            for cast in ALL_DT if not q else ('i2', 'f4', 'f8', 'u1', dt[1:] if dt[1:] in ALL_DT else 'i4'):
                add(f'{dt} cast to {cast} from {s}',
                    spec([dict(name='A', dt=dt, cast=cast), dict(name='B', dt=dt, width=2, cast=cast)], s, 3,
                         dict(input_chunk_size=2)))
        for lay in (dict(order='F'), dict(stride=2), dict(stride=3), dict(stride=-1), dict(readonly=True)):
            for dt in ('>f4', '<f8', '<i2', '>u4'):
                add(f'{dt} {lay} from {s}', spec([dict(name='A', dt=dt, **lay), dict(name='B', dt=dt, width=3, **lay)], s, 3,
                                                 dict(input_chunk_size=2), twice=True))
                add(f'{dt} {lay} cast from {s}',
                    spec([dict(name='A', dt=dt, cast='f8', **lay), dict(name='B', dt=dt, width=3, cast='i4', **lay)], s, 3,
                         dict(from_idx=1)))
        for dt in ('>f4', '<f8', '>i4'):
            add(f'{dt} views of larger buffers from {s}', spec([dict(name='A', dt=dt), dict(name='B', dt=dt, width=2)], s, 4,
                                                               dict(from_idx=1, to_idx=3), padded=True, twice=True))
            sp = dict(special=True) if dt[1:] in SPECIAL else {}
            add(f'{dt} special values from {s}', spec([dict(name='A', dt=dt, **sp)], s, 5,
                                                      fk=dict(index_type='NON-STANDARD')))
            for vals in ([1, 1, 1, 1], [1, 2, 3, 4], [4, 3, 2, 1], [1, 5, 2, 2], [0, 0, 1, 1], [3]):
                add(f'{dt} index {vals} from {s}', spec([dict(name='A', dt=dt, values=vals), dict(name='B', dt=dt)], s,
                                                        len(vals), fk=dict(index_type='BOREHOLE-DEPTH')))
        for n in (1, 2, 3, 5):
            for i in (None, 1, 2, 3, 5, 100):
                for lo, hi in ((0, None), (0, n - 1), (n - 1, None), (1, 2), (0, n), (2, n + 1), (1, 1)):
                    w = dict(from_idx=lo)
                    if hi is not None:
                        w['to_idx'] = hi
                    if i is not None:
                        w['input_chunk_size'] = i
                    if q and (n, i) in ((1, 2), (1, 3), (3, 5), (2, 5)):
                        continue
                    add(f'{n} rows, chunk {i}, window {lo}..{hi} from {s}', spec(BASIC, s, n, w))
        add(f'two frames from {s}', spec(BASIC, s, 3, frames=[('G', [dict(name='X', dt='>i2'), dict(name='Y', dt='<f4', width=2)])],
                                         twice=True))
        add(f'unused data sets from {s}', spec(BASIC, s, 3, extra=[dict(name='unused', dt='>f8'), dict(name='other', dt='<i8', width=2)]))
        add(f'permuted channels from {s}', spec(BASIC, s, 3, permute=[2, 0, 1]))
        add(f'data set names from {s}', spec([dict(c, ds=f'set {i}') for i, c in enumerate(BASIC)], s, 3))
        if s in ('inline', 'dict', 'struct'):
            add(f'two logical files from {s}', spec(BASIC, s, 3, lfs=2))
        # failing writes
        deny = lambda S: S.fs.denied.add(S.PATH)
        add(f'file not writable, {s}', spec(BASIC, s, 3, before=deny))
        for k in (0, 1, 2):
            def full_disk(S, k=k):
                S.fs.room = k
            add(f'disk full after {k} writes, {s}', spec(BASIC, s, 4, dict(output_chunk_size=200, input_chunk_size=1), before=full_disk,
                                                         dlis=dict(max_record_length=120)))
        for w in (dict(output_chunk_size=10), dict(input_chunk_size=0), dict(from_idx=9), dict(to_idx=-1),
                  dict(to_idx='x'), dict(input_chunk_size=1.5)):
            add(f'{w}, {s}', spec(BASIC, s, 3, w))
        for d in ('<i8', '>u8', '<f2', '<c8', '|S4', '<U2'):
            if d[1] in 'SUc':
                continue
            add(f'{d} among the data, {s}', spec(BASIC + [dict(name='X', dt=d)], s, 3, dict(input_chunk_size=2), twice=True))
        add(f'non-uniform index in high-compatibility mode, {s}',
            spec([dict(name='A', dt='>f4', values=[1, 2, 7]), dict(name='B', dt='<u2')], s, 3,
                 fk=dict(index_type='BOREHOLE-DEPTH'),
                 before=lambda S: S.set(S.name('configuration.global_config'), 'high_compat_mode', True)))
    for s in ('dict', 'struct', 'h5', 'mixed'):
        def lose(S):
            pass
        add(f'missing data set, {s}', spec([dict(name='A', dt='<f4'), dict(name='B', dt='<f4')], s, 3,
                                           before=lambda S: [S.set(x.handle, 'dataset_name', 'nowhere')
                                                             for lf in S.lfs for x in lf.objs if x.kind == 'channel'][:1]))
    # unequal numbers of rows
    for s in ('inline', 'dict', 'h5'):
        def unequal(S, s=s):
            S.watch = Watch(S)
            S.dlis()
            lf = S.lf(fh_id='H')
            S.origin(lf)
            cs = [C('A', '>f4'), C('B', '<i2')]
            xs = []
            d = VDict()
            for c, n in zip(cs, (4, 3)):
                a = c.array(S, n)
                xs.append(S.add(lf, 'channel', c.name, **({'data': a} if s == 'inline' else {})))
                if s == 'dict':
                    S.it.dict_set(d, c.name, a)
                if s == 'h5':
                    a.h5 = True
                    S.it.h5files.setdefault('/in/data.h5', {})['/' + c.name] = a
            S.add(lf, 'frame', 'F', channels=xs)
            quiet(S, lambda: S.write(**({} if s == 'inline' else {'data': d if s == 'dict' else '/in/data.h5'})))
            return {}
        add(f'unequal rows, {s}', unequal)
    add('one array behind several channels', same_array)
    for k in ('columns', 'overlapping', 'reversed', 'repeated', 'fields'):
        add(f'arrays in one buffer: {k}', columns(k))
    add('data overriding inline data', override)
    add('data of rejected channels', attribute_arrays)
    for i in range(60 if q else 800):
        n = r.randint(1, 6)
        cs = []
        for j in range(r.randint(1, 4)):
            c = dict(name=f'C{j}', dt=r.choice('<>') + r.choice(ALL_DT + ('i8', 'u8')), width=r.choice([None, None, 1, 2, 3]),
                     order=r.choice('CF'), readonly=r.random() < .2)
            if r.random() < .5:
                c['cast'] = r.choice(ALL_DT)
            elif c['dt'][1:] in SPECIAL and r.random() < .3:
                c['special'] = True
            if r.random() < .3:
                c['stride'] = r.choice([2, -1])
                c['order'] = 'C'
            cs.append(c)
        w = {}
        if r.random() < .6:
            w['input_chunk_size'] = r.randint(1, n + 1)
        if r.random() < .5:
            w['from_idx'] = r.randrange(n)
        if r.random() < .5:
            w['to_idx'] = r.randint(1, n)
        s = r.choice(SRC)
        add(f'random {i} from {s}', spec(cs, s, n, w, twice=r.random() < .5, padded=r.random() < .5, lfs=1))
    return out
