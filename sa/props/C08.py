"""A frame's channel descriptors match the layout of its data records.

Abstract interpretation with arrays of unknown elements: the representation code, DIMENSION and ELEMENT-LIMIT decoded
from each listed channel are compared with the dtype and per-row shape of the data given (after the cast), and the
length of every frame-data record with the layout they declare.  Specifications the writer refuses are not judged.
"""
from .data import *


def judge(J, S, t):
    V = jd.View(J, S, t)
    jd.match(V)
    jd.descriptors(V, lambda x: x.desc if any(x in f.channels for l in S.lfs for f in l.frames) else None)
    jd.frame_data(V, lambda f: f.rows)


def rewrite(first, second):
    """the same file object written with other data: descriptors must follow the last data"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        ks = []
        for c in second:
            k = {'cast_dtype': np_type(S, NPNAME[c.cast])} if c.cast else {}
            x = S.add(lf, 'channel', c.name, **k, **c.attrs)
            x.desc = c.written()
            ks.append(x)
        f = S.add(lf, 'frame', 'F', channels=ks)
        d = {c.name: c.array(S, 2, key=c.name + '1') for c in first}
        S.write('/out/first.dlis', data=d)
        f.rows = [list(r) for r in zip(*[c.slots(S, 3) for c in second])]
        return S.write(data={c.name: c.array(S, 3) for c in second})
    return b


def shared(S):
    S.dlis()
    lf = S.lf(fh_id='H')
    S.origin(lf)
    A, B, D = C('A', '<f8'), C('B', '>i2', 3), C('D', '<u1', 2)
    h = {}
    for c in (A, B, D):
        x = S.add(lf, 'channel', c.name, data=c.array(S, 3))
        x.desc = c.written()
        h[c.name] = x
    for n, cs in (('F1', (A, B)), ('F2', (B, D)), ('F3', (D, A))):
        f = S.add(lf, 'frame', n, channels=[h[c.name] for c in cs])
        f.rows = [list(r) for r in zip(*[c.slots(S, 3) for c in cs])]
    return S.write()


def later(S):
    """attributes and cast assigned after creation"""
    S.dlis()
    lf = S.lf(fh_id='H')
    S.origin(lf)
    A, B = C('A', '<f8', cast='f4'), C('B', '>i2', 3, cast='i4')
    xs = []
    for c in (A, B):
        x = S.add(lf, 'channel', c.name, data=c.array(S, 3))
        S.set(x.handle, 'cast_dtype', np_type(S, NPNAME[c.cast]))
        x.desc = c.written()
        xs.append(x)
    f = S.add(lf, 'frame', 'F', channels=xs)
    f.rows = [list(r) for r in zip(*[c.slots(S, 3) for c in (A, B)])]
    return S.write()


def channels_later(S):
    """the frame's channel list changed after creation"""
    S.dlis()
    lf = S.lf(fh_id='H')
    S.origin(lf)
    A, B, D = C('A', '<f8'), C('B', '>i2', 3), C('D', '<u1', 2)
    h = []
    for c in (A, B, D):
        x = S.add(lf, 'channel', c.name, data=c.array(S, 2))
        x.desc = c.written()
        h.append(x)
    f = S.add(lf, 'frame', 'F', channels=h[:2])
    S.set(S.get(f.handle, 'channels'), 'value', S.lst([h[2], h[0], h[1]]))
    f.channels = [h[2], h[0], h[1]]
    f.attrs['CHANNELS'] = Exp(f.channels)
    f.rows = [list(r) for r in zip(*[c.slots(S, 2) for c in (D, A, B)])]
    return S.write()


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []

    def add(name, cs, **k):
        fk = k.pop('fk', {})
        out.append(Scenario(name, spec_of([('FRAME', cs, fk)], **k), judge, expect='any'))

    for s in SOURCES:
        add(f'every dtype from {s}', [C(f'{o}{dt}'.replace('<', 'L').replace('>', 'B'), o + dt, w)
                                      for dt in ALL_DT for o in '<>' for w in (None,)], source=s, rows=2)
        add(f'every width from {s}', [C(f'W{w}', '<u2', w) for w in (None, 1, 2, 3, 7)], source=s, rows=2)
    for a in ('i2', 'i8', 'f8', 'u1', 'f4', 'u8'):
        for s in ('inline', 'struct', 'h5'):
            add(f'{a} cast to every dtype from {s}', [C(f'C{b}{w}', '>' + a, w, cast=b) for b in ALL_DT
                                                      for w in (None, 2)], source=s, rows=2)
    # dimensions and element limits given by the user
    for w in (None, 1, 3, 5):
        for dim in (None, [1], [3], [5], [2], [3, 1], [1, 3], [15], [5, 3]):
            for el in (None, [1], [3], [5], [10], [2, 5], [1, 1]):
                if dim is None and el is None:
                    continue
                k = {}
                if dim is not None:
                    k['dimension'] = list(dim)
                if el is not None:
                    k['element_limit'] = list(el)
                add(f'width {w}, dimension {dim}, element limit {el}', [C('A', '<f4', w, **k), C('B', '<i2', 2)], rows=2)
    add('dimension as a number', [C('A', '<f4', 3, dimension=3, element_limit=4)], rows=2)
    # data sets shared between channels, some with casts
    for s in ('dict', 'struct', 'h5'):
        add(f'one data set under three names from {s}', [
            C('A', '<i2', ds='X'), C('B', '<i2', ds='X', cast='f4', late=True), C('D', '<i2', ds='X', cast='u1', late=True),
            C('E', '>f8', 2)], source=s)
    out.append(Scenario('channels shared between frames', shared, judge, expect='any'))
    out.append(Scenario('cast assigned later', later, judge, expect='any'))
    out.append(Scenario('channel list assigned later', channels_later, judge, expect='any'))
    out.append(Scenario('channel twice in one frame', lambda S: twice(S), judge, expect='any'))
    for n in (17, 128, 130):
        add(f'{n} channels', [C(f'C{i}', '<' + ALL_DT[i % 8], (None, 1, 2, 3)[i % 4]) for i in range(n)], rows=1)
    for w in (127, 128, 255, 256, 16383, 16384) if q else (127, 128, 255, 256, 16383, 16384, 40000):
        add(f'width {w}', [C('A', '|u1', w), C('B', '<f8')], rows=1)
    # the file object written twice with other data
    for a, b in ((C('A', '<f8'), C('A', '<f4')), (C('A', '<i2', 3), C('A', '<i2', 4)), (C('A', '>i4', 3), C('A', '>i4')),
                 (C('A', '<u1'), C('A', '<u1', 5)), (C('A', '<f8', cast='f4'), C('A', '<i2', cast='f4')),
                 (C('A', '<f8', 2, dimension=[2]), C('A', '<f8', 3, dimension=[2])),
                 (C('A', '<f8', 2, element_limit=[2]), C('A', '<f8', 3, element_limit=[2])),
                 (C('A', '<f8', 4), C('A', '<f8', 2, element_limit=[9]))):
        out.append(Scenario(f'written with {a.dt}x{a.width}, then {b.dt}x{b.width} ({sorted(b.attrs)})',
                            rewrite([a], [b]), judge, expect='any'))
    return out


def twice(S):
    S.dlis()
    lf = S.lf(fh_id='H')
    S.origin(lf)
    A, B = C('A', '<f8'), C('B', '>i2', 3)
    x, y = [S.add(lf, 'channel', c.name, data=c.array(S, 3)) for c in (A, B)]
    x.desc, y.desc = A.written(), B.written()
    f = S.add(lf, 'frame', 'F1', channels=[x, y, x])
    f.rows = [list(r) for r in zip(*[c.slots(S, 3) for c in (A, B, A)])]
    return S.write()
