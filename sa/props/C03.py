"""Channel data round-trips bit-exactly, one numbered record per row.

Abstract interpretation with arrays of unknown elements: each slot of each frame-data record, cut by the
representation codes and dimensions the frame's channels declare in the file, must be the big-endian form of the very
input element (after the declared cast), whatever its bit pattern; one record per row, numbered from 1.
"""
from .data import *


def judge(J, S, t):
    V = jd.View(J, S, t)
    jd.match(V)
    jd.frame_data(V, lambda f: f.rows)


def one(*cs, **fk):
    return [('FRAME', list(cs), fk)]


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []

    def add(name, frames, **k):
        sk = {a: k.pop(a) for a in ('expect', 'paths', 'seconds', 'loop') if a in k}
        out.append(Scenario(name, spec_of(frames, **k), judge, **sk))

    lay = [dict(), dict(order='F'), dict(stride=2), dict(stride=-1), dict(readonly=True)]
    for dt in ALL_DT:
        for o in '<>':
            add(f'{o}{dt}, every shape and layout', one(
                *[C(f'A{i}', o + dt, w, **l) for i, (w, l) in enumerate([(w, l) for w in (None, 1, 3)
                                                                         for l in lay])]), rows=3)
            add(f'{o}{dt}, special values', one(C('A', o + dt, special=True), C('B', o + dt, 4, special=True)), rows=9)
        for s in SOURCES:
            add(f'{dt} from {s}', one(C('A', '<' + dt), C('B', '>' + dt, 2), C('C', '<f8', special=True)), source=s,
                rows=4)
    for s in SOURCES:
        for n, chunks in ((1, (1, 2, None)), (2, (1, 2, 3)), (5, (1, 2, 3, 4, 5, 6, None)), (7, (3, 7, 100))):
            for ch in chunks:
                add(f'{n} rows from {s}, chunks of {ch}', one(C('A', '<i4'), C('B', '>u2', 2), C('D', '<f4', 1)),
                    source=s, rows=n, write=dict(input_chunk_size=ch))
    for n in (127, 128, 129, 255, 256, 257) if q else (127, 128, 129, 255, 256, 257, 500, 1025):
        add(f'{n} rows', one(C('A', '<u1')), rows=n, loop=2000, write=dict(input_chunk_size=100))
    for n in (16383, 16385) if not q else ():
        add(f'{n} rows', one(C('A', '<u1')), rows=n, loop=20000, seconds=600)
    # more than one chunk while frame numbers need two and four bytes
    for w in (7, 300, 2000):
        add(f'width {w}', one(C('A', '>f8', w), C('B', '<i2', w, order='F')), rows=2)
    for ml in (20, 40, 128, 16384):
        add(f'records of {ml}', one(C('A', '>f4', 30), C('B', '|i1'), C('D', '<u2', 5)), rows=3,
            dlis=dict(max_record_length=ml))
    # casts
    src = ('i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f4', 'f8') if not q else ('i2', 'i4', 'i8', 'u1', 'u4', 'f4', 'f8')
    for a in src:
        for o in '<>':
            for s in ('inline', 'struct', 'h5'):
                add(f'{o}{a} from {s}, cast to every dtype', one(*[C(f'C{b}', o + a, w, cast=b) for b in ALL_DT
                                                                   for w in (None,)]), source=s, rows=2)
    add('cast of 2-D data', one(C('A', '>i4', 3, cast='f4'), C('B', '<f8', 2, cast='f4', order='F'),
                                C('D', '>u2', 2, cast='i4')), rows=3)
    add('cast to the same dtype', one(C('A', '>f4', 2, cast='f4'), C('B', '<i2', cast='i2')), rows=3)
    # many channels, channel order, shared data sets
    add('20 channels', one(*[C(f'C{i}', ('<' if i % 2 else '>') + ALL_DT[i % 8], (None, 1, 2)[i % 3])
                             for i in range(20)]), rows=3)
    for perm in ((2, 0, 1), (1, 2, 0), (2, 1, 0)):
        for s in ('inline', 'dict', 'struct', 'h5'):
            add(f'channels created in order {perm}, data from {s}', one(C('A', '<i2'), C('B', '>i2'), C('D', '<i2', 2)),
                source=s, permute=perm)
    for s in ('dict', 'struct', 'h5'):
        add(f'two channels on one data set from {s}', one(C('A', '<i2', ds='X'), C('B', '<i2', ds='X', late=True), C('D', '<f4')),
            source=s)
    # several frames
    for s in ('inline', 'dict', 'mixed'):
        add(f'three frames with different row counts, {s}', [
            ('F1', [C('A', '<i4'), C('B', '>f8', 2)], dict(rows=2)), ('F2', [C('D', '>u1', 3)], dict(rows=5)),
            ('F3', [C('E', '<f4'), C('G', '<f4')], dict(rows=1))], source=s, write=dict(input_chunk_size=2))
    # windows
    for s in ('inline', 'struct', 'h5'):
        for lo, hi in ((0, 3), (1, None), (2, 5), (5, 6), (0, 6)):
            add(f'rows {lo}..{hi} from {s}', one(C('A', '>i4'), C('B', '<u2', 2, order='F')), source=s, rows=6,
                write=dict(from_idx=lo, to_idx=hi, input_chunk_size=2))
    # an index channel, whatever its values
    for dt in ALL_DT:
        add(f'indexed frame, {dt}', one(C('I', '>' + dt, values=[1, 2, 3, 4]), C('B', '<i2', 2),
                                        index_type='BOREHOLE-DEPTH'), rows=4)
    return out
