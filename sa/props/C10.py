"""Chunk sizes are invisible; the file on disk only ever grows by whole records.

Relational abstract interpretation: one specification over unknown data is written with different input and output
chunk sizes; the byte terms of the files must be equal for every value of the unknowns.  The modelled file system
records the content after every flush and close: each must be a prefix of the final file ending on a visible-record
boundary.  Whatever the target path held before is an unknown byte string and must be gone; the size the writer reports
must be the length of the file.
"""
import re

from .data import *


def reported(S):
    """sizes the writer announced for the file"""
    out = []
    for lvl, a in S.it.logs:
        if not a:
            continue
        msg = a[0]
        if isinstance(msg, str):
            m = re.search(r'(?i)total[^0-9%]*size[^0-9%]*(%[ds]|\d+)', msg)
            if m and m.group(1).startswith('%'):
                if len(a) > 1:
                    out.append(a[1])
            elif m:
                out.append(int(m.group(1)))
        elif isinstance(msg, VLazyStr):
            pre = ''
            for p in msg.parts:
                if isinstance(p, str):
                    pre += p
                elif re.search(r'(?i)total[^0-9]*size[^0-9]*$', pre) and isinstance(p[0], (int, Num)):
                    out.append(p[0])
                    break
    return out


def judge(J, S, t):
    base = t['files'][0]
    for i, f in enumerate(t['files'][1:]):
        J.check(J.bytes_eq(base, f), 'same-bytes', f'written with {t["options"][i + 1]} the file differs from '
                                                   f'{t["options"][0]}: {first_diff(J, base, f)}')
    for f, snaps, sizes, o in zip(t['files'], t['snaps'], t['sizes'], t['options']):
        for n in sizes:
            J.check(J.num_eq(n, slen_(J.v(f))), 'reported-size', f'{o}: the writer reports {J.v(n)} bytes, the file '
                                                               f'has {simp(N(slen_(J.v(f))))}')
        ends = [0, 80]
        off = 80
        c = spec.Cur(J.ctx, J.v(f), 'file')
        c.take(80, 'label')
        while not c.empty():
            L = c.num('H', 'visible record length')
            c.take(sub(L, 2), 'visible record')
            off = simp(add(off, L))
            ends.append(off)
        for k, s in enumerate(snaps):
            n = slen_(J.v(s))
            rs = [J.num_eq(n, e) for e in ends]
            J.check(True if True in rs else None if None in rs else False, 'record-boundary',
                    f'{o}: flush {k} leaves {simp(N(n))} bytes, which is no record boundary')
            try:
                head = spec.Cur(J.ctx, J.v(f), 'file').take(n, 'prefix')
            except Bad:
                J.fail('prefix', f'{o}: flush {k} left {simp(N(n))} bytes on disk, more than the final file')
                continue
            J.check(J.bytes_eq(J.v(s), head), 'prefix', f'{o}: the content after flush {k} ({simp(N(n))} bytes) is no '
                                                       f'prefix of the final file')


from ..ctx import slen_         # noqa: E402
from ..spec import Bad          # noqa: E402


def first_diff(J, a, b):
    a, b = J.v(a), J.v(b)
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return f'byte {i}: {x:#04x} and {y:#04x}'
        return f'lengths {len(a)} and {len(b)}'
    return ''


def variants_of(make, options, old=None, dlis=None):
    """build(S): the same specification written once for each set of options"""
    def b(S):
        out = dict(files=[], snaps=[], sizes=[], options=[str(o) for o in options])
        for i, o in enumerate(options):
            T = S if i == 0 else S.fresh()
            T.PATH = f'/out/f{i}.dlis'
            if old is not None and i:
                T.fs.files[T.PATH] = T.bytes(f'old{i}', T.int(f'oldlen{i}', 0, 10 ** 6)) if old == 'any' else old
            n0, l0 = len(T.fs.snaps), len(T.it.logs)
            T.dlis(**(dlis or {}))
            kw = make(T)
            kw.update({k: v(T) if callable(v) else v for k, v in o.items()})
            f = T.write(**kw)
            out['files'].append(f)
            out['snaps'].append([c for _, p, c, _ in T.fs.snaps[n0:] if p == T.PATH and c is not None])
            logs = T.it.logs
            T.it.logs = logs[l0:]
            out['sizes'].append(reported(T)[-1:])
            T.it.logs = logs
            if f is None or [p for p in T.fs.files if p.startswith('/out/')] and False:
                pass
        return out
    return b


def frames_of(chans, n, source='inline', several=False, nof=(), extra=()):
    def make(S):
        lf = S.lf(fh_id='HEADER')
        S.origin(lf)
        fr = [('FRAME', [C(**c) for c in chans], dict(rows=n))]
        if several:
            fr.append(('SECOND', [C('Z1', '<u2'), C('Z2', '>f4', 3)], dict(rows=several)))
        kw = supply(S, lf, fr, source, n, [C(**e) for e in extra])
        nfs = [S.add(lf, 'no_format', f'NF{i}') for i in range(2)] if nof else []
        for i, k in enumerate(nof):
            S.nof_data(lf, nfs[i % 2], S.bytes(f'p{i}', S.int(f'n{i}', *k) if isinstance(k, tuple) else k))
        return kw
    return make


def two_files(S):
    for i in range(2):
        lf = S.lf(fh_id=f'H{i}')
        S.origin(lf, f'O{i}', set_name=f'S{i}')
        c = C(f'A{i}', '<i4', 2)
        x = S.add(lf, 'channel', c.name, data=c.array(S, 5 + i), set_name=f'S{i}')
        S.add(lf, 'frame', f'F{i}', channels=[x], set_name=f'S{i}')
    return {}


def cases(S, n):
    """any chunk size: each below the number of rows on its own, all others together"""
    v = S.int('in', 1, 10 ** 9)
    if S.ctx.branch('>', sub(n, v)):
        return S.it.concretise(v, 20)
    return v


SMALL = [dict(name='A', dt='<i4'), dict(name='B', dt='>u2', width=2), dict(name='D', dt='<f4', width=1)]


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []

    def add(name, b, expect='ok', **k):
        out.append(Scenario(name, b, judge, expect=expect, **k))

    for src in SOURCES:
        for n in (1, 2, 5, 7, 12) if q else (1, 2, 3, 5, 7, 12, 24, 50):
            ins = sorted({1, 2, 3, 4, n - 1, n, n + 1, 10 * n} - {0})
            add(f'{n} rows from {src}, input chunks {ins}',
                variants_of(frames_of(SMALL, n, src), [{}] + [dict(input_chunk_size=i) for i in ins]))
        add(f'two frames from {src}', variants_of(frames_of(SMALL, 7, src, several=4 if src not in
                                                            ('struct', 'struct reversed') else 7),
                                                  [{}] + [dict(input_chunk_size=i) for i in (1, 3, 4, 7)]))
        for lo, hi in ((0, 4), (2, None), (3, 8), (5, 6)):
            add(f'rows {lo}..{hi} from {src}', variants_of(frames_of(SMALL, 9, src), [
                dict(from_idx=lo, to_idx=hi, **({'input_chunk_size': i} if i else {})) for i in (None, 1, 2, 3, 5, 9, 20)]))
        for cast in ('f4', 'i2'):
            add(f'cast to {cast} from {src}', variants_of(
                frames_of([dict(name='A', dt='<i4', cast=cast), dict(name='B', dt='>f8', width=2, cast=cast)], 5, src),
                [{}] + [dict(input_chunk_size=i) for i in (1, 2, 5, 6)]))
    for dt in ALL_DT:
        for o in '<>':
            add(f'{o}{dt}, layouts', variants_of(frames_of([dict(name='A', dt=o + dt), dict(name='B', dt=o + dt, width=3, order='F'),
                                                     dict(name='D', dt=o + dt, stride=-1)], 5),
                                          [{}] + [dict(input_chunk_size=i) for i in (1, 2, 3)]))
    # an indexed frame: metadata computed from all rows whatever the chunks
    for vals in ([1, 2, 3, 4, 5, 6, 7], [7, 6, 5, 4, 3, 2, 1], [1, 2, 4, 3, 9, 9, 0], [5, 5, 5, 5, 5, 5, 5]):
        def mk(S, vals=vals):
            lf = S.lf(fh_id='HEADER')
            S.origin(lf)
            return supply(S, lf, [('F', [C('I', '<f8', values=[float(v) for v in vals]), C('B', '<u1', 2)],
                                   dict(index_type='BOREHOLE-DEPTH'))], 'dict', len(vals))
        add(f'index {vals}', variants_of(mk, [{}] + [dict(input_chunk_size=i) for i in (1, 2, 3, 6, 7, 8)]))
        add(f'index {vals}, windows', variants_of(mk, [dict(from_idx=2, to_idx=6, **({'input_chunk_size': i} if i else {}))
                                                  for i in (None, 1, 2, 3, 6, 7, 8)]))
    # output chunks
    for ml in (20, 40, 128, 8192, 16384):
        outs = [ml, ml + 1, ml + 2, ml + 7, 2 * ml - 1, 2 * ml, 3 * ml + 5, 10 * ml, float(ml), float(2 * ml), 2 ** 32]
        add(f'output chunks for records of {ml}', variants_of(
            frames_of(SMALL, 6, nof=(0, 1, 30, 200)), [{}] + [dict(output_chunk_size=o) for o in outs] + [
                dict(output_chunk_size=o, input_chunk_size=2) for o in outs[:4]], dlis=dict(max_record_length=ml)),
            seconds=120)
    for d in range(-12, 13) if q else range(-60, 61):
        # sizes around the size of the whole file and of its parts
        def outsz(S, d=d):
            return simp(add(N(slen_(S.fs.files['/out/f0.dlis'])), d))
        add(f'output chunk of the file size {d:+d}', variants_of(
            frames_of(SMALL, 40, nof=(300,)), [{}, dict(output_chunk_size=outsz)], dlis=dict(max_record_length=64)))
    for lo, hi in ((0, 47), (48, 103), (104, 160)):
        for o in (64, 65, 100, 1000):
            add(f'payload of any length {lo}..{hi}, output chunk {o}', variants_of(
                frames_of(SMALL[:1], 2, nof=((lo, hi), 3)), [{}, dict(output_chunk_size=o)],
                dlis=dict(max_record_length=64)), paths=300, seconds=90, loop=40)
    for ml, hi in ((20, 500), (64, 700), (8192, 30000)):
        add(f'any output chunk size, records of {ml}', variants_of(
            frames_of(SMALL, 4, nof=(70, 1)), [{}, dict(output_chunk_size=lambda S, ml=ml, hi=hi: S.int('out', ml, hi))],
            dlis=dict(max_record_length=ml)), paths=400, seconds=90)
    for n in (3, 6):
        for src in ('inline', 'struct', 'h5'):
            add(f'any input chunk size, {n} rows from {src}', variants_of(
                frames_of(SMALL, n, src), [{}, dict(input_chunk_size=lambda S, n=n: cases(S, n))]), paths=400,
                seconds=90)
    add('many rows, small output chunks', variants_of(frames_of(SMALL, 130 if q else 600), [
        {}, dict(output_chunk_size=40), dict(output_chunk_size=41, input_chunk_size=7), dict(input_chunk_size=64)],
        dlis=dict(max_record_length=40)), loop=2000, seconds=200)
    # the target path exists
    for old in ('any', b'', b'short', bytes(100000)):
        nm = old if old == 'any' else len(old)
        for o in ({}, dict(output_chunk_size=64), dict(output_chunk_size=100, input_chunk_size=1)):
            add(f'path holding {nm} bytes, {o}', variants_of(frames_of(SMALL, 4, nof=(50,)), [{}, o], old,
                                                             dlis=dict(max_record_length=64)))
    add('several logical files', variants_of(two_files, [{}] + [dict(input_chunk_size=i, output_chunk_size=o)
                                                                for i in (1, 2, 5, 6) for o in (100, 1000)],
                                             dlis=dict(max_record_length=80)))
    add('no output chunk size', variants_of(frames_of(SMALL, 3), [{}, dict(output_chunk_size=None)]))
    return out
