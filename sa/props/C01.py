"""Physical layout: storage unit label, visible records and logical record segments.

Abstract interpretation of the writer from the public API to the byte term of the file.  Record lengths are unknown
numbers (every length relative to the segment capacity); the byte term is tiled by a reference reader that demands the
label fields, the 0xFF01 marker, even lengths within 20..maximum, segments of even length at least 16 tiling each
visible record, attribute bits free of encryption, checksum and trailing length, and a pad count inside the segment.
"""
from .common import *
from .seg import grid


def judge(J, S, t):
    ph = spec.parse_phys(J.ctx, t)
    for off, L in ph.vrs:
        J.ok('visible-record')
    for r in ph.recs:
        for s in r.segs:
            J.ok('segment')
    V = jd.View.__new__(jd.View)
    V.J, V.S, V.ph, V.ctx = J, S, ph, J.ctx
    jd.label(V)


def label_fields(seq, sid, ml):
    def b(S):
        S.dlis(sul_sequence_number=S.int('seq', *seq) if isinstance(seq, tuple) else seq,
               set_identifier=S.text('sid', sid) if isinstance(sid, int) else sid,
               max_record_length=ml)
        S.sul['seq'] = S.sul['seq']
        lf = S.lf(fh_id='H')
        S.origin(lf, 'O')
        c = chan(S, lf, 'A', '<f8', (1,))
        frame(S, lf, 'F', [c])
        return S.write()
    return b


def sul_object(S):
    from ..harness import Sc
    sul = S.new('StorageUnitLabel', 'MY-SET', **{'sequence_number': 7, 'max_record_length': 1024})
    S.file = S.new('DLISFile', storage_unit_label=sul)
    S.maxlen = 1024
    S.sul = dict(seq=7, set_id='MY-SET')
    lf = S.lf(fh_id='H')
    S.origin(lf, 'O')
    c = chan(S, lf, 'A', '<f8', (2, 300))
    frame(S, lf, 'F', [c])
    return S.write()


def scenarios(tier, seed):
    out = [Scenario(n, b, judge, expect='any', loop=lb, paths=300, seconds=90) for n, b, lb in grid(tier)]
    for i, ml in enumerate((20, 22, 40, 100, 999, 1000, 1024, 8192, 9998, 10000, 16384)):
        out.append(Scenario(f'label, records of {ml}', label_fields((1, 9999), (i * 7) % 61, ml), judge, expect='any'))
    for n in (0, 1, 59, 60):
        out.append(Scenario(f'label, set identifier of {n}', label_fields(1, n, 8192), judge, expect='any'))
    for sid in ('A B', '  lead', 'trail  ', 'x' * 60):
        out.append(Scenario(f'label, set identifier {sid[:8]!r}', label_fields(3, sid, 8192), judge, expect='any'))
    out.append(Scenario('label object', sul_object, judge, expect='any'))
    return out
