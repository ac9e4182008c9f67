"""Segmentation is lossless, ordered and correctly bracketed.

The same specification (records of unknown length) is analysed at the record length under test and at a reference
record length at which its records need fewer segments; the logical records reassembled from both byte terms must be
the same sequence of (explicit flag, type, body), the bodies equal as terms, and payload and row records must equal
the bytes given to the writer.  The reference reader also demands the bracketing of predecessor and successor flags
and one kind and type on all segments of a record.
"""
from .common import *
from .seg import grid


def twice(build):
    def b(S):
        t = build(S)
        # the same specification under another record length
        R = S.fresh(max_record_length=16384 if S.maxlen != 16384 else 8192)
        R.PATH = '/out/ref.dlis'
        return (t, build(R))
    return b


def judge(J, S, t):
    t, u = t
    ph = spec.parse_phys(J.ctx, t)
    rf = spec.parse_phys(J.ctx, u)
    J.check(len(ph.recs) == len(rf.recs), 'record-count', f'{len(ph.recs)} records, {len(rf.recs)} at the reference '
                                                          f'record length')
    for a, b in zip(ph.recs, rf.recs):
        J.check((a.eflr, a.type) == (b.eflr, b.type), 'record-kind', f'record {a.index}: {(a.eflr, a.type)} against '
                                                                     f'{(b.eflr, b.type)}')
        J.check(J.ctx.seq_eq(a.body, b.body), 'body-equal', f'record {a.index}: body differs from the one at the '
                                                            f'reference record length')
    lfs = spec.parse_logical(J.ctx, ph)
    V = jd.View.__new__(jd.View)
    V.J, V.S, V.ph, V.ctx, V.lfs, V.map, V.setof = J, S, ph, J.ctx, lfs, {}, {}
    jd.match(V)
    jd.noformat(V)
    jd.frame_data(V, lambda f: f.rows)


def scenarios(tier, seed):
    out = [Scenario(n, twice(b), judge, expect='any', loop=lb, paths=300, seconds=120) for n, b, lb in grid(tier)]
    return out
