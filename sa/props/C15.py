"""Writability never hinges on byte-size coincidences.

Abstract interpretation of the writer on valid specifications whose record lengths are unknown numbers: no partition
of the lengths may end in an exception, at any maximum record length the constructor accepts, and the file decodes.
"""
from .common import *
from .seg import grid, rows, payload, text_attr


def judge(J, S, t):
    V = jd.View(J, S, t)
    jd.match(V)
    jd.noformat(V)
    J.ok('written')


def names(n, kind='channel'):
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf, S.text('oname', n))
        c = chan(S, lf, S.text('cname', n), '|u1', (2,))
        f = S.add(lf, 'frame', S.text('fname', n), channels=[c])
        f.rows = row_terms(S, [(c.arr, None)])
        x = S.add(lf, 'no_format', S.text('nname', n))
        S.nof_data(lf, x, b'')
        return S.write()
    return b


def maxlen(ml):
    """a specification with explicit and data records at a maximum record length the constructor accepts"""
    def b(S):
        S.dlis(max_record_length=ml)
        lf = S.lf(fh_id='H')
        S.origin(lf, 'O')
        c = chan(S, lf, 'A', '|u1', (2,))
        frame(S, lf, 'F', [c])
        x = S.add(lf, 'no_format', 'N')
        S.nof_data(lf, x, b'')
        S.nof_data(lf, x, S.bytes('p', 3 * ml))
        return S.write()
    return b


def scenarios(tier, seed):
    out = [Scenario(n, b, judge, loop=lb, paths=300, seconds=90) for n, b, lb in grid(tier)]
    mls = (20, 22, 24, 26, 28, 30, 32, 48, 100, 1000, 4096, 8190, 8192, 9998, 10000, 16382, 16384)
    if tier != 'quick':
        mls = sorted(set(range(20, 400, 2)) | set(mls))
    for ml in mls:
        out.append(Scenario(f'maximum record length {ml}', maxlen(ml), judge))
    for n in (1, 2, 3, 127, 128, 254, 255) if tier == 'quick' else range(1, 256, 6):
        out.append(Scenario(f'names of {n} characters', names(n), judge))
    return out
