"""Specifications whose records take every length relative to the segment capacity (C01, C02, C15)."""
from .common import *


def payload(n, maxlen, more=(), kind='b', **k):
    """one no-format payload of unknown length in `n` (lo, hi) or of n bytes, then payloads of lengths `more`"""
    def b(S):
        lf = minimal(S, max_record_length=maxlen, **k)
        x = S.add(lf, 'no_format', 'N')
        for i, q in enumerate([n] + list(more)):
            ln = S.int(f'n{i}', *q) if isinstance(q, tuple) else q
            S.nof_data(lf, x, S.bytes(f'p{i}', ln) if kind == 'b' else S.text(f'p{i}', ln))
        return S.write()
    return b


def text_attr(n, maxlen):
    """an explicitly formatted record of unknown length"""
    def b(S):
        lf = minimal(S, max_record_length=maxlen)
        ln = S.int('n', *n) if isinstance(n, tuple) else n
        S.add(lf, 'comment', 'C', text=[S.text('text', ln)])
        return S.write()
    return b


def rows(dt, width, maxlen, n=2, extra=()):
    """frame rows of a given width"""
    def b(S):
        S.dlis(max_record_length=maxlen)
        lf = S.lf(fh_id='H')
        S.origin(lf, 'O')
        cs = [chan(S, lf, 'A', dt, (n, width) if width != 1 else (n,))]
        for i, (d, w) in enumerate(extra):
            cs.append(chan(S, lf, f'C{i}', d, (n, w) if w != 1 else (n,)))
        frame(S, lf, 'F', cs)
        return S.write()
    return b


def anylen(n):
    """every accepted maximum record length at once (unknown even number in a range)"""
    def b(S):
        h = S.int('half', n[0] // 2, n[1] // 2)
        lf = minimal(S, rows=1, max_record_length=simp(scale(h, 2)))
        return S.write()
    return b


def both(ml, n):
    """maximum record length and payload length both unknown"""
    def b(S):
        h = S.int('half', ml[0] // 2, ml[1] // 2)
        lf = minimal(S, rows=1, max_record_length=simp(scale(h, 2)))
        x = S.add(lf, 'no_format', 'N')
        S.nof_data(lf, x, S.bytes('p', S.int('n', *n)))
        return S.write()
    return b


ANYLEN = ((20, 60), (60, 120), (120, 200), (200, 300), (300, 400), (400, 1000), (1000, 16384))
BOTH = (((1000, 16384), (0, 3000)), ((4000, 16384), (0, 20000)), ((400, 1000), (0, 2000)))


def grid(tier):
    """(name, build, loop bound)"""
    q = tier == 'quick'
    out = [(f'any maximum record length {r[0]}..{r[1]}', anylen(r), 40) for r in ANYLEN]
    out += [(f'any maximum record length {r[0]}..{r[1]}, payload of any length {n[0]}..{n[1]}', both(r, n), 14)
            for r, n in BOTH]
    # one record of any length: the range is cut at multiples of the capacity only to spread the work
    for ml in (64, 70, 8192, 16384) if q else (44, 64, 70, 128, 254, 1000, 8190, 8192, 16382, 16384):
        cap = ml - 8
        for k in range(3 if q else 6):
            lo, hi = max(0, k * cap - 8), (k + 1) * cap - 9
            out.append((f'payload of any length {lo}..{hi}, records of {ml}', payload((lo, hi), ml, [3]), 14))
    for ml in (128, 8192) if q else (64, 128, 1024, 8192, 16384):
        cap = ml - 8
        for k in range(2 if q else 4):
            lo, hi = max(0, k * cap - 30), (k + 1) * cap - 31
            out.append((f'comment of any length {lo}..{hi}, records of {ml}', text_attr((lo, hi), ml), 14))
    # every pair around the capacity for small record lengths
    for ml in (20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 44, 50) if q else range(20, 70, 2):
        ds = list(range(0, 3 * (ml - 8) + 3))
        if not q:
            ds = list(range(0, 6 * (ml - 8) + 3))
        step = 40
        for i in range(0, len(ds), step):
            part = ds[i:i + step]
            out.append((f'payloads of {part[0]}..{part[-1]} bytes, records of {ml}', payload(part[0], ml, part[1:]), 14))
    for ml in (100, 126, 256, 8190, 16382):
        cap = ml - 8
        ds = [k * cap + d for k in (1, 2) for d in range(-9, 9)]
        out.append((f'payloads around the capacity, records of {ml}', payload(ds[0], ml, ds[1:]), 14))
    # frame rows: width from one byte
    for dt in ('|u1', '<u2', '<f4', '<f8'):
        for ml in (20, 22, 40, 8192) if q else (20, 22, 24, 30, 40, 64, 8192, 16384):
            for w in (1, 2, 3, 5, 13) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 20):
                out.append((f'rows of {w} x {dt}, records of {ml}', rows(dt, w, ml), 14))
    out.append(('rows of 3 channels', rows('|u1', 1, 8192, 3, [('<i2', 3), ('<f4', 2)]), 14))
    out.append(('rows wider than a record', rows('<f8', 30, 128, 2, [('|i1', 7)]), 14))
    return out
