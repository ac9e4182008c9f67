"""Primitive values are encoded exactly as their representation code prescribes.

Abstract interpretation of the value encoder on an unknown value of every domain a representation code splits into;
the emitted byte term is decoded by the reference reader, which must recover the value and consume every byte.  Values
outside a code's domain must end in an exception on every partition.  The same domains are also pushed through
attributes and names of written files.
"""
import datetime as _dt

from .common import *
from ..libs import VDatetime

INT = {'USHORT': (15, 0, 255), 'UNORM': (16, 0, 65535), 'ULONG': (17, 0, 2 ** 32 - 1), 'SSHORT': (12, -128, 127),
       'SNORM': (13, -32768, 32767), 'SLONG': (14, -2 ** 31, 2 ** 31 - 1)}
CODE = {v: k for k, v in spec.CODES.items()}


def enc(S, code, value):
    ws = S.name('utils.internal.struct_writer.write_struct')
    rc = S.name('utils.internal.internal_enums.RepresentationCode.' + code)
    return S.it.call(ws, [rc, S.val(value)], {})


def one(code, mk_value):
    def b(S):
        S.exp = mk_value(S)
        return enc(S, code, S.exp)
    return b


def reads(code, expected=None):
    """the emitted bytes decode to the value, with nothing left"""
    def j(J, S, t):
        c = spec.Cur(J.ctx, t, code)
        got = c.value(CODE[code], code)
        J.check(c.empty(), 'length', f'{code}: {simp(c.left)} bytes beyond the encoding')
        e = (expected or (lambda S: S.exp))(S)
        same(J, S, e, got, code)
    return j


def same(J, S, e, got, code):
    if code in ('IDENT', 'ASCII', 'UNITS'):
        J.check(J.text_eq(e, got), 'text', f'{code}: {J.v(e)!r} decodes as {got!r}')
    elif code == 'DTIME':
        dtime(J, S, e, got)
    elif code in ('OBNAME', 'OBJREF'):
        if code == 'OBJREF':
            J.check(J.ctx.seq_eq(got[0], e[3]), 'objref-type', f'type {got[0]!r}, expected {e[3]!r}')
            got = got[1:]
        J.check(J.num_eq(e[0], got[0]), 'origin', f'origin {J.v(e[0])} decodes as {got[0]}')
        J.check(J.num_eq(e[1], got[1]), 'copy', f'copy number {J.v(e[1])} decodes as {got[1]}')
        J.check(J.text_eq(e[2], got[2]), 'name', f'name {J.v(e[2])!r} decodes as {got[2]!r}')
    else:
        J.check(J.num_eq(e, got), 'number', f'{code}: {J.v(e)} decodes as {got}')


def dtime(J, S, e, got):
    """same instant to the millisecond, in UTC"""
    f = [J.v(x) for x in (e.utc(S.it) if isinstance(e, VDatetime) else utc_of(e.dt))]
    y, tm, d, h, mn, s, ms = got.f
    J.check(J.num_eq(sub(N(f[0]), 1900), y), 'dtime-year', f'year {f[0]} decodes as 1900 + {y}')
    J.check(J.num_eq(add(N(f[1]), 32), tm), 'dtime-zone-month', f'month {f[1]} in UTC decodes as {tm}')
    for n, a, b in (('day', f[2], d), ('hour', f[3], h), ('minute', f[4], mn), ('second', f[5], s)):
        J.check(J.num_eq(a, b), 'dtime-' + n, f'{n} {a} decodes as {b}')
    diff = sub(scale(N(ms), 1000), N(f[6]))
    lo, hi = cmp3(J, '>', add(diff, 1000)), cmp3(J, '>', sub(1000, diff))
    J.check(lo and hi if lo is not False and hi is not False else False, 'dtime-ms',
            f'microsecond {f[6]} decodes as millisecond {ms}')
    a, b = cmp3(J, '>=', N(ms)), cmp3(J, '>=', sub(999, N(ms)))
    J.check(a and b if a is not False and b is not False else False, 'dtime-ms', f'millisecond {ms}')


def cmp3(J, op, e):
    """three-valued e > 0 / e >= 0"""
    return J.ctx.facts.decide(op, N(e))


def utc_of(d):
    u = d.astimezone(UTC)
    return [u.year, u.month, u.day, u.hour, u.minute, u.second, u.microsecond]


# ---------------------------------------------------------------- objects
def item(S, kind='axis', origin=(0, 2 ** 30 - 1), copy=(0, 255), name=(0, 255)):
    S.dlis()
    lf = S.lf(fh_id='H')
    n = S.text('name', S.int('n', *name)) if isinstance(name, tuple) else name
    x = S.add(lf, kind, n)
    o = S.int('origin', *origin) if isinstance(origin, tuple) else origin
    c = S.int('copy', *copy) if isinstance(copy, tuple) else copy
    S.set(x.handle, 'origin_reference', o)
    S.set(x.handle, '_copy_number' if copy_private(S, x) else 'copy_number', c)
    return x, o, c, n


def copy_private(S, x):
    try:
        S.set(x.handle, 'copy_number', 0)
        return False
    except PyRaise:
        return True


def obname(code, **k):
    def b(S):
        x, o, c, n = item(S, **k)
        S.exp = (o, c, n, x.set_type.encode())
        return enc(S, code, x.handle)
    return b


# ---------------------------------------------------------------- through files
def names_in_file(n, what):
    """names, units and labels of n characters reach the file"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf, 'O')
        t = S.text('t', S.int('n', *n) if isinstance(n, tuple) else n)
        c = chan(S, lf, 'CH', '<f8', (1,))
        kind = dict(set='zone', units='zone', object='zone').get(what)
        if what == 'object':
            z = S.add(lf, 'zone', t)
        elif what == 'set':
            z = S.add(lf, 'zone', 'Z', set_name=t)
        elif what == 'units':
            z = S.add(lf, 'parameter', 'P', values=[1.5], unit_of={'values': t})
        elif what == 'ident':
            z = S.add(lf, 'parameter', 'P', long_name='x')
            z = S.add(lf, 'equipment', 'E', serial_number=t)
        elif what == 'ascii':
            z = S.add(lf, 'equipment', 'E', trademark_name=t)
        frame(S, lf, 'MAIN', [c])
        return S.write()
    return b


def in_file(J, S, t):
    V = jd.View(J, S, t)
    jd.match(V)
    jd.fidelity(V)


def scenarios(tier, seed):
    out = []

    def ok(name, code, v, **k):
        out.append(Scenario(name, one(code, v), reads(code), **k))

    def bad(name, code, v):
        out.append(Scenario(name, one(code, v), expect='raise'))

    for code, (_, lo, hi) in INT.items():
        ok(f'{code}: {lo}..{hi}', code, lambda S, lo=lo, hi=hi: S.int('v', lo, hi))
        for e in (lo, hi, 0, 1, lo + 1, hi - 1):
            ok(f'{code}: {e}', code, lambda S, e=e: e)
        bad(f'{code}: below {lo}', code, lambda S, lo=lo: S.int('v', None, lo - 1))
        bad(f'{code}: above {hi}', code, lambda S, hi=hi: S.int('v', hi + 1, None))
        for e in (lo - 1, hi + 1):
            bad(f'{code}: {e}', code, lambda S, e=e: e)
        bad(f'{code}: 1.5', code, lambda S: 1.5)
        bad(f'{code}: text', code, lambda S: 'x')
        bad(f'{code}: None', code, lambda S: None)
    for lo, hi in ((0, 127), (128, 16383), (16384, 2 ** 30 - 1), (0, 2 ** 30 - 1)):
        ok(f'UVARI: {lo}..{hi}', 'UVARI', lambda S, lo=lo, hi=hi: S.int('v', lo, hi))
    for e in (0, 1, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536,
              2 ** 30 - 1):
        ok(f'UVARI: {e}', 'UVARI', lambda S, e=e: e)
    bad('UVARI: negative', 'UVARI', lambda S: S.int('v', None, -1))
    bad('UVARI: from 2**30', 'UVARI', lambda S: S.int('v', 2 ** 30, None))
    for e in (-1, 2 ** 30, 2 ** 31, 2 ** 32, 1.5, 'x'):
        bad(f'UVARI: {e!r}', 'UVARI', lambda S, e=e: e)
    for v in (0, 1):
        ok(f'STATUS: {v}', 'STATUS', lambda S, v=v: v)
    bad('STATUS: below 0', 'STATUS', lambda S: S.int('v', None, -1))
    bad('STATUS: above 1', 'STATUS', lambda S: S.int('v', 2, None))
    # floating point
    for v in (0.0, 1.0, -1.5, 3.4028234663852886e+38, float('inf'), float('-inf'), float('nan'), 2.0 ** -126, 1.401298464324817e-45):
        ok(f'FSINGL: {v!r}', 'FSINGL', lambda S, v=v: v)
    for v in (0.1, 1e308, 5e-324, -0.0, float('inf'), float('nan'), 1e39, 2.0 ** 60):
        ok(f'FDOUBL: {v!r}', 'FDOUBL', lambda S, v=v: v)
    ok('FDOUBL: any number', 'FDOUBL', lambda S: S.real('v'))
    ok('FDOUBL: any integer up to 2**53', 'FDOUBL', lambda S: S.int('v', -2 ** 53, 2 ** 53))
    bad('FSINGL: 1e39', 'FSINGL', lambda S: 1e39)
    bad('FSINGL: text', 'FSINGL', lambda S: 'x')
    bad('FDOUBL: text', 'FDOUBL', lambda S: 'x')
    # text
    for lo, hi in ((0, 255), (0, 127), (128, 255)):
        ok(f'IDENT: any text of {lo}..{hi}', 'IDENT', lambda S, lo=lo, hi=hi: S.text('t', S.int('n', lo, hi)))
    for n in (0, 1, 126, 127, 128, 129, 254, 255):
        ok(f'IDENT: any text of {n}', 'IDENT', lambda S, n=n: S.text('t', n))
    bad('IDENT: over 255', 'IDENT', lambda S: S.text('t', S.int('n', 256, None)))
    for n in (256, 257, 300, 16384):
        bad(f'IDENT: {n}', 'IDENT', lambda S, n=n: S.text('t', n))
    for lo, hi in ((0, 127), (128, 16383), (16384, 2 ** 30 - 1)):
        ok(f'ASCII: any text of {lo}..{hi}', 'ASCII', lambda S, lo=lo, hi=hi: S.text('t', S.int('n', lo, hi)), tries=3)
    for n in (0, 1, 127, 128, 255, 256, 16383, 16384, 20000):
        ok(f'ASCII: any text of {n}', 'ASCII', lambda S, n=n: S.text('t', n))
    for code in ('IDENT', 'ASCII'):
        for v in ('µ', 'a' * 10 + 'é', '\udc80', '日本'):
            bad(f'{code}: {ascii(v)}', code, lambda S, v=v: v)
        for v in ('', ' ', 'A b', '~', '\x00', '\n', '\x7f'):
            ok(f'{code}: {v!r}', code, lambda S, v=v: v)
    # date-times
    ok('DTIME: any instant in UTC', 'DTIME', lambda S: S.instant('t'))
    ok('DTIME: any instant in another zone', 'DTIME', lambda S: S.instant('t', 'other'))
    ok('DTIME: any naive instant', 'DTIME', lambda S: S.instant('t', None))
    for us in (0, 1, 499, 500, 501, 999, 1000, 1499, 1500, 499999, 500000, 998999, 999000, 999499, 999500, 999999):
        ok(f'DTIME: microsecond {us}', 'DTIME', lambda S, us=us: XDT(_dt.datetime(2024, 2, 29, 23, 59, 59, us, UTC)))
    for y in (1900, 1901, 1999, 2000, 2024, 2100, 2155):
        for m, d in ((1, 1), (2, 28), (12, 31), (10, 31), (9, 30)):
            ok(f'DTIME: {y}-{m}-{d}', 'DTIME', lambda S, y=y, m=m, d=d: XDT(_dt.datetime(y, m, d, 12, 0, 1, 0, UTC)))
    for h in (-12, -5, -1, 0, 1, 5.5, 14):
        z = _dt.timezone(_dt.timedelta(hours=h))
        for m, d in ((1, 1), (3, 1), (12, 31)):
            ok(f'DTIME: UTC{h:+} month {m} day {d}', 'DTIME', lambda S, z=z, m=m, d=d:
               XDT(_dt.datetime(2023, m, d, 23 if d == 31 else 0, 30, 15, 123456, z)))
    for y in (1899, 2156, 1, 9998):
        bad(f'DTIME: year {y}', 'DTIME', lambda S, y=y: XDT(_dt.datetime(y, 5, 5, 5, 5, 5, 5, UTC)))
    # objects
    for code in ('OBNAME', 'OBJREF'):
        for o in ((0, 127), (128, 16383), (16384, 2 ** 30 - 1)):
            out.append(Scenario(f'{code}: origin {o}', obname(code, origin=o, name='NAME'), reads(code)))
        out.append(Scenario(f'{code}: any name', obname(code, origin=3, copy=2, name=(1, 255)), reads(code)))
        out.append(Scenario(f'{code}: everything unknown', obname(code), reads(code)))
        out.append(Scenario(f'{code}: name over 255', obname(code, origin=3, copy=2, name=(256, None)),
                            expect='raise'))
        out.append(Scenario(f'{code}: copy over 255', obname(code, origin=3, copy=(256, None), name='N'),
                            expect='raise'))
        out.append(Scenario(f'{code}: origin negative', obname(code, origin=(None, -1), name='N'), expect='raise'))
        out.append(Scenario(f'{code}: origin from 2**30', obname(code, origin=(2 ** 30, None), name='N'),
                            expect='raise'))
        bad(f'{code}: a number', code, lambda S: 3)
        bad(f'{code}: a text', code, lambda S: 'x')
    for what in ('object', 'set', 'units', 'ident', 'ascii'):
        for n in (1, 2, 127, 128, 254, 255):
            out.append(Scenario(f'file: {what} of {n}', names_in_file(n, what), in_file))
        out.append(Scenario(f'file: {what} of any length', names_in_file((1, 255), what), in_file))
        if what != 'ascii':
            for n in (256, 300):
                out.append(Scenario(f'file: {what} of {n}', names_in_file(n, what), expect='raise'))
            out.append(Scenario(f'file: {what} of any length over 255', names_in_file((256, None), what),
                                expect='raise'))
    for n in (256, 16383, 16384, 40000):
        out.append(Scenario(f'file: ascii of {n}', names_in_file(n, 'ascii'), in_file))
    return out
