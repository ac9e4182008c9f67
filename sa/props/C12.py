"""Fail-closed: a write either raises or yields a faithful, well-formed file.

Abstract interpretation of specifications at and beyond the border of what the format can hold, each made invalid in one
place and valid elsewhere.  Inputs the format cannot represent must end in an exception on every partition; for the
others every partition that returns normally must decode, with the strict reader, to exactly the specification.
"""
import datetime as _dt

from .kinds import *


def faithful(J, S, t):
    full(J, S, t)


def wellformed(J, S, t):
    """the strict reader accepts the file and finds the objects of the specification"""
    V = jd.View(J, S, t)
    jd.label(V)
    jd.match(V)
    jd.order(V)
    jd.noformat(V)
    data(V)


LONG = 256


def bad_values(vk, p):
    """(label, value of Base) that cannot be represented"""
    out = []

    def v(label, f):
        out.append((label, f))
    if vk in (T, 'text|ref:long_name', I):
        v('non-ASCII', lambda B: 'caf\u00e9')
        v('non-ASCII start', lambda B: concat('\u20ac', B.S.text(p + 'x', 5)))
        v('non-ASCII end', lambda B: concat(B.S.text(p + 'x', 200), '\u00df'))
    if vk == I:
        v('256', lambda B: B.S.text(p + 'L', 256))
        v('any longer', lambda B: B.S.text(p + 'L', B.S.int(p + 'n', 256, 20000)))
    if vk == TS:
        v('non-ASCII', lambda B: 'na\u00efve')
        v('non-ASCII in list', lambda B: ['fine', 'na\u00efve'])
        v('non-ASCII last', lambda B: [B.S.text(p + 'x', 5)] * 3 + ['\u00e9'])
    if vk.startswith('int:'):
        hi = {'UVARI': 2 ** 30 - 1, 'UNORM': 65535, 'USHORT': 255}[vk[4:]]
        v('one too large', lambda B: hi + 1)
        v('any larger', lambda B: B.S.int(p + 'i', hi + 1, 2 ** 50))
        v('minus one', lambda B: -1)
        v('any negative', lambda B: B.S.int(p + 'i', -2 ** 50, -1))
        v('fraction', lambda B: 1.5)
        v('infinite', lambda B: float('inf'))
        v('not a number', lambda B: float('nan'))
    if vk == DIM:
        v('too large', lambda B: [2 ** 30])
        v('negative', lambda B: [-1])
        v('any negative', lambda B: [2, B.S.int(p + 'i', -1000, -1)])
        v('any larger', lambda B: [B.S.int(p + 'i', 2 ** 30, 2 ** 40)])
        v('fraction', lambda B: [1.5])
    if vk == ST:
        v('two', lambda B: 2)
        v('minus one', lambda B: -1)
        v('fraction', lambda B: 0.5)
        v('any', lambda B: B.S.int(p + 'i', 2, 10 ** 6))
    if vk in (NUM, NUMS, NEST):
        one = (lambda x: x) if vk == NUM else lambda x: [1.0, x]
        v('2**53+1', lambda B: one(2 ** 53 + 1))
        v('huge integer', lambda B: one(10 ** 400))
        v('complex', lambda B: one(1 + 2j))
    if vk in (DTN, DTM):
        for y in (1, 1899, 2156, 9999):
            v(f'year {y}', lambda B, y=y: XDT(_dt.datetime(y, 6, 1, tzinfo=UTC)))
    if vk == 'coords':
        v('non-ASCII', lambda B: ['ok', 'b\u00f6se'])
    if vk == 'param':
        v('non-ASCII', lambda B: 'b\u00f6se')
    if vk == 'units':
        v('256', lambda B: 'u' * 256)
        v('non-ASCII', lambda B: '\u00b5s')
    return out


def fringe_values(vk, p):
    """(label, value) of doubtful meaning: refused, or written faithfully"""
    out = []

    def v(label, f):
        out.append((label, f))
    if vk in (T, I):
        v('empty', lambda B: '')
        v('list of texts', lambda B: ['a', 'b'])
        v('list of one', lambda B: ['a'])
        v('empty list', lambda B: [])
        v('newline', lambda B: 'a\r\nb')
        v('NUL', lambda B: '\x00')
    if vk == T:
        v('very long', lambda B: B.S.text(p + 'L', 20000))
        v('any length', lambda B: B.S.text(p + 'L', B.S.int(p + 'n', 0, 5000)))
    if vk == I:
        v('any length', lambda B: B.S.text(p + 'L', B.S.int(p + 'n', 0, 2000)))
    if vk == TS:
        v('empty', lambda B: '')
        v('empty list', lambda B: [])
        v('empty texts', lambda B: ['', '', ''])
        v('many', lambda B: ['t'] * 300)
    if vk in (NUM, DTN):
        v('list', lambda B: [1.0, 2.0])
        v('empty list', lambda B: [])
        v('bool', lambda B: True)
        v('any integer', lambda B: B.S.int(p + 'i', -2 ** 53, 2 ** 53))
    if vk in (NUMS, NEST):
        v('empty', lambda B: [])
        v('nested empty', lambda B: [[]])
        v('bools', lambda B: [True, False])
        v('mixed', lambda B: [1, 2.5, True])
    if vk == 'coords':
        v('large integers', lambda B: [2 ** 31, -2 ** 31 - 1])
        v('any integers', lambda B: [B.S.int(p + 'i', -2 ** 40, 2 ** 40), 1])
        v('integer and fraction', lambda B: [1, 2.5])
        v('fraction and integer', lambda B: [2.5, 1])
        v('number and text', lambda B: [1.5, 'abc'])
        v('text and number', lambda B: ['abc', 1.5])
        v('empty', lambda B: [])
        v('nested', lambda B: [[1.0], [2.0]])
        v('bools', lambda B: [True, False])
        v('non-finite', lambda B: [float('nan'), float('inf')])
        v('infinite after integer', lambda B: [1, float('inf')])
    if vk == 'param':
        v('large integer', lambda B: 2 ** 31)
        v('any integer', lambda B: B.S.int(p + 'i', -2 ** 40, 2 ** 40))
        v('nested mix', lambda B: [[1, 2.5]])
        v('bool', lambda B: True)
        v('empty', lambda B: [])
    if vk == 'intnum':
        v('fraction', lambda B: 2.5)
        v('large', lambda B: 2 ** 31)
        v('any', lambda B: B.S.int(p + 'i', -2 ** 40, 2 ** 40))
    if vk == ST:
        v('any', lambda B: B.S.int(p + 'i', -2, 3))
    if vk == 'flag':
        v('any', lambda B: B.S.int(p + 'i', 0, 3))
    if vk.startswith('int:'):
        v('bool', lambda B: True)
        v('float', lambda B: 3.0)
        v('list', lambda B: [1, 2])
        v('any', lambda B: B.S.int(p + 'i', -2 ** 33, 2 ** 33))
    if vk == DIM:
        v('empty', lambda B: [])
        v('zero', lambda B: [0])
        v('number', lambda B: 3)
    if vk.startswith('ref:'):
        v('list', lambda B: [B.ref(vk[4:])])
        v('empty list', lambda B: [])
    if vk.startswith('refs:'):
        v('empty', lambda B: [])
    return out


TYPES = {'text': lambda B: 'some text', 'number': lambda B: 3.5, 'integer': lambda B: 3, 'None in list': lambda B: [None],
         'object': lambda B: B.ref('zone', 3), 'bytes': lambda B: b'bytes', 'dict': lambda B: {'unknown-key': 1},
         'date-time': lambda B: XDT(Sc.CT), 'list of lists': lambda B: [['a', 'b'], ['c']], 'bool': lambda B: False,
         'list of objects': lambda B: [B.ref('comment', 7), B.ref('zone', 7)], 'a frame': lambda B: B.frame}


def one(kind, p, f, route, units=None, second=True, loose=False):
    def b(S):
        S.dlis()
        B = Base(S)
        x = put(B, kind, 'OBJ', {p: f(B)}, route, {p: units} if units else None)
        if loose:
            x.any('DIMENSION')
        if second:
            put(B, kind, 'OTHER', {})
        return S.write()
    return b


def spec_with(f, **dlis):
    """a valid specification with one thing changed by f(S, B)"""
    def b(S):
        S.dlis(**{k: v(S) if callable(v) else v for k, v in dlis.items()})
        B = Base(S)
        kw = f(S, B)
        return S.write(**(kw or {}))
    return b


def names(kind, f):
    def b(S):
        S.dlis()
        B = Base(S)
        put(B, kind, f(S), {})
        return S.write()
    return b


def set_names(kind, f):
    def b(S):
        S.dlis()
        B = Base(S)
        put(B, kind, 'OBJ', {}, set_name=f(S))
        return S.write()
    return b


def renames(kind, f):
    def b(S):
        S.dlis()
        B = Base(S)
        x = put(B, kind, 'OBJ', {})
        x.name = f(S)
        S.set(x.handle, 'name', x.name)
        if kind == 'channel':
            x.any('LONG-NAME')                     # defaults to the name at creation or at writing: either is a label
        return S.write()
    return b


def oref(kind, v, later):
    def b(S):
        S.dlis()
        B = Base(S)
        w = v(S) if callable(v) else v
        x = put(B, kind, 'OBJ', {}, **({} if later else {'origin_reference': w}))
        if later:
            S.set(x.handle, 'origin_reference', w)
            x.explicit_origin = w
        if kind == 'frame' and later:
            pass
        return S.write()
    return b


def origin_number(v, later=False):
    def b(S):
        S.dlis()
        w = v(S) if callable(v) else v
        B = Base(S, origin=False)
        o = S.origin(B.lf, **({} if later else {'origin_reference': w}))
        if later:
            S.set(o.handle, 'origin_reference', w)
            o.explicit_origin = w
        return S.write()
    return b


# ------------------------------------------------------------------ structure
def lacking(what):
    def b(S):
        S.dlis()
        if what == 'logical files':
            return S.write()
        lf = S.lf(fh_id='H')
        if what != 'origin':
            S.origin(lf)
        cs = []
        if what not in ('channels', 'channels and frames'):
            cs = [chan(S, lf, 'C', '<f8', (2,))]
        if what == 'channels':
            S.add(lf, 'frame', 'F', channels=[])
        elif what == 'frame channels':
            f = S.add(lf, 'frame', 'F', channels=cs)
            S.set(S.get(f.handle, 'channels'), 'value', S.lst([]))
        elif what == 'frame channels unset':
            S.call(lf.handle, 'add_frame', 'F', channels=None)
        elif what not in ('frames', 'channels and frames'):
            frame(S, lf, 'F', cs)
        if what.startswith('second'):
            l2 = S.lf(fh_id='H2', fh_sequence_number=2)
            if what != 'second origin':
                S.origin(l2, 'O2', set_name='L2')
            d = []
            if what != 'second channels':
                d = [chan(S, l2, 'D', '<f8', (2,), set_name='L2')]
            if what not in ('second frames', 'second channels'):
                frame(S, l2, 'G', d, set_name='L2')
        return S.write()
    return b


# ------------------------------------------------------------------ data
def dt_of(name):
    k = {'bool': ('b', 1), 'complex64': ('c', 8), 'complex128': ('c', 16), 'datetime64': ('M', 8), 'bytes': ('S', 5),
         'text': ('U', 12), 'object': ('O', 8), 'float16': ('f', 2), 'int64': ('i', 8), 'uint64': ('u', 8),
         'timedelta64': ('m', 8), 'void': ('V', 8), 'longdouble': ('f', 16)}[name]
    return npm.DT(k[0], k[1], '<' if k[1] > 1 and k[0] not in 'SOV' else '|')


def raw(S, name, d, shape, pos=None):
    n = 1
    for s in shape:
        n *= s
    st = npm.Store([(npm.ECell(name, (k,), d.kind, d.size), d.order) for k in range(n)], caller=True, name=name)
    return npm.NArr(st, d, tuple(shape), list(range(n)))


def with_arrays(mk, source, cast=None, fk=None, write=None, chans=('A', 'B', 'D')):
    """mk(S) -> {channel: array or other value or None}"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        arrs = mk(S)
        cs = []
        for c in chans:
            k = {}
            if cast and c in cast:
                k['cast_dtype'] = np_type(S, cast[c]) if isinstance(cast[c], str) else cast[c]
            if source == 'inline' and arrs.get(c) is not None:
                k['data'] = arrs[c]
            cs.append(S.add(lf, 'channel', c, **k))
        f = S.add(lf, 'frame', 'F', channels=cs, **(fk or {}))
        kw = dict(write or {})
        if source == 'dict':
            d = VDict()
            for c, a in arrs.items():
                if a is not None:
                    S.it.dict_set(d, c, a)
            kw['data'] = d
        elif source == 'h5':
            S.it.h5files['/in/data.h5'] = {'/' + c: a for c, a in arrs.items() if a is not None}
            for a in arrs.values():
                if isinstance(a, npm.NArr):
                    a.h5 = True
            kw['data'] = '/in/data.h5'
        cols = []
        for c in cs:
            a = arrs.get(c.name)
            if isinstance(a, npm.NArr) and len(a.shape) in (1, 2) and a.dt.kind in 'iuf':
                ct = cast.get(c.name) if cast else None
                ct = {v: k for k, v in NPNAME.items()}.get(ct) if ct else None
                cols.append([slot(S, a, ct, r) for r in range(a.shape[0])])
                c.desc = (ct or f'{a.dt.kind}{a.dt.size}', list(a.shape[1:]) or [1])
        lo, hi = kw.get('from_idx', 0), kw.get('to_idx')
        if isinstance(lo, int) and (hi is None or isinstance(hi, int)) and len(cols) == len(cs):
            cols = [c[lo:hi] for c in cols]
            f.rows = [list(r) for r in zip(*cols)] if len({len(c) for c in cols}) == 1 else [[]] * max(map(len, cols))
        else:
            f.rows = []
        return S.write(**kw)
    return b


def good(S, n=3, **over):
    d = {'A': S.array('A', '<f8', (n,)), 'B': S.array('B', '<i2', (n, 2)), 'D': S.array('D', '>u1', (n,))}
    d.update(over)
    return d


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []

    def must(name, b, **k):
        out.append(Scenario(name + ' must be refused', b, wellformed, expect='raise', **k))

    def may(name, b, judge=faithful, **k):
        out.append(Scenario(name, b, judge, expect='any', **k))

    # ---- attribute values
    for kind, ps in KINDS.items():
        for p, vk in ps.items():
            for label, f in bad_values(vk, p + '-'):
                for route in ('kw', 'later') if q else ('kw', 'dict', 'AttrSetup', 'later'):
                    if route == 'later' and p in ('file_set_number', 'creation_time'):
                        continue
                    must(f'{kind}.{p}: {label} by {route}', one(kind, p, f, route))
            for label, f in fringe_values(vk, p + '-'):
                for route in ('kw', 'later') if q else ('kw', 'dict', 'AttrSetup', 'later'):
                    if route == 'later' and p in ('file_set_number', 'creation_time'):
                        continue
                    may(f'{kind}.{p}: {label} by {route}', one(kind, p, f, route, loose=label == 'nested empty'), conv if vk in (
                        'coords', 'param', ST, 'flag') or vk.startswith(('int', 'enum')) else faithful)
            for label, f in TYPES.items():
                may(f'{kind}.{p}: {label}, whatever the kind', one(kind, p, f, 'kw'), wellformed)
            if vk in HAS_UNITS:
                good_v = {NUM: 1.5, NUMS: [1.5], NEST: [1.5], 'coords': [1.5], 'param': [1.5], DTN: 2.5, 'intnum': 2,
                          'int:UVARI': 3, 'int:UNORM': 3}[vk]
                for label, u in (('256', 'u' * 256), ('300', 'x' * 300), ('non-ASCII', '\u00b0C'), ('non-ASCII end', 'm\u00b2')):
                    for route in ('dict', 'later'):
                        if route == 'later' and p == 'file_set_number':
                            continue
                        must(f'{kind}.{p}: units {label} by {route}', one(kind, p, lambda B, v=good_v: v, route, u))
                may(f'{kind}.{p}: units of 255', one(kind, p, lambda B, v=good_v: v, 'dict', 'u' * 255))
    # ---- names
    for kind in KINDS:
        for label, f in (('256', lambda S: S.text('name', 256)), ('any longer', lambda S: S.text('name', S.int('len', 256, 5000))),
                         ('non-ASCII', lambda S: 'N\u00c4ME'), ('non-ASCII end', lambda S: concat(S.text('nm', 5), '\u00e9'))):
            must(f'{kind} name: {label}', names(kind, f))
            must(f'{kind} set name: {label}', set_names(kind, f))
            must(f'{kind} renamed: {label}', renames(kind, f))
        for label, f in (('empty', lambda S: ''), ('blank', lambda S: ' '), ('any of 255', lambda S: S.text('name', 255)),
                         ('NUL', lambda S: 'a\x00b')):
            may(f'{kind} name: {label}', names(kind, f))
            may(f'{kind} set name: {label}', set_names(kind, f), wellformed)
            may(f'{kind} renamed: {label}', renames(kind, f))
        for label, f in (('number', lambda S: 5), ('None', lambda S: None), ('bytes', lambda S: b'name')):
            if kind != 'frame':
                may(f'{kind} name: {label}', names(kind, f), reader)
            may(f'{kind} renamed: {label}', renames(kind, f), reader)
        for later in (False, True):
            for label, v in (('2**30', 2 ** 30), ('any larger', lambda S: S.int('oref', 2 ** 30, 2 ** 40)), ('-1', -1),
                             ('any negative', lambda S: S.int('oref', -2 ** 40, -1)), ('of no origin', 9),
                             ('of any other origin', lambda S: S.int('oref', 1, 2 ** 30 - 1))):
                if kind == 'origin' and 'origin' in label:
                    continue                       # it numbers a new origin
                must(f'{kind} origin reference {label}, later {later}', oref(kind, v, later))
            may(f'{kind} origin reference 0.5, later {later}', oref(kind, 0.5, later), reader)
    for later in (False, True):
        for label, v in (('2**30', 2 ** 30), ('-1', -1), ('any larger', lambda S: S.int('oref', 2 ** 30, 2 ** 40)),
                         ('any negative', lambda S: S.int('oref', -2 ** 40, -1))):
            must(f'origin numbered {label}, later {later}', origin_number(v, later))
        may(f'origin numbered by anything, later {later}', origin_number(lambda S: S.int('oref', -2 ** 31, 2 ** 33), later))
    for n in (256, 257, 300):
        def same(S, n=n):
            S.dlis()
            B = Base(S)
            for i in range(n):
                S.add(B.lf, 'zone', 'SAME', description=f'd{i}')
            return S.write()
        (may if n == 256 else must)(f'{n} objects of one name', same, **({'judge': reader} if n == 256 else {}))
    # ---- label and header
    for label, v in (('61', lambda S: S.text('sid', 61)), ('any longer', lambda S: S.text('sid', S.int('n', 61, 500))),
                     ('non-ASCII', lambda S: 'S\u00c9T'), ('non-ASCII of 60', lambda S: '\u00e9' * 60),
                     ('non-ASCII of 30', lambda S: '\u00e9' * 30)):
        must(f'set identifier {label}', spec_with(lambda S, B: None, set_identifier=v))
    for label, v in (('66', lambda S: S.text('hid', 66)), ('any longer', lambda S: S.text('hid', S.int('n', 66, 500))),
                     ('non-ASCII', lambda S: 'H\u00c9D')):
        must(f'header id {label}', header(fh_id=v))
    for v in (10 ** 10, 0, -1, lambda S: S.int('seq', 10 ** 10, 10 ** 14), lambda S: S.int('seq', -10 ** 6, -1)):
        (may if v == 0 else must)(f'header sequence number {v if not callable(v) else "beyond"}', header(fh_sequence_number=v))
    may('any header sequence number', header(fh_sequence_number=lambda S: S.int('seq', -10, 10 ** 12)))
    for v in ('\u00e9', 'AB', ''):
        may(f'header identifier {v!r}', header(fh_identifier=v), wellformed)
    must('header identifier \u00e9', header(fh_identifier='\u00e9'))
    for v in (10000, 99999, lambda S: S.int('sul', 10000, 10 ** 6), -1, lambda S: S.int('sul', -10 ** 6, -1)):
        must(f'label sequence number {v if not callable(v) else "beyond"}', spec_with(lambda S, B: None, sul_sequence_number=v))
    may('any label sequence number', spec_with(lambda S, B: None, sul_sequence_number=lambda S: S.int('sul', -20, 20000)))
    for v in (18, 19, 16386, 20000, 0, -8192, 21, 8191, 16383, 8192.5, '8192', None, True):
        may(f'maximum record length {v}', spec_with(lambda S, B: None, max_record_length=v), wellformed)
    for v in (2, 18, 19, 16386, 65536, 0, -8192, 21, 8191, 16383):
        must(f'maximum record length {v}', spec_with(lambda S, B: None, max_record_length=v))
    for a, vs in (('set_identifier', ('x' * 61, '\u00e9', lambda S: S.text('sid', 70))), ('sequence_number', (10000, 10 ** 9)),
                  ('max_record_length', (18, 21, 16386, 20000, 0, -2))):
        for v in vs:
            def f(S, B, a=a, v=v):
                S.set(S.get(S.file, 'storage_unit_label'), a, v(S) if callable(v) else v)
            must(f'label {a} set to {v if not callable(v) else "a longer text"} later', spec_with(f))
    for a, vs in (('header_id', ('x' * 66, '\u00e9')), ('sequence_number', (10 ** 10,)), ('name', ('\u00e9',))):
        for v in vs:
            def f(S, B, a=a, v=v):
                S.set(S.get(B.lf.handle, 'file_header'), a, v)
            must(f'header {a} set to {str(v)[:12]!r} later', spec_with(f))
    # ---- structure
    for w in ('logical files', 'origin', 'channels', 'channels and frames', 'frames', 'frame channels',
              'frame channels unset', 'second origin', 'second channels', 'second frames'):
        must(f'no {w}', lacking(w))
    # ---- data
    for n in ('bool', 'complex64', 'complex128', 'datetime64', 'timedelta64', 'bytes', 'text', 'object', 'float16', 'int64',
              'uint64'):
        for s in ('inline', 'dict', 'h5'):
            for ch in ('A', 'B', 'D'):
                must(f'{n} data for channel {ch} from {s}',
                     with_arrays(lambda S, n=n, ch=ch: good(S, **{ch: raw(S, ch, dt_of(n), (3,))}), s))
        for w in ((3, 1), (3, 2)):
            must(f'{n} data of shape {w}', with_arrays(lambda S, n=n, w=w: good(S, B=raw(S, 'B', dt_of(n), w)), 'inline'))
    for t in ('float16', 'int64', 'uint64', 'bool_', 'complex128', 'complex64'):
        for s in ('inline', 'dict', 'h5'):
            must(f'cast to {t} from {s}', with_arrays(lambda S: good(S), s, cast={'B': t}))
    for sh in ((3, 2, 2), (3, 1, 1), (3, 2, 1, 1), (1, 3, 2)):
        for s in ('inline', 'dict', 'h5'):
            for ch in ('A', 'B', 'D'):
                must(f'shape {sh} for {ch} from {s}', with_arrays(lambda S, sh=sh, ch=ch: good(
                    S, n=sh[0], **{ch: S.array(ch, '<f4', sh)}), s))
    for s in ('inline', 'dict', 'h5'):
        must(f'a scalar array from {s}', with_arrays(lambda S: good(S, B=S.array('B', '<f4', ())), s))
        for ch in ('A', 'B', 'D'):
            must(f'no data for channel {ch} from {s}', with_arrays(lambda S, ch=ch: good(S, **{ch: None}), s))
            for n, m in ((3, 2), (3, 4), (2, 3), (1, 2), (4, 1), (5, 6), (127, 128)):
                for ck in (None, 1, 2, 100) if q else (None, 1, 2, 3, 4, 5, 100):
                    for sh in ((m,), (m, 2)):
                        must(f'{m} rows of {len(sh)}-D channel {ch} among {n}, from {s}, chunks {ck}',
                             with_arrays(lambda S, n=n, ch=ch, sh=sh: good(S, n, **{ch: S.array(ch, '<f4', sh)}), s,
                                         write=dict(input_chunk_size=ck)))
        for idx in (None, 'BOREHOLE-DEPTH'):
            for lo, hi in ((0, 2), (1, 3), (2, None), (0, 3), (1, 4)):
                may(f'unequal rows in window {lo}..{hi} from {s}, index {idx}', with_arrays(
                    lambda S: good(S, 3, B=S.array('B', '<i2', (5, 2)), A=S.array('A', '<f8', (3,), values=[1.0, 2.0, 3.0])),
                    s, write=dict(from_idx=lo, to_idx=hi), fk={'index_type': idx} if idx else None))
    must('no data at all', with_arrays(lambda S: {}, 'inline'))
    must('an empty dict', with_arrays(lambda S: {}, 'dict'))
    must('an empty HDF5 file', with_arrays(lambda S: {}, 'h5'))
    may('zero rows', with_arrays(lambda S: good(S, 0), 'dict'))
    may('zero rows inline', with_arrays(lambda S: good(S, 0), 'inline'))
    may('zero columns', with_arrays(lambda S: good(S, 3, B=S.array('B', '<i2', (3, 0))), 'dict'))
    for v in (0, -1, -100, 1.5, 'x', True, 2.0):
        may(f'input chunk size {v}', with_arrays(lambda S: good(S, 3), 'dict', write=dict(input_chunk_size=v)))
    may('any input chunk size', lambda S: with_arrays(lambda S: good(S, 3), 'dict', write=dict(
        input_chunk_size=cases(S, 'in', -2, 6)))(S))
    for v in (0, 1, -1, 20, 8191, 8192.5, 'x', True, 1e10):
        may(f'output chunk size {v}', with_arrays(lambda S: good(S, 3), 'dict', write=dict(output_chunk_size=v)))
    for lo, hi in ((-1, None), (3, None), (4, None), (0, 4), (0, 0), (2, 1), (1, 1), (0, -1), (-2, -1), (-1, 3), (10, 20)):
        for s in ('inline', 'dict', 'h5'):
            may(f'window {lo}..{hi} from {s}', with_arrays(lambda S: good(S, 3), s, write=dict(from_idx=lo, to_idx=hi)))
    for lo in (0.5, '1', None):
        may(f'window from {lo!r}', with_arrays(lambda S: good(S, 3), 'dict', write=dict(from_idx=lo)), reader)
    # data given both inline and at write; data of the wrong kind
    for v in ([1, 2, 3], (1.0, 2.0, 3.0), 5, 'text'):
        may(f'{v!r} as channel data', with_arrays(lambda S, v=v: good(S, A=S.val(v)), 'inline'), reader)
        may(f'{v!r} in the dict', with_arrays(lambda S, v=v: good(S, A=S.val(v)), 'dict'), reader)
    # ---- no-format data
    for label, p in (('non-ASCII', lambda S: 'caf\u00e9'), ('non-ASCII end', lambda S: concat(S.text('t', 20), '\u20ac'))):
        def f(S, B, p=p):
            x = S.add(B.lf, 'no_format', 'NF')
            S.nof_data(B.lf, x, p(S))
        must(f'{label} no-format text', spec_with(f))
    for v in (5, None, [1, 2], 1.5, b'', '', 'x' * 40000):
        def f(S, B, v=v):
            x = S.add(B.lf, 'no_format', 'NF')
            S.nof_data(B.lf, x, v)
        may(f'no-format data {str(v)[:10]!r}', spec_with(f), reader if not isinstance(v, (str, bytes)) else faithful)
    # ---- channels' own settings
    for w in (None, 1, 3):
        for dim in ([1], [2], [3], [1, 3], [3, 1], [0], [4], [-1], [1.5], [2 ** 30], []):
            for el in (None, [1], [2], [3], [4], [0], [2 ** 30], []):
                def b(S, w=w, dim=dim, el=el):
                    S.dlis()
                    lf = S.lf(fh_id='H')
                    S.origin(lf)
                    k = {'dimension': list(dim)}
                    if el is not None:
                        k['element_limit'] = list(el)
                    c = C('A', '<f4', w, **k)
                    kw = supply(S, lf, [('F', [c, C('B', '<u1')], {})], 'inline', 2)
                    lf.of('channel')[0].any('DIMENSION').any('ELEMENT-LIMIT')
                    return S.write(**kw)
                may(f'width {w}, dimension {dim}, element limit {el}', b, wellformed)
    # ---- frames
    for n in (2, 3):
        def b(S, n=n):
            S.dlis()
            lf = S.lf(fh_id='H')
            S.origin(lf)
            a = S.array('A', '<f8', (3,))
            cs = [S.add(lf, 'channel', 'A', data=a) for _ in range(n)]
            f = S.add(lf, 'frame', 'F', channels=cs)
            f.rows = row_terms(S, [(a, None)] * n)
            for c in cs:
                c.desc = ('f8', [1])
            return S.write()
        may(f'{n} channels of one name in a frame', b, reader)
    return out


def cases(S, name, lo, hi):
    return S.it.concretise(S.int(name, lo, hi), 20)


def header(**k):
    def b(S):
        S.dlis()
        lf = S.lf(**{a: v(S) if callable(v) else v for a, v in dict(dict(fh_id='H'), **k).items()})
        B = Base(S, lf=lf)
        return S.write()
    return b


def conv(J, S, t):
    """values that have a documented conversion: the file holds the same number or text"""
    V = jd.View(J, S, t)
    jd.label(V)
    jd.match(V)
    jd.fidelity(V)
    jd.order(V)


def reader(J, S, t):
    """the strict reader accepts the file"""
    jd.label(jd.View(J, S, t))
