"""High-compatibility mode enforces its restrictions and never leaks.

Abstract interpretation of the writer with the mode entered and left by the scenario.  Every restricted aspect is
breached in every way the API offers (creation, later assignment, renaming, data supplied at the write), at different
places of a file, inside the mode - where the call or the write must raise - and outside of it - where the same calls
must succeed and log a warning that the good twin of the specification does not.  Files written inside the mode are
decoded from their byte term and every restriction is checked on what they say.  Histories of entering and leaving
(nested, by exception, as a decorator) are enumerated; after every step the mode must be what the nesting says, observed
by what the writer accepts.
"""
import random
import re
from re import _parser

from .C14 import HC, proc, quiet
from .kinds import *

UNIT_SET = set('''A K cd dAPI dB gAPI kg m mol nAPI rad s sr Btu C D GPa Gal Hz J L MHz MPa MeV Mg Mpsi N Oe P Pa S T V W
Wb a acre atm b bar bbl c cP cal cm cu d daN deg degC degF dm eV fC ft g gal h in kHz kPa kV keV kgf km lbf lbm mA mC mD
mGal mL mS mT mV mW mg min mm mohm ms nC nW ns ohm pC pPa ppdk ppk ppm psi pu t ton uA uC uPa uV um uohm upsi us'''.split())
INDEX_SET = {'ANGULAR-DRIFT', 'BOREHOLE-DEPTH', 'NON-STANDARD', 'RADIAL-DRIFT', 'VERTICAL-DEPTH'}
LOCATIONS = {'Logging-System', 'Remote', 'Rig', 'Well'}
EQ_TYPES = set('''Adapter Board Bottom-Nose Bridle Cable Calibrator Cartridge Centralizer Chamber Cushion Depth-Device
Display Drawer Excentralizer Explosive-Source Flask Geophone Gun Head Housing Jig Joint Nuclear-Detector Packer Pad
Positioning Printer Radioactive-Source Shield Simulator Skid Sonde Spacer Standoff System Tool Tool-Module Transducer
Vibration-Source Pane Panel'''.split())
NAME = re.compile(r'[A-Z0-9_-]+')
SIGNED = (12, 13, 14)


# ------------------------------------------------------------------ what a file written inside the mode says
def lit(J, t, what):
    t = J.v(t)
    if isinstance(t, SSeq):
        raise spec.Unk(f'{what} depends on unknown content: {t!r}')
    return t if isinstance(t, str) else bytes(t).decode('latin1')


def one(J, o, label):
    a = o.attrs.get(label)
    if a is None or a.absent or not a.values:
        return None
    return a.values[0]


def restrictions(J, S, term, numbers=True):
    ph, lfs = decode(J.ctx, term)
    text = lit(J, ph.sul['set_id'], 'set identifier')
    ident = text.rstrip(' ')
    J.check(NAME.fullmatch(ident) is not None, 'set-identifier', f'the set identifier is {ident!r}')
    for i, lf in enumerate(lfs):
        uses = {}
        for s in lf.sets:
            for k, o in enumerate(s.objs):
                what = f'logical file {i}: {s.type} object {k}'
                if s.type == 'FILE-HEADER':
                    h = lit(J, one(J, o, 'ID'), 'header id').rstrip(' ')
                    J.check(NAME.fullmatch(h) is not None, 'header-id', f'the header id is {h!r}')
                nm = lit(J, o.name, what)
                J.check(NAME.fullmatch(nm) is not None, 'object-name', f'{what} is named {nm!r}')
                for l, a in o.attrs.items():
                    if not a.absent and a.units is not None:
                        u = lit(J, a.units, 'units')
                        J.check(u in UNIT_SET or not u, 'units', f'{what}: {l} is in {u!r}')
                if s.type == 'CHANNEL':
                    uses.setdefault(jd.ident(o), [0, what])
                    u = one(J, o, 'UNITS')
                    if u is not None:
                        u = lit(J, u, 'units')
                        J.check(u in UNIT_SET or not u, 'units', f'{what} is in {u!r}')
                    rc = one(J, o, 'REPRESENTATION-CODE')
                    J.check(rc not in SIGNED, 'signed', f'{what} is of type {spec.CODES.get(rc, rc)}')
                for ty, l, ok in (('FRAME', 'INDEX-TYPE', INDEX_SET), ('EQUIPMENT', 'TYPE', EQ_TYPES),
                                  ('EQUIPMENT', 'LOCATION', LOCATIONS)):
                    v = one(J, o, l) if s.type == ty else None
                    if v is not None:
                        v = lit(J, v, l)
                        J.check(v in ok, 'enumeration', f'{what}: {l} is {v!r}')
            if s.type == 'ORIGIN' and numbers:
                ns = [one(J, o, 'FILE-SET-NUMBER') for o in s.objs]
                first = ns[0] if ns and isinstance(ns[0], int) else 0
                J.check(1 <= first <= 20 and ns == list(range(first, first + len(ns))), 'file-set-numbers',
                        f'logical file {i}: the file set numbers are {ns}')
        for o in lf.of_type('FRAME'):
            a = o.attrs.get('CHANNELS')
            for r in (a.values if a is not None and not a.absent else ()):
                k = [c for c in uses if all(J.bytes_eq(x, y) is True for x, y in zip(c, r))]
                for c in k:
                    uses[c][0] += 1
        for c, (n, what) in uses.items():
            J.check(n == 1, 'one-frame', f'{what} is in {n} frames')
    return lfs


def judge(J, S, t):
    """t: {what: outcome} as recorded by the scenario, plus the files written inside the mode"""
    for what, (want, got) in t.get('steps', {}).items():
        J.check(want == got, 'raises-or-warns', f'{what}: {got}, must be {want}')
    for f in t.get('files', ()):
        restrictions(J, S, f, t.get('numbers', False))
    for f in t.get('outside', ()):
        decode(J.ctx, f)
    for a, b, what in t.get('same', ()):
        J.check(J.bytes_eq(a, b), 'same-bytes', f'{what}: the files differ')


# ------------------------------------------------------------------ good specifications and breaches of one aspect
U = dict(name='A', dt='<u2')
GRID = dict(name='I', dt='<f8', values=[1.0, 1.5, 2.0, 2.5])


class Good:
    """a specification within every restriction; `with_` breaches one"""
    def __init__(self, S, rows=4, index=True, late=False, **dl):
        self.S = S
        S.dlis(**dl)
        self.lf = S.lf(fh_id='HEADER-1')
        S.origin(self.lf, 'ORIGIN')
        self.idx = self.channel('INDEX', '<f8', [1.0, 1.5, 2.0, 2.5][:rows])
        self.val = self.channel('VAL', '<u2', [5, 3, 2, 9][:rows])
        self.frame = S.add(self.lf, 'frame', 'MAIN', channels=[self.idx, self.val],
                           **({'index_type': 'BOREHOLE-DEPTH'} if index else {}))
        self.kw = {}

    def channel(self, name, dt, values, lf=None, **k):
        d = npm.plain(dt)
        es = [npm.num_elem(v, d.kind, d.size) if not isinstance(v, npm.Elem) else v for v in values]
        a = npm.NArr(npm.Store([(e, d.order) for e in es], caller=True, name=name), d, (len(es),), list(range(len(es))))
        return self.S.add(lf or self.lf, 'channel', name, data=a, **k)

    def second(self, name='SECOND', **k):
        """another frame"""
        i = self.channel(name + '-I', '<u4', [10, 20, 30])
        return self.S.add(self.lf, 'frame', name, channels=[i], **k), i

    def other_file(self):
        """another logical file"""
        S = self.S
        lf = S.lf(fh_id='HEADER-2')
        sn = dict(set_name='OTHER')
        S.origin(lf, 'ORIGIN-2', **sn)
        c = self.channel('C2', '<f4', [1.0, 2.0], lf, **sn)
        f = S.add(lf, 'frame', 'F2', channels=[c], **sn)
        return lf, c, f, sn

    def set_value(self, x, attr, v):
        self.S.set(self.S.get(x.handle, attr), 'value', self.S.val(v))

    def set_units(self, x, attr, u):
        self.S.set(self.S.get(x.handle, attr), 'units', u)


def arr(S, name, dt, values):
    d = npm.plain(dt)
    es = [npm.num_elem(v, d.kind, d.size) for v in values]
    return npm.NArr(npm.Store([(e, d.order) for e in es], caller=True, name=name), d, (len(es),), list(range(len(es))))


BAD_NAMES = ('lower', 'Mixed', 'WITH SPACE', 'DOT.', 'A/B', 'TRAILING\n', '\nX', 'X Y', ' LEAD', 'TAIL ', 'A,B', '\u00c4',
             '\u0391', '\u0661', 'A\u00b2', '(X)', 'A:B', 'x', 'A\x00', 'M\u2013N', 'A+B', 'N\u00ba', '\U0001d7d8')
GOOD_NAMES = ('A', 'Z9', '-', '_', '0', 'A-B_C', '---', 'X' * 60, '00-')
BAD_UNITS = ('furlong', 'M', 'KG', 'm ', ' m', 'METER', 'Meter', 'unitless', 'METERS')
OUT_NAMES = tuple(n for n in BAD_NAMES if n.isascii())


def breaches(q):
    """(aspect, how): f(S) -> kw of write; f(S, ok=True) is the good twin"""
    out = {}

    def breach(aspect, how):
        def d(f):
            out[aspect, how] = f
        return d

    # names
    for kind in KINDS:
        if kind == 'frame':
            def f(S, ok=False):
                G = Good(S)
                G.second('OK-NAME' if ok else 'Not ok')
                return G.kw
        elif kind == 'channel':
            def f(S, ok=False):
                G = Good(S)
                c = G.channel('OK-NAME' if ok else 'Not ok', '<u1', [1, 2])
                S.add(G.lf, 'frame', 'G', channels=[c])
                return G.kw
        elif kind == 'origin':
            def f(S, ok=False):
                G = Good(S)
                S.origin(G.lf, 'OK-NAME' if ok else 'Not ok')
                return G.kw
        else:
            def f(S, ok=False, kind=kind):
                G = Good(S)
                S.add(G.lf, kind, 'OK-NAME' if ok else 'Not ok')
                return G.kw
        breach('name', f'of a new {kind}')(f)

        def f(S, ok=False, kind=kind):
            G = Good(S)
            if kind == 'frame':
                x = G.frame
            elif kind == 'channel':
                x = G.val
            elif kind == 'origin':
                x = S.origin(G.lf, 'ORIGIN-B')
            else:
                x = S.add(G.lf, kind, 'OBJ')
            S.set(x.handle, 'name', 'OK-NAME' if ok else 'Not ok')
            return G.kw
        breach('name', f'of a renamed {kind}')(f)
    for n in (BAD_NAMES if True else ()):
        for where in ('zone', 'set identifier', 'header id', 'renamed zone', 'renamed header'):
            def f(S, ok=False, n=n, where=where):
                v = 'GOOD' if ok else n
                G = Good(S, **({'set_identifier': v} if where == 'set identifier' else {}))
                if where == 'zone':
                    S.add(G.lf, 'zone', v)
                elif where == 'renamed zone':
                    S.set(S.add(G.lf, 'zone', 'Z').handle, 'name', v)
                elif where == 'header id':
                    lf = S.lf(fh_id=v)
                    sn = dict(set_name='OTHER')
                    S.origin(lf, 'ORIGIN-2', **sn)
                    S.add(lf, 'frame', 'F2', channels=[G.channel('C2', '<f4', [1.0, 2.0], lf, **sn)], **sn)
                elif where == 'renamed header':
                    S.set(S.get(G.lf.handle, 'file_header'), 'header_id', v)
                    S.set(S.get(S.get(S.get(G.lf.handle, 'defining_origin'), 'file_id'), '__class__'), '_dummy', None) \
                        if False else None
                    S.set(S.get(S.get(G.lf.handle, 'defining_origin'), 'file_id'), 'value', v)
                return G.kw
            breach('name', f'{n!r} as a {where}')(f)

    @breach('name', 'of an object of the second logical file')
    def f(S, ok=False):
        G = Good(S)
        lf, c, fr, sn = G.other_file()
        S.add(lf, 'comment', 'OK' if ok else 'not ok', **sn)
        return G.kw

    @breach('name', 'renamed in the second logical file')
    def f(S, ok=False):
        G = Good(S)
        lf, c, fr, sn = G.other_file()
        S.set(fr.handle, 'name', 'OK' if ok else 'not ok')
        return G.kw

    @breach('name', 'set identifier changed')
    def f(S, ok=False):
        G = Good(S)
        S.set(S.get(S.file, 'storage_unit_label'), 'set_identifier', 'OK' if ok else 'not ok')
        return G.kw

    @breach('name', 'of the second of two zones')
    def f(S, ok=False):
        G = Good(S)
        S.add(G.lf, 'zone', 'SAME')
        z = S.add(G.lf, 'zone', 'SAME')
        S.set(z.handle, 'name', 'OK' if ok else 'not ok')
        return G.kw

    # signed integers
    for dt in ('<i1', '<i2', '>i2', '<i4', '>i4'):
        for where in ('inline', 'dict', 'struct', 'h5', 'mixed'):
            for width in (None, 2):
                def f(S, ok=False, dt=dt, where=where, width=width):
                    S.dlis()
                    lf = S.lf(fh_id='H')
                    S.origin(lf)
                    return supply(S, lf, [('F', [C('A', '<u2'), C('B', '<u4' if ok else dt, width)], {})], where, 2)
                breach('signed', f'{dt} {width or ""} {where}')(f)
    for where in SOURCES:
        def f(S, ok=False, where=where):
            S.dlis()
            lf = S.lf(fh_id='H')
            S.origin(lf)
            return supply(S, lf, [('F', [C('A', '<u1', cast='u2' if ok else 'i2'), C('B', '<f8')], {})], where, 2)
        breach('signed', f'cast to signed, {where}')(f)

    @breach('signed', 'second frame')
    def f(S, ok=False):
        G = Good(S)
        c = G.channel('S', '<u2' if ok else '<i2', [1, 2])
        S.add(G.lf, 'frame', 'F2', channels=[c])
        return G.kw

    @breach('signed', 'second logical file')
    def f(S, ok=False):
        G = Good(S)
        lf, c, fr, sn = G.other_file()
        c = G.channel('S', '<u2' if ok else '<i2', [1, 2], lf, **sn)
        S.add(lf, 'frame', 'F3', channels=[c], **sn)
        return G.kw

    @breach('signed', 'index channel')
    def f(S, ok=False):
        G = Good(S)
        c = G.channel('S', '<u2' if ok else '<i2', [1, 2])
        S.add(G.lf, 'frame', 'F2', channels=[c], index_type='VERTICAL-DEPTH')
        return G.kw

    @breach('signed', 'cast chosen later')
    def f(S, ok=False):
        G = Good(S)
        S.set(G.val.handle, 'cast_dtype', np_type(S, 'uint32' if ok else 'int32'))
        return G.kw

    @breach('signed', 'write data over inline data')
    def f(S, ok=False):
        G = Good(S)
        d = VDict()
        S.it.dict_set(d, 'VAL', arr(S, 'over', '<u2' if ok else '<i2', [1, 2, 3, 4]))
        return dict(data=d)

    @breach('signed', 'data set of another name')
    def f(S, ok=False):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        return supply(S, lf, [('F', [C('A', '<u2'), C('B', '<u4' if ok else '<i4', ds='raw/b')], {})], 'h5', 2)

    # one frame for each channel
    @breach('one-frame', 'in none')
    def f(S, ok=False):
        G = Good(S)
        c = G.channel('EXTRA', '<u2', [1, 2])
        if ok:
            S.add(G.lf, 'frame', 'F2', channels=[c])
        return G.kw

    @breach('one-frame', 'without data in none')
    def f(S, ok=False):
        G = Good(S)
        if not ok:
            S.add(G.lf, 'channel', 'EXTRA')
        return G.kw

    @breach('one-frame', 'in two')
    def f(S, ok=False):
        G = Good(S)
        S.add(G.lf, 'frame', 'F2', channels=[G.channel('X', '<u1', [1, 2, 3, 4])] + ([] if ok else [G.val]))
        return G.kw

    @breach('one-frame', 'only channel of two frames')
    def f(S, ok=False):
        G = Good(S)
        c = G.channel('X', '<u1', [1, 2, 3, 4])
        S.add(G.lf, 'frame', 'F2', channels=[c])
        if not ok:
            S.add(G.lf, 'frame', 'F3', channels=[c])
        return G.kw

    @breach('one-frame', 'in three')
    def f(S, ok=False):
        G = Good(S)
        for i in range(2):
            S.add(G.lf, 'frame', f'F{i}', channels=[G.channel(f'X{i}', '<u1', [1, 2, 3, 4])] + ([] if ok else [G.idx]))
        return G.kw

    @breach('one-frame', 'taken out of its frame')
    def f(S, ok=False):
        G = Good(S)
        if not ok:
            G.set_value(G.frame, 'channels', [G.idx])
        return G.kw

    @breach('one-frame', 'put into another frame')
    def f(S, ok=False):
        G = Good(S)
        fr, i = G.second()
        c = G.channel('MORE', '<u1', [1, 2, 3])
        G.set_value(fr, 'channels', [i, c] if ok else [i, c, G.val])
        if not ok:
            d = VDict()
            S.it.dict_set(d, 'VAL', arr(S, 'v', '<u2', [1, 2, 3]))
            S.it.dict_set(d, 'INDEX', arr(S, 'v', '<f8', [1, 2, 3]))
            return dict(data=d)
        return G.kw

    @breach('one-frame', 'in none of the second logical file')
    def f(S, ok=False):
        G = Good(S)
        lf, c, fr, sn = G.other_file()
        d = G.channel('X2', '<u2', [1, 2], lf, **sn)
        if ok:
            S.add(lf, 'frame', 'F3', channels=[d], **sn)
        return G.kw

    @breach('one-frame', 'same-named channel in none')
    def f(S, ok=False):
        G = Good(S)
        c = G.channel('VAL', '<u2', [1, 2])
        if ok:
            S.add(G.lf, 'frame', 'F2', channels=[c])
        return G.kw

    @breach('one-frame', 'of another set in none')
    def f(S, ok=False):
        G = Good(S)
        c = G.channel('EXTRA', '<u2', [1, 2], set_name='MORE')
        if ok:
            S.add(G.lf, 'frame', 'F2', channels=[c])
        return G.kw

    # uniform spacing
    for how, dt, good, bad in (
            ('f8', '<f8', [1.0, 1.5, 2.0, 2.5], [1.0, 1.5, 2.5, 2.75]), ('>f8', '>f8', [3., 2., 1.], [3., 2., 0.]),
            ('f4', '<f4', [0.0, 1.0, 2.0], [0.0, 1.0, 3.0]), ('u2', '<u2', [1, 2, 3], [1, 2, 4]),
            ('u4', '<u4', [10, 20, 30], [10, 20, 25]), ('u1', '<u1', [9, 8, 7], [9, 8, 5]),
            ('turning back', '<f8', [1.0, 2.0, 3.0], [1.0, 2.0, 1.0]), ('last row', '<u2', list(range(9)),
                                                                        list(range(8)) + [80]),
            ('first row', '<u2', list(range(9)), [50] + list(range(1, 9))),
            ('partly constant', '<f8', [4.0, 4.0, 4.0], [4.0, 4.0, 5.0]),
            ('unsigned going down', '<u1', [200, 100, 0], [200, 100, 50])):
        def f(S, ok=False, dt=dt, good=good, bad=bad):
            G = Good(S)
            c = G.channel('S', dt, good if ok else bad)
            S.add(G.lf, 'frame', 'F2', channels=[c], index_type='BOREHOLE-DEPTH')
            return G.kw
        breach('spacing', how)(f)
    for n in ('nan', 'inf', '-inf'):
        def f(S, ok=False, n=n):
            G = Good(S)
            c = G.channel('S', '<f8', [1.0, 2.0, 3.0 if ok else float(n)])
            S.add(G.lf, 'frame', 'F2', channels=[c], index_type='BOREHOLE-DEPTH')
            return G.kw
        breach('spacing', f'{n} in the index')(f)
    for how, fk in (('given spacing', dict(spacing=1.0)), ('given direction', dict(direction='INCREASING')),
                    ('everything given', dict(spacing=1.0, direction='INCREASING', index_min=1, index_max=4)),
                    ('non-standard index', dict(index_type='NON-STANDARD')), ('drift', dict(index_type='ANGULAR-DRIFT'))):
        for src in ('inline', 'dict', 'struct', 'h5'):
            def f(S, ok=False, fk=fk, src=src):
                S.dlis()
                lf = S.lf(fh_id='H')
                S.origin(lf)
                return supply(S, lf, [('F', [C('I', '<f8', values=[1.0, 2.0, 3.0] if ok else [1.0, 2.0, 4.0]),
                                             C('B', '<f4')], dict({'index_type': 'VERTICAL-DEPTH'}, **fk))], src, 3)
            breach('spacing', f'{how}, {src}')(f)

    @breach('spacing', 'rows of the window only')
    def f(S, ok=False):
        G = Good(S, index=False)
        S.set(S.get(G.frame.handle, 'index_type'), 'value', 'BOREHOLE-DEPTH')
        d = VDict()
        S.it.dict_set(d, 'INDEX', arr(S, 'i', '<f8', [1, 2, 3, 4, 50] if ok else [7, 2, 3, 5, 6]))
        S.it.dict_set(d, 'VAL', arr(S, 'v', '<u2', [1, 2, 3, 4, 5]))
        return dict(data=d, from_idx=1, to_idx=4)

    @breach('spacing', 'index cast to a coarser type')
    def f(S, ok=False):
        G = Good(S)
        c = G.channel('S', '<f8', [1.0, 2.0, 3.0] if ok else [1.0, 2.5, 4.0], cast_dtype=np_type(S, 'uint8'))
        S.add(G.lf, 'frame', 'F2', channels=[c], index_type='BOREHOLE-DEPTH')
        return G.kw

    @breach('spacing', 'second logical file')
    def f(S, ok=False):
        G = Good(S)
        lf, c, fr, sn = G.other_file()
        d = G.channel('S', '<f4', [1.0, 2.0, 3.0 if ok else 4.0], lf, **sn)
        S.add(lf, 'frame', 'F3', channels=[d], index_type='BOREHOLE-DEPTH', **sn)
        return G.kw

    @breach('spacing', 'index type set later')
    def f(S, ok=False):
        G = Good(S)
        fr = S.add(G.lf, 'frame', 'F2', channels=[G.channel('S', '<f4', [1.0, 2.0, 3.0 if ok else 4.0])])
        G.set_value(fr, 'index_type', 'BOREHOLE-DEPTH')
        return G.kw

    @breach('spacing', 'chunked')
    def f(S, ok=False):
        G = Good(S)
        c = G.channel('S', '<u2', [1, 2, 3, 4, 5, 6] if ok else [1, 2, 3, 5, 6, 7])
        S.add(G.lf, 'frame', 'F2', channels=[c], index_type='BOREHOLE-DEPTH')
        return dict(input_chunk_size=3)

    # enumerations
    for bad in ('DEPTH', 'borehole-depth', 'TIME', 'BOREHOLE DEPTH', 'BOREHOLE_DEPTH'):
        for late in (0, 1):
            def f(S, ok=False, bad=bad, late=late):
                G = Good(S)
                v = 'VERTICAL-DEPTH' if ok else bad
                fr, i = G.second(**({} if late else {'index_type': v}))
                if late:
                    G.set_value(fr, 'index_type', v)
                return G.kw
            breach('enumeration', f'index type {bad!r} {"later" if late else ""}')(f)
    for par, good, bads in (('eq_type', 'Tool', ('tool', 'TOOL', 'Bottom Nose', 'Hammer', 'Bottom_Nose')),
                            ('location', 'Rig', ('rig', 'WELL', 'Logging System', 'Moon'))):
        for bad in bads:
            for route in ('kw', 'dict', 'AttrSetup', 'later'):
                def f(S, ok=False, par=par, good=good, bad=bad, route=route):
                    G = Good(S)
                    S.add(G.lf, 'equipment', 'EQ', route=route, **{par: good if ok else bad})
                    return G.kw
                breach('enumeration', f'{par} {bad!r} {route}')(f)
    for bad in BAD_UNITS:
        for how in ('dict', 'AttrSetup', 'later', 'attribute', 'channel', 'channel later', 'index'):
            def f(S, ok=False, bad=bad, how=how):
                G = Good(S)
                u = 'ft' if ok else bad
                if how == 'attribute':
                    G.set_units(S.add(G.lf, 'equipment', 'EQ', height=5.0), 'height', u)
                elif how == 'channel':
                    c = G.channel('UN', '<u1', [1, 2], units=u)
                    S.add(G.lf, 'frame', 'F2', channels=[c])
                elif how == 'channel later':
                    G.set_value(G.val, 'units', u)
                elif how == 'index':
                    G.set_value(G.idx, 'units', u)
                else:
                    S.add(G.lf, 'equipment', 'EQ', route=how, unit_of={'height': u}, height=5.0)
                return G.kw
            breach('enumeration', f'units {bad!r} {how}')(f)
    for kind, ps in KINDS.items():
        for p, vk in ps.items():
            if vk not in HAS_UNITS or kind in ('frame', 'channel', 'origin'):
                continue
            for route in ('dict', 'later'):
                def f(S, ok=False, kind=kind, p=p, vk=vk, route=route):
                    G = Good(S)
                    B = Base.__new__(Base)
                    B.S, B.lf, B.memo, B.chans, B.frame = S, G.lf, {}, [G.idx, G.val], G.frame
                    S.add(G.lf, kind, 'OBJ', route=route, unit_of={p: 'm' if ok else 'parsec'},
                          **{p: [1.0] if vk in ('coords', NUMS, NEST) else 1.0 if vk != 'intnum' else 3})
                    return G.kw
                breach('enumeration', f'units of {kind} {p}, {route}')(f)
    for p in ('spacing', 'index_min', 'index_max'):
        def f(S, ok=False, p=p):
            G = Good(S)
            G.second(**{p: S.val({'value': 10, 'units': 'm' if ok else 'parsec'})})
            return G.kw
        breach('enumeration', f'units of frame {p}')(f)

    def f(S, ok=False):
        G = Good(S)
        lf, c, fr, sn = G.other_file()
        S.add(lf, 'zone', 'Z', unit_of={'minimum': 'm' if ok else 'parsec'}, minimum=1.0, **sn)
        return G.kw
    breach('enumeration', 'units in the second logical file')(f)
    return out


NOT_OUTSIDE = {     # not accepted outside the mode either (for other reasons)
    n for n in BAD_NAMES if not n.isascii()}


def outcome(S, f):
    """('raises' or 'returns', warnings logged meanwhile)"""
    n = len(S.it.warnings)
    try:
        r = f()
    except PyRaise as e:
        return 'raises', None, len(S.it.warnings) - n
    return 'returns', r, len(S.it.warnings) - n


def in_mode(key, make):
    """raises inside the mode; the good twin is written, also after the refusal"""
    def b(S):
        out = dict(steps={}, files=[])
        T = proc(S, '/out/good.dlis')

        def good():
            with HC(T):
                return T.write(**make(T, True))
        what, f, _ = outcome(T, good)
        out['steps']['the specification without the breach'] = ('returns', what)
        if what == 'returns':
            out['files'].append(f)
        T2 = proc(S, '/out/bad.dlis')

        def bad():
            with HC(T2):
                return T2.write(**make(T2))
        what, f, _ = outcome(T2, bad)
        out['steps'][f'{key[0]}: {key[1]}, inside the mode'] = ('raises', what)
        out['steps']['the mode afterwards'] = ('off', mode(S))
        return out
    return b


def outside(key, make):
    """the same calls outside the mode succeed, with a warning"""
    def b(S):
        out = dict(steps={}, outside=[])
        T = proc(S, '/out/good.dlis')
        what, f, w0 = outcome(T, lambda: T.write(**make(T, True)))
        T2 = proc(S, '/out/bad.dlis')
        what, f, w1 = outcome(T2, lambda: T2.write(**make(T2)))
        out['steps'][f'{key[0]}: {key[1]}, outside the mode'] = ('returns', what)
        if what == 'returns':
            out['steps'][f'{key[0]}: {key[1]}, logged'] = ('a warning', 'a warning' if w1 > w0 else 'no warning')
            out['outside'].append(f)
        return out
    return b


def built_then_written(key, make, inside_first):
    """a file written in one mode, then in the other"""
    def b(S):
        out = dict(steps={}, outside=[])
        T = proc(S, '/out/x.dlis')
        kw = make(T)

        def in_hc():
            with HC(T):
                return T.write(**kw)
        if inside_first:
            out['steps']['written inside'] = ('raises', outcome(T, in_hc)[0])
            what, f, w = outcome(T, lambda: T.write(**kw))
            out['steps']['then outside'] = ('returns with a warning', f'{what} {"with a" if w else "without"} warning')
        else:
            what, f, w = outcome(T, lambda: T.write(**kw))
            out['steps']['written outside'] = ('returns with a warning', f'{what} {"with a" if w else "without"} warning')
            out['steps']['then inside'] = ('raises', outcome(T, in_hc)[0])
            what, f, w = outcome(T, lambda: T.write(**kw))
            out['steps']['and outside again'] = ('returns with a warning',
                                                 f'{what} {"with a" if w else "without"} warning')
        if f is not None and what == 'returns':
            out['outside'].append(f)
        return out
    return b


# ------------------------------------------------------------------ the mode itself
def probe(S, i=[0]):
    """on / off / mixed: what the writer accepts"""
    i[0] += 1

    def name():
        S.new('DLISFile', set_identifier='lower case')

    def enum():
        T = proc(S, '/out/p.dlis')
        T.dlis()
        lf = T.lf(fh_id='P')
        T.origin(lf)
        T.add(lf, 'equipment', 'E', eq_type='nonsense')

    def numbers():
        T = proc(S, '/out/p.dlis')
        T.dlis()
        lf = T.lf(fh_id='P')
        T.origin(lf)
        T.add(lf, 'zone', 'no caps')
    rs = {outcome(S, f)[0] for f in (name, enum, numbers)}
    return rs


def mode(S):
    rs = probe(S)
    return 'on' if rs == {'raises'} else 'off' if rs == {'returns'} else 'mixed'


STEPS = ('enter', 'leave', 'leave by exception', 'leave by BaseException', 'decorated', 'decorated raising', 'good file',
         'bad file', 'failing write', 'decorator of the context', 'nested decorated')


def mode_history(steps):
    def b(S):
        out = dict(steps={})
        stack = []
        it = S.it
        dec = S.name('high_compatibility_mode_decorator')
        for i, st in enumerate(steps):
            what = f'{" > ".join(steps[:i + 1])}'
            if st == 'enter':
                cm = it.call(S.name('high_compatibility_mode'), [], {})
                S.call(cm, '__enter__')
                stack.append(cm)
            elif st.startswith('leave'):
                if not stack:
                    continue
                cm = stack.pop()
                if st == 'leave':
                    S.call(cm, '__exit__', None, None, None)
                else:
                    c = 'ValueError' if st.endswith('by exception') else 'KeyboardInterrupt'
                    e = it.throw(c, 'stop').exc
                    try:
                        r = S.call(cm, '__exit__', e.cls, e, None)
                        out['steps'][what + ': the exception'] = ('goes on', 'swallowed' if it.truth(r) else 'goes on')
                    except PyRaise as p:
                        out['steps'][what + ': the exception'] = ('goes on', 'goes on' if p.exc is e else 'replaced')
            elif st in ('decorated', 'decorated raising', 'decorator of the context', 'nested decorated'):
                seen = []

                def body(i2, a, k, st=st):
                    seen.append(mode(S))
                    if st == 'decorated raising':
                        raise it.throw('ValueError', 'stop')
                    if st == 'nested decorated':
                        it.call(it.call(dec, [VNative('inner', lambda i3, a3, k3: seen.append(mode(S)))], {}), [], {})
                        seen.append(mode(S))
                fn = VNative('work', body)
                if st == 'decorator of the context':
                    g = it.call(it.call(S.name('high_compatibility_mode'), [], {}), [fn], {})
                else:
                    g = it.call(dec, [fn], {})
                for _ in range(2):
                    w = outcome(S, lambda: it.call(g, [], {}))[0]
                    out['steps'][what + ': the decorated call'] = ('raises' if st == 'decorated raising' else 'returns', w)
                    out['steps'][what + ': inside'] = ({'on'}, set(seen))
            elif st == 'good file':
                T = proc(S, f'/out/{i}.dlis')
                w, f, _ = outcome(T, lambda: T.write(**Good(T).kw))
                out['steps'][what] = ('returns', w)
            elif st == 'bad file':
                T = proc(S, f'/out/{i}.dlis')
                w, f, _ = outcome(T, lambda: T.write(**Good(T, set_identifier='not good').kw))
                out['steps'][what] = ('raises' if stack else 'returns', w)
            elif st == 'failing write':
                T = proc(S, f'/out/{i}.dlis')

                def bad():
                    G = Good(T)
                    T.add(G.lf, 'comment', 'C', text=['caf\u00e9'])
                    T.write()
                w, f, _ = outcome(T, bad)
                out['steps'][what] = ('raises', w)
            out['steps'][what + ': the mode'] = ('on' if stack else 'off', mode(S))
        return out
    return b


# ------------------------------------------------------------------ all restrictions at once
def rich(seed):
    """everything the API offers, within the restrictions, and origins without numbers"""
    def b(S):
        out = dict(files=[], steps={}, numbers=True)
        rnd = random.Random(seed)
        with HC(S):
            S.dlis(set_identifier=rnd.choice(GOOD_NAMES))
            for n in range(rnd.choice((1, 2, 3))):
                sn = dict(set_name=f'SET-{n}') if n else {}
                lf = S.lf(fh_id=rnd.choice(GOOD_NAMES))
                for j in range(rnd.choice((1, 2, 4))):
                    S.add(lf, 'origin', f'O-{j}', creation_time=XDT(S.CT), **sn)
                B = Base.__new__(Base)
                B.S, B.lf, B.memo = S, lf, {}
                fr = []
                for j in range(rnd.choice((1, 2))):
                    cs = [C(f'C-{n}-{j}-{k}', rnd.choice(('<u1', '>u2', '<u4', '<f4', '<f8')) if k else '<f8',
                            width=rnd.choice((None, 2)) if k else None, values=None if k else [1.0, 2.0, 3.0],
                            units=rnd.choice(('m', 'ft', 'degC', None)), **sn) for k in range(rnd.choice((1, 3)))]
                    fr.append((f'F-{j}', cs, dict(sn, **({'index_type': rnd.choice(sorted(INDEX_SET))} if
                                                         rnd.random() < .6 else {}))))
                supply(S, lf, fr, 'inline', 3)
                B.frame = lf.frames[0]
                B.chans = [x for x in lf.objs if x.kind == 'channel'] * 3
                kinds = [k for k in KINDS if k not in ('frame', 'channel', 'origin')]
                if not n:
                    for kind in rnd.sample(kinds, 6):
                        ps = {p: sample(vk, p + '-', B) for p, vk in KINDS[kind].items()
                              if vk in (T, TS, NUM, NUMS) or p in ('eq_type', 'location')}
                        un = {p: rnd.choice(sorted(UNIT_SET)) for p, v in KINDS[kind].items() if v in HAS_UNITS and p in ps}
                        S.add(lf, kind, rnd.choice(GOOD_NAMES), unit_of=un, **ps)
                out['steps'][f'bad channel name {n}'] = ('raises', outcome(S, lambda: S.call(
                    lf.handle, 'add_zone', 'lower', **sn))[0])
            out['files'].append(S.write())
        out['steps']['the mode afterwards'] = ('off', mode(S))
        return out
    return b


def names_one_by_one(kind, inside, chunk):
    """every single character in a name: accepted exactly if it is a capital letter, a digit, a dash or an underscore"""
    def b(S):
        out = dict(steps={}, files=[])

        def run():
            G = Good(S)
            for c in chunk:
                for nm in (c, 'A' + c, c + '0', 'A' + c + 'B'):
                    if kind == 'set identifier':
                        def f():
                            S.new('DLISFile', set_identifier=nm)
                    elif kind == 'header':
                        def f():
                            S.call(S.file.__class__ and proc_file(S), 'add_logical_file', fh_id=nm)
                    else:
                        def f():
                            S.call(G.lf.handle, 'add_' + kind, nm)
                    w, _, nw = outcome(S, f)
                    good = NAME.fullmatch(nm) is not None
                    if inside:
                        out['steps'][f'{kind} {nm!r}'] = ('returns' if good else 'raises', w)
                    else:
                        out['steps'][f'{kind} {nm!r}'] = (('returns', good), (w, not nw))
            if kind in ('zone',):
                f = S.write(**G.kw)
                if inside:
                    out['files'].append(f)
        if inside:
            with HC(S):
                run()
        else:
            run()
        return out
    return b


def proc_file(S):
    return S.new('DLISFile')


def unknown_name(kind, n):
    """a name of n unknown characters: whatever it is, it is refused, or it is within the restriction"""
    def b(S):
        nm = S.text('nm', n, hint='ABZ09_-a z.')
        with HC(S):
            G = Good(S, **({'set_identifier': nm} if kind == 'set identifier' else {}))
            if kind == 'header id':
                lf = S.lf(fh_id=nm)
                sn = dict(set_name='OTHER')
                S.origin(lf, 'ORIGIN-2', **sn)
                S.add(lf, 'frame', 'F2', channels=[G.channel('C2', '<f4', [1.0, 2.0], lf, **sn)], **sn)
            elif kind == 'renamed':
                S.set(S.add(G.lf, 'zone', 'Z').handle, 'name', nm)
            elif kind != 'set identifier':
                S.add(G.lf, kind, nm)
            f = S.write(**G.kw)
        return dict(name=nm, file=f)
    return b


def within(ctx, nm):
    """on this partition the name fully matched a pattern that repeats one character class, all of whose members the
    restriction allows (decided over all of Unicode)"""
    for k, v in ctx.memo.items():
        if not (isinstance(k, tuple) and k[0] in ('fullmatch', 'match') and v is True and k[3] == nm.key()):
            continue
        src = k[1]
        if k[0] == 'match':
            if not src.endswith('\\Z'):
                continue
            src = src[:-2]
        try:
            (op, (lo, hi, sub)), = _parser.parse(src, k[2])
        except (ValueError, re.error, TypeError):
            continue
        if str(op) != 'MAX_REPEAT' or len(sub) != 1 or str(sub[0][0]) not in ('IN', 'LITERAL') or not lo:
            continue
        one_ = re.compile(src, k[2])
        if all(NAME.fullmatch(c) for c in map(chr, range(0x110000)) if one_.fullmatch(c)):
            return True
    return False


def judge_name(J, S, t):
    nm = J.v(t['name'])
    if isinstance(nm, SSeq):
        J.ok('name-language') if within(J.ctx, nm) else J.maybe('name', f'{nm!r} is not shown to be within the restriction')
        return
    J.check(NAME.fullmatch(nm) is not None, 'name', f'the name {nm!r} is accepted')


def unknown_index(dt, n):
    def b(S):
        with HC(S):
            S.dlis()
            lf = S.lf(fh_id='H')
            S.origin(lf)
            c = C('I', dt)
            kw = supply(S, lf, [('F', [c], dict(index_type='BOREHOLE-DEPTH'))], 'inline', n)
            a = c.elems(n)
            S.write(**kw)
        return dict(elems=a)
    return b


def numbers(kinds):
    """origins in the order given: sequential small numbers, whatever was refused in between"""
    def b(S):
        out = dict(files=[], steps={}, numbers=True)
        with HC(S):
            S.dlis()
            for n, ks in enumerate(kinds):
                lf = S.lf(fh_id=f'H{n}')
                sn = dict(set_name=f'S{n}') if n else {}
                for j, k in enumerate(ks):
                    if k == 'bad name':
                        quiet(S, lambda: S.add(lf, 'origin', 'bad name', creation_time=XDT(S.CT), **sn))
                    elif k == 'bad value':
                        quiet(S, lambda: S.add(lf, 'origin', 'OK', descent_number='x', creation_time=XDT(S.CT), **sn))
                    elif k == 'bad reference':
                        quiet(S, lambda: S.add(lf, 'origin', 'OK', origin_reference=-5, creation_time=XDT(S.CT), **sn))
                    else:
                        S.add(lf, 'origin', f'O{j}', creation_time=XDT(S.CT), **sn)
                c = chan(S, lf, f'C{n}', '<f8', (1,), **sn)
                frame(S, lf, f'F{n}', [c], **sn)
            out['files'].append(S.write())
            if len(kinds) == 1:
                out['files'].append(S.write())
        return out
    return b


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []
    B = breaches(q)
    for key, make in B.items():
        out.append(Scenario(f'inside: {key[0]}, {key[1]}', in_mode(key, make), judge))
        bad = next((n for n in NOT_OUTSIDE if repr(n) in key[1]), None)
        if bad is None:
            out.append(Scenario(f'outside: {key[0]}, {key[1]}', outside(key, make), judge))
    for key, make in B.items():
        late = key[0] in ('signed', 'one-frame', 'spacing') or key[1].startswith('of a renamed') \
            or 'changed' in key[1] or 'renamed' in key[1]
        if not late or any(repr(n) in key[1] for n in NOT_OUTSIDE):
            continue
        if q and key[0] == 'signed' and '<i2' not in key[1] and 'cast' not in key[1] and key[1][0] in '<>':
            continue
        for first in (True, False):
            out.append(Scenario(f'{"inside then outside" if first else "outside then inside"}: {key[0]}, {key[1]}',
                                built_then_written(key, make, first), judge))
    # the mode
    hs = []
    E, L = 'enter', 'leave'
    for x in (L, 'leave by exception', 'leave by BaseException'):
        hs += [[E, x], [E, E, x, L], [E, E, L, x], [E, E, E, x, x, x], [E, x, E, x], [E, 'bad file', x, 'bad file'],
               [E, 'failing write', x, 'bad file', 'good file'], [E, 'good file', E, x, 'bad file', L, 'bad file']]
    for d in ('decorated', 'decorated raising', 'decorator of the context', 'nested decorated'):
        hs += [[d], [E, d, L], [d, E, d, 'leave by exception'], [E, E, L, d, 'bad file', L], [d, 'bad file', d]]
    rnd = random.Random(17)
    for _ in range(60 if q else 600):
        hs.append([rnd.choice(STEPS[:5] + STEPS) for _ in range(rnd.choice((4, 6, 9)))])
    for h in hs:
        out.append(Scenario('mode: ' + ', '.join(h), mode_history(h), judge))
    for i in range(30 if q else 300):
        out.append(Scenario(f'everything at once {i}', rich(i), judge, paths=30))
    chars = [chr(c) for c in range(128)] + ['\u00c4', '\u00df', '\u0130', '\u0391', '\u0660', '\uff21', '\u00b9', '\u2014',
                                           '\u0410', '\u1e9e', '\u2160', '\U0001d400', '\u00aa']
    for kind in ('zone', 'set identifier', 'header') + (() if q else tuple(k for k in KINDS if k not in
                                                                           ('frame', 'zone'))):
        for inside in (True, False):
            for k in range(0, len(chars), 24):
                ch = chars[k:k + 24]
                if not inside:
                    ch = [c for c in ch if c.isascii()]
                if ch:
                    out.append(Scenario(f'{kind} names with {ch[0]!r}..{ch[-1]!r}, {"inside" if inside else "outside"}',
                                        names_one_by_one(kind, inside, ch), judge))
    for kind in ('zone', 'channel', 'set identifier', 'header id', 'renamed', 'equipment'):
        for n in (1, 2, 5, 40):
            if kind == 'channel':
                continue
            out.append(Scenario(f'any {kind} of {n} characters', unknown_name(kind, n), judge_name, expect='any',
                                paths=60, seconds=20))
    for ks in ([['o']], [['o', 'o']], [['o', 'o', 'o', 'o', 'o']], [['o', 'bad name', 'o']], [['bad name', 'o']],
               [['o', 'bad value', 'o', 'bad value', 'o']], [['bad value', 'bad name', 'o', 'o']],
               [['o'], ['o']], [['o', 'o'], ['o', 'o', 'o']], [['bad name', 'o'], ['bad value', 'o', 'o']],
               [['o'], ['o'], ['o']]):
        out.append(Scenario(f'file set numbers {ks}', numbers(ks), judge))
    return out
