"""Reference reader for RP66 v1 storage units, working on byte terms of the abstract domain.

Independent of the repository: record types, set types, attribute labels and encodings are transcribed from the
standard.  The same reader is used on abstract terms (a proof, for every instance of the partition) and on the concrete
instance of a witness valuation (to show that an alarm is real).
"""
import struct
from fractions import Fraction

from .lin import Num, N, add, sub, scale
from .terms import (SSeq, PNum, PSlice, PCell, PDec, PRep, PRepNum, WIDTH, parts_of, plen, simp, mk, kind_of, concat)
from .ctx import Unsupported, slen_


class Bad(Exception):
    """The bytes break the format: (rule, message)"""
    def __init__(self, rule, msg):
        super().__init__(f'{rule}: {msg}')
        self.rule, self.msg = rule, msg


class Unk(Exception):
    """The structure depends on content the abstraction does not know"""


# ------------------------------------------------------------------ tables
EFLR_CODE = {'FILE-HEADER': 0, 'ORIGIN': 1, 'WELL-REFERENCE': 1, 'AXIS': 2, 'CHANNEL': 3, 'FRAME': 4, 'PATH': 4,
             'CALIBRATION': 5, 'CALIBRATION-COEFFICIENT': 5, 'CALIBRATION-MEASUREMENT': 5, 'COMPUTATION': 5,
             'EQUIPMENT': 5, 'GROUP': 5, 'PARAMETER': 5, 'PROCESS': 5, 'SPLICE': 5, 'TOOL': 5, 'ZONE': 5,
             'COMMENT': 6, 'MESSAGE': 6, 'NO-FORMAT': 8, 'LONG-NAME': 9}

CODES = {2: 'FSINGL', 7: 'FDOUBL', 12: 'SSHORT', 13: 'SNORM', 14: 'SLONG', 15: 'USHORT', 16: 'UNORM', 17: 'ULONG',
         18: 'UVARI', 19: 'IDENT', 20: 'ASCII', 21: 'DTIME', 22: 'ORIGIN', 23: 'OBNAME', 24: 'OBJREF', 25: 'ATTREF',
         26: 'STATUS', 27: 'UNITS'}
ALL_CODES = set(range(1, 28))
FIXED = {2: 'f', 7: 'd', 12: 'b', 13: 'h', 14: 'i', 15: 'B', 16: 'H', 17: 'I', 26: 'B'}
DT_CODE = {'i1': 12, 'i2': 13, 'i4': 14, 'u1': 15, 'u2': 16, 'u4': 17, 'f4': 2, 'f8': 7}
CODE_SIZE = {2: 4, 7: 8, 12: 1, 13: 2, 14: 4, 15: 1, 16: 2, 17: 4}


def num_of(ctx, t, fmt):
    """the number stored big-endian in the term `t`"""
    t = ctx.norm(t)
    if not isinstance(t, SSeq):
        return struct.unpack('>' + fmt, bytes(t))[0]
    ps = t.parts
    if len(ps) == 1:
        p = ps[0]
        if isinstance(p, PNum) and WIDTH[p.fmt] == WIDTH[fmt] and (p.order == '>' or WIDTH[fmt] == 1):
            if p.fmt == fmt or p.fmt in 'iIlL' and fmt in 'iIlL' and p.fmt.isupper() == fmt.isupper():
                return simp(ctx._rn(p.val))
            if p.fmt in 'fd' or fmt in 'fd':
                raise Unk(f'number stored as {p.fmt} read as {fmt}')
            m = 1 << (8 * WIDTH[fmt])
            if fmt.isupper():       # stored signed
                return simp(ctx._rn(p.val if ctx.branch('>=', p.val) else add(p.val, m)))
            return simp(ctx._rn(p.val if ctx.branch('>=', sub(m // 2 - 1, p.val)) else sub(p.val, m)))
        if isinstance(p, PCell):
            return ('cell', p)
        if isinstance(p, PRepNum) and fmt == 'B' and ctx.facts.entails('==', sub(p.n, 1)):
            return simp(ctx._rn(p.val))
        if isinstance(p, PRep) and fmt == 'B' and isinstance(p.lit, bytes):
            return p.lit[0]
    if fmt in 'HIQ' and all(isinstance(p, bytes) or isinstance(p, PNum) and p.fmt in 'BHI' and
                            (p.order == '>' or p.fmt == 'B') for p in ps):
        v = N(0)
        for p in ps:
            if isinstance(p, bytes):
                v = add(scale(v, 256 ** len(p)), int.from_bytes(p, 'big'))
            else:
                v = add(scale(v, 256 ** WIDTH[p.fmt]), p.val)
        return simp(ctx._rn(v))
    raise Unk(f'a number is read from {t!r}')


class Cur:
    """reading position in a byte term"""
    def __init__(self, ctx, term, what='', off=0):
        self.ctx, self.rest, self.what, self.off = ctx, ctx.norm(term), what, N(off)

    @property
    def left(self):
        return N(slen_(self.rest))

    def empty(self):
        return self.ctx.branch('==', self.left)

    def take(self, n, what=''):
        n = N(n)
        if not self.ctx.branch('>=', sub(self.left, n)):
            raise Bad('truncated', f'{self.what}: {what or "data"} needs {simp(n)} bytes, {simp(self.left)} left')
        try:
            a, self.rest = self.ctx.split(self.rest, n)
        except Unsupported as e:
            raise Unk(f'{self.what}/{what}: {e}')
        self.off = add(self.off, n)
        return a

    def num(self, fmt, what=''):
        return num_of(self.ctx, self.take(WIDTH[fmt], what), fmt)

    def byte(self, what=''):
        v = self.num('B', what)
        if not isinstance(v, int):
            raise Unk(f'{self.what}/{what}: byte depends on {v}')
        return v

    def uvari(self, what=''):
        ctx = self.ctx
        if not ctx.branch('>=', sub(self.left, 1)):
            raise Bad('truncated', f'{self.what}: {what} missing')
        p = parts_of(self.rest)[0]
        if isinstance(p, bytes):
            b = p[0]
            if b < 128:
                return self.num('B', what)
            if b < 192:
                return simp(ctx._rn(sub(N(self.num('H', what)), 0x8000)))
            return simp(ctx._rn(sub(N(self.num('I', what)), 0xC0000000)))
        if isinstance(p, PNum) and p.fmt in 'BHIL' and p.order == '>' or isinstance(p, PNum) and p.fmt == 'B':
            w = WIDTH[p.fmt]
            top = 1 << (8 * w - 1)
            if w == 1:
                if not ctx.branch('>=', sub(p.val, 128)):
                    return self.num('B', what)
                raise Unk(f'{self.what}/{what}: UVARI with a split prefix')
            if ctx.branch('>=', sub(p.val, top + top // 2)):
                if w == 4:
                    return simp(ctx._rn(sub(N(self.num('I', what)), 0xC0000000)))
            elif w == 2 and ctx.branch('>=', sub(p.val, top)):
                return simp(ctx._rn(sub(N(self.num('H', what)), 0x8000)))
        raise Unk(f'{self.what}/{what}: UVARI starts with {p!r}')

    def ident(self, what=''):
        return self.take(self.num('B', what), what)

    def ascii(self, what=''):
        return self.take(self.uvari(what), what)

    def obname(self, what=''):
        o = self.uvari(what + ' origin')
        c = self.num('B', what + ' copy')
        return (o, c, self.ident(what + ' name'))

    def value(self, code, what=''):
        if code in (2, 7):
            return self.num(FIXED[code], what)
        if code in FIXED:
            v = self.num(FIXED[code], what)
            if code == 26 and not isinstance(v, tuple):
                if not self.ctx.branch('>=', N(v)) or not self.ctx.branch('>=', sub(1, v)):
                    raise Bad('status', f'{what}: STATUS value {v} is neither 0 nor 1')
            return v
        if code in (18, 22):
            return self.uvari(what)
        if code in (19, 27):
            return self.ident(what)
        if code == 20:
            return self.ascii(what)
        if code == 23:
            return self.obname(what)
        if code == 24:
            t = self.ident(what + ' type')
            return (t,) + self.obname(what)
        if code == 21:
            y = self.num('B', what)
            tm = self.num('B', what)
            rest = [self.num('B', what) for _ in range(4)]
            return DTime(y, tm, *rest, self.num('H', what))
        if code in ALL_CODES:
            raise Unk(f'{what}: representation code {code} is not used by this writer')
        raise Bad('representation-code', f'{what}: {code} is not a representation code')


class DTime:
    """the eight fields of a date-time"""
    def __init__(self, y, tm, d, h, mn, s, ms):
        self.f = (y, tm, d, h, mn, s, ms)

    def __repr__(self):
        return f'DTIME{self.f}'


# ------------------------------------------------------------------ physical layout
class Rec:
    __slots__ = ('eflr', 'type', 'body', 'segs', 'index')

    def __init__(self, eflr, type_, body, segs, index):
        self.eflr, self.type, self.body, self.segs, self.index = eflr, type_, body, segs, index


class Phys:
    def __init__(self):
        self.sul = None
        self.maxlen = None
        self.vrs = []        # (offset, length)
        self.recs = []
        self.nseg = 0


def text_int(ctx, t, what):
    """value of a right-justified decimal field"""
    t = ctx.norm(t)
    if not isinstance(t, SSeq):
        s = bytes(t).decode('latin1').strip()
        if not (s.isdigit() and s.isascii()):
            raise Bad('label', f'{what} field is {bytes(t)!r}')
        return int(s)
    ps = list(t.parts)
    while ps and isinstance(ps[0], bytes) and not ps[0].strip(b' 0'):
        ps.pop(0)
    if len(ps) == 1 and isinstance(ps[0], PDec):
        return simp(ctx._rn(ps[0].val))
    raise Unk(f'{what} field is {t!r}')


def parse_phys(ctx, term, maxlen=None):
    """storage unit label, visible records, segments, reassembled logical records"""
    ph = Phys()
    cur = Cur(ctx, term, 'file')
    sul = Cur(ctx, cur.take(80, 'storage unit label'), 'label')
    f = [sul.take(n, w) for n, w in ((4, 'sequence'), (5, 'version'), (6, 'structure'), (5, 'maximum length'),
                                     (60, 'set identifier'))]
    ph.sul = dict(zip(('seq', 'version', 'structure', 'maxlen', 'set_id'), f))
    for k, want in (('version', b'V1.00'), ('structure', b'RECORD')):
        if ctx.seq_eq(ph.sul[k], want) is not True:
            raise Bad('label', f'{k} field is {ph.sul[k]!r}')
    ph.maxlen = text_int(ctx, ph.sul['maxlen'], 'maximum record length')
    text_int(ctx, ph.sul['seq'], 'sequence number')
    mx = ph.maxlen if maxlen is None else maxlen
    cur_rec = None
    while not cur.empty():
        off = simp(cur.off)
        L = cur.num('H', 'visible record length')
        fm = cur.take(2, 'format marker')
        if ctx.seq_eq(fm, b'\xff\x01') is not True:
            raise Bad('vr-marker', f'visible record at {off}: format marker {fm!r}')
        if not ctx.branch('==', N(ctx.mod(L, 2))):
            raise Bad('vr-even', f'visible record at {off}: odd length {L}')
        if not ctx.branch('>=', sub(L, 20)):
            raise Bad('vr-min', f'visible record at {off}: length {L} < 20')
        if not ctx.branch('>=', sub(mx, L)):
            raise Bad('vr-max', f'visible record at {off}: length {L} > maximum {mx}')
        c2 = Cur(ctx, cur.take(sub(L, 4), 'visible record body'), f'visible record at {off}', add(off, 4))
        ph.vrs.append((off, L))
        n = 0
        while not c2.empty():
            soff = simp(c2.off)
            what = f'segment at {soff}'
            SL = c2.num('H', 'segment length')
            at = c2.byte('segment attributes')
            tp = c2.byte('segment type')
            if not ctx.branch('==', N(ctx.mod(SL, 2))):
                raise Bad('seg-even', f'{what}: odd length {SL}')
            if not ctx.branch('>=', sub(SL, 16)):
                raise Bad('seg-min', f'{what}: length {SL} < 16')
            if at & 0x1E:
                raise Bad('seg-attr', f'{what}: attributes {at:#04x} announce encryption, a packet, checksum or '
                                      f'trailing length')
            body = c2.take(sub(SL, 4), what)
            if at & 1:
                bl = N(slen_(body))
                try:
                    head, last = ctx.split(body, sub(bl, 1))
                    c = num_of(ctx, last, 'B')
                except Unsupported as e:
                    raise Unk(f'{what}: pad count: {e}')
                if not ctx.branch('>=', sub(c, 1)) or not ctx.branch('>=', sub(bl, c)):
                    raise Bad('seg-pad', f'{what}: pad count {c} in {simp(bl)} bytes')
                try:
                    body, _ = ctx.split(body, sub(bl, c))
                except Unsupported as e:
                    raise Unk(f'{what}: padding: {e}')
            ex = bool(at & 0x80)
            if not (at & 0x40):
                if cur_rec is not None:
                    raise Bad('bracket', f'{what}: a record starts inside an unfinished record')
                cur_rec = [ex, tp, [body], [(soff, SL, at)]]
            else:
                if cur_rec is None:
                    raise Bad('bracket', f'{what}: predecessor flag on the first segment of a record')
                if (ex, tp) != (cur_rec[0], cur_rec[1]):
                    raise Bad('bracket', f'{what}: kind {(ex, tp)} differs from {tuple(cur_rec[:2])} inside a record')
                cur_rec[2].append(body)
                cur_rec[3].append((soff, SL, at))
            if not (at & 0x20):
                b = b''
                for x in cur_rec[2]:
                    b = concat(b, x)
                ph.recs.append(Rec(cur_rec[0], cur_rec[1], ctx.norm(b), cur_rec[3], len(ph.recs)))
                cur_rec = None
            n += 1
            ph.nseg += 1
        if not n:
            raise Bad('vr-empty', f'visible record at {off} holds no segment')
    if cur_rec is not None:
        raise Bad('bracket', 'the file ends inside a record')
    return ph


# ------------------------------------------------------------------ explicitly formatted records
class Attr:
    __slots__ = ('count', 'code', 'units', 'values', 'absent', 'announced')

    def __init__(self, count=1, code=19, units=None, values=None, absent=False):
        self.count, self.code, self.units, self.values, self.absent = count, code, units, values, absent

    def __repr__(self):
        return 'absent' if self.absent else f'{self.values}@{CODES.get(self.code, self.code)}' + \
            (f'[{self.units!r}]' if self.units is not None else '')


class Obj:
    __slots__ = ('origin', 'copy', 'name', 'attrs', 'set')

    def __init__(self, origin, copy, name):
        self.origin, self.copy, self.name, self.attrs = origin, copy, name, {}


class Set:
    __slots__ = ('type', 'name', 'labels', 'objs', 'rec')


def lit(ctx, t, what):
    t = ctx.norm(t)
    if isinstance(t, SSeq):
        raise Unk(f'{what} depends on unknown content: {t!r}')
    return bytes(t)


def parse_attr(ctx, cur, b, what, tmpl=None):
    a = Attr()
    if tmpl is not None:
        a.count, a.code, a.units = tmpl.count, tmpl.code, tmpl.units
    if b & 0x08:
        a.count = cur.uvari(what + ' count')
    if b & 0x04:
        a.code = cur.byte(what + ' representation code')
        if a.code not in ALL_CODES:
            raise Bad('representation-code', f'{what}: {a.code} is not a representation code')
    if b & 0x02:
        a.units = cur.ident(what + ' units')
    if b & 0x01:
        if not isinstance(a.count, int):
            raise Unk(f'{what}: count {a.count}')
        a.values = [cur.value(a.code, f'{what} value') for _ in range(a.count)]
    return a


def parse_eflr(ctx, rec, nmax=100000):
    what = f'record {rec.index}'
    cur = Cur(ctx, rec.body, what)
    s = Set()
    s.rec = rec
    if cur.empty():
        raise Bad('eflr-empty', f'{what}: empty explicitly formatted record')
    b = cur.byte('set component')
    if b & 0xE0 != 0xE0 or not b & 0x10 or b & 0x07:
        raise Bad('eflr-set', f'{what}: set component descriptor {b:#04x}')
    s.type = lit(ctx, cur.ident('set type'), 'set type').decode('latin1')
    s.name = cur.ident('set name') if b & 0x08 else None
    what = f'record {rec.index} ({s.type})'
    cur.what = what
    s.labels, tmpl = [], {}
    s.objs = []
    b = None
    while not cur.empty():
        b = cur.byte('component')
        if b & 0xE0 not in (0x20, 0x40):
            break
        if not b & 0x10:
            raise Bad('template', f'{what}: template attribute without label')
        lab = lit(ctx, cur.ident('label'), 'label').decode('latin1')
        if not lab:
            raise Bad('template', f'{what}: empty label')
        if lab in tmpl:
            raise Bad('template', f'{what}: label {lab} appears twice in the template')
        tmpl[lab] = parse_attr(ctx, cur, b, f'{what} {lab}')
        tmpl[lab].announced = b & 0xE0 == 0x40
        s.labels.append(lab)
        b = None
    if not s.labels:
        raise Bad('template', f'{what}: no template')
    labels = [l for l in s.labels if not tmpl[l].announced]
    while b is not None:
        if b & 0xE0 != 0x60 or not b & 0x10 or b & 0x0F:
            raise Bad('eflr-object', f'{what}: object component descriptor {b:#04x}')
        o = Obj(*cur.obname('object'))
        o.set = s
        for l in s.labels:
            o.attrs[l] = tmpl[l] if tmpl[l].values is not None else Attr(absent=True)
        i = 0
        b = None
        while not cur.empty():
            b = cur.byte('component')
            if b & 0xE0 == 0x60:
                break
            if i >= len(labels):
                raise Bad('eflr-object', f'{what}: more attribute components than template attributes '
                                         f'(descriptor {b:#04x})')
            l = labels[i]
            i += 1
            aw = f'{what} {l}'
            if b & 0xE0 == 0x00:
                if b & 0x1F:
                    raise Bad('eflr-attr', f'{aw}: absent attribute descriptor {b:#04x}')
                o.attrs[l] = Attr(absent=True)
            elif b & 0xE0 == 0x20:
                if b & 0x10:
                    raise Bad('eflr-attr', f'{aw}: label repeated in an object')
                a = parse_attr(ctx, cur, b, aw, tmpl[l])
                if not b & 0x01:
                    a.values = tmpl[l].values
                    if a.values is None:
                        c = a.count
                        if not isinstance(c, int) or c:
                            raise Bad('eflr-attr', f'{aw}: {c} value(s) announced and none given')
                        a.values = []
                if len(a.values) != a.count:
                    raise Bad('eflr-attr', f'{aw}: count {a.count} but {len(a.values)} values')
                o.attrs[l] = a
            else:
                raise Bad('eflr-attr', f'{aw}: component descriptor {b:#04x} in an object')
            b = None
        s.objs.append(o)
    return s


# ------------------------------------------------------------------ logical files
class Iflr:
    __slots__ = ('type', 'ref', 'data', 'rec')


class LF:
    def __init__(self):
        self.seq = []          # Set | Iflr in file order

    @property
    def sets(self):
        return [x for x in self.seq if isinstance(x, Set)]

    @property
    def iflrs(self):
        return [x for x in self.seq if isinstance(x, Iflr)]

    def of_type(self, t):
        return [o for s in self.sets if s.type == t for o in s.objs]


def parse_logical(ctx, ph):
    lfs = []
    for r in ph.recs:
        if r.eflr:
            s = parse_eflr(ctx, r)
            if s.type not in EFLR_CODE:
                raise Bad('set-type', f'record {r.index}: unknown set type {s.type!r}')
            if EFLR_CODE[s.type] != r.type:
                raise Bad('record-type', f'record {r.index}: set {s.type} in a record of type {r.type}')
            if s.type == 'FILE-HEADER':
                lfs.append(LF())
            if not lfs:
                raise Bad('header-first', f'the file starts with a {s.type} record')
            lfs[-1].seq.append(s)
        else:
            if r.type not in (0, 1):
                raise Bad('record-type', f'record {r.index}: indirectly formatted record of type {r.type}')
            c = Cur(ctx, r.body, f'record {r.index}')
            x = Iflr()
            x.type, x.rec = r.type, r
            x.ref = c.obname('reference')
            x.data = c.rest
            if not lfs:
                raise Bad('header-first', 'the file starts with data')
            lfs[-1].seq.append(x)
    if not lfs:
        raise Bad('header-first', 'no logical file')
    return lfs
