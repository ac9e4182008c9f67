"""Obligations on a decoded file, stated against the oracle's view of the specification."""
import datetime as _dt

from .lin import Num, N, add, sub, scale
from .terms import SSeq, PNum, PCell, mk, simp, kind_of, concat, parts_of
from .ctx import slen_, Unsupported
from . import npm, spec, libs
from .spec import Bad, Unk, DTime
from .harness import ANY, Exp, X, XDT, decode


# ------------------------------------------------------------------ matching objects
class View:
    """decoded file next to the specification"""
    def __init__(self, J, S, term, lfs=None):
        self.J, self.S = J, S
        self.ctx = J.ctx
        self.ph, self.lfs = decode(J.ctx, term)
        self.map = {}           # X -> decoded Obj
        self.setof = {}

    def same_name(self, xname, got):
        return self.J.text_eq(xname, got)


def marked(J, x, o):
    """same-named objects are told apart by an attribute the scenario gave them"""
    mark = getattr(x, 'mark', None)
    if mark is None:
        return True
    a = o.attrs.get(mark)
    return a is not None and not a.absent and len(a.values) == 1 and \
        J.text_eq(x.attrs[mark].values[0], a.values[0]) is True


def match(V, aspects=('sets',)):
    """pair each object of the specification with its object in the file; reports what does not pair"""
    J, S = V.J, V.S
    if len(V.lfs) != len(S.lfs):
        J.fail('logical-files', f'{len(V.lfs)} logical files in the file, {len(S.lfs)} in the specification')
        return False
    good = True
    for i, (xl, dl) in enumerate(zip(S.lfs, V.lfs)):
        want = {}
        for x in xl.objs:
            want.setdefault((x.set_type, x.set_name), []).append(x)
        have = {}
        for s in dl.sets:
            if s.type == 'FILE-HEADER':
                continue
            nm = None
            if s.name is not None:
                nm = s.name if isinstance(s.name, SSeq) else bytes(s.name).decode('latin1')
            key = None
            for k in want:
                if k[0] == s.type and (k[1] is None) == (nm is None) and (
                        nm is None or J.text_eq(k[1], s.name) is True):
                    key = k
            if key is None:
                J.fail('unexpected-set', f'logical file {i}: set {s.type} {nm!r} is not in the specification '
                                         f'({len(s.objs)} object(s))')
                good = False
                continue
            if key in have:
                J.fail('duplicate-set', f'logical file {i}: set {key} appears more than once')
                good = False
                continue
            have[key] = s
        for key, xs in want.items():
            s = have.get(key)
            if s is None:
                J.fail('missing-set', f'logical file {i}: set {key} is not in the file')
                good = False
                continue
            J.check(len(s.objs) == len(xs), 'object-count',
                    f'logical file {i}: set {key} has {len(s.objs)} objects, {len(xs)} were added')
            if len(s.objs) != len(xs):
                good = False
            left = list(s.objs)
            for x in xs:
                hit = None
                for o in left:
                    if V.same_name(x.name, o.name) is True and marked(J, x, o):
                        hit = o
                        break
                if hit is None:
                    if any(V.same_name(x.name, o.name) is None for o in left):
                        raise Unk(f'name of {x}')
                    J.fail('missing-object', f'logical file {i}: {x} is not in the file')
                    good = False
                    continue
                left.remove(hit)
                V.map[x] = hit
                J.ok('object-present')
            for o in left:
                J.fail('unexpected-object', f'logical file {i}: {s.type} object {o.name!r} was not added')
                good = False
    return good


# ------------------------------------------------------------------ attribute values
def ident(o):
    return (o.origin, o.copy, o.name)


def ident_eq(J, a, b):
    r = [J.num_eq(a[0], b[0]), J.num_eq(a[1], b[1]), J.ctx.seq_eq(a[2], b[2])]
    return False if False in r else None if None in r else True


def dtime_eq(J, utc, local, got, code):
    """a decoded date-time against the fields of the expected instant; naive instants may also be written as local"""
    if code != 21 or not isinstance(got, DTime):
        return False
    y, tm, d, h, mn, s, ms = got.f

    def at(f, tz):
        f = [J.v(q) for q in f]
        r = [J.num_eq(sub(N(f[0]), 1900), y), J.num_eq(add(N(f[1]), 16 * tz), tm)]
        r += [J.num_eq(a, b) for a, b in zip(f[2:6], (d, h, mn, s))]
        diff = sub(scale(N(ms), 1000), N(f[6]))
        r += [J.ctx.facts.decide(op, e) for op, e in (('>', add(diff, 1000)), ('>', sub(1000, diff)), ('>=', N(ms)),
                                                      ('>=', sub(999, N(ms))))]
        return False if False in r else None if None in r else True
    r = at(utc, 2) if utc is not None else None
    if r is not True and local is not None and at(local, 0) is True:
        return True
    return r


def value_eq(V, exp, got, code):
    """three-valued equality of one expected value with one decoded value"""
    J = V.J
    if isinstance(exp, X):
        o = V.map.get(exp)
        if o is None:
            return False
        if code == 24:
            if J.ctx.seq_eq(got[0], exp.set_type.encode()) is not True:
                return False
            got = got[1:]
        elif code != 23:
            return False
        return ident_eq(J, ident(o), got)
    if isinstance(exp, XDT):
        exp = exp.dt
        if exp.tzinfo is None:
            return dtime_eq(J, None, [exp.year, exp.month, exp.day, exp.hour, exp.minute, exp.second,
                                      exp.microsecond], got, code)
        u = exp.astimezone(_dt.timezone.utc)
        return dtime_eq(J, [u.year, u.month, u.day, u.hour, u.minute, u.second, u.microsecond], None, got, code)
    if isinstance(exp, libs.VDatetime):
        return dtime_eq(J, exp.utc(V.S.it), exp.f if exp.tz is None else None, got, code)
    if isinstance(exp, str) or isinstance(exp, SSeq) and exp.kind == 's':
        if code not in (19, 20, 27):
            return False
        return J.text_eq(exp, got)
    if isinstance(exp, bool):
        exp = int(exp)
    if isinstance(exp, (int, float, Num)):
        if code not in (2, 7, 12, 13, 14, 15, 16, 17, 18, 22, 26):
            return False
        if isinstance(got, tuple) and got and got[0] == 'cell':
            return None
        return J.num_eq(exp, got)
    if isinstance(exp, npm.Elem):
        return elem_eq(J, exp, got, code)
    raise Unk(f'expected value {exp!r}')


def elem_eq(J, exp, got, code):
    """an array element against a decoded number"""
    if J.m is not None:
        raw = exp.evaluate(J.m)
        v = spec.struct.unpack('>' + {('i', 1): 'b', ('i', 2): 'h', ('i', 4): 'i', ('u', 1): 'B', ('u', 2): 'H',
                                      ('u', 4): 'I', ('f', 4): 'f', ('f', 8): 'd'}[(exp.kind, exp.size)], raw)[0]
        return J.num_eq(v, got)
    if isinstance(got, tuple):
        p = got[1]
        return True if p.cell.key() == exp.key() else None
    return None


def attrs(V, x, o, labels=None):
    """the attributes of one object are those the user set, plus the documented defaults"""
    J = V.J
    for l in x.attrs:
        if l not in o.attrs and (labels is None or l in labels):
            J.fail('attribute-missing', f'{x}: attribute {l} is not in the template of its set')
    for l, a in o.attrs.items():
        if labels is not None and l not in labels:
            continue
        e = x.attrs.get(l)
        if e is ANY:
            continue
        if e is None:
            J.check(a.absent, 'never-assigned-absent', f'{x}.{l}: never assigned, decodes as {a}')
            continue
        if a.absent:
            J.fail('value-present', f'{x}.{l}: {e} was assigned, the file has no value')
            continue
        J.check(len(a.values) == len(e.values), 'value-count',
                f'{x}.{l}: {len(e.values)} values were assigned, {len(a.values)} are in the file')
        if len(a.values) == len(e.values):
            for i, (w, g) in enumerate(zip(e.values, a.values)):
                w = J.v(w) if not isinstance(w, (X, XDT, libs.VDatetime)) else w
                J.check(value_eq(V, w, g, a.code), 'value-equal',
                        f'{x}.{l}[{i}]: {w!r} was assigned, decodes as {g!r} ({spec.CODES.get(a.code)})')
        if e.units is not None:
            if a.units is None:
                J.fail('units', f'{x}.{l}: units {e.units!r} were assigned, none in the file')
            else:
                J.check(J.text_eq(e.units, a.units), 'units',
                        f'{x}.{l}: units {e.units!r} were assigned, decode as {a.units!r}')
        elif x.kind not in ('frame',) or l not in ('SPACING', 'INDEX-MIN', 'INDEX-MAX'):
            J.check(a.units is None or J.ctx.seq_eq(a.units, b'') is True, 'units',
                    f'{x}.{l}: no units were assigned, decode as {a.units!r}')


def fidelity(V):
    for x, o in V.map.items():
        attrs(V, x, o)


class Ids:
    """the objects of a logical file by identity"""
    def __init__(self, J):
        self.J, self.lit, self.other, self.all = J, {}, [], []

    @staticmethod
    def plain(k):
        return all(isinstance(q, (int, str, bytes)) for q in k)

    def add(self, t, o):
        k = ident(o)
        self.all.append((t, k, o))
        if self.plain(k):
            self.lit.setdefault(k, []).append((t, o))
        else:
            self.other.append((t, k, o))

    def find(self, t, k):
        """objects of set type t (None: of any type) with identity k"""
        k = tuple(k)
        out = []
        if self.plain(k):
            out = [o for t2, o in self.lit.get(k, ()) if t is None or t == t2]
        for t2, k2, o in self.other if self.plain(k) else self.all:
            if t is not None and t != t2:
                continue
            r = ident_eq(self.J, k, k2)
            if r is None:
                raise Unk(f'identities {k} and {k2}')
            if r:
                out.append(o)
        return out


def references(V):
    """C07: every reference written decodes to the one object meant; origins are those of ORIGIN objects"""
    J, S = V.J, V.S
    for i, (xl, dl) in enumerate(zip(S.lfs, V.lfs)):
        ids = Ids(J)
        for s in dl.sets:
            for o in s.objs:
                J.check(not ids.find(s.type, ident(o)), 'unique-identity',
                        f'logical file {i}: two objects with identity {(s.type,) + ident(o)}')
                ids.add(s.type, o)
        origins = dl.of_type('ORIGIN')
        orefs = [o.origin for o in origins]
        for k, r in enumerate(orefs):
            # an origin field must tell which of the origins the object has
            J.check(not any(J.num_eq(r, r2) is True for r2 in orefs[:k]), 'origin-ambiguous',
                    f'logical file {i}: two ORIGIN objects with origin reference {r}')
        xo = xl.of('origin')
        for x in xl.objs:
            o = V.map.get(x)
            if o is None:
                continue
            if x.kind == 'origin':
                if x.explicit_origin is not None:
                    J.check(J.num_eq(x.explicit_origin, o.origin), 'origin-reference',
                            f'{x}: origin reference {x.explicit_origin} requested, {o.origin} written')
                continue
            want = x.explicit_origin
            if want is None:
                if not xo or xo[0] not in V.map:
                    continue
                want = V.map[xo[0]].origin
                J.check(J.num_eq(want, o.origin), 'defining-origin',
                        f'{x}: origin field {o.origin}, the defining origin is {want}')
            else:
                J.check(J.num_eq(want, o.origin), 'chosen-origin',
                        f'{x}: origin field {o.origin}, the user chose {want}')
            J.check(any(J.num_eq(o.origin, r) is True for r in orefs), 'origin-exists',
                    f'{x}: origin field {o.origin} is no origin of the logical file ({orefs})')
        for s in dl.sets:
            if s.type == 'FILE-HEADER' and xo and xo[0] in V.map:
                for o in s.objs:
                    J.check(any(J.num_eq(o.origin, r) is True for r in orefs), 'origin-exists',
                            f'FILE-HEADER object: origin field {o.origin} is no origin of the logical file')
        for s in dl.sets:
            for o in s.objs:
                for l, a in o.attrs.items():
                    if a.absent or a.code not in (23, 24):
                        continue
                    for v in a.values:
                        t = bytes(v[0]).decode('latin1') if a.code == 24 else None
                        J.check(len(ids.find(t, v[-3:])) >= 1, 'reference-resolves',
                                f'{s.type} {o.name!r}.{l}: {v} is not an object of logical file {i}')
        for x in xl.objs:
            o = V.map.get(x)
            if o is None:
                continue
            for l, e in x.attrs.items():
                if e is ANY or not any(isinstance(w, X) for w in e.values):
                    continue
                a = o.attrs.get(l)
                if a is None or a.absent or len(a.values) != len(e.values):
                    J.fail('reference-written', f'{x}.{l}: {len(e.values)} reference(s) were set, the file has {a}')
                    continue
                for w, g in zip(e.values, a.values):
                    if isinstance(w, X):
                        J.check(value_eq(V, w, g, a.code), 'reference-identity',
                                f'{x}.{l}: refers to {w} = {ident(V.map[w]) if w in V.map else None}, '
                                f'decodes as {g}')
        data_refs(V, i, xl, dl)


def data_refs(V, i, xl, dl):
    """the reference opening each data record is the identity of one object defined before it"""
    J = V.J
    pos = {id(y): n for n, y in enumerate(dl.seq)}
    defs, sets = Ids(J), {}
    for s in dl.sets:
        if s.type in ('FRAME', 'NO-FORMAT'):
            for o in s.objs:
                defs.add(s.type, o)
                sets[id(o)] = s
    for r in dl.iflrs:
        t = 'FRAME' if r.type == 0 else 'NO-FORMAT'
        d = [sets[id(o)] for o in defs.find(t, r.ref)]
        J.check(len(d) == 1, 'data-reference', f'logical file {i}: data record {r.rec.index} refers to '
                                               f'{(t,) + tuple(r.ref)}, defined {len(d)} times')
        if d:
            J.check(pos[id(d[0])] < pos[id(r)], 'defined-before', f'logical file {i}: data record {r.rec.index} '
                                                                  f'precedes its {t} object')


# ------------------------------------------------------------------ order of the sets
def order(V):
    """C09"""
    J, S = V.J, V.S
    for i, (xl, dl) in enumerate(zip(S.lfs, V.lfs)):
        what = f'logical file {i}'
        seq = dl.seq
        fh = seq[0]
        if not (isinstance(fh, spec.Set) and fh.type == 'FILE-HEADER'):
            J.fail('header-first', f'{what} does not start with a FILE-HEADER')
            continue
        J.check(len(fh.objs) == 1, 'one-header', f'{what}: FILE-HEADER set has {len(fh.objs)} objects')
        a = fh.objs[0].attrs
        for l, w, left in (('SEQUENCE-NUMBER', 10, False), ('ID', 65, True)):
            if l not in a or a[l].absent or len(a[l].values) != 1:
                J.fail('header-field', f'{what}: {l} is {a.get(l)}')
                continue
            g = a[l].values[0]
            exp = xl.seqnum if l != 'ID' else xl.fh_id
            exp = J.v(exp)
            if isinstance(exp, int):
                exp = str(exp)
            elif isinstance(exp, Num):
                exp = J.ctx.dec(exp)
            n = slen_(exp)
            pad = mk('s', [spec.PRep(' ', sub(w, n))])
            exp = concat(exp, pad) if left else concat(pad, exp)
            J.check(J.text_eq(exp, g), 'header-field', f'{what}: {l} is {g!r}, expected {exp!r}')
            J.check(a[l].code == 20, 'header-field', f'{what}: {l} has code {a[l].code}')
        n = 1
        while n < len(seq) and isinstance(seq[n], spec.Set) and seq[n].type == 'ORIGIN':
            n += 1
        J.check(n > 1, 'origin-second', f'{what}: record 1 is not an ORIGIN set')
        for y in seq[n:]:
            if isinstance(y, spec.Set):
                J.check(y.type not in ('ORIGIN', 'FILE-HEADER'), 'origin-second',
                        f'{what}: a {y.type} set after other records')
        if n > 1:
            o = seq[1].objs[0] if seq[1].objs else None
            xo = xl.of('origin')
            if o is None:
                J.fail('defining-origin', f'{what}: the first ORIGIN set is empty')
            else:
                if xo:
                    J.check(V.map.get(xo[0]) is o, 'defining-origin',
                            f'{what}: the first object of the first ORIGIN set is {o.name!r}, the defining origin '
                            f'is {xo[0].name!r}')
                fid = o.attrs.get('FILE-ID')
                if fid is None or fid.absent or len(fid.values) != 1:
                    J.fail('file-id', f'{what}: FILE-ID of the defining origin is {fid}')
                else:
                    t = J.v(xl.fh_id)
                    hid = a['ID'].values[0] if 'ID' in a and not a['ID'].absent else None
                    r = J.text_eq(t, fid.values[0])
                    if r is not True and hid is not None:
                        r = J.ctx.seq_eq(hid, fid.values[0]) or r
                    J.check(r, 'file-id', f'{what}: FILE-ID {fid.values[0]!r}, header ID {t!r}')
                fsn = o.attrs.get('FILE-SET-NUMBER')
                J.check(fsn is not None and not fsn.absent and len(fsn.values) == 1, 'file-set-number',
                        f'{what}: FILE-SET-NUMBER of the defining origin is {fsn}')
        seen = []
        for s in dl.sets:
            nm = s.name
            for t, m in seen:
                if t == s.type and (m is None) == (nm is None) and (nm is None or J.ctx.seq_eq(nm, m) is not False):
                    J.fail('set-once', f'{what}: set {t} {nm!r} appears twice')
            seen.append((s.type, nm))
            J.check(len(s.objs) > 0, 'set-not-empty', f'{what}: empty {s.type} set')
        data = False
        data_refs(V, i, xl, dl)
        # every channel of the frame precedes its first data record
        pos = {id(y): n for n, y in enumerate(seq)}
        for r in dl.iflrs:
            if r.type != 0:
                continue
            for s in dl.sets:
                for o in s.objs if s.type == 'FRAME' else ():
                    if ident_eq(J, ident(o), r.ref) is True:
                        for v in (o.attrs['CHANNELS'].values or ()):
                            for s2 in dl.sets:
                                for c in s2.objs if s2.type == 'CHANNEL' else ():
                                    if ident_eq(J, ident(c), v) is True:
                                        J.check(pos[id(s2)] < pos[id(r)], 'defined-before',
                                                f'{what}: data precedes channel {c.name!r}')


# ------------------------------------------------------------------ frame data
def frame_rows(S, fr):
    """expected rows of a frame: list of lists of (element, kind, size) per channel in listed order"""
    return fr.rows


def slots(J, S, fr, o_channels):
    pass


def frame_data(V, rows_of, check_desc=True, numbers=True):
    """C03/C08: one numbered record per row, slots as declared by the frame's channels.
    rows_of(frame X) -> list of rows, each a list (per channel) of lists of expected element byte terms"""
    J, S = V.J, V.S
    for i, (xl, dl) in enumerate(zip(S.lfs, V.lfs)):
        for fr in xl.frames:
            o = V.map.get(fr)
            if o is None:
                continue
            recs = [r for r in dl.iflrs if r.type == 0 and ident_eq(J, ident(o), r.ref) is True]
            rows = rows_of(fr)
            J.check(len(recs) == len(rows), 'record-per-row', f'{fr}: {len(rows)} rows, {len(recs)} data records')
            chs = chan_objs(V, dl, o)
            J.check(len(chs) == len(fr.channels), 'channel-list',
                    f'{fr}: {len(fr.channels)} channels, {len(chs)} in the file')
            desc = [descriptor(J, c) for c in chs]
            for k, r in enumerate(recs):
                c = spec.Cur(J.ctx, r.data, f'data record {r.rec.index}')
                n = c.uvari('frame number')
                J.check(J.num_eq(n, k + 1), 'frame-number', f'{fr}: record {k + 1} has frame number {n}')
                if k >= len(rows):
                    break
                for j, (code, dim) in enumerate(desc):
                    size = spec.CODE_SIZE[code]
                    cnt = 1
                    for d in dim:
                        cnt *= d
                    got = c.take(size * cnt, f'channel {j}')
                    if j < len(rows[k]):
                        exp = rows[k][j]
                        J.check(J.bytes_eq(exp, got), 'slot-equal',
                                f'{fr}: row {k + 1}, channel {fr.channels[j].name!r}: expected '
                                f'{J.v(exp)!r}, file has {got!r}')
                J.check(c.empty(), 'record-length', f'{fr}: record {k + 1} has {simp(c.left)} bytes beyond its '
                                                    f'channels')


def chan_objs(V, dl, o):
    J = V.J
    a = o.attrs.get('CHANNELS')
    if a is None or a.absent:
        return []
    out = []
    for v in a.values:
        hit = [c for s in dl.sets if s.type == 'CHANNEL' for c in s.objs if ident_eq(J, ident(c), v) is True]
        if len(hit) != 1:
            raise Bad('channel-reference', f'channel reference {v} matches {len(hit)} channels')
        out.append(hit[0])
    return out


def descriptor(J, c):
    rc = c.attrs.get('REPRESENTATION-CODE')
    dm = c.attrs.get('DIMENSION')
    if rc is None or rc.absent or len(rc.values) != 1:
        raise Bad('descriptor', f'channel {c.name!r}: REPRESENTATION-CODE {rc}')
    if dm is None or dm.absent:
        raise Bad('descriptor', f'channel {c.name!r}: DIMENSION {dm}')
    if rc.values[0] not in spec.CODE_SIZE:
        raise Bad('descriptor', f'channel {c.name!r}: REPRESENTATION-CODE {rc.values[0]}')
    if not all(isinstance(d, int) for d in dm.values):
        raise Unk('dimension')
    return rc.values[0], list(dm.values)


def descriptors(V, want):
    """C08: want(channel X) -> (dtype name such as 'f4', shape list)"""
    J = V.J
    for x, o in V.map.items():
        if x.kind != 'channel':
            continue
        w = want(x)
        if w is None:
            continue
        code, dim = descriptor(J, o)
        J.check(code == spec.DT_CODE[w[0]], 'repr-code', f'{x}: data written as {w[0]}, REPRESENTATION-CODE '
                                                         f'{spec.CODES.get(code)}')
        J.check(dim == list(w[1]), 'dimension', f'{x}: per-row shape {w[1]}, DIMENSION {dim}')
        el = o.attrs.get('ELEMENT-LIMIT')
        if el is None or el.absent:
            J.fail('element-limit', f'{x}: no ELEMENT-LIMIT')
        else:
            J.check(len(el.values) >= len(w[1]) and all(isinstance(a, int) and a >= b for a, b in
                                                        zip(el.values, w[1])),
                    'element-limit', f'{x}: ELEMENT-LIMIT {el.values} does not bound {w[1]}')


def noformat(V):
    """C16"""
    J, S = V.J, V.S
    for i, (xl, dl) in enumerate(zip(S.lfs, V.lfs)):
        recs = [r for r in dl.iflrs if r.type == 1]
        J.check(len(recs) == len(xl.noform), 'payload-count',
                f'logical file {i}: {len(xl.noform)} payloads, {len(recs)} records')
        for k, (r, (x, p)) in enumerate(zip(recs, xl.noform)):
            o = V.map.get(x)
            if o is None:
                continue
            J.check(ident_eq(J, ident(o), r.ref), 'payload-object', f'payload {k}: under {r.ref}, added to {x}')
            if isinstance(p, bytearray):
                p = bytes(p)
            if kind_of(p) == 's':
                e = J.text_eq(p, r.data)
            else:
                e = J.bytes_eq(p, r.data)
            J.check(e, 'payload-equal', f'payload {k}: expected {J.v(p)!r:.80}, file has {r.data!r:.80}')


def label(V):
    """C01: fields of the storage unit label"""
    J, S = V.J, V.S
    s = V.ph.sul
    for k, v, w, left in (('seq', S.sul['seq'], 4, False), ('maxlen', S.maxlen, 5, False),
                          ('set_id', S.sul['set_id'], 60, True)):
        v = J.v(v)
        g = s[k]
        if k != 'set_id':
            n = spec.text_int(J.ctx, g, k)
            J.check(J.num_eq(n, v), 'label-' + k, f'label field {k} is {g!r}, configured {v}')
        else:
            pad = mk('s', [spec.PRep(' ', sub(60, slen_(v)))])
            J.check(J.text_eq(concat(v, pad), g), 'label-' + k, f'label field {k} is {g!r}, configured {v!r}')
