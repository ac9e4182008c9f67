"""Abstract numpy arrays and HDF5 files.

An array is a view (dtype, shape, base positions) over a store of scalar *memory cells*; a cell is an element term
held in a byte order.  Element terms are value-numbered: an unknown element of a source array, a cast, a byte swap, or
a number of the relational domain.  Stores remember whether they belong to the caller and log every write to them.
"""
import ast
import itertools
import math
import random
import struct
from fractions import Fraction

from .lin import Atom, Num, N, add, sub, mul, scale
from .terms import SSeq, PNum, PCell, mk, simp, kind_of, RANGE
from .ctx import Unsupported
from .values import (VExt, VOpaque, VNative, VClass, VList, VDict, VIter, VObj, VLazyStr, MISSING, Cell, PyRaise)

INTS = {('i', 1): 'b', ('i', 2): 'h', ('i', 4): 'i', ('i', 8): 'q',
        ('u', 1): 'B', ('u', 2): 'H', ('u', 4): 'I', ('u', 8): 'Q', ('b', 1): 'B'}
NAMES = {('i', 1): 'int8', ('i', 2): 'int16', ('i', 4): 'int32', ('i', 8): 'int64', ('u', 1): 'uint8',
         ('u', 2): 'uint16', ('u', 4): 'uint32', ('u', 8): 'uint64', ('f', 2): 'float16', ('f', 4): 'float32',
         ('f', 8): 'float64', ('b', 1): 'bool', ('c', 8): 'complex64', ('c', 16): 'complex128'}
FLT = {2: 'e', 4: 'f', 8: 'd'}


def rng(kind, size):
    if kind == 'b':
        return 0, 1
    if kind == 'u':
        return 0, 2 ** (8 * size) - 1
    return -2 ** (8 * size - 1), 2 ** (8 * size - 1) - 1


class DT:
    """dtype"""
    __slots__ = ('kind', 'size', 'order', 'fields', 'sub', 'subshape')

    def __init__(self, kind, size, order='<', fields=None, sub=None, subshape=()):
        self.kind, self.size, self.fields, self.sub, self.subshape = kind, size, fields, sub, tuple(subshape)
        self.order = order if size > 1 or fields or sub else '|'

    def nbase(self):
        if self.fields is not None:
            return sum(d.nbase() for _, d in self.fields)
        if self.sub is not None:
            n = 1
            for s in self.subshape:
                n *= s
            return n * self.sub.nbase()
        return 1

    def itemsize(self):
        if self.fields is not None:
            return sum(d.itemsize() for _, d in self.fields)
        if self.sub is not None:
            n = 1
            for s in self.subshape:
                n *= s
            return n * self.sub.itemsize()
        return self.size

    def flat(self):
        """base dtypes in memory order"""
        if self.fields is not None:
            return [b for _, d in self.fields for b in d.flat()]
        if self.sub is not None:
            n = 1
            for s in self.subshape:
                n *= s
            return self.sub.flat() * n
        return [self]

    def name(self):
        if self.fields is not None or self.sub is not None:
            return f'void{8 * self.itemsize()}'
        if self.kind in 'US':
            return f'str{8 * self.size}' if self.kind == 'U' else f'bytes{8 * self.size}'
        if self.kind == 'O':
            return 'object'
        if self.kind == 'M':
            return 'datetime64'
        if self.kind == 'm':
            return 'timedelta64'
        return NAMES[(self.kind, self.size)]

    def key(self):
        return (self.kind, self.size, self.order if self.size > 1 else '|',
                tuple((n, d.key()) for n, d in self.fields) if self.fields is not None else None,
                self.sub.key() if self.sub else None, self.subshape)

    def __eq__(self, o):
        return isinstance(o, DT) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def with_order(self, order):
        if self.fields is not None:
            return DT('V', 0, '|', [(n, d.with_order(order)) for n, d in self.fields])
        if self.sub is not None:
            return DT('V', 0, '|', None, self.sub.with_order(order), self.subshape)
        return DT(self.kind, self.size, order if order != 's' else ('>' if self.order == '<' else '<'))

    def __repr__(self):
        if self.fields is not None:
            return repr([(n, repr(d)) for n, d in self.fields])
        if self.sub is not None:
            return f'{self.subshape}{self.sub!r}'
        return f'{self.order}{self.kind}{self.size}'


BOOL = DT('b', 1)
I64 = DT('i', 8)
F64 = DT('f', 8)


# ------------------------------------------------------------------------------------------------ element terms

class Elem:
    __slots__ = ('_k',)

    def key(self):
        if self._k is None:
            self._k = self._key()
        return self._k

    def __repr__(self):
        return self.text()


class ECell(Elem):
    """unknown element `idx` of the source array `src`"""
    __slots__ = ('src', 'idx', 'kind', 'size', 'num')

    def __init__(self, src, idx, kind, size):
        self.src, self.idx, self.kind, self.size = src, idx, kind, size
        self._k = None
        self.num = None

    def _key(self):
        return ('e', self.src, self.idx)

    def text(self):
        return f'{self.src}{list(self.idx)}'

    def evaluate(self, m):
        r = random.Random(f'{m.seed}:{self.src}:{self.idx}')
        if self.num is not None:
            v = m.num(self.num)
            return struct.pack('>' + INTS[(self.kind, self.size)], int(v))
        if self.kind == 'b':
            return bytes([r.randrange(2)])
        if self.kind == 'f' and self.size in (4, 8):
            c = r.randrange(7)
            if c < 4:
                v = r.uniform(-1000, 1000)
                return struct.pack('>' + FLT[self.size], v)
            if self.size == 4:
                return [b'\x7f\xa1\x23\x45', b'\xff\x80\x00\x00', b'\x80\x00\x00\x00'][c - 4]
            return [b'\x7f\xf4\x00\x12\x34\x56\x78\x9a', b'\xff\xf0' + b'\0' * 6, b'\x80' + b'\0' * 7][c - 4]
        return bytes(r.randrange(256) for _ in range(self.size))


class ECast(Elem):
    __slots__ = ('e', 'fk', 'fs', 'kind', 'size')

    def __init__(self, e, fk, fs, kind, size):
        self.e, self.fk, self.fs, self.kind, self.size = e, fk, fs, kind, size
        self._k = None

    def _key(self):
        return ('c', self.e.key(), self.fk, self.fs, self.kind, self.size)

    def text(self):
        return f'{NAMES[(self.kind, self.size)]}({self.e!r})'

    def evaluate(self, m):
        b = m.cell(self.e)
        return cast_bytes(b, self.fk, self.fs, self.kind, self.size)


class EBswap(Elem):
    __slots__ = ('e', 'kind', 'size')

    def __init__(self, e, kind, size):
        self.e, self.kind, self.size = e, kind, size
        self._k = None

    def _key(self):
        return ('s', self.e.key())

    def text(self):
        return f'byteswap({self.e!r})'

    def evaluate(self, m):
        return m.cell(self.e)[::-1]


class ENum(Elem):
    """element with a value of the relational domain"""
    __slots__ = ('val', 'kind', 'size')

    def __init__(self, val, kind, size):
        self.val, self.kind, self.size = N(val), kind, size
        self._k = None

    def _key(self):
        return ('n', self.val.key(), self.kind, self.size)

    def text(self):
        return repr(simp(self.val))

    def evaluate(self, m):
        v = m.num(self.val)
        if self.kind == 'f':
            return struct.pack('>' + FLT[self.size], float(v))
        return struct.pack('>' + INTS[(self.kind, self.size)], int(v))


class ELit(Elem):
    """element of known bits (big-endian)"""
    __slots__ = ('bits', 'kind', 'size')

    def __init__(self, bits, kind, size):
        self.bits, self.kind, self.size = bits, kind, size
        self._k = None

    def _key(self):
        return ('l', self.bits)

    def text(self):
        return '0x' + self.bits.hex()

    def evaluate(self, m):
        return self.bits


class EOp(Elem):
    """an operation on element terms that is only evaluated on witnesses"""
    __slots__ = ('op', 'args', 'kind', 'size', 'fn')

    def __init__(self, op, args, kind, size, fn):
        self.op, self.args, self.kind, self.size, self.fn = op, tuple(args), kind, size, fn
        self._k = None

    def _key(self):
        return ('o', self.op, tuple(a.key() for a in self.args), self.kind, self.size)

    def text(self):
        return f'{self.op}({", ".join(map(repr, self.args))})'

    def evaluate(self, m):
        return self.fn(*[m.cell(a) for a in self.args])


class EObj(Elem):
    """python value held in a non-numeric array"""
    __slots__ = ('val', 'kind', 'size')

    def __init__(self, val, kind='O', size=8):
        self.val, self.kind, self.size = val, kind, size
        self._k = None

    def _key(self):
        return ('ob', id(self.val))

    def text(self):
        return repr(self.val)

    def evaluate(self, m):
        raise Unsupported('object element')


def cast_bytes(b, fk, fs, tk, ts):
    if fk == 'f':
        v = struct.unpack('>' + FLT[fs], b)[0]
    elif fk == 'b':
        v = int(bool(b[0]))
    else:
        v = struct.unpack('>' + INTS[(fk, fs)], b)[0]
    if tk == 'f':
        if fk == 'f' and v != v and fs != ts:
            if fs == 4 and ts == 8:
                bits = int.from_bytes(b, 'big')
                r = ((bits >> 31) << 63) | (0x7ff << 52) | ((bits & 0x7fffff) << 29) | (1 << 51)
                return r.to_bytes(8, 'big')
            if fs == 8 and ts == 4:
                bits = int.from_bytes(b, 'big')
                r = ((bits >> 63) << 31) | (0xff << 23) | ((bits >> 29) & 0x7fffff) | (1 << 22)
                return r.to_bytes(4, 'big')
        try:
            return struct.pack('>' + FLT[ts], float(v))
        except OverflowError:
            return struct.pack('>' + FLT[ts], float('inf') if v > 0 else float('-inf'))
    if tk == 'b':
        return bytes([1 if v else 0])
    if fk == 'f':
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('cast of a non-finite value to an integer')
        v = int(v)
        lo, hi = rng(tk, ts)
        if not lo <= v <= hi:
            raise Unsupported('out-of-range cast of a float to an integer')
    return (v % (1 << (8 * ts))).to_bytes(ts, 'big')


def cast_elem(it, e, fk, fs, tk, ts):
    if (fk, fs) == (tk, ts):
        return e
    if isinstance(e, EObj) or tk not in 'iufb' or fk not in 'iufb':
        raise it.unsupported('cast of a non-numeric array')
    if isinstance(e, ELit):
        return ELit(cast_bytes(e.bits, fk, fs, tk, ts), tk, ts)
    if isinstance(e, ENum):
        if tk == 'f':
            if e.val.const:
                return fl_elem(e.val, ts)
            if ts < fs or fk != 'f' and not _fits_float(it, e, ts):
                return EOp(f'{NAMES[(tk, ts)]}', (e,), tk, ts, lambda b: cast_bytes(b, fk, fs, tk, ts))
            return fl_elem(e.val, ts)
        if tk == 'b':
            return ENum(0 if it.ctx.branch('==', e.val) else 1, 'b', 1)
        v = e.val
        if fk == 'f':
            v = N(it.ctx.trunc(v))
        return ENum(wrap(it, v, tk, ts), tk, ts)
    # unknown element: drop a first lossless integer widening
    if isinstance(e, ECast) and e.fk in 'iub' and e.kind in 'iu' and tk in 'iub':
        lo, hi = rng(e.fk, e.fs)
        l2, h2 = rng(e.kind, e.size)
        if l2 <= lo and hi <= h2 or (e.size >= ts and tk != 'b'):
            return cast_elem(it, e.e, e.fk, e.fs, tk, ts)
    return ECast(e, fk, fs, tk, ts)


def _fits_float(it, e, ts):
    lim = 2 ** (24 if ts == 4 else 53)
    lo, hi = it.ctx.bounds(e.val)
    return lo is not None and hi is not None and -lim <= lo and hi <= lim


def wrap(it, v, kind, size):
    """value of integer v stored in a narrower type"""
    v = N(v)
    lo, hi = rng(kind, size)
    if v.const:
        return N((int(v.c) - lo) % (hi - lo + 1) + lo)
    f = it.ctx.facts
    if f.entails('>=', sub(v, lo)) and f.entails('>=', sub(hi, v)):
        return v
    span = hi - lo + 1
    if it.ctx.branch('>=', sub(v, lo)):
        if it.ctx.branch('>=', sub(hi, v)):
            return v
        if it.ctx.branch('>=', sub(hi + span, v)):
            return sub(v, span)
    elif it.ctx.branch('>=', sub(v, lo - span)):
        return add(v, span)
    return add(N(it.ctx.mod(sub(v, lo), span)), lo)


def elem_num(it, e, kind, size):
    """the numeric value of an element as a Num (integers only for unknown elements)"""
    if isinstance(e, ENum):
        return e.val
    if isinstance(e, ELit):
        if kind == 'f':
            v = struct.unpack('>' + FLT[size], e.bits)[0]
            return v if v != v or v in (float('inf'), float('-inf')) else N(v)
        if kind == 'b':
            return N(e.bits[0])
        return N(struct.unpack('>' + INTS[(kind, size)], e.bits)[0])
    if kind in 'iub':
        key = ('elemnum', e.key(), kind, size)
        c = it.ctx
        if key not in c.derived:
            lo, hi = rng(kind, size)
            code = INTS[(kind, size)]
            c.derived[key] = Num.of(Atom(repr(e), lo=lo, hi=hi,
                                         defn=lambda m: struct.unpack('>' + code, m.cell(e))[0]))
        return c.derived[key]
    if kind == 'f':
        key = ('elemnum', e.key(), kind, size)
        c = it.ctx
        if key not in c.derived:
            code = FLT[size]

            def ev(m):
                v = struct.unpack('>' + code, m.cell(e))[0]
                return Fraction(v)
            c.derived[key] = Num.of(Atom(repr(e), isint=False, defn=ev))
        return c.derived[key]
    raise it.unsupported('numeric value of an array element')


def fl_elem(v, size):
    """floating-point element holding v: a known value is rounded to the format, an unknown one is taken as exact"""
    v = N(v)
    if v.const:
        try:
            b = struct.pack('>' + FLT[size], float(v.c))
        except OverflowError:
            return ELit(struct.pack('>' + FLT[size], float('inf') if v.c > 0 else float('-inf')), 'f', size)
        return ENum(N(struct.unpack('>' + FLT[size], b)[0]), 'f', size)
    return ENum(Num(v.t, v.c, True), 'f', size)


def num_elem(v, kind, size):
    if kind == 'f' and isinstance(v, float) and v == 0 and str(v) == '-0.0':
        return ELit(struct.pack('>' + FLT[size], v), kind, size)
    if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
        return ELit(struct.pack('>' + FLT[size], v), kind, size)
    if isinstance(v, bool):
        v = int(v)
    if kind == 'f':
        return fl_elem(v, size)
    return ENum(v, kind, size)


def elem_part(e, order, kind, size):
    """bytes of an element stored in byte order `order`"""
    if isinstance(e, EBswap):
        return elem_part(e.e, '<' if order == '>' else '>', kind, size)
    o = '>' if size == 1 else order
    if isinstance(e, ELit):
        return e.bits if o == '>' else e.bits[::-1]
    if isinstance(e, ENum):
        if kind == 'f' and size in (4, 8):
            return PNum('f' if size == 4 else 'd', e.val, o)
        if (kind, size) in INTS:
            return PNum(INTS[(kind, size)], e.val, o)
    return PCell(e, o, size)


class Store(Cell):
    """memory of one array: scalar cells (element, byte order)"""
    __slots__ = ('cells', 'caller', 'name', 'writes', 'readonly')

    def __init__(self, cells, caller=False, name='array', readonly=False):
        self.era = Cell.current
        self.cells, self.caller, self.name = list(cells), caller, name
        self.writes = []
        self.readonly = readonly

    def snapshot(self):
        return list(self.cells), list(self.writes)

    def restore(self, s):
        self.cells, self.writes = s


def promote(a, b):
    if a.kind == 'b' and b.kind == 'b':
        return BOOL
    ka, kb = a.kind, b.kind
    if ka == 'b':
        return DT(kb, b.size)
    if kb == 'b':
        return DT(ka, a.size)
    if ka == kb:
        return DT(ka, max(a.size, b.size))
    if 'f' in (ka, kb):
        f, i = (a, b) if ka == 'f' else (b, a)
        need = {1: 2, 2: 4, 4: 8, 8: 8}[i.size]
        return DT('f', max(f.size, need))
    u, s = (a, b) if ka == 'u' else (b, a)
    if s.size > u.size:
        return DT('i', s.size)
    if u.size == 8:
        return DT('f', 8)
    return DT('i', u.size * 2)


def pyweak(it, dt, v):
    """dtype of an operation between an array/scalar of dtype dt and a python scalar (numpy 2 rules)"""
    if isinstance(v, bool):
        return dt
    if isinstance(v, int) or isinstance(v, Num) and not v.isfloat:
        return I64 if dt.kind == 'b' else DT(dt.kind, dt.size)
    return DT('f', dt.size) if dt.kind == 'f' else F64


def to_dtype(it, v):
    """argument -> DT"""
    if isinstance(v, VDType):
        return v.dt
    if isinstance(v, DT):
        return v
    if isinstance(v, VClass):
        if v in it.np_dtypes:
            return it.np_dtypes[v]
        n = v.name
        if n == 'float':
            return F64
        if n == 'int':
            return I64
        if n == 'bool':
            return BOOL
        if n == 'object':
            return DT('O', 8)
        raise it.throw('TypeError', f'Cannot interpret {n} as a data type')
    if v is None:
        return F64
    v = it.prim(v)
    if isinstance(v, str):
        return parse_dt(it, v)
    if isinstance(v, VList):
        fields = []
        for f in v.items:
            f = tuple(it.iterate(f))
            name = it.prim(f[0])
            d = to_dtype(it, f[1])
            if len(f) > 2:
                sh = f[2]
                sh = tuple(it.iterate(sh)) if isinstance(sh, (tuple, VList)) else (it.concretise(sh),)
                d = DT('V', 0, '|', None, d, tuple(sh)) if sh else d
            if isinstance(name, SSeq):
                pass
            elif not isinstance(name, str):
                raise it.throw('TypeError', 'field names must be strings')
            for n2, _ in fields:
                if it.eq(n2, name):
                    raise it.throw('ValueError', f'field {name!r} occurs more than once')
            fields.append((name, d))
        return DT('V', 0, '|', fields)
    if isinstance(v, tuple) and len(v) == 2:
        d = to_dtype(it, v[0])
        sh = v[1] if isinstance(v[1], tuple) else (v[1],)
        return DT('V', 0, '|', None, d, sh)
    raise it.unsupported(f'dtype({v!r})')


def parse_dt(it, s):
    t = s
    order = '<'
    if t[:1] in '<>=|':
        order = {'=': '<', '|': '<'}.get(t[0], t[0])
        t = t[1:]
    for (k, z), n in NAMES.items():
        if t == n:
            return DT(k, z, order)
    if t in ('float', 'double'):
        return DT('f', 8, order)
    if t in ('int',):
        return DT('i', 8, order)
    if t == '?':
        return BOOL
    if len(t) >= 2 and t[0] in 'iufbcUSO' and t[1:].isdigit():
        k, z = t[0], int(t[1:])
        if k in 'US':
            return DT(k, z, order)
        if (k, z) in NAMES:
            return DT(k, z, order)
    one = {'b': ('i', 1), 'B': ('u', 1), 'h': ('i', 2), 'H': ('u', 2), 'i': ('i', 4), 'I': ('u', 4), 'l': ('i', 8),
           'L': ('u', 8), 'q': ('i', 8), 'Q': ('u', 8), 'f': ('f', 4), 'd': ('f', 8), 'e': ('f', 2)}
    if t in one:
        return DT(*one[t], order)
    raise it.throw('TypeError', f'data type {s!r} not understood')


class VDType(VExt):
    __slots__ = ('dt',)

    def __init__(self, dt):
        self.dt = dt

    def __repr__(self):
        return f'dtype({self.dt!r})'

    def vtype(self, it):
        return it.np_cls['dtype']

    def vset(self, it, name, v):
        if name != 'names' or self.dt.fields is None:
            raise it.throw('AttributeError', f"attribute '{name}' of 'numpy.dtype' objects is not writable")
        new = [it.prim(x) for x in it.iterate(v)]
        if len(new) != len(self.dt.fields):
            raise it.throw('ValueError', 'must replace all names at once')
        self.dt.fields = [(n, d) for n, (_, d) in zip(new, self.dt.fields)]

    def vget(self, it, name):
        d = self.dt
        if name == 'names':
            return tuple(n for n, _ in d.fields) if d.fields is not None else None
        if name == 'name':
            return d.name()
        if name == 'kind':
            return d.kind
        if name == 'char':
            return INTS.get((d.kind, d.size)) or FLT.get(d.size, d.kind)
        if name == 'itemsize':
            return d.itemsize()
        if name == 'base':
            return VDType(d.sub) if d.sub is not None else self
        if name == 'shape':
            return d.subshape
        if name == 'ndim':
            return len(d.subshape)
        if name == 'subdtype':
            return (VDType(d.sub), d.subshape) if d.sub is not None else None
        if name == 'byteorder':
            if d.fields is not None or d.sub is not None or d.size == 1:
                return '|'
            return '=' if d.order == '<' else '>'
        if name == 'isnative':
            return all(b.order != '>' or b.size == 1 for b in d.flat())
        if name == 'hasobject':
            return d.kind == 'O'
        if name == 'type':
            return it.np_scalar_cls(d)
        if name == 'str':
            return f'{d.order if d.size > 1 else "|"}{d.kind}{d.size}'
        if name == 'fields':
            if d.fields is None:
                return None
            r = VDict()
            off = 0
            for n, f in d.fields:
                it.dict_set(r, n, (VDType(f), off))
                off += f.itemsize()
            return r
        if name == 'descr':
            if d.fields is None:
                return VList([('', self.vget(it, 'str'))])
            raise it.unsupported('dtype.descr')
        if name == 'newbyteorder':
            def nb(i, a, k):
                o = i.prim(a[0]) if a else i.prim(k.get('new_order', 'S'))
                m = {'>': '>', 'B': '>', 'big': '>', '<': '<', 'L': '<', 'little': '<', '=': '<', 'N': '<',
                     'native': '<', 'S': 's', 's': 's', 'swap': 's', 'b': '>', 'l': '<', 'n': '<'}
                if o in ('|', 'I'):
                    return self
                if o not in m:
                    raise i.throw('ValueError', 'byteorder not understood')
                return VDType(d.with_order(m[o]))
            return VNative('newbyteorder', nb)
        return MISSING

    def vgetitem(self, it, i):
        if self.dt.fields is None:
            raise it.throw('KeyError', 'There are no fields in dtype')
        k = it.prim(i)
        if isinstance(k, int):
            return VDType(self.dt.fields[k][1])
        for n, d in self.dt.fields:
            if it.eq(n, k):
                return VDType(d)
        raise it.throw('KeyError', f'Field named {k!r} not found.')

    def vcompare(self, it, sym, o, rev):
        if sym not in ('==', '!='):
            raise it.unsupported('dtype ordering')
        try:
            d = to_dtype(it, o) if o is not None else None
        except PyRaise:
            d = None
        if d is None:
            return sym == '!='
        return (self.dt == d) == (sym == '==')

    def vhash(self, it):
        return ('dt', self.dt.key())

    def vstr(self, it):
        d = self.dt
        if d.fields is None and d.sub is None and (d.order != '>' or d.size == 1):
            return d.name()
        return repr(d)

    def vtruth(self, it):
        return True

    def vlen(self, it):
        return len(self.dt.fields or ())


def prod(sh):
    n = 1
    for s in sh:
        n *= s
    return n


class NArr(VExt):
    __slots__ = ('store', 'dt', 'shape', 'pos', 'h5', 'write')

    def __init__(self, store, dt, shape, pos, h5=False):
        self.store, self.dt, self.shape, self.pos, self.h5 = store, dt, tuple(shape), pos, h5
        self.write = True
        if dt.sub is not None:
            # sub-array dtypes become extra dimensions
            k = dt.sub.nbase()
            n = prod(dt.subshape)
            self.pos = [p + j * k for p in pos for j in range(n)]
            self.shape = self.shape + dt.subshape
            self.dt = dt.sub

    def __repr__(self):
        return f'<array {self.store.name} {self.shape} {self.dt!r}>'

    @property
    def ndim(self):
        return len(self.shape)

    def size(self):
        return prod(self.shape)

    def vtype(self, it):
        return it.np_cls['Dataset'] if self.h5 else it.np_cls['ndarray']

    # -------------------------------------------------------- element access
    def elem(self, it, k):
        """element term of the k-th element (base dtypes only)"""
        e, o = self.store.cells[self.pos[k]]
        return reorder(e, o, self.dt)

    def elems(self, it):
        if self.dt.fields is not None:
            raise it.unsupported('elements of a structured array')
        return [self.elem(it, k) for k in range(len(self.pos))]

    def set_elem(self, it, k, e):
        s = self.store
        if s.readonly or not self.write:
            raise it.throw('ValueError', 'assignment destination is read-only')
        s.touch()
        p = self.pos[k]
        s.cells[p] = (e, self.dt.order)
        if s.caller:
            s.writes.append(it.where())
            it.events.append(('array-write', s, it.where()))

    def copy(self, it, dt=None, name='copy'):
        dt = dt or self.dt
        if self.dt.fields is not None or dt.fields is not None:
            if self.dt.fields is None or dt.fields is None or len(self.dt.fields) != len(dt.fields):
                raise it.unsupported('cast between structured and plain arrays')
            src, dst = self.dt.flat(), dt.flat()
            if len(src) != len(dst):
                raise it.unsupported('cast between structured dtypes')
            cells = []
            for p in self.pos:
                for j, (a, b) in enumerate(zip(src, dst)):
                    e, o = self.store.cells[p + j]
                    cells.append((cast_elem(it, reorder(e, o, a), a.kind, a.size, b.kind, b.size), b.order))
            return NArr(Store(cells, name=self.store.name), dt, self.shape,
                        [k * len(dst) for k in range(len(self.pos))])
        d = self.dt
        cells = [(cast_elem(it, e, d.kind, d.size, dt.kind, dt.size), dt.order) for e in self.elems(it)]
        return NArr(Store(cells, name=self.store.name), dt, self.shape, list(range(len(cells))))

    def view(self, shape, pos, dt=None):
        a = NArr(self.store, dt or self.dt, shape, pos)
        a.write = self.write
        return a

    def scalar(self, it, k):
        if self.dt.fields is not None:
            return NVoid(self.store, self.dt, self.pos[k])
        return NScalar(DT(self.dt.kind, self.dt.size), self.elem(it, k)) if self.dt.kind != 'O' \
            else self.elem(it, k).val

    # -------------------------------------------------------- attributes
    def vget(self, it, name):
        if name == 'shape':
            return self.shape
        if name == 'ndim':
            return self.ndim
        if name == 'dtype':
            return VDType(self.dt)
        if name == 'size':
            return self.size()
        if name == 'itemsize':
            return self.dt.itemsize()
        if name == 'nbytes':
            return self.size() * self.dt.itemsize()
        if name == 'T':
            if self.ndim < 2:
                return self
            return self.view(self.shape[::-1], transpose(self.shape, self.pos))
        if name == 'base':
            raise it.unsupported('base of an array')
        if name == 'flat':
            return VIter(iter([self.scalar(it, k) for k in range(len(self.pos))]))
        if name == 'flags':
            return NFlags(self)
        if name == 'strides':
            st = steps_of(self.shape, self.pos)
            b = {d.size for d in self.dt.flat()}
            if st is None or None in st or len(b) != 1 and self.dt.nbase() > 1:
                raise it.unsupported('strides')
            return tuple(x // self.dt.nbase() * self.dt.itemsize() for x in st)
        if name == 'name' and self.h5:
            return self.store.name
        f = ARR_METHODS.get(name)
        if f is not None and not (self.h5 and name not in ('astype', 'read_direct', 'fields')):
            return VNative(name, lambda i, a, k: f(i, self, a, k))
        if name.startswith('__') or self.h5:
            return MISSING
        raise it.unsupported(f'ndarray.{name}')

    def vset(self, it, name, v):
        if name == 'dtype' or name == 'shape':
            if self.store.caller:
                it.events.append(('array-meta', self.store, it.where()))
                self.store.touch()
                self.store.writes.append(it.where())
            if name == 'shape':
                r = ARR_METHODS['reshape'](it, self, [v], {})
                self.shape = r.shape
                return
            self.dt = ARR_METHODS['view'](it, self, [v], {}).dt
            return
        raise it.unsupported(f'assignment to ndarray.{name}')

    # -------------------------------------------------------- indexing
    def vlen(self, it):
        if not self.shape:
            raise it.throw('TypeError', 'len() of unsized object')
        return self.shape[0]

    def viter(self, it):
        if not self.shape:
            raise it.throw('TypeError', 'iteration over a 0-d array')
        for k in range(self.shape[0]):
            yield self.vgetitem(it, k)

    def resolve_index(self, it, i):
        """-> (shape, positions) of the selection, or field view"""
        idx = list(i) if isinstance(i, tuple) else [i]
        if any(x is Ellipsis for x in idx):
            k = next(j for j, x in enumerate(idx) if x is Ellipsis)
            n = self.ndim - sum(1 for x in idx if x is not None and x is not Ellipsis)
            idx[k:k + 1] = [slice(None)] * n
        pos = list(self.pos)
        shape = list(self.shape)
        if sum(isinstance(x, (NArr, VList)) for x in idx) > 1:
            raise it.unsupported('several index arrays')
        # process axis by axis, keeping `pos` as nested flat list in C order
        sels = []
        ax = 0
        for x in idx:
            if x is None:
                sels.append(('new',))
                continue
            if ax >= len(shape):
                raise it.throw('IndexError', 'too many indices for array')
            n = shape[ax]
            if isinstance(x, slice):
                s = slice(*[None if v is None else conc_int(it, v) for v in (x.start, x.stop, x.step)])
                sels.append(('list', list(range(*s.indices(n)))))
            elif isinstance(x, (NArr, VList)):
                sels.append(('list', index_list(it, x, n)))
            else:
                j = conc_int(it, x)
                if not isinstance(j, int):
                    raise it.throw('IndexError', 'only integers, slices are valid indices')
                if not -n <= j < n:
                    raise it.throw('IndexError', f'index {j} is out of bounds for axis {ax} with size {n}')
                sels.append(('int', j % n))
            ax += 1
        while ax < len(shape):
            sels.append(('list', list(range(shape[ax]))))
            ax += 1
        nshape = []
        lists = []
        for s in sels:
            if s[0] == 'new':
                nshape.append(1)
            elif s[0] == 'list':
                nshape.append(len(s[1]))
                lists.append(s[1])
            else:
                lists.append([s[1]])
        strides = []
        acc = 1
        for n in reversed(shape):
            strides.append(acc)
            acc *= n
        strides = strides[::-1]
        npos = [pos[sum(a * b for a, b in zip(c, strides))] for c in itertools.product(*lists)]
        return nshape, npos

    def vgetitem(self, it, i):
        k = it.prim(i) if not isinstance(i, (tuple, slice)) else i
        if isinstance(k, (str, SSeq)):
            return self.field(it, k)
        if isinstance(k, VList) and k.items and all(isinstance(it.prim(x), (str, SSeq)) for x in k.items):
            raise it.unsupported('multi-field selection')
        if isinstance(k, NArr) and k.dt.kind == 'b' and k.shape and not self.h5:
            return self.masked(it, k).copy(it)
        if self.h5:
            if k == () and isinstance(k, tuple):
                return NArr(self.store, self.dt, self.shape, self.pos).copy(it)
            shape, pos = self.resolve_index(it, k)
            r = NArr(self.store, self.dt, shape, pos)
            if not shape:
                return r.scalar(it, 0)
            return r.copy(it)
        shape, pos = self.resolve_index(it, k)
        fancy = any(isinstance(x, (NArr, VList)) for x in (k if isinstance(k, tuple) else (k,)))
        if not shape and not (isinstance(k, tuple) and Ellipsis in k):
            return NArr(self.store, self.dt, (), pos).scalar(it, 0)
        r = self.view(shape, pos)
        return r.copy(it) if fancy else r

    def masked(self, it, k):
        if k.shape != self.shape[:k.ndim]:
            raise it.throw('IndexError', 'boolean index did not match indexed array')
        m = prod(self.shape[k.ndim:])
        keep = [j for j in range(len(k.pos)) if it.truth(k.scalar(it, j))]
        return self.view((len(keep),) + self.shape[k.ndim:], [self.pos[j * m + q] for j in keep for q in range(m)])

    def field(self, it, name):
        if self.dt.fields is None:
            raise it.throw('IndexError', 'only integers, slices (`:`), ellipsis (`...`) and integer or boolean '
                                         'arrays are valid indices')
        off = 0
        for n, d in self.dt.fields:
            if it.eq(n, name):
                r = NArr(self.store, d, self.shape, [p + off for p in self.pos])
                r.write = self.write
                return r
            off += d.nbase()
        raise it.throw('ValueError', f'no field of name {name}')

    def vsetitem(self, it, i, v):
        k = it.prim(i) if not isinstance(i, (tuple, slice)) else i
        if isinstance(k, (str, SSeq)):
            tgt = self.field(it, k)
            assign_all(it, tgt, v)
            return
        if isinstance(k, NArr) and k.dt.kind == 'b' and k.shape and not self.h5:
            assign_all(it, self.masked(it, k), v)
            return
        if self.h5 and self.h5 != 'rw':
            raise it.throw('OSError', "Can't synchronously write data (no write intent on file)")
        shape, pos = self.resolve_index(it, k)
        assign_all(it, self.view(shape, pos), v)

    # -------------------------------------------------------- operators
    def vbinop(self, it, sym, o, rev):
        return ufunc2(it, sym, o if rev else self, self if rev else o)

    def vcompare(self, it, sym, o, rev):
        if self.h5 or self.dt.fields is not None:
            raise it.unsupported('comparison of such an array')
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
        return ufunc2(it, flip.get(sym, sym) if rev else sym, self, o)

    def vunary(self, it, op):
        t = type(op).__name__
        if t == 'USub':
            return ufunc2(it, '-', 0, self) if self.dt.kind != 'f' else ufunc2(it, '*', self, -1)
        if t == 'Invert' and self.dt.kind == 'b':
            return arr_of(it, [ENum(0 if it.truth(self.scalar(it, k)) else 1, 'b', 1) for k in range(len(self.pos))],
                          BOOL, self.shape)
        raise it.unsupported('array operator')

    def viop(self, it, op, val):
        sym = it.BIN[type(op)][0]
        r = ufunc2(it, sym, self, val)
        assign_all(it, self, r)
        return self

    def vtruth(self, it):
        if self.size() == 1:
            return it.truth(self.view((), self.pos).scalar(it, 0))
        if self.size() == 0:
            return False
        raise it.throw('ValueError', 'The truth value of an array with more than one element is ambiguous')

    def vcontains(self, it, v):
        return it.truth(ARR_METHODS['any'](it, ufunc2(it, '==', self, v), [], {}))

    def vbytes(self, it):
        return ARR_METHODS['tobytes'](it, self, [], {})

    def vhash(self, it):
        raise it.throw('TypeError', "unhashable type: 'numpy.ndarray'")

    def vstr(self, it):
        return VLazyStr([(self, '', '')])

    def vminmax(self, it, which):
        return ARR_METHODS[which](it, self, [], {})

    def vint(self, it):
        if self.size() != 1:
            raise it.throw('TypeError', 'only length-1 arrays can be converted to Python scalars')
        return self.view((), self.pos).scalar(it, 0).vint(it)

    def vfloat(self, it):
        if self.size() != 1:
            raise it.throw('TypeError', 'only length-1 arrays can be converted to Python scalars')
        return self.view((), self.pos).scalar(it, 0).vfloat(it)

    def vcopy(self, it):
        return self.copy(it)


class NFlags(VExt):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def vget(self, it, name):
        if name in ('writeable',):
            return self.a.write and not self.a.store.readonly
        if name in ('c_contiguous', 'C_CONTIGUOUS', 'contiguous', 'f_contiguous', 'F_CONTIGUOUS', 'fnc', 'FNC',
                    'forc', 'FORC'):
            a = self.a
            nb = a.dt.nbase()
            c, f = contiguous(a.shape, a.pos, nb), contiguous(a.shape[::-1], transpose(a.shape, a.pos), nb)
            n = name.lower()
            return c if n[0] == 'c' else f if n == 'f_contiguous' else c or f if n == 'forc' else f and not c
        raise it.unsupported(f'flags.{name}')

    def vgetitem(self, it, i):
        return self.vget(it, it.prim(i).lower() if it.prim(i) in ('WRITEABLE',) else it.prim(i))

    def vset(self, it, name, v):
        if name == 'writeable':
            if self.a.store.caller:
                it.events.append(('array-flags', self.a.store, it.where()))
            self.a.write = it.truth(v)
            return
        raise it.unsupported(f'flags.{name}')


class NVoid(VExt):
    """a row of a structured array (a view)"""
    __slots__ = ('store', 'dt', 'p')

    def __init__(self, store, dt, p):
        self.store, self.dt, self.p = store, dt, p

    def vtype(self, it):
        return it.np_cls['void']

    def fld(self, it, j):
        off = sum(d.nbase() for _, d in self.dt.fields[:j])
        d = self.dt.fields[j][1]
        a = NArr(self.store, d, (), [self.p + off])
        return a.scalar(it, 0) if not a.shape else a

    def vlen(self, it):
        return len(self.dt.fields)

    def viter(self, it):
        for j in range(len(self.dt.fields)):
            yield self.fld(it, j)

    def vgetitem(self, it, i):
        k = it.prim(i)
        if isinstance(k, (str, SSeq)):
            for j, (n, _) in enumerate(self.dt.fields):
                if it.eq(n, k):
                    return self.fld(it, j)
            raise it.throw('ValueError', f'no field of name {k}')
        if isinstance(k, slice):
            raise it.unsupported('slice of a structured scalar')
        k = conc_int(it, k)
        if not -len(self.dt.fields) <= k < len(self.dt.fields):
            raise it.throw('IndexError', 'invalid index')
        return self.fld(it, k % len(self.dt.fields))

    def vsetitem(self, it, i, v):
        k = it.prim(i)
        off = 0
        for j, (n, d) in enumerate(self.dt.fields):
            if (it.eq(n, k) if isinstance(k, (str, SSeq)) else j == k):
                assign_all(it, NArr(self.store, d, (), [self.p + off]), v)
                return
            off += d.nbase()
        raise it.throw('ValueError', 'no such field')

    def vget(self, it, name):
        if name == 'dtype':
            return VDType(self.dt)
        if name == 'tobytes':
            return VNative(name, lambda i, a, k: NArr(self.store, self.dt, (1,), [self.p]).vbytes(i))
        if name in ('item', 'tolist'):
            return VNative(name, lambda i, a, k: tuple(item(i, x) for x in self.viter(i)))
        if name == 'copy':
            return VNative(name, lambda i, a, k: NArr(self.store, self.dt, (1,), [self.p]).copy(i).scalar(i, 0))
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        raise it.unsupported(f'void.{name}')

    def vtruth(self, it):
        return True

    def vstr(self, it):
        return VLazyStr([(self, '', '')])


class NScalar(VExt):
    """numpy scalar (native byte order)"""
    __slots__ = ('dt', 'e')

    def __init__(self, dt, e):
        self.dt, self.e = dt, e

    def __repr__(self):
        return f'np.{self.dt.name()}({self.e!r})'

    def vtype(self, it):
        return it.np_scalar_cls(self.dt)

    def num(self, it):
        v = elem_num(it, self.e, self.dt.kind, self.dt.size)
        if self.dt.kind == 'f' and isinstance(v, Num):
            v = Num(v.t, v.c, True)
        return simp(v) if not (isinstance(v, Num) and v.const and self.dt.kind == 'f') else float(v.c)

    def as_arr(self):
        return NArr(Store([(self.e, self.dt.order)], name='scalar'), self.dt, (), [0])

    def vget(self, it, name):
        if name == 'dtype':
            return VDType(self.dt)
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if name in ('nbytes', 'itemsize'):
            return self.dt.size
        if name in ('item', 'tolist'):
            return VNative(name, lambda i, a, k: item(i, self))
        if name == 'real':
            return self
        if name == 'is_integer':
            return VNative(name, lambda i, a, k: i.ctx.is_integer(N(self.num(i))))
        if name == 'newbyteorder':
            raise it.throw('AttributeError', 'newbyteorder was removed')
        f = ARR_METHODS.get(name)
        if f is not None and name not in ('sort', 'fill', 'resize'):
            def call(i, a, k):
                r = f(i, self.as_arr(), a, k)
                if isinstance(r, NArr) and not r.shape:
                    return r.scalar(i, 0)
                return r
            return VNative(name, call)
        if name.startswith('__'):
            return MISSING
        raise it.unsupported(f'numpy scalar.{name}')

    def vbinop(self, it, sym, o, rev):
        return ufunc2(it, sym, o if rev else self, self if rev else o)

    def vcompare(self, it, sym, o, rev):
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
        if o is None or kind_of(o) or isinstance(o, (VList, tuple, VDict, VObj, VClass)):
            if sym == '==':
                return False
            if sym == '!=':
                return True
            if isinstance(o, VObj) and o.prim is not None:
                return self.vcompare(it, sym, o.prim, rev)
            raise it.throw('TypeError', 'not supported between instances')
        return ufunc2(it, flip.get(sym, sym) if rev else sym, self, o)

    def vunary(self, it, op):
        t = type(op).__name__
        if t == 'USub':
            return ufunc2(it, '*', self, -1)
        if t == 'Invert' and self.dt.kind == 'b':
            return NScalar(BOOL, ENum(0 if self.vtruth(it) else 1, 'b', 1))
        if t == 'UAdd':
            return self
        raise it.unsupported('numpy operator')

    def vtruth(self, it):
        if self.dt.kind == 'f':
            v = self.num(it)
            return bool(v) if isinstance(v, float) else not it.ctx.branch('==', N(v))
        return it.truth(self.num(it))

    def vhash(self, it):
        return it.hkey(self.num(it))

    def vprim(self, it):
        if self.dt.kind in 'iub':
            return self.num(it)
        return self.num(it)

    def vindex(self, it):
        if self.dt.kind in 'iu':
            return self.num(it)
        raise it.throw('TypeError', 'only integer scalar arrays can be converted to a scalar index')

    def vint(self, it):
        v = self.num(it)
        if isinstance(v, float):
            try:
                return int(v)
            except (OverflowError, ValueError) as e:
                raise it.throw(type(e).__name__, str(e))
        return it.ctx.trunc(v) if isinstance(v, Num) else v

    def vfloat(self, it):
        return it.as_float(self.num(it))

    def vround(self, it, nd):
        if nd is not None:
            raise it.unsupported('round of a numpy scalar')
        return it.ctx.round_(N(self.num(it)))

    def vabs(self, it):
        if it.truth(ufunc2(it, '<', self, 0)):
            return ufunc2(it, '*', self, -1)
        return self

    def vbytes(self, it):
        return mk('b', [elem_part(self.e, '<', self.dt.kind, self.dt.size)])

    def vstr(self, it):
        return VLazyStr([(self, '', '')])

    def vpackf(self, it, code, order):
        if self.dt.kind == 'f' and FLT[self.dt.size] == code and not isinstance(self.e, ENum):
            return [elem_part(self.e, order, 'f', self.dt.size)]
        from . import libs
        return libs.VStruct(it, order + code).pack1(it, code, 1, self.num(it))

    def vcopy(self, it):
        return self


def item(it, x):
    """python value of a scalar"""
    if isinstance(x, NScalar):
        v = x.num(it)
        if x.dt.kind == 'b':
            return it.truth(v)
        return v
    if isinstance(x, NArr):
        return ARR_METHODS['tolist'](it, x, [], {})
    return x


def reorder(e, order, dt):
    if dt.size == 1 or order == dt.order or order == '|' or isinstance(e, EObj):
        return e
    if isinstance(e, EBswap):
        return e.e
    if isinstance(e, ELit):
        return ELit(e.bits[::-1], dt.kind, dt.size)
    return EBswap(e, dt.kind, dt.size)


def bswap(e, dt):
    if dt.size == 1:
        return e
    if isinstance(e, EBswap):
        return e.e
    if isinstance(e, ELit):
        return ELit(e.bits[::-1], dt.kind, dt.size)
    return EBswap(e, dt.kind, dt.size)


def conc_int(it, v):
    v = it.as_index(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Num):
        return it.concretise(v)
    return v


def index_list(it, x, n):
    out = []
    for v in it.iterate(x):
        j = conc_int(it, v)
        if not -n <= j < n:
            raise it.throw('IndexError', 'index out of bounds')
        out.append(j % n)
    return out


def transpose(shape, pos):
    strides = []
    acc = 1
    for n in reversed(shape):
        strides.append(acc)
        acc *= n
    strides = strides[::-1]
    rs = shape[::-1]
    return [pos[sum(c * s for c, s in zip(idx[::-1], strides))] for idx in itertools.product(*[range(n) for n in rs])]


def steps_of(shape, pos):
    """positions between neighbours along each axis, None if they are not regular"""
    if not pos:
        return [0] * len(shape)
    st, acc = [], 1
    for n in reversed(shape):
        st.append(pos[acc] - pos[0] if n > 1 else None)
        acc *= n
    st = st[::-1]
    k = 0
    for idx in itertools.product(*[range(n) for n in shape]):
        if pos[k] != pos[0] + sum(i * (x or 0) for i, x in zip(idx, st)):
            return None
        k += 1
    return st


def contiguous(shape, pos, nb):
    return all(b == a + nb for a, b in zip(pos, pos[1:]))


def element_order(it, shape, pos, nb, order):
    """the numbers of the elements (counted row by row) in the order asked for; and the order of the axes"""
    order = it.prim(order)
    order = (order or 'C').upper() if isinstance(order, str) or order is None else order
    nd = len(shape)
    axes = list(range(nd))
    if order in ('A', 'K'):
        if contiguous(shape, pos, nb):
            order = 'C'
        elif contiguous(shape[::-1], transpose(shape, pos), nb):
            order = 'F'
        elif order == 'A':
            order = 'C'
    if order == 'F':
        axes = axes[::-1]
    elif order == 'K':
        st = steps_of(shape, pos)
        if st is None:
            raise it.unsupported('memory order of an array')
        key = {i: abs(x) if x is not None else None for i, x in enumerate(st)}
        known = sorted([i for i in axes if key[i] is not None], key=lambda i: -key[i])
        axes = known + [i for i in axes if key[i] is None]
    elif order != 'C':
        raise it.throw('ValueError', f"order must be one of 'C', 'F', 'A', or 'K' (got {order!r})")
    if axes == list(range(nd)):
        return list(range(len(pos)))
    weight, acc = [0] * nd, 1
    for i in range(nd - 1, -1, -1):
        weight[i] = acc
        acc *= shape[i]
    return [sum(c * weight[ax] for c, ax in zip(idx, axes))
            for idx in itertools.product(*[range(shape[ax]) for ax in axes])]


def laid_out(it, a, order):
    """the array (fresh, its cells in row order) with its cells moved to another order in memory"""
    nb = a.dt.nbase()
    perm = order
    if perm == list(range(len(a.pos))):
        return a
    cells, pos = [], [0] * len(a.pos)
    for q, k in enumerate(perm):
        pos[k] = q * nb
        cells.extend(a.store.cells[a.pos[k]:a.pos[k] + nb])
    r = NArr(Store(cells, name=a.store.name), a.dt, a.shape, pos)
    return r


def with_order(it, a, order):
    """a, or a copy of it in the order asked for (np.asarray(a, order=...))"""
    order = it.prim(order)
    if order in (None, 'K', 'A'):
        return a
    nb = a.dt.nbase()
    p, sh = (a.pos, a.shape) if order == 'C' else (transpose(a.shape, a.pos), a.shape[::-1])
    if contiguous(sh, p, nb):
        return a
    return laid_out(it, a.copy(it), element_order(it, a.shape, a.pos, nb, order))


def axis_of(it, ax, nd):
    ax = conc_int(it, ax)
    if not -nd <= ax < nd:
        raise it.throw('ValueError', f'axis {ax} is out of bounds for array of dimension {nd}')
    return ax % nd


def permuted(it, a, axes):
    axes = [axis_of(it, x, a.ndim) for x in axes]
    if sorted(axes) != list(range(a.ndim)):
        raise it.throw('ValueError', "axes don't match array")
    weight, acc = [0] * a.ndim, 1
    for i in range(a.ndim - 1, -1, -1):
        weight[i] = acc
        acc *= a.shape[i]
    sh = [a.shape[x] for x in axes]
    return a.view(sh, [a.pos[sum(c * weight[x] for c, x in zip(idx, axes))]
                       for idx in itertools.product(*[range(n) for n in sh])])


def along_axis(f):
    """a reduction, also along one axis"""
    def g(it, a, args, kw):
        ax = arg(args, kw, 0, 'axis')
        keep = kw.get('keepdims', False)
        kw = {k: v for k, v in kw.items() if k not in ('axis', 'keepdims')}
        if set(kw) - {'dtype', 'out', 'initial', 'where'} or any(k in kw for k in ('out', 'initial', 'where')):
            raise it.unsupported('options of a reduction')
        if ax is None:
            if it.truth(keep):
                raise it.unsupported('keepdims')
            return f(it, a, [], kw)
        if isinstance(ax, tuple):
            raise it.unsupported('reduction along several axes')
        ax = axis_of(it, ax, a.ndim)
        b = permuted(it, a, [i for i in range(a.ndim) if i != ax] + [ax])
        n = b.shape[-1]
        out = []
        for k in range(prod(b.shape[:-1])):
            out.append(f(it, b.view((n,), b.pos[k * n:(k + 1) * n]), [], kw))
        if a.ndim == 1:
            return out[0]
        sh = list(b.shape[:-1])
        if it.truth(keep):
            sh.insert(ax, 1)
        if not out:
            raise it.unsupported('reduction of an empty array along an axis')
        r = as_arr(it, VList(out))
        return r.view(sh, r.pos)
    return g


def arr_of(it, elems, dt, shape):
    return NArr(Store([(e, dt.order) for e in elems], name='result'), dt, shape, list(range(len(elems))))


def broadcast_pos(it, shape, tgt):
    """index list mapping target elements to source elements"""
    if tuple(shape) == tuple(tgt):
        return list(range(prod(tgt)))
    sh = list(shape)
    while len(sh) > len(tgt) and sh and sh[0] == 1:
        sh = sh[1:]
    if len(sh) > len(tgt):
        raise it.throw('ValueError', f'could not broadcast input array from shape {tuple(shape)} into shape {tuple(tgt)}')
    sh = [1] * (len(tgt) - len(sh)) + sh
    for a, b in zip(sh, tgt):
        if a != b and a != 1:
            raise it.throw('ValueError',
                           f'could not broadcast input array from shape {tuple(shape)} into shape {tuple(tgt)}')
    strides = []
    acc = 1
    for n in reversed(sh):
        strides.append(acc if n != 1 else 0)
        acc *= n
    strides = strides[::-1]
    return [sum(c * s for c, s in zip(idx, strides)) for idx in itertools.product(*[range(n) for n in tgt])]


def py_dt(it, v):
    if isinstance(v, bool):
        return BOOL
    if isinstance(v, int) or isinstance(v, Num) and not v.isfloat:
        return I64
    if isinstance(v, (float, Num)):
        return F64
    return None


def as_arr(it, v, dt=None, copy=False):
    """np.asarray"""
    v = it.prim(v) if isinstance(v, VObj) else v
    if isinstance(v, NArr):
        if v.h5:
            v = NArr(v.store, v.dt, v.shape, v.pos).copy(it)
        if dt is not None and dt != v.dt:
            return v.copy(it, dt)
        return v.copy(it) if copy else v
    if isinstance(v, NScalar):
        a = v.as_arr()
        return a.copy(it, dt) if dt is not None else a
    if isinstance(v, NVoid):
        a = NArr(v.store, v.dt, (), [v.p])
        return a.copy(it, dt) if dt is not None and dt != v.dt else a.copy(it)
    d = py_dt(it, v)
    if d is not None:
        t = dt or d
        if isinstance(v, Num) or not (isinstance(v, float) and v != v):
            return arr_of(it, [cast_elem(it, num_elem(v, d.kind, d.size), d.kind, d.size, t.kind, t.size)], t, ())
        return arr_of(it, [num_elem(v, t.kind, t.size)], t, ())
    if isinstance(v, (VList, tuple)):
        items = v.items if isinstance(v, VList) else list(v)
        if not items:
            return arr_of(it, [], dt or F64, (0,))
        subs = [as_arr(it, x) for x in items]
        shapes = {s.shape for s in subs}
        if len(shapes) > 1:
            raise it.throw('ValueError', 'setting an array element with a sequence. The requested array has an '
                                         'inhomogeneous shape')
        t = subs[0].dt
        for s in subs[1:]:
            if s.dt.kind in 'iufb' and t.kind in 'iufb':
                t = promote(t, s.dt)
            elif s.dt.kind != t.kind:
                t = DT('O', 8)
        t = dt or t
        es = []
        for s in subs:
            for e in s.elems(it):
                es.append(e if t.kind not in 'iufb' else cast_elem(it, e, s.dt.kind, s.dt.size, t.kind, t.size))
        return arr_of(it, es, t, (len(items),) + subs[0].shape)
    k = kind_of(v)
    if k:
        return arr_of(it, [EObj(v, 'U' if k == 's' else 'S')], DT('U' if k == 's' else 'S', 8), ())
    return arr_of(it, [EObj(v)], DT('O', 8), ())


def assign_all(it, tgt, v):
    """tgt[...] = v, with casting and broadcasting"""
    if tgt.dt.fields is not None:
        if isinstance(v, NVoid):
            v = NArr(v.store, v.dt, (), [v.p])
        if isinstance(v, NArr) and v.dt.fields is not None:
            idx = broadcast_pos(it, v.shape, tgt.shape)
            offs = 0
            src, dst = v.dt.flat(), tgt.dt.flat()
            if len(src) != len(dst):
                raise it.unsupported('structured assignment')
            vals = [(v.store.cells[v.pos[k] + j]) for k in idx for j in range(len(src))]
            for a, p in enumerate(tgt.pos):
                for j, (s, d) in enumerate(zip(src, dst)):
                    e, o = vals[a * len(src) + j]
                    one = NArr(tgt.store, d, (), [p + j])
                    one.write = tgt.write
                    one.set_elem(it, 0, cast_elem(it, reorder(e, o, s), s.kind, s.size, d.kind, d.size))
            return
        raise it.unsupported('assignment to a structured array')
    src = as_arr(it, v)
    if src.dt.kind == 'O' and tgt.dt.kind != 'O':
        raise it.throw('TypeError', 'cannot convert to a number')
    idx = broadcast_pos(it, src.shape, tgt.shape)
    es = src.elems(it)
    es = [cast_elem(it, es[k], src.dt.kind, src.dt.size, tgt.dt.kind, tgt.dt.size) for k in idx]
    for k, e in enumerate(es):
        tgt.set_elem(it, k, e)


CMPS = {'<', '>', '<=', '>=', '==', '!='}


def ufunc2(it, sym, a, b):
    for x in (a, b):
        if isinstance(x, NVoid) or isinstance(x, NArr) and x.dt.fields is not None:
            raise it.unsupported('arithmetic on structured arrays')
    if isinstance(a, VObj):
        a = it.prim(a)
    if isinstance(b, VObj):
        b = it.prim(b)

    def info(x):
        if isinstance(x, NScalar):
            return x.dt, False
        if isinstance(x, NArr):
            return x.dt, False
        if isinstance(x, (VList, tuple)):
            return as_arr(it, x).dt, False
        d = py_dt(it, x)
        if d is None:
            return None, False
        return d, True
    da, wa = info(a)
    db, wb = info(b)
    if da is None or db is None or 'O' in (da.kind, db.kind):
        if sym in ('==', '!='):
            return sym == '!='
        raise it.throw('TypeError', f'unsupported operand for {sym}')
    if wa and not wb:
        t = pyweak(it, db, a)
    elif wb and not wa:
        t = pyweak(it, da, b)
    else:
        t = promote(da, db)
    if sym == '/':
        t = DT('f', t.size) if t.kind == 'f' else F64
    scalar = not any(isinstance(x, (NArr, VList, tuple)) and (not isinstance(x, NArr) or x.shape) for x in (a, b))
    A, B = as_arr(it, a), as_arr(it, b)
    sh = A.shape if len(A.shape) > len(B.shape) or (len(A.shape) == len(B.shape) and prod(A.shape) >= prod(B.shape)) \
        else B.shape
    ia, ib = broadcast_pos(it, A.shape, sh), broadcast_pos(it, B.shape, sh)
    ea, eb = A.elems(it), B.elems(it)
    out = [elem_op(it, sym, ea[i], A.dt, eb[j], B.dt, t, wa, wb) for i, j in zip(ia, ib)]
    rd = BOOL if sym in CMPS or (t.kind == 'b' and sym in '&|^') else t
    if scalar:
        return NScalar(DT(rd.kind, rd.size), out[0])
    return arr_of(it, out, rd, sh)


def elem_op(it, sym, x, dx, y, dy, t, wx=False, wy=False):
    vx, vy = elem_num(it, x, dx.kind, dx.size), elem_num(it, y, dy.kind, dy.size)
    c = it.ctx
    bad = lambda v: isinstance(v, float)
    if sym in CMPS:
        r = c.compare(sym, vx, vy)
        return ENum(1 if r else 0, 'b', 1)
    if t.kind == 'b' and sym in '&|^':
        p, q = not c.branch('==', vx), not c.branch('==', vy)
        return ENum(int({'&': p and q, '|': p or q, '^': p != q}[sym]), 'b', 1)
    if bad(vx) or bad(vy):
        f = float(vx) if bad(vx) else float(vx.c) if vx.const else None
        g = float(vy) if bad(vy) else float(vy.c) if vy.const else None
        if f is None or g is None:
            if sym in '+-':
                if not bad(vx):
                    return num_elem(vy if sym == '+' else -vy, t.kind, t.size)
                return num_elem(vx, t.kind, t.size)
            raise it.unsupported('arithmetic with a non-finite element')
        try:
            r = {'+': lambda: f + g, '-': lambda: f - g, '*': lambda: f * g, '/': lambda: f / g,
                 '**': lambda: f ** g}[sym]()
        except (ZeroDivisionError, OverflowError, KeyError):
            raise it.unsupported('arithmetic with a non-finite element')
        return num_elem(r, t.kind, t.size)
    for w, v in ((wx, vx), (wy, vy)):
        if w and t.kind in 'iu':
            lo, hi = rng(t.kind, t.size)
            if not (c.compare('>=', v, lo) and c.compare('<=', v, hi)):
                raise it.throw('OverflowError', f'Python integer out of bounds for {t.name()}')
    if sym in '+-*' and len(sym) == 1:
        r = {'+': add, '-': sub, '*': mul}[sym](vx, vy)
        if t.kind in 'iu':
            return ENum(wrap(it, r, t.kind, t.size), t.kind, t.size)
        if t.kind == 'f':
            return fl_elem(r, t.size)
    if sym == '/':
        if c.branch('==', vy):
            if c.branch('==', vx):
                return num_elem(float('nan'), t.kind, t.size)
            return num_elem(float('inf') if c.branch('>', vx) else float('-inf'), t.kind, t.size)
        return fl_elem(c.truediv(vx, vy), t.size)
    if sym in ('//', '%') and t.kind in 'iu':
        if c.branch('==', vy):
            return ENum(0, t.kind, t.size)
        return ENum(c.floordiv(vx, vy) if sym == '//' else c.mod(vx, vy), t.kind, t.size)
    if sym == '**' and vy.const and vy.c in (0, 1, 2, 3):
        r = N(1)
        for _ in range(int(vy.c)):
            r = mul(r, vx)
        return ENum(wrap(it, r, t.kind, t.size), t.kind, t.size) if t.kind in 'iu' else fl_elem(r, t.size)
    raise it.unsupported(f'array operator {sym}')


# ------------------------------------------------------------------------------------------------ methods

ARR_METHODS = {}


def meth(f):
    ARR_METHODS[f.__name__.rstrip('_')] = f
    return f


def arg(args, kw, i, name, default=None):
    return args[i] if len(args) > i else kw.get(name, default)


@meth
def astype(it, a, args, kw):
    dt = to_dtype(it, arg(args, kw, 0, 'dtype'))
    if dt.order == '|' and dt.size > 1:
        dt = DT(dt.kind, dt.size)
    if a.h5:
        return NArr(a.store, a.dt, a.shape, a.pos).copy(it, dt)
    order = arg(args, kw, 1, 'order', 'K')
    if ('copy' in kw or len(args) > 4) and not it.truth(arg(args, kw, 4, 'copy')) and dt == a.dt:
        return with_order(it, a, order)
    if a.dt.fields is not None:
        return a.copy(it, dt)
    return laid_out(it, a.copy(it, dt), element_order(it, a.shape, a.pos, a.dt.nbase(), order))


@meth
def copy(it, a, args, kw):
    return laid_out(it, a.copy(it), element_order(it, a.shape, a.pos, a.dt.nbase(), arg(args, kw, 0, 'order', 'C')))


@meth
def tobytes(it, a, args, kw):
    order = arg(args, kw, 0, 'order', 'C')
    pos = [a.pos[k] for k in element_order(it, a.shape, a.pos, a.dt.nbase(), 'C' if it.prim(order) == 'K' else order)]
    flat = a.dt.flat()
    parts = []
    for p in pos:
        for j, d in enumerate(flat):
            e, od = a.store.cells[p + j]
            if isinstance(e, EObj):
                raise it.unsupported('bytes of an object array')
            parts.append(elem_part(e, od if od != '|' else '>', d.kind, d.size))
    return mk('b', parts)


@meth
def byteswap(it, a, args, kw):
    ip = arg(args, kw, 0, 'inplace', False)
    t = a if it.truth(ip) else a.copy(it)
    flat = t.dt.flat()
    for p in t.pos:
        for j, d in enumerate(flat):
            one = NArr(t.store, d, (), [p + j])
            one.write = t.write
            one.set_elem(it, 0, bswap(one.elem(it, 0), d))
    return t


@meth
def view(it, a, args, kw):
    v = arg(args, kw, 0, 'dtype')
    if v is None or isinstance(v, VClass) and v is it.np_cls['ndarray']:
        return a.view(a.shape, a.pos)
    dt = to_dtype(it, v)
    if dt.fields is not None or a.dt.fields is not None:
        if [(d.size) for d in dt.flat()] == [d.size for d in a.dt.flat()]:
            return a.view(a.shape, a.pos, dt)
        raise it.unsupported('view with another structure')
    if dt.size != a.dt.size:
        raise it.unsupported('view with another item size')
    if dt.order == '|':
        dt = DT(dt.kind, dt.size)
    return a.view(a.shape, a.pos, dt)


@meth
def newbyteorder(it, a, args, kw):
    raise it.throw('AttributeError', '`newbyteorder` was removed from the ndarray class in NumPy 2.0.')


@meth
def reshape(it, a, args, kw):
    sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, VList)) else tuple(args)
    if not args:
        sh = kw.get('shape', kw.get('newshape'))
        sh = sh if isinstance(sh, (tuple, VList)) else (sh,)
    sh = [conc_int(it, x) for x in it.iterate(sh)]
    n = len(a.pos)
    if -1 in sh:
        k = prod([x for x in sh if x != -1])
        if k == 0 or n % k:
            raise it.throw('ValueError', 'cannot reshape array')
        sh[sh.index(-1)] = n // k
    if prod(sh) != n:
        raise it.throw('ValueError', f'cannot reshape array of size {n} into shape {tuple(sh)}')
    order = it.prim(kw.get('order', 'C'))
    if order == 'A':
        nb = a.dt.nbase()
        order = 'F' if not contiguous(a.shape, a.pos, nb) and contiguous(a.shape[::-1], transpose(a.shape, a.pos), nb) \
            else 'C'
    if order == 'F':
        flat = transpose(a.shape, a.pos)
        pos = transpose(tuple(sh)[::-1], flat)
    else:
        pos = list(a.pos)
    if steps_of(sh, pos) is None:
        # not a window onto the same memory
        r = NArr(a.store, a.dt, sh, pos).copy(it)
        return r if order == 'C' else laid_out(it, r, element_order(it, r.shape, r.pos, r.dt.nbase(), 'F'))
    return a.view(sh, pos)


@meth
def ravel(it, a, args, kw):
    nb = a.dt.nbase()
    order = arg(args, kw, 0, 'order', 'C')
    pos = [a.pos[k] for k in element_order(it, a.shape, a.pos, nb, order)]
    r = a.view((len(pos),), pos)
    if contiguous(r.shape, pos, nb) or it.prim(order) == 'K' and steps_of(r.shape, pos) is not None:
        return r
    if a.ndim == 1 and steps_of(r.shape, pos) is not None and it.prim(order) == 'K':
        return r
    return r.copy(it)


@meth
def flatten(it, a, args, kw):
    pos = [a.pos[k] for k in element_order(it, a.shape, a.pos, a.dt.nbase(), arg(args, kw, 0, 'order', 'C'))]
    return a.view((len(pos),), pos).copy(it)


@meth
def squeeze(it, a, args, kw):
    return a.view([n for n in a.shape if n != 1], list(a.pos))


@meth
def transpose_(it, a, args, kw):
    axes = args[0] if len(args) == 1 else tuple(args) if args else kw.get('axes')
    if axes is not None:
        return permuted(it, a, list(it.iterate(axes)) if isinstance(axes, (tuple, VList)) else [axes])
    return a.view(a.shape[::-1], transpose(a.shape, a.pos))


@meth
def swapaxes(it, a, args, kw):
    axes = list(range(a.ndim))
    i, j = axis_of(it, args[0], a.ndim), axis_of(it, args[1], a.ndim)
    axes[i], axes[j] = axes[j], axes[i]
    return permuted(it, a, axes)


def f_moveaxis(it, a, kw):
    x = as_arr(it, a[0])
    i, j = axis_of(it, a[1], x.ndim), axis_of(it, a[2], x.ndim)
    axes = [k for k in range(x.ndim) if k != i]
    axes.insert(j, i)
    return permuted(it, x, axes)


def f_expand_dims(it, a, kw):
    x = as_arr(it, a[0])
    ax = axis_of(it, arg(a, kw, 1, 'axis'), x.ndim + 1)
    sh = list(x.shape)
    sh.insert(ax, 1)
    return x.view(sh, x.pos)


@meth
def prod_(it, a, args, kw):
    t = a.dt if a.dt.kind == 'f' else DT('u' if a.dt.kind == 'u' else 'i', 8)
    acc = 1
    for e in a.elems(it):
        v = elem_num(it, e, a.dt.kind, a.dt.size)
        if not isinstance(v, (int, float, Fraction, Num)):
            raise it.unsupported('product of non-finite elements')
        acc = it.binop(ast.Mult(), acc, v)
    return NScalar(DT(t.kind, t.size), ENum(N(acc), t.kind, t.size))


@meth
def repeat(it, a, args, kw):
    n = conc_int(it, arg(args, kw, 0, 'repeats'))
    if arg(args, kw, 1, 'axis') is not None and a.ndim > 1:
        raise it.unsupported('repeat along an axis')
    pos = [p for p in a.pos for _ in range(n)]
    return a.view((len(pos),), pos).copy(it)


@meth
def fill(it, a, args, kw):
    assign_all(it, a, args[0])


@meth
def tolist(it, a, args, kw):
    if not a.shape:
        return item(it, a.scalar(it, 0))
    return VList([item(it, x) if not isinstance(x, NArr) else tolist(it, x, [], {}) for x in a.viter(it)])


@meth
def item_(it, a, args, kw):
    if args:
        raise it.unsupported('item with an index')
    if len(a.pos) != 1:
        raise it.throw('ValueError', 'can only convert an array of size 1 to a Python scalar')
    return item(it, a.view((), a.pos).scalar(it, 0))


def nonfinite(e, dt):
    if isinstance(e, ELit) and dt.kind == 'f':
        v = struct.unpack('>' + FLT[dt.size], e.bits)[0]
        return v if v != v or v in (float('inf'), float('-inf')) else None
    return None


def red_minmax(which):
    def f(it, a, args, kw):
        if args and args[0] is not None or kw.get('axis') is not None:
            raise it.unsupported('reduction along an axis')
        es = a.elems(it)
        if not es:
            raise it.throw('ValueError', 'zero-size array to reduction operation has no identity')
        best = es[0]
        for e in es:
            nf = nonfinite(e, a.dt)
            if nf is not None and nf != nf:
                return NScalar(DT(a.dt.kind, a.dt.size), e)
        for e in es[1:]:
            vb, ve = elem_num(it, best, a.dt.kind, a.dt.size), elem_num(it, e, a.dt.kind, a.dt.size)
            if it.ctx.compare('<' if which == 'min' else '>', ve, vb):
                best = e
        return NScalar(DT(a.dt.kind, a.dt.size), best)
    return f


ARR_METHODS['min'] = along_axis(red_minmax('min'))
ARR_METHODS['max'] = along_axis(red_minmax('max'))


def red_arg(which):
    def f(it, a, args, kw):
        es = a.elems(it)
        b = 0
        for k in range(1, len(es)):
            if it.ctx.compare('<' if which == 'min' else '>', elem_num(it, es[k], a.dt.kind, a.dt.size),
                              elem_num(it, es[b], a.dt.kind, a.dt.size)):
                b = k
        return NScalar(I64, ENum(b, 'i', 8))
    return f


ARR_METHODS['argmin'] = along_axis(red_arg('min'))
ARR_METHODS['argmax'] = along_axis(red_arg('max'))


@meth
def all_(it, a, args, kw):
    r = True
    for k in range(len(a.pos)):
        if not it.truth(a.view((), [a.pos[k]]).scalar(it, 0)):
            r = False
            break
    return NScalar(BOOL, ENum(int(r), 'b', 1))


@meth
def any_(it, a, args, kw):
    r = False
    for k in range(len(a.pos)):
        if it.truth(a.view((), [a.pos[k]]).scalar(it, 0)):
            r = True
            break
    return NScalar(BOOL, ENum(int(r), 'b', 1))


@meth
def sum_(it, a, args, kw):
    t = a.dt if a.dt.kind == 'f' else DT('u' if a.dt.kind == 'u' else 'i', 8)
    acc = N(0)
    for e in a.elems(it):
        v = elem_num(it, e, a.dt.kind, a.dt.size)
        if not isinstance(v, Num):
            raise it.unsupported('sum of non-finite elements')
        acc = add(acc, v)
    return NScalar(DT(t.kind, t.size), ENum(acc, t.kind, t.size))


@meth
def mean(it, a, args, kw):
    s = sum_(it, a, args, kw)
    n = len(a.pos)
    if n == 0:
        return NScalar(F64, num_elem(float('nan'), 'f', 8))
    t = DT('f', a.dt.size if a.dt.kind == 'f' else 8)
    r = scale(elem_num(it, s.e, s.dt.kind, s.dt.size), Fraction(1, n))
    return NScalar(t, fl_elem(r, t.size))


def sorted_elems(it, a):
    es = a.elems(it)
    nan = [e for e in es if (nonfinite(e, a.dt) is not None and nonfinite(e, a.dt) != nonfinite(e, a.dt))]
    es = [e for e in es if e not in nan]
    out = []
    for e in es:
        v = elem_num(it, e, a.dt.kind, a.dt.size)
        k = len(out)
        while k > 0 and it.ctx.compare('<', v, elem_num(it, out[k - 1], a.dt.kind, a.dt.size)):
            k -= 1
        out.insert(k, e)
    return out + nan


@meth
def sort(it, a, args, kw):
    for k, e in enumerate(sorted_elems(it, a)):
        a.set_elem(it, k, e)


@meth
def setflags(it, a, args, kw):
    if 'write' in kw:
        NFlags(a).vset(it, 'writeable', kw['write'])


@meth
def put(it, a, args, kw):
    assign_all(it, a.vgetitem(it, args[0]), args[1])


@meth
def round_(it, a, args, kw):
    raise it.unsupported('ndarray.round')


# ------------------------------------------------------------------------------------------------ numpy functions

def f_diff(it, a, kw):
    x = as_arr(it, a[0])
    n = arg(a, kw, 1, 'n', 1)
    if n != 1 or x.ndim != 1:
        if x.ndim == 0:
            raise it.throw('ValueError', 'diff requires input that is at least one dimensional')
        raise it.unsupported('np.diff of this shape')
    es = x.elems(it)
    t = DT(x.dt.kind, x.dt.size)
    if t.kind == 'b':
        raise it.unsupported('diff of booleans')
    return arr_of(it, [elem_op(it, '-', es[k + 1], t, es[k], t, t) for k in range(len(es) - 1)], t,
                  (max(0, len(es) - 1),))


def f_unique(it, a, kw):
    if set(kw) - {'equal_nan'} or len(a) > 1:
        raise it.unsupported('np.unique options')
    x = as_arr(it, a[0])
    out = []
    es = sorted_elems(it, x)
    for e in es:
        if out:
            p, v = (elem_num(it, z, x.dt.kind, x.dt.size) for z in (out[-1], e))
            if isinstance(v, float) and v != v and isinstance(p, float) and p != p:
                continue
            if it.ctx.compare('==', p, v):
                continue
        out.append(e)
    return arr_of(it, out, DT(x.dt.kind, x.dt.size), (len(out),))


def f_sort(it, a, kw):
    x = as_arr(it, a[0])
    return arr_of(it, sorted_elems(it, x), DT(x.dt.kind, x.dt.size), x.shape)


def f_median(it, a, kw):
    x = as_arr(it, a[0])
    n = len(x.pos)
    t = DT('f', x.dt.size if x.dt.kind == 'f' else 8)
    if n == 0:
        return NScalar(t, num_elem(float('nan'), 'f', t.size))
    if set(kw) - {'a'} or len(a) > 1:
        raise it.unsupported('median with options')
    for e in x.elems(it):
        if nonfinite(e, x.dt) is not None:
            if nonfinite(e, x.dt) != nonfinite(e, x.dt):
                return NScalar(t, num_elem(float('nan'), 'f', t.size))
            raise it.unsupported('median of infinite elements')
    s = sorted_elems(it, x)
    val = lambda e: elem_num(it, e, x.dt.kind, x.dt.size)
    r = val(s[n // 2]) if n % 2 else scale(add(val(s[n // 2 - 1]), val(s[n // 2])), Fraction(1, 2))
    return NScalar(t, fl_elem(r, t.size))


def elementwise(fn):
    def f(it, a, kw):
        x = a[0]
        y = as_arr(it, x)
        if y.dt.kind not in 'iufb':
            raise it.throw('TypeError', "ufunc not supported for the input types")
        out = [ENum(int(fn(it, e, y.dt)), 'b', 1) for e in y.elems(it)]
        if not y.shape:
            return NScalar(BOOL, out[0])
        return arr_of(it, out, BOOL, y.shape)
    return f


def _finite(it, e, dt):
    if dt.kind != 'f' or isinstance(e, ENum):
        return True
    if isinstance(e, ELit):
        return nonfinite(e, dt) is None
    code = FLT[dt.size]
    return it.ctx.pred(('finite', e.key()), lambda m: _isfin(struct.unpack('>' + code, m.cell(e))[0]), f'{e!r} finite')


def _isfin(v):
    return v == v and v not in (float('inf'), float('-inf'))


def _nan(it, e, dt):
    if dt.kind != 'f' or isinstance(e, ENum):
        return False
    if isinstance(e, ELit):
        v = nonfinite(e, dt)
        return v is not None and v != v
    code = FLT[dt.size]
    return it.ctx.pred(('nan', e.key()), lambda m: struct.unpack('>' + code, m.cell(e))[0] !=
                       struct.unpack('>' + code, m.cell(e))[0], f'{e!r} is NaN')


def f_abs(it, a, kw):
    x = a[0]
    if isinstance(x, NScalar):
        return x.vabs(it)
    y = as_arr(it, x)
    out = []
    for e in y.elems(it):
        v = elem_num(it, e, y.dt.kind, y.dt.size)
        out.append(e if it.ctx.compare('>=', v, 0) else elem_op(it, '-', ENum(0, y.dt.kind, y.dt.size), y.dt, e, y.dt,
                                                                   DT(y.dt.kind, y.dt.size)))
    if not y.shape:
        return NScalar(DT(y.dt.kind, y.dt.size), out[0])
    return arr_of(it, out, DT(y.dt.kind, y.dt.size), y.shape)


def f_zeros(val):
    def f(it, a, kw):
        sh = a[0] if a else kw.get('shape')
        sh = tuple(conc_int(it, x) for x in it.iterate(sh)) if isinstance(sh, (tuple, VList)) else (conc_int(it, sh),)
        dt = to_dtype(it, arg(a, kw, 1, 'dtype'))
        n = prod(sh)
        if any(s < 0 for s in sh):
            raise it.throw('ValueError', 'negative dimensions are not allowed')
        if n > 4000:
            raise it.unsupported('large array')
        flat = dt.flat()
        cells = []
        for _ in range(n):
            for d in flat:
                if val is None:
                    cells.append((ECell('uninitialised', (len(cells),), d.kind, d.size), d.order))
                elif d.kind == 'f':
                    cells.append((ELit(struct.pack('>' + FLT[d.size], float(val)), 'f', d.size), d.order))
                else:
                    cells.append((ENum(val, d.kind, d.size), d.order))
        r = NArr(Store(cells, name='new'), dt, sh, [k * len(flat) for k in range(n)])
        if it.prim(arg(a, kw, 2, 'order', 'C')) == 'F' and r.ndim > 1:
            return laid_out(it, r, element_order(it, r.shape, r.pos, dt.nbase(), 'F'))
        return r
    return f


def like(fn):
    def f(it, a, kw):
        x = a[0]
        k = {n: v for n, v in kw.items() if n in ('dtype',)}
        if len(a) > 1:
            k['dtype'] = a[1]
        if k.get('dtype') is None:
            k['dtype'] = VDType(x.dt)
        r = fn(it, [tuple(kw.get('shape', None) or x.shape)], k)
        order = kw.get('order', 'K')
        if kw.get('shape') is None and r.ndim > 1:
            r = laid_out(it, r, element_order(it, x.shape, x.pos, x.dt.nbase(), order))
        return r
    return f


def joined(it, xs, ax, t=None):
    """np.concatenate along an axis"""
    if not xs:
        raise it.throw('ValueError', 'need at least one array to concatenate')
    if any(x.ndim == 0 for x in xs):
        raise it.throw('ValueError', 'zero-dimensional arrays cannot be concatenated')
    ax = axis_of(it, ax, xs[0].ndim)
    for x in xs[1:]:
        if x.ndim != xs[0].ndim or x.shape[:ax] + x.shape[ax + 1:] != xs[0].shape[:ax] + xs[0].shape[ax + 1:]:
            raise it.throw('ValueError', 'all the input array dimensions except for the concatenation axis must match '
                                         'exactly')
    d = xs[0].dt
    for x in xs[1:]:
        if x.dt.fields is not None or d.fields is not None:
            if x.dt.key() != d.key():
                raise it.unsupported('concatenate of structured arrays')
            continue
        d = promote(d, x.dt)
    t = t or (d if d.fields is not None else DT(d.kind, d.size))
    nb = t.nbase()
    cs = [x.copy(it, t) for x in xs]
    inner = [prod(x.shape[ax:]) for x in xs]
    cells = []
    for r in range(prod(xs[0].shape[:ax])):
        for c, m in zip(cs, inner):
            cells.extend(c.store.cells[r * m * nb:(r + 1) * m * nb])
    sh = xs[0].shape[:ax] + (sum(x.shape[ax] for x in xs),) + xs[0].shape[ax + 1:]
    return NArr(Store(cells, name='concatenated'), t, sh, [j * nb for j in range(len(cells) // nb)])


def f_concat(it, a, kw):
    xs = [as_arr(it, x) for x in it.iterate(a[0])]
    if set(kw) - {'axis', 'dtype'}:
        raise it.unsupported('options of concatenate')
    ax = arg(a, kw, 1, 'axis', 0)
    t = to_dtype(it, kw['dtype']) if kw.get('dtype') is not None else None
    if ax is None:
        xs, ax = [ARR_METHODS['ravel'](it, x, [], {}) for x in xs], 0
    return joined(it, xs, ax, t)


def f_issubdtype(it, a, kw):
    def cls(x):
        if isinstance(x, VDType):
            return it.np_scalar_cls(x.dt)
        if isinstance(x, VClass) and it.np_cls['generic'] in x.mro:
            return x
        return it.np_scalar_cls(to_dtype(it, x))
    return cls(a[0]).issub(cls(a[1]))


def f_arange(it, a, kw):
    v = [it.prim(x) for x in a]
    if any(isinstance(x, Num) for x in v):
        raise it.unsupported('arange of unknowns')
    lo, hi, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
    t = to_dtype(it, kw['dtype']) if 'dtype' in kw else (F64 if any(isinstance(x, float) for x in v) else I64)
    n = max(0, -int(-((hi - lo) / st) // 1))
    return arr_of(it, [num_elem(lo + k * st, t.kind, t.size) for k in range(n)], t, (n,))


# ------------------------------------------------------------------------------------------------ more functions

def result(it, r, args, kw, n):
    """the result of a universal function of n operands, stored in `out` if it is given"""
    out = args[n] if len(args) > n else kw.get('out')
    if kw.get('where', True) is not True:
        raise it.unsupported('ufunc with where=')
    if isinstance(out, tuple) and out:
        out = out[0]
    d = kw.get('dtype')
    if d is not None:
        r = as_arr(it, r).copy(it, to_dtype(it, d))
        r = r if r.shape else r.scalar(it, 0)
    if out is None:
        return r
    if not isinstance(out, NArr):
        raise it.throw('TypeError', 'return arrays must be of ArrayType')
    rd = r.dt
    if rd.kind == 'f' and out.dt.kind in 'iub' or rd.kind == 'i' and out.dt.kind in 'ub' or \
            rd.kind == 'u' and out.dt.kind == 'b':
        raise it.throw('TypeError', f"Cannot cast ufunc output from dtype('{rd.name()}') to dtype('{out.dt.name()}') "
                                    f"with casting rule 'same_kind'")
    assign_all(it, out, r)
    return out


def ufunc(sym):
    return lambda it, a, kw: result(it, ufunc2(it, sym, a[0], a[1]), a, kw, 2)


def unary(fn):
    """fn(it, element, dtype) -> element of the same dtype"""
    def f(it, a, kw):
        x = a[0]
        y = as_arr(it, x)
        if y.dt.kind not in 'iufb':
            raise it.throw('TypeError', 'ufunc not supported for the input types')
        d = DT(y.dt.kind, y.dt.size)
        out = [fn(it, e, d) for e in y.elems(it)]
        r = arr_of(it, out, d, y.shape)
        return result(it, r if y.shape else r.scalar(it, 0), a, kw, 1)
    return f


def _neg(it, e, d):
    if d.kind == 'b':
        raise it.throw('TypeError', 'The numpy boolean negative, the `-` operator, is not supported')
    if d.kind == 'f':
        return elem_op(it, '*', e, d, ENum(-1, 'f', d.size), d, d)
    return elem_op(it, '-', ENum(0, d.kind, d.size), d, e, d, d)


def _sign(it, e, d):
    if _nan(it, e, d):
        return e
    v = elem_num(it, e, d.kind, d.size)
    if it.ctx.branch('==', v):
        return num_elem(0, d.kind, d.size)
    return num_elem(1 if it.ctx.branch('>', v) else -1, d.kind, d.size)


def _rounded(how):
    def f(it, e, d):
        if d.kind != 'f' or not _finite(it, e, d):
            return e
        v = elem_num(it, e, d.kind, d.size)
        if not v.const:
            raise it.unsupported('rounding of unknown elements')
        return num_elem(float(how(v.c)), d.kind, d.size)
    return f


def pick(which):
    def f(it, a, kw):
        x, y = as_arr(it, a[0]), as_arr(it, a[1])
        t = ufunc_type(it, a[0], a[1])
        sh = x.shape if len(x.shape) >= len(y.shape) and prod(x.shape) >= prod(y.shape) else y.shape
        ex, ey = x.elems(it), y.elems(it)
        out = []
        for i, j in zip(broadcast_pos(it, x.shape, sh), broadcast_pos(it, y.shape, sh)):
            p = cast_elem(it, ex[i], x.dt.kind, x.dt.size, t.kind, t.size)
            q = cast_elem(it, ey[j], y.dt.kind, y.dt.size, t.kind, t.size)
            if _nan(it, p, t):
                out.append(p)
            elif _nan(it, q, t):
                out.append(q)
            else:
                vp, vq = elem_num(it, p, t.kind, t.size), elem_num(it, q, t.kind, t.size)
                out.append(p if it.ctx.compare('<=' if which == 'min' else '>=', vp, vq) else q)
        r = arr_of(it, out, t, sh)
        return result(it, r if sh else r.scalar(it, 0), a, kw, 2)
    return f


def ufunc_type(it, a, b):
    def info(x):
        if isinstance(x, (NScalar, NArr)):
            return x.dt, False
        if isinstance(x, (VList, tuple)):
            return as_arr(it, x).dt, False
        d = py_dt(it, x)
        if d is None:
            raise it.unsupported('operand of a universal function')
        return d, True
    (da, wa), (db, wb) = info(a), info(b)
    t = pyweak(it, db, a) if wa and not wb else pyweak(it, da, b) if wb and not wa else promote(da, db)
    return DT(t.kind, t.size)


def f_clip(it, a, kw):
    x = a[0]
    lo, hi = arg(a, kw, 1, 'a_min', kw.get('min')), arg(a, kw, 2, 'a_max', kw.get('max'))
    r = x
    if lo is not None:
        r = pick('max')(it, [r, lo], {})
    if hi is not None:
        r = pick('min')(it, [r, hi], {})
    return result(it, r, a, kw, 3)


def f_nan_to_num(it, a, kw):
    x = as_arr(it, a[0])
    cp = arg(a, kw, 1, 'copy', True)
    t = x.copy(it) if it.truth(cp) or x is not a[0] else x
    if t.dt.kind == 'f':
        big = {2: 65504.0, 4: 3.4028234663852886e38, 8: 1.7976931348623157e308}[t.dt.size]
        for k, e in enumerate(t.elems(it)):
            if _nan(it, e, t.dt):
                t.set_elem(it, k, num_elem(conc_num(it, kw.get('nan', 0.0)), 'f', t.dt.size))
            elif not _finite(it, e, t.dt):
                if not isinstance(e, ELit):
                    raise it.unsupported('sign of an unknown infinity')
                s = 'posinf' if nonfinite(e, t.dt) > 0 else 'neginf'
                v = kw.get(s)
                t.set_elem(it, k, num_elem(conc_num(it, v) if v is not None else (big if s == 'posinf' else -big),
                                           'f', t.dt.size))
    return t if t.shape else t.scalar(it, 0)


def conc_num(it, v):
    v = it.prim(v)
    return v


def f_where(it, a, kw):
    c = as_arr(it, a[0])
    if len(a) < 3:
        if c.ndim != 1:
            raise it.unsupported('where with one argument')
        hit = [k for k in range(len(c.pos)) if it.truth(c.scalar(it, k))]
        return (arr_of(it, [ENum(k, 'i', 8) for k in hit], I64, (len(hit),)),)
    x, y = as_arr(it, a[1]), as_arr(it, a[2])
    t = ufunc_type(it, a[1], a[2])
    sh = max((c.shape, x.shape, y.shape), key=lambda s: (len(s), prod(s)))
    ex, ey = x.elems(it), y.elems(it)
    out = []
    for h, i, j in zip(*[broadcast_pos(it, z.shape, sh) for z in (c, x, y)]):
        z, e = (x, ex[i]) if it.truth(c.view((), [c.pos[h]]).scalar(it, 0)) else (y, ey[j])
        out.append(cast_elem(it, e, z.dt.kind, z.dt.size, t.kind, t.size))
    return arr_of(it, out, t, sh)


def f_square(it, a, kw):
    return result(it, ufunc2(it, '*', a[0], a[0]), a, kw, 1)


def f_argsort(it, a, kw):
    x = as_arr(it, a[0])
    if x.ndim != 1:
        raise it.unsupported('argsort of this shape')
    es = x.elems(it)
    num = lambda k: elem_num(it, es[k], x.dt.kind, x.dt.size)
    out = []
    for k, e in enumerate(es):
        if nonfinite(e, x.dt) is not None:
            raise it.unsupported('argsort of non-finite elements')
        j = len(out)
        while j > 0 and it.ctx.compare('<', num(k), num(out[j - 1])):
            j -= 1
        out.insert(j, k)
    return arr_of(it, [ENum(k, 'i', 8) for k in out], I64, (len(out),))


def f_take(it, a, kw):
    if len(a) > 3 or set(kw) - {'axis'}:
        raise it.unsupported('take with options')
    x = as_arr(it, a[0])
    axis = arg(a, kw, 2, 'axis')
    if axis is None:
        x, axis = ARR_METHODS['ravel'](it, x, [], {}), 0
    axis = axis % x.ndim
    return x.vgetitem(it, (slice(None, None, None),) * axis + (a[1],)) if axis else x.vgetitem(it, a[1])


def f_fromiter(it, a, kw):
    d = to_dtype(it, arg(a, kw, 1, 'dtype'))
    return as_arr(it, VList(list(it.iterate(a[0]))), d, True)


def f_broadcast_to(it, a, kw):
    x = as_arr(it, a[0])
    sh = arg(a, kw, 1, 'shape')
    sh = (sh,) if isinstance(sh, int) else tuple(it.iterate(sh))
    return x.view(sh, [x.pos[k] for k in broadcast_pos(it, x.shape, sh)])


def f_isin(it, a, kw):
    if kw or len(a) > 2:
        raise it.unsupported('isin with options')
    x, y = as_arr(it, a[0]), as_arr(it, a[1])
    t = ufunc_type(it, x, y)
    ys = [elem_num(it, cast_elem(it, e, y.dt.kind, y.dt.size, t.kind, t.size), t.kind, t.size) for e in y.elems(it)]
    out = []
    for e in x.elems(it):
        v = elem_num(it, cast_elem(it, e, x.dt.kind, x.dt.size, t.kind, t.size), t.kind, t.size)
        out.append(ENum(int(any(it.ctx.compare('==', v, w) for w in ys)), 'b', 1))
    r = arr_of(it, out, DT('b', 1), x.shape)
    return r if x.shape else r.scalar(it, 0)


def f_roll(it, a, kw):
    x = as_arr(it, a[0])
    n = arg(a, kw, 1, 'shift')
    axis = arg(a, kw, 2, 'axis')
    if not isinstance(n, int) or (axis not in (None, 0)) or x.ndim > 1 and axis is None:
        raise it.unsupported('roll of this kind')
    m = x.shape[0] if x.shape else 1
    return x.vgetitem(it, VList([(k - n) % m for k in range(m)])) if m else x.copy(it)


def f_array_split(even):
    def f(it, a, kw):
        x = as_arr(it, a[0])
        n = arg(a, kw, 1, 'indices_or_sections')
        if arg(a, kw, 2, 'axis', 0) not in (0,) or isinstance(n, Num):
            raise it.unsupported('split of this kind')
        rows = x.shape[0]
        if isinstance(n, int):
            if n <= 0:
                raise it.throw('ValueError', 'number sections must be larger than 0.')
            if even and rows % n:
                raise it.throw('ValueError', 'array split does not result in an equal division')
            q, r = divmod(rows, n)
            cuts = [k * q + min(k, r) for k in range(1, n)]
        else:
            cuts = [it.as_index(v) for v in it.iterate(n)]
        edges = [0] + cuts + [rows]
        return VList([x.vgetitem(it, slice(u, v, None)) for u, v in zip(edges, edges[1:])])
    return f


def f_full(it, a, kw):
    v = arg(a, kw, 1, 'fill_value')
    dt = arg(a, kw, 2, 'dtype')
    r = f_zeros(0)(it, [a[0] if a else kw['shape']],
                   {'dtype': dt if dt is not None else VDType(as_arr(it, v).dt)})
    assign_all(it, r, v)
    return r


def f_full_like(it, a, kw):
    k = dict(kw)
    k.setdefault('dtype', VDType(a[0].dt))
    return f_full(it, [tuple(a[0].shape), arg(a, kw, 1, 'fill_value')], {'dtype': k['dtype']})


def f_flip(it, a, kw):
    ax = arg(a, kw, 1, 'axis')
    if a[0].ndim > 1 and ax is None:
        raise it.unsupported('flip of several axes')
    sl = slice(None, None, -1)
    return a[0].vgetitem(it, sl if ax in (None, 0) else (slice(None), sl))


def f_close(every):
    def f(it, a, kw):
        rtol, atol = arg(a, kw, 2, 'rtol', 1e-05), arg(a, kw, 3, 'atol', 1e-08)
        x, y = as_arr(it, a[0]), as_arr(it, a[1])
        sh = x.shape if len(x.shape) >= len(y.shape) and prod(x.shape) >= prod(y.shape) else y.shape
        ex, ey = x.elems(it), y.elems(it)
        out = []
        c = it.ctx
        for i, j in zip(broadcast_pos(it, x.shape, sh), broadcast_pos(it, y.shape, sh)):
            p, q = ex[i], ey[j]
            if _nan(it, p, x.dt) or _nan(it, q, y.dt):
                out.append(kw.get('equal_nan', False) is True and _nan(it, p, x.dt) and _nan(it, q, y.dt))
                continue
            if not _finite(it, p, x.dt) or not _finite(it, q, y.dt):
                out.append(p.key() == q.key())
                continue
            vp, vq = elem_num(it, p, x.dt.kind, x.dt.size), elem_num(it, q, y.dt.kind, y.dt.size)
            aq = vq if c.compare('>=', vq, 0) else mul(vq, N(-1))
            bound = add(N(it.prim(atol)), mul(N(it.prim(rtol)), N(aq)))
            d = sub(vp, vq)
            out.append(bool(c.compare('<=', d, bound) and c.compare('>=', d, mul(bound, N(-1)))))
            if every and not out[-1]:
                return False
        if every:
            return all(out)
        r = arr_of(it, [ENum(int(v), 'b', 1) for v in out], BOOL, sh)
        return r if sh else r.scalar(it, 0)
    return f


def f_stack(kind):
    def f(it, a, kw):
        xs = [as_arr(it, x) for x in it.iterate(a[0])]
        if set(kw) - {'axis'}:
            raise it.unsupported('options of stack')
        if kind == 'stack':
            if len({x.shape for x in xs}) > 1:
                raise it.throw('ValueError', 'all input arrays must have the same shape')
            ax = arg(a, kw, 1, 'axis', 0)
            xs = [f_expand_dims(it, [x, ax], {}) for x in xs]
            return joined(it, xs, ax)
        if kind == 'vstack':
            return joined(it, [x if x.ndim > 1 else x.view((1, len(x.pos)), x.pos) for x in xs], 0)
        if kind == 'hstack':
            xs = [x if x.ndim else x.view((1,), x.pos) for x in xs]
            return joined(it, xs, 0 if xs and xs[0].ndim == 1 else 1)
        return joined(it, [x if x.ndim > 1 else x.view((len(x.pos), 1), x.pos) for x in xs], 1)
    return f


def f_shares(it, a, kw):
    x, y = a[0], a[1]
    if not (isinstance(x, NArr) and isinstance(y, NArr)) or x.store is not y.store:
        return False
    def span(z):
        k = z.dt.nbase()
        return {p + j for p in z.pos for j in range(k)}
    return bool(span(x) & span(y))


def f_count_nonzero(it, a, kw):
    x = as_arr(it, a[0])
    return sum(1 for k in range(len(x.pos)) if it.truth(x.view((), [x.pos[k]]).scalar(it, 0)))


def f_logical(op):
    def f(it, a, kw):
        x = as_arr(it, a[0])
        t = lambda z: [it.truth(z.view((), [p]).scalar(it, 0)) for p in z.pos]
        if op == 'not':
            out, sh, n = [not v for v in t(x)], x.shape, 1
        else:
            y = as_arr(it, a[1])
            sh = x.shape if len(x.shape) >= len(y.shape) and prod(x.shape) >= prod(y.shape) else y.shape
            tx, ty = t(x), t(y)
            g = {'and': lambda p, q: p and q, 'or': lambda p, q: p or q, 'xor': lambda p, q: p != q}[op]
            out = [g(tx[i], ty[j]) for i, j in zip(broadcast_pos(it, x.shape, sh), broadcast_pos(it, y.shape, sh))]
            n = 2
        r = arr_of(it, [ENum(int(v), 'b', 1) for v in out], BOOL, sh)
        return result(it, r if sh else r.scalar(it, 0), a, kw, n)
    return f


def f_cumsum(it, a, kw):
    x = as_arr(it, a[0])
    d = kw.get('dtype')
    t = to_dtype(it, d) if d is not None else (x.dt if x.dt.kind == 'f' else DT('u' if x.dt.kind == 'u' else 'i', 8))
    t = DT(t.kind, t.size)
    out = []
    for e in x.elems(it):
        e = cast_elem(it, e, x.dt.kind, x.dt.size, t.kind, t.size)
        out.append(e if not out else elem_op(it, '+', out[-1], t, e, t, t))
    return result(it, arr_of(it, out, t, (len(out),)), a, {k: v for k, v in kw.items() if k == 'out'}, 3)


def f_result_type(it, a, kw):
    t = None
    for x in a:
        if isinstance(x, (NArr, NScalar)):
            d = x.dt
        else:
            d = py_dt(it, x) if not isinstance(x, (VDType, VClass, str)) else to_dtype(it, x)
        if d is None:
            raise it.unsupported('result_type')
        t = d if t is None else promote(t, d)
    return VDType(t)


def f_can_cast(it, a, kw):
    x, y = (z.dt if isinstance(z, (NArr, NScalar)) else to_dtype(it, z) for z in a[:2])
    how = it.prim(arg(a, kw, 2, 'casting', 'safe'))
    if how == 'unsafe':
        return True
    if how in ('no', 'equiv'):
        return x == y if how == 'no' else (x.kind, x.size) == (y.kind, y.size)
    if how == 'same_kind' and (x.kind == y.kind or 'biuf'.index(x.kind) <= 'biuf'.index(y.kind) and
                               (x.kind, y.kind) != ('i', 'u')):
        return True
    p = promote(x, y)
    return (p.kind, p.size) == (y.kind, y.size)


class VFInfo(VExt):
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def vget(self, it, name):
        big = {2: 65504.0, 4: 3.4028234663852886e38, 8: 1.7976931348623157e308}[self.d.size]
        eps = {2: 2.0 ** -10, 4: 2.0 ** -23, 8: 2.0 ** -52}[self.d.size]
        tiny = {2: 2.0 ** -14, 4: 2.0 ** -126, 8: 2.0 ** -1022}[self.d.size]
        v = {'max': big, 'min': -big, 'eps': eps, 'tiny': tiny, 'smallest_normal': tiny}.get(name)
        if v is not None:
            return NScalar(self.d, num_elem(v, 'f', self.d.size))
        if name == 'bits':
            return 8 * self.d.size
        return MISSING


def m_ptp(it, a, args, kw):
    return ufunc2(it, '-', ARR_METHODS['max'](it, a, args, kw), ARR_METHODS['min'](it, a, args, kw))


ARR_METHODS['ptp'] = along_axis(m_ptp)
for _n in ('all', 'any', 'sum', 'mean', 'prod'):
    ARR_METHODS[_n] = along_axis(ARR_METHODS[_n])
ARR_METHODS['clip'] = lambda it, a, args, kw: f_clip(it, [a] + list(args), kw)
ARR_METHODS['cumsum'] = lambda it, a, args, kw: f_cumsum(it, [a] + list(args), kw)
ARR_METHODS['nonzero'] = lambda it, a, args, kw: f_where(it, [a], {})


class VIInfo(VExt):
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def vget(self, it, name):
        if name in ('min', 'max'):
            return rng(self.d.kind, self.d.size)[name == 'max']
        if name == 'bits':
            return 8 * self.d.size
        return MISSING


class H5File(VExt):
    """an HDF5 file opened by the program"""
    __slots__ = ('path', 'sets', 'mode', 'closed')

    def __init__(self, path, sets, mode):
        self.path, self.sets, self.mode = path, sets, mode
        self.closed = False

    def vtype(self, it):
        return it.np_cls['File']

    def find(self, it, k):
        k = it.prim(k)
        if isinstance(k, str):
            k = '/' + k.lstrip('/')
            return self.sets.get(k)
        for n, d in self.sets.items():
            if it.eq(k, n) or it.eq(k, n[1:]):
                return d
        return None

    def vgetitem(self, it, k):
        if self.closed:
            raise it.throw('ValueError', 'Invalid location identifier (file closed)')
        d = self.find(it, k)
        if d is None:
            raise it.throw('KeyError', f'Unable to open object (object {k!r} does not exist)')
        return d

    def vsetitem(self, it, k, v):
        if self.mode == 'r':
            raise it.throw('ValueError', 'Unable to synchronously create dataset (no write intent on file)')
        it.events.append(('h5-write', self.path, it.where()))

    def vdelitem(self, it, k):
        if self.mode == 'r':
            raise it.throw('KeyError', "Couldn't delete link (no write intent on file)")
        it.events.append(('h5-write', self.path, it.where()))

    def vcontains(self, it, k):
        return self.find(it, k) is not None

    def viter(self, it):
        return iter([k[1:] for k in self.sets])

    def vget(self, it, name):
        if name == 'close':
            def close(i, a, k):
                self.closed = True
            return VNative('close', close)
        if name == 'filename':
            return self.path
        if name == 'mode':
            return self.mode
        if name == 'keys':
            return VNative('keys', lambda i, a, k: VList([x[1:] for x in self.sets]))
        if name in ('create_dataset', 'require_dataset', 'create_group', 'require_group', 'move', 'copy'):
            def change(i, a, k):
                if self.mode == 'r':
                    raise i.throw('ValueError', f'Unable to {name} (no write intent on file)')
                i.events.append(('h5-write', self.path, i.where()))
                raise i.unsupported(f'h5py.File.{name}')
            return VNative(name, change)
        if name == 'flush':
            return VNative(name, lambda i, a, k: None)
        if name == 'get':
            return VNative('get', lambda i, a, k: self.find(i, a[0]) or (a[1] if len(a) > 1 else None))
        if name.startswith('__'):
            return MISSING
        raise it.unsupported(f'h5py.File.{name}')

    def venter(self, it):
        return self

    def vexit(self, it, e):
        self.closed = True
        return False

    def vtruth(self, it):
        return not self.closed

    def vstr(self, it):
        return VLazyStr([(self, '', '')])


def install(it, mod, nat):
    obj = it.builtins['object']
    it.np_cls = C = {}

    def cls(name, bases=('generic',), construct=None, pub=None):
        c = VClass(pub or ('np.' + name), tuple(C[b] if isinstance(b, str) else b for b in bases), builtin=True,
                   construct=construct)
        c.ns['__name__'] = name
        C[name] = c
        return c
    cls('generic', (obj,))
    cls('number')
    cls('integer', ('number',))
    cls('signedinteger', ('integer',))
    cls('unsignedinteger', ('integer',))
    cls('inexact', ('number',))
    cls('floating', ('inexact',))
    cls('complexfloating', ('inexact',))
    cls('flexible')
    cls('void', ('flexible',))
    cls('character', ('flexible',))
    cls('str_', ('character', it.builtins['str']))
    cls('bytes_', ('character', it.builtins['bytes']))
    cls('object_')
    cls('datetime64')
    cls('timedelta64', ('signedinteger',))
    it.np_dtypes = {}

    def ctor(dt):
        def con(i, c, a, k):
            v = a[0] if a else 0
            v = i.prim(v) if isinstance(v, VObj) else v
            if kind_of(v):
                v = i.call(i.builtins['float' if dt.kind == 'f' else 'int'], [v])
            if isinstance(v, NScalar):
                return NScalar(dt, cast_elem(i, v.e, v.dt.kind, v.dt.size, dt.kind, dt.size))
            if isinstance(v, NArr):
                return v.copy(i, dt)
            if isinstance(v, bool):
                v = int(v)
            if not isinstance(v, (int, float, Num)):
                raise i.throw('TypeError', 'cannot convert to a numpy scalar')
            if dt.kind == 'b':
                return NScalar(dt, ENum(int(i.truth(v)), 'b', 1))
            if dt.kind in 'iu':
                if isinstance(v, float):
                    v = native_int(i, v)
                if isinstance(v, Num) and v.isfloat:
                    v = i.ctx.trunc(v)
                lo, hi = rng(dt.kind, dt.size)
                if not (i.ctx_compare('>=', v, lo) and i.ctx_compare('<=', v, hi)):
                    raise i.throw('OverflowError', f'Python integer out of bounds for {dt.name()}')
                return NScalar(dt, ENum(v, dt.kind, dt.size))
            if dt.kind == 'f':
                if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
                    return NScalar(dt, num_elem(v, 'f', dt.size))
                n = N(v)
                if dt.size < 8:
                    if n.const:
                        try:
                            f = struct.unpack('>' + FLT[dt.size], struct.pack('>' + FLT[dt.size], float(n.c)))[0]
                        except OverflowError:
                            f = float('inf') if n.c > 0 else float('-inf')
                        return NScalar(dt, num_elem(f, 'f', dt.size))
                    return NScalar(dt, EOp('float32', (ENum(n, 'f', 8),), 'f', dt.size,
                                           lambda b: cast_bytes(b, 'f', 8, 'f', dt.size)))
                return NScalar(dt, ENum(Num(n.t, n.c, True), 'f', 8))
            raise i.unsupported('numpy scalar')
        return con
    for (k, z), n in NAMES.items():
        base = {'i': 'signedinteger', 'u': 'unsignedinteger', 'f': 'floating', 'c': 'complexfloating',
                'b': 'generic'}[k]
        bases = (base,)
        if n == 'float64':
            bases = (base, it.builtins['float'])
        dt = DT(k, z)
        c = cls(n, bases, ctor(dt))
        it.np_dtypes[c] = dt
    for n, d in (('str_', DT('U', 8)), ('bytes_', DT('S', 8)), ('object_', DT('O', 8)), ('datetime64', DT('M', 8)),
                 ('timedelta64', DT('m', 8))):
        it.np_dtypes[C[n]] = d

    def scalar_cls(d):
        if d.fields is not None or d.sub is not None:
            return C['void']
        if d.kind == 'U':
            return C['str_']
        if d.kind == 'S':
            return C['bytes_']
        if d.kind == 'O':
            return C['object_']
        if d.kind == 'M':
            return C['datetime64']
        if d.kind == 'm':
            return C['timedelta64']
        return C[NAMES[(d.kind, d.size)]]
    it.np_scalar_cls = scalar_cls
    dtc = VClass('np.dtype', (obj,), builtin=True,
                 construct=lambda i, c, a, k: VDType(to_dtype(i, a[0] if a else k.get('dtype'))))
    dtc.ns['__name__'] = 'dtype'
    C['dtype'] = dtc
    nda = VClass('np.ndarray', (obj,), builtin=True)
    nda.ns['__name__'] = 'ndarray'
    C['ndarray'] = nda
    C['Dataset'] = VClass('Dataset', (obj,), builtin=True)
    nda.ns['__class_getitem__'] = VNative('cgi', lambda i, a, k: VOpaque('ndarray[...]'))
    dtc.ns['__class_getitem__'] = VNative('cgi', lambda i, a, k: VOpaque('dtype[...]'))

    def h5open(i, c, a, k):
        from .libs import fspath
        path = i.prim(fspath(i, a[0]))
        mode = i.prim(a[1] if len(a) > 1 else k.get('mode', 'r'))
        if mode != 'r':
            i.events.append(('h5-mode', path, mode, i.where()))
        files = getattr(i, 'h5files', {})
        for p, sets in files.items():
            if i.eq(path, p):
                f = H5File(p, sets, mode)
                for d in sets.values():
                    d.h5 = True if mode == 'r' else 'rw'
                i.events.append(('h5-open', f))
                return f
        raise i.throw('FileNotFoundError', f'Unable to open file {path!r}')
    C['File'] = VClass('File', (obj,), builtin=True, construct=h5open)

    def f_array(copy):
        def f(i, a, k):
            d = arg(a, k, 1, 'dtype')
            cp = copy
            if 'copy' in k:
                cp = k['copy'] is not None and k['copy'] is not False and i.truth(k['copy'])
            if set(k) - {'dtype', 'copy', 'order'}:
                raise i.unsupported('np.array options')
            x = a[0] if a else k.get('object', k.get('a'))
            r = as_arr(i, x, to_dtype(i, d) if d is not None else None, cp)
            order = arg(a, k, 2, 'order', 'K') if not copy or 'order' in k else 'K'
            if r is x:
                return with_order(i, r, order)
            if isinstance(x, NArr) and r.dt.fields is None:
                order = element_order(i, x.shape, x.pos, x.dt.nbase(), 'K' if order is None else order)
                return laid_out(i, r, order)
            return with_order(i, r, order)
        return f

    def rand(i, a, k):
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        i.events.append(('random', i.where()))
        return i.ctx.fresh('randint', lo, simp(sub(hi, 1)))

    def red(name):
        return nat(name, lambda i, a, k: ARR_METHODS[name](i, as_arr(i, a[0]), list(a[1:]), k))

    ns = dict(
        ndarray=nda, dtype=dtc, array=nat('array', f_array(True)), asarray=nat('asarray', f_array(False)),
        ascontiguousarray=nat('ascontiguousarray', lambda i, a, k: (lambda x: x if x.shape else x.view((1,), x.pos))(
            f_array(False)(i, a, dict(k, order='C')))), asanyarray=nat('asanyarray', f_array(False)),
        zeros=nat('zeros', f_zeros(0)), ones=nat('ones', f_zeros(1)), empty=nat('empty', f_zeros(None)),
        zeros_like=nat('zeros_like', like(f_zeros(0))), empty_like=nat('empty_like', like(f_zeros(None))),
        diff=nat('diff', f_diff), unique=nat('unique', f_unique), median=nat('median', f_median),
        sort=nat('sort', f_sort), isfinite=nat('isfinite', elementwise(_finite)),
        isnan=nat('isnan', elementwise(_nan)),
        isinf=nat('isinf', elementwise(lambda i, e, d: not _finite(i, e, d) and not _nan(i, e, d))),
        issubdtype=nat('issubdtype', f_issubdtype), concatenate=nat('concatenate', f_concat),
        abs=nat('abs', lambda i, a, k: result(i, f_abs(i, a, {}), a, k, 1)),
        absolute=nat('absolute', lambda i, a, k: result(i, f_abs(i, a, {}), a, k, 1)), arange=nat('arange', f_arange),
        iinfo=nat('iinfo', lambda i, a, k: VIInfo(to_dtype(i, a[0]) if not isinstance(a[0], NScalar) else a[0].dt)),
        ndim=nat('ndim', lambda i, a, k: as_arr(i, a[0]).ndim), shape=nat('shape', lambda i, a, k: as_arr(i, a[0]).shape),
        size=nat('size', lambda i, a, k: as_arr(i, a[0]).size()),
        isscalar=nat('isscalar', lambda i, a, k: not isinstance(a[0], (NArr, VList, tuple, VDict))),
        copy=nat('copy', lambda i, a, k: ARR_METHODS['copy'](i, as_arr(i, a[0]), [], {'order': arg(a, k, 1, 'order', 'K')})),
        moveaxis=nat('moveaxis', f_moveaxis), expand_dims=nat('expand_dims', f_expand_dims),
        asfortranarray=nat('asfortranarray', lambda i, a, k: f_array(False)(i, a, dict(k, order='F'))),
        copyto=nat('copyto', lambda i, a, k: assign_all(i, a[0], a[1])),
        ravel=red('ravel'), reshape=nat('reshape', lambda i, a, k: ARR_METHODS['reshape'](i, as_arr(i, a[0]), a[1:], k)),
        array_equal=nat('array_equal', lambda i, a, k: f_array_equal(i, a[0], a[1])),
        atleast_1d=nat('atleast_1d', lambda i, a, k: (lambda x: x if x.shape else x.view((1,), x.pos))(as_arr(i, a[0]))),
        nan=float('nan'), inf=float('inf'), newaxis=None, pi=3.141592653589793, isclose=nat('isclose', f_close(False)),
        allclose=nat('allclose', f_close(True)),
        frombuffer=nat('frombuffer', lambda i, a, k: (_ for _ in ()).throw(i.unsupported('frombuffer'))),
        negative=nat('negative', unary(_neg)), sign=nat('sign', unary(_sign)), positive=nat('positive', unary(
            lambda i, e, d: e)),
        floor=nat('floor', unary(_rounded(math.floor))), ceil=nat('ceil', unary(_rounded(math.ceil))),
        trunc=nat('trunc', unary(_rounded(int))), rint=nat('rint', unary(_rounded(round))),
        minimum=nat('minimum', pick('min')), maximum=nat('maximum', pick('max')), clip=nat('clip', f_clip),
        nan_to_num=nat('nan_to_num', f_nan_to_num), where=nat('where', f_where), full=nat('full', f_full),
        nonzero=nat('nonzero', lambda i, a, k: f_where(i, [a[0]], {})),
        full_like=nat('full_like', f_full_like), ones_like=nat('ones_like', like(f_zeros(1))),
        flip=nat('flip', f_flip), flipud=nat('flipud', f_flip), stack=nat('stack', f_stack('stack')),
        vstack=nat('vstack', f_stack('vstack')), hstack=nat('hstack', f_stack('hstack')),
        column_stack=nat('column_stack', f_stack('column_stack')),
        may_share_memory=nat('may_share_memory', f_shares), shares_memory=nat('shares_memory', f_shares),
        count_nonzero=nat('count_nonzero', f_count_nonzero), cumsum=nat('cumsum', f_cumsum),
        logical_and=nat('logical_and', f_logical('and')), logical_or=nat('logical_or', f_logical('or')),
        logical_xor=nat('logical_xor', f_logical('xor')), logical_not=nat('logical_not', f_logical('not')),
        result_type=nat('result_type', f_result_type), can_cast=nat('can_cast', f_can_cast),
        promote_types=nat('promote_types', f_result_type),
        require=nat('require', lambda i, a, k: as_arr(i, a[0], to_dtype(i, arg(a, k, 1, 'dtype'))
                                                      if arg(a, k, 1, 'dtype') is not None else None)),
        finfo=nat('finfo', lambda i, a, k: VFInfo(a[0].dt if isinstance(a[0], (NScalar, NArr)) else to_dtype(i, a[0]))),
        ptp=nat('ptp', lambda i, a, k: m_ptp(i, as_arr(i, a[0]), list(a[1:]), k)),
        put=nat('put', lambda i, a, k: ARR_METHODS['put'](i, a[0], list(a[1:]), k)),
        putmask=nat('putmask', lambda i, a, k: a[0].vsetitem(i, a[1], a[2])),
        transpose=nat('transpose', lambda i, a, k: ARR_METHODS['transpose'](i, as_arr(i, a[0]), list(a[1:]), k)),
        squeeze=nat('squeeze', lambda i, a, k: ARR_METHODS['squeeze'](i, as_arr(i, a[0]), [], {})),
        __version__='2.0.0', square=nat('square', f_square), argsort=nat('argsort', f_argsort),
        flatnonzero=nat('flatnonzero', lambda i, a, k: f_where(i, [ARR_METHODS['ravel'](i, as_arr(i, a[0]), [], {})], {})[0]),
        ediff1d=nat('ediff1d', lambda i, a, k: f_diff(i, [ARR_METHODS['ravel'](i, as_arr(i, a[0]), [], {})], {}) if not k and
                    len(a) == 1 else (_ for _ in ()).throw(i.unsupported('ediff1d with options'))),
        take=nat('take', f_take), fromiter=nat('fromiter', f_fromiter), broadcast_to=nat('broadcast_to', f_broadcast_to),
        isin=nat('isin', f_isin), roll=nat('roll', f_roll), array_split=nat('array_split', f_array_split(False)),
        split=nat('split', f_array_split(True)),
        errstate=nat('errstate', lambda i, a, k: i.null_cm(None)), seterr=nat('seterr', lambda i, a, k: VDict()),
        atleast_2d=nat('atleast_2d', lambda i, a, k: (lambda x: x if x.ndim > 1 else x.view(
            (1,) + (x.shape or (1,)), x.pos))(as_arr(i, a[0]))),
        ndindex=nat('ndindex', lambda i, a, k: VList(list(__import__('itertools').product(
            *[range(n) for n in (a[0] if len(a) == 1 and isinstance(a[0], tuple) else a)])))),
    )
    for n in ('min', 'max', 'all', 'any', 'sum', 'mean', 'argmin', 'argmax', 'prod', 'swapaxes', 'repeat'):
        ns[n] = red(n)
    ns['amin'], ns['amax'] = ns['min'], ns['max']
    for op, sym in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('equal', '=='),
                    ('less', '<'), ('greater', '>'), ('less_equal', '<='), ('greater_equal', '>='),
                    ('not_equal', '!='), ('floor_divide', '//'), ('remainder', '%'), ('mod', '%'), ('power', '**'),
                    ('true_divide', '/'), ('bitwise_and', '&'), ('bitwise_or', '|'), ('bitwise_xor', '^')):
        ns[op] = nat(op, ufunc(sym))
    for n, c in C.items():
        if n not in ('File', 'Dataset'):
            ns.setdefault(n, c)
    ns['bool_'] = C['bool']
    ns['intp'] = ns['int_'] = C['int64']
    ns['float_'] = ns['double'] = C['float64']
    ns['single'] = C['float32']
    for n, c in (('byte', 'int8'), ('short', 'int16'), ('intc', 'int32'), ('longlong', 'int64'), ('ubyte', 'uint8'),
                 ('ushort', 'uint16'), ('uintc', 'uint32'), ('uint', 'uint64'), ('ulonglong', 'uint64')):
        ns[n] = C[c]
    rmod = mod('numpy.random', randint=nat('randint', rand))
    ns['random'] = rmod
    mod('numpy', **ns)
    mod('numpy.typing', NDArray=VOpaque('NDArray'), ArrayLike=VOpaque('ArrayLike'), DTypeLike=VOpaque('DTypeLike'))
    mod('h5py', File=C['File'], Dataset=C['Dataset'], Group=VClass('Group', (obj,), builtin=True))


def f_array_equal(it, a, b):
    x, y = as_arr(it, a), as_arr(it, b)
    if x.shape != y.shape:
        return False
    return ARR_METHODS['all'](it, ufunc2(it, '==', x, y), [], {})


def native_int(it, v):
    try:
        return int(v)
    except (OverflowError, ValueError) as e:
        raise it.throw(type(e).__name__, str(e))


# ------------------------------------------------------------------------------------------------ harness helpers

def source(it, name, dt, shape, caller=True, order='C', number=False, values=None, stride=1):
    """a caller-owned array of unknown elements"""
    n = prod(shape)
    cells = []
    flat = dt.flat()
    for k in range(n):
        for j, d in enumerate(flat):
            idx = (k,) if len(flat) == 1 else (k, j)
            if values is not None:
                e = values[k] if isinstance(values[k], Elem) else num_elem(values[k], d.kind, d.size)
            else:
                e = ECell(name, idx, d.kind, d.size)
            cells.append((e, d.order))
    s = Store(cells, caller=caller, name=name)
    nb = len(flat)
    pos = [k * nb for k in range(n)]
    if order == 'F' and len(shape) == 2:
        pos = transpose(shape[::-1], pos)
    a = NArr(s, dt, shape, pos)
    return a


def plain(s):
    """'>f4' -> DT"""
    o = '<'
    if s[0] in '<>|=':
        o, s = s[0], s[1:]
    return DT(s[0], int(s[1:]), o)
