"""Symbolic byte/text strings: concatenations of literals, packed numbers, slices of unknown strings, repetitions.

Everything here is a term of the abstract domain; deciding facts about terms goes through a `Ctx` (ctx.py).
"""
import itertools
import struct
from fractions import Fraction

from .lin import Atom, Num, N, add, sub, scale

WIDTH = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'L': 4, 'l': 4, 'Q': 8, 'q': 8, 'f': 4, 'd': 8, '?': 1}
RANGE = {'B': (0, 255), 'b': (-128, 127), 'H': (0, 65535), 'h': (-32768, 32767), 'I': (0, 2 ** 32 - 1),
         'i': (-2 ** 31, 2 ** 31 - 1), 'L': (0, 2 ** 32 - 1), 'l': (-2 ** 31, 2 ** 31 - 1),
         'Q': (0, 2 ** 64 - 1), 'q': (-2 ** 63, 2 ** 63 - 1)}


def simp(n):
    """Num -> python number when constant"""
    if isinstance(n, Num) and n.const:
        if n.isfloat:
            return float(n.c)
        return n.c if not isinstance(n.c, Fraction) else float(n.c)
    return n


def isnum(v):
    return isinstance(v, (int, float, Num)) and not isinstance(v, bool) or isinstance(v, bool)


class SVar:
    """Unknown text ('s') or bytes ('b') of unknown length."""
    _ids = itertools.count()

    def __init__(self, name, kind, length=None, defn=None, lo=0, hi=None, hint=None):
        self.name, self.kind, self.defn, self.hint = name, kind, defn, hint
        self.uid = next(SVar._ids)
        if length is None:
            length = Num.of(Atom(f'len({name})', lo=lo, hi=hi))
        self.length = N(length)
        self._enc = None

    def __repr__(self):
        return self.name

    @property
    def enc(self):
        if self._enc is None:
            self._enc = SVar(f'ascii({self.name})', 'b', self.length, defn=('enc', self))
        return self._enc

    def term(self):
        return SSeq(self.kind, (PSlice(self, N(0), self.length),))


class Part:
    pass


class PNum(Part):
    __slots__ = ('fmt', 'order', 'val')

    def __init__(self, fmt, val, order='>'):
        self.fmt, self.val, self.order = fmt, N(val), order

    @property
    def length(self):
        return N(WIDTH[self.fmt])

    def __repr__(self):
        return f'{self.order}{self.fmt}{self.val}'

    def key(self):
        return ('num', self.fmt, self.order if WIDTH[self.fmt] > 1 else '>', self.val.key())


class PSlice(Part):
    __slots__ = ('var', 'lo', 'hi')

    def __init__(self, var, lo, hi):
        self.var, self.lo, self.hi = var, N(lo), N(hi)

    @property
    def length(self):
        return sub(self.hi, self.lo)

    def __repr__(self):
        if self.lo == N(0) and self.hi == self.var.length:
            return f'<{self.var}>'
        return f'<{self.var}[{self.lo}:{self.hi}]>'

    def key(self):
        return ('sl', self.var.uid, self.lo.key(), self.hi.key())


class PRep(Part):
    __slots__ = ('lit', 'n')

    def __init__(self, lit, n):
        self.lit, self.n = lit, N(n)      # lit has length 1

    @property
    def length(self):
        return self.n

    def __repr__(self):
        return f'{self.lit!r}*{self.n}'

    def key(self):
        return ('rep', self.lit, self.n.key())


class PRepNum(Part):
    """n copies of the one byte packing `val`"""
    __slots__ = ('val', 'n')

    def __init__(self, val, n):
        self.val, self.n = N(val), N(n)

    @property
    def length(self):
        return self.n

    def __repr__(self):
        return f'byte({self.val})*{self.n}'

    def key(self):
        return ('repn', self.val.key(), self.n.key())


class PDec(Part):
    """decimal digits of a non-negative number known to have `nd` digits"""
    __slots__ = ('val', 'nd')

    def __init__(self, val, nd):
        self.val, self.nd = N(val), nd

    @property
    def length(self):
        return N(self.nd)

    def __repr__(self):
        return f'str({self.val})'

    def key(self):
        return ('dec', self.val.key(), self.nd)


class PCell(Part):
    """the bytes of one array element (value term `cell`, of fixed itemsize), stored in byte order `order`"""
    __slots__ = ('cell', 'order', 'size')

    def __init__(self, cell, order, size):
        self.cell, self.order, self.size = cell, (order if size > 1 else '>'), size

    @property
    def length(self):
        return N(self.size)

    def __repr__(self):
        return f'{self.order}{self.cell}'

    def key(self):
        return ('cell', self.order, self.size, self.cell.key())


class PSub(Part):
    """bytes lo..hi of a part of fixed size"""
    __slots__ = ('of', 'lo', 'hi')

    def __init__(self, of, lo, hi):
        self.of, self.lo, self.hi = of, lo, hi

    @property
    def length(self):
        return N(self.hi - self.lo)

    def __repr__(self):
        return f'{self.of!r}[{self.lo}:{self.hi}]'

    def key(self):
        return ('sub', self.of.key(), self.lo, self.hi)


class POpaque(Part):
    """unanalysed text of unknown length (only used in messages)"""
    __slots__ = ('tag', '_len')

    def __init__(self, tag):
        self.tag = tag
        self._len = Num.of(Atom('len(?)', lo=0))

    @property
    def length(self):
        return self._len

    def __repr__(self):
        return f'?{self.tag}'

    def key(self):
        return ('opq', id(self))


def plen(p):
    return N(len(p)) if isinstance(p, (bytes, str)) else p.length


def pkey(p):
    return ('lit', p) if isinstance(p, (bytes, str)) else p.key()


class SSeq:
    __slots__ = ('kind', 'parts', '_len', '_key')

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, tuple(parts)
        self._len = self._key = None

    @property
    def length(self):
        if self._len is None:
            n = N(0)
            for p in self.parts:
                n = add(n, plen(p))
            self._len = n
        return self._len

    def key(self):
        if self._key is None:
            self._key = (self.kind,) + tuple(pkey(p) for p in self.parts)
        return self._key

    def __repr__(self):
        return ('b' if self.kind == 'b' else '') + '"' + '·'.join(
            repr(p)[1:] if isinstance(p, bytes) else repr(p) for p in self.parts) + '"'


def kind_of(v):
    if isinstance(v, SSeq):
        return v.kind
    if isinstance(v, (bytes, bytearray)):
        return 'b'
    if isinstance(v, str):
        return 's'
    return None


def parts_of(v):
    if isinstance(v, SSeq):
        return list(v.parts)
    if isinstance(v, bytearray):
        v = bytes(v)
    return [v] if len(v) else []


def mk(kind, parts):
    """normalise to a python literal when possible"""
    out = []
    for p in parts:
        if isinstance(p, PNum) and p.val.const:
            p = pack_const(p)
        elif isinstance(p, PSlice) and p.length.const and p.length.c == 0:
            continue
        elif isinstance(p, PRep) and p.n.const and p.n.c < 100000:
            p = p.lit * max(0, int(p.n.c))
        elif isinstance(p, PRepNum):
            if p.val.const:
                p = PRep(bytes([int(p.val.c)]), p.n)
                if p.n.const and p.n.c < 100000:
                    p = p.lit * max(0, int(p.n.c))
            elif p.n.const:
                out.extend(PNum('B', p.val) for _ in range(int(p.n.c)))
                continue
        elif isinstance(p, PDec) and p.val.const:
            p = str(int(p.val.c))
            if kind == 'b':
                p = p.encode()
        if isinstance(p, (bytes, str)):
            if not p:
                continue
            if out and isinstance(out[-1], (bytes, str)):
                out[-1] = out[-1] + p
                continue
        elif out and isinstance(p, PSlice) and isinstance(out[-1], PSlice) and out[-1].var is p.var \
                and out[-1].hi == p.lo:
            out[-1] = PSlice(p.var, out[-1].lo, p.hi)
            continue
        elif out and isinstance(p, PSub) and isinstance(out[-1], PSub) and out[-1].hi == p.lo \
                and out[-1].of.key() == p.of.key():
            q = PSub(p.of, out[-1].lo, p.hi)
            out[-1] = p.of if q.lo == 0 and N(q.hi) == plen(p.of) else q
            continue
        out.append(p)
    if not out:
        return b'' if kind == 'b' else ''
    if len(out) == 1 and isinstance(out[0], (bytes, str)):
        return out[0]
    return SSeq(kind, out)


def pack_const(p):
    v = p.val.c
    if p.fmt in 'fd':
        return struct.pack(p.order + p.fmt, float(v))
    return struct.pack(p.order + p.fmt, int(v))


def concat(a, b):
    return mk(kind_of(a), parts_of(a) + parts_of(b))


def slen(v):
    if isinstance(v, SSeq):
        return simp(v.length)
    return len(v)
