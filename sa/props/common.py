"""Specifications shared by several properties."""
import datetime as _dt

from .. import npm, spec
from .. import judges as jd
from ..harness import Scenario, Sc, X, XDT, Exp, ANY, Judge, decode, Finding
from ..lin import Num, N, add, sub, scale
from ..terms import SSeq, SVar, PCell, mk, simp, concat, kind_of, parts_of
from ..values import *

UTC = _dt.timezone.utc


def row_terms(S, chans):
    """expected slots of each row: element bytes big-endian, after the declared cast.
    chans: list of (array NArr, cast 'f4' or None)"""
    rows = []
    n = chans[0][0].shape[0]
    for r in range(n):
        row = []
        for arr, cast in chans:
            row.append(slot(S, arr, cast, r))
        rows.append(row)
    return rows


def slot(S, arr, cast, r):
    w = 1
    for d in arr.shape[1:]:
        w *= d
    parts = []
    for k in range(w):
        e, _ = arr.store.cells[arr.pos[r * w + k]]
        kind, size = arr.dt.kind, arr.dt.size
        if cast is not None:
            ck, cs = cast[0], int(cast[1:])
            e = npm.cast_elem(S.it, e, kind, size, ck, cs)
            kind, size = ck, cs
        parts.append(npm.elem_part(e, '>', kind, size))
    return mk('b', parts)


def np_type(S, name):
    """numpy scalar type object, e.g. 'float32'"""
    return S.it.getattr(S.it.external_module('numpy'), name)


NPNAME = {'i1': 'int8', 'i2': 'int16', 'i4': 'int32', 'i8': 'int64', 'u1': 'uint8', 'u2': 'uint16', 'u4': 'uint32',
          'u8': 'uint64', 'f4': 'float32', 'f8': 'float64', 'f2': 'float16'}


def full(J, S, t, rows=True):
    """every obligation on a decoded file"""
    V = jd.View(J, S, t)
    jd.label(V)
    jd.match(V)
    jd.fidelity(V)
    jd.references(V)
    jd.order(V)
    jd.noformat(V)
    if rows:
        data(V)
    return V


def data(V):
    S = V.S

    def rows_of(fr):
        return fr.rows
    jd.frame_data(V, rows_of)
    jd.descriptors(V, lambda x: getattr(x, 'desc', None))


def chan(S, lf, name, dt, shape, cast=None, order='C', values=None, arr=None, **k):
    """a channel with unknown (or given) data; remembers what must be written"""
    a = arr if arr is not None else S.array(name if isinstance(name, str) else 'ch', dt, shape, order=order,
                                             values=values)
    if cast is not None:
        k['cast_dtype'] = np_type(S, NPNAME[cast])
    x = S.add(lf, 'channel', name, data=a, **k)
    x.arr, x.castname = a, cast
    base = dt.lstrip('<>=|')
    x.desc = (cast or base, list(shape[1:]) or [1])
    return x


def frame(S, lf, name, chans, **k):
    f = S.add(lf, 'frame', name, channels=chans, **k)
    f.rows = row_terms(S, [(c.arr, c.castname) for c in chans])
    return f


def minimal(S, rows=2, **k):
    """label, header, origin, one frame of one float64 channel"""
    S.dlis(**k)
    lf = S.lf(fh_id='HEADER')
    S.origin(lf)
    c = chan(S, lf, 'DEPTH', '<f8', (rows,))
    frame(S, lf, 'MAIN', [c])
    return lf
