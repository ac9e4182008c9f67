"""Frames over every way of supplying data (C03, C08, C10, C11, C12, C13, C14, C19)."""
from .common import *

ALL_DT = ('i1', 'i2', 'i4', 'u1', 'u2', 'u4', 'f4', 'f8')
SPECIAL = {   # bit patterns a conversion through another type would alter
    'f4': ['7fc00000', 'ffc12345', '7fa00001', '7f800000', 'ff800000', '80000000', '00000001', '7f7fffff', 'bf800000'],
    'f8': ['7ff8000000000000', 'fff8000000012345', '7ff4000000000001', '7ff0000000000000', 'fff0000000000000',
           '8000000000000000', '0000000000000001', '7fefffffffffffff', '3ff0000000000001'],
    'i1': ['80', '7f', 'ff', '00', '01'], 'u1': ['80', '7f', 'ff', '00', '01'],
    'i2': ['8000', '7fff', 'ffff', '0000', '00ff'], 'u2': ['8000', '7fff', 'ffff', '0000', '0100'],
    'i4': ['80000000', '7fffffff', 'ffffffff', '00000000', '00010203'],
    'u4': ['80000000', '7fffffff', 'ffffffff', '00000000', '01020304'],
}


class C:
    """one channel of a frame: how its data look and what must be written"""
    def __init__(self, name, dt, width=None, cast=None, order='C', ds=None, values=None, special=False, stride=1,
                 readonly=False, late=False, **attrs):
        self.name, self.dt, self.width, self.cast, self.order, self.ds = name, dt, width, cast, order, ds
        self.values, self.special, self.stride, self.readonly, self.attrs = values, special, stride, readonly, attrs
        self.late = late        # dataset_name assigned after creation

    @property
    def base(self):
        return self.dt.lstrip('<>=|')

    @property
    def dsname(self):
        return self.ds if self.ds is not None else self.name

    def elems(self, rows, key=None):
        """elements in row-major order; the same whatever the source"""
        w = self.width or 1
        d = npm.plain(self.dt)
        if self.special:
            sp = SPECIAL[self.base]
            return [npm.ELit(bytes.fromhex(sp[k % len(sp)]), d.kind, d.size) for k in range(rows * w)]
        if self.values is not None:
            return [v if isinstance(v, npm.Elem) else npm.num_elem(v, d.kind, d.size) for v in self.values[:rows * w]]
        return [npm.ECell(key or self.dsname, (k,), d.kind, d.size) for k in range(rows * w)]

    def array(self, S, rows, key=None):
        d = npm.plain(self.dt)
        w = self.width
        shape = (rows,) if w is None else (rows, w)
        es = self.elems(rows, key)
        pos = list(range(len(es)))
        if self.order == 'F' and w is not None:
            mem = [es[r * w + j] for j in range(w) for r in range(rows)]
            pos = [j * rows + r for r in range(rows) for j in range(w)]
            es = mem
        if self.stride > 1:
            pad = npm.ECell('gap', (0,), d.kind, d.size)
            es = [x for e in es for x in [e] + [pad] * (self.stride - 1)]
            pos = [p * self.stride for p in pos]
        if self.stride < 0:
            es = es[::-1]
            pos = [len(es) - 1 - p for p in pos]
        st = npm.Store([(e, d.order) for e in es], caller=True, name=self.dsname, readonly=self.readonly)
        a = npm.NArr(st, d, shape, pos)
        if self.readonly:
            a.write = False
        return a

    def slots(self, S, rows):
        """expected slot of each row"""
        w = self.width or 1
        d = npm.plain(self.dt)
        out = []
        es = self.elems(rows)
        for r in range(rows):
            parts = []
            for e in es[r * w:(r + 1) * w]:
                k, s = d.kind, d.size
                if self.cast:
                    ck, cs = self.cast[0], int(self.cast[1:])
                    e = npm.cast_elem(S.it, e, k, s, ck, cs)
                    k, s = ck, cs
                parts.append(npm.elem_part(e, '>', k, s))
            out.append(mk('b', parts))
        return out

    def written(self):
        return (self.cast or self.base, [self.width] if self.width is not None else [1])


def struct_array(S, chans, rows, extra=(), order=None, name='table'):
    """a structured array holding the channels' data sets"""
    fields = list({c.dsname: c for c in list(chans) + list(extra)}.values())
    if order:
        fields = [fields[i] for i in order]
    dt = npm.DT('V', 0, '|', [(c.dsname, npm.plain(c.dt) if c.width is None else
                               npm.DT('V', 0, '|', None, npm.plain(c.dt), (c.width,))) for c in fields])
    per = [(c, c.elems(rows)) for c in fields]
    cells = []
    for r in range(rows):
        for c, es in per:
            w = c.width or 1
            for e in es[r * w:(r + 1) * w]:
                cells.append((e, npm.plain(c.dt).order))
    st = npm.Store(cells, caller=True, name=name)
    nb = len(dt.flat())
    return npm.NArr(st, dt, (rows,), [k * nb for k in range(rows)])


def h5_file(S, chans, rows, extra=(), path='/in/data.h5', reverse=False, counts={}):
    sets = {}
    for c in list(chans) + list(extra):
        a = c.array(S, counts.get(id(c), rows))
        a.h5 = True
        sets['/' + c.dsname.lstrip('/')] = a
    if reverse:
        sets = dict(reversed(list(sets.items())))
    S.it.h5files[path] = sets
    return path


def supply(S, lf, frames, source='inline', rows=3, extra=(), permute=None):
    """channels and frames with their data supplied by `source`; returns the keyword arguments of write().
    frames: list of (name, [C], frame keywords)"""
    kw = {}
    allc = [c for _, cs, _ in frames for c in cs]
    n_of = {}
    handles = {}
    for i, (fname, cs, fk) in enumerate(frames):
        n = fk.pop('rows', rows) if isinstance(fk, dict) else rows
        n_of[i] = n
    created = []
    for i, (fname, cs, fk) in enumerate(frames):
        for c in cs:
            created.append((i, c))
    if permute:
        created = [created[j] for j in permute]
    for i, c in created:
        k = dict(c.attrs)
        if c.ds is not None and not c.late:
            k['dataset_name'] = c.ds
        if c.cast:
            k['cast_dtype'] = np_type(S, NPNAME[c.cast])
        if source == 'inline' or source == 'mixed' and created.index((i, c)) % 2 == 0:
            k['data'] = c.array(S, n_of[i])
        x = S.add(lf, 'channel', c.name, **k)
        if c.late:
            S.set(x.handle, 'dataset_name', c.ds)
        x.desc = c.written()
        x.c = c
        handles[id(c)] = x
    fxs = []
    for i, (fname, cs, fk) in enumerate(frames):
        f = S.add(lf, 'frame', fname, channels=[handles[id(c)] for c in cs], **fk)
        f.n = n_of[i]
        f.cs = cs
        cols = [c.slots(S, n_of[i]) for c in cs]
        f.rows = [list(r) for r in zip(*cols)]
        fxs.append(f)
    if source in ('dict', 'mixed'):
        d = VDict()
        for i, c in created:
            if source == 'mixed' and created.index((i, c)) % 2 == 0:
                continue
            S.it.dict_set(d, c.dsname, c.array(S, n_of[i]))
        for c in extra:
            S.it.dict_set(d, c.dsname, c.array(S, rows))
        kw['data'] = d
    elif source == 'struct':
        kw['data'] = struct_array(S, allc, rows, extra)
    elif source == 'struct reversed':
        n = len({c.dsname for c in list(allc) + list(extra)})
        kw['data'] = struct_array(S, allc, rows, extra, order=list(reversed(range(n))))
    elif source in ('h5', 'h5 reversed'):
        kw['data'] = h5_file(S, allc, rows, extra, reverse=source != 'h5',
                              counts={id(c): n_of[i] for i, c in created})
    return kw


def spec_of(frames, source='inline', rows=3, dlis=None, extra=(), write=None, permute=None):
    """build function: one logical file with the given frames"""
    def b(S):
        S.dlis(**(dlis or {}))
        lf = S.lf(fh_id='HEADER')
        S.origin(lf)
        fr = frames(S) if callable(frames) else [(n, cs, dict(k)) for n, cs, k in frames]
        kw = supply(S, lf, fr, source, rows, extra, permute)
        w = dict(write or {})
        window(S, lf, w)
        kw.update(w)
        return S.write(**kw)
    return b


def window(S, lf, w):
    lo, hi = w.get('from_idx', 0), w.get('to_idx')
    for f in lf.frames:
        f.rows = f.rows[lo:hi if hi is not None else None]


SOURCES = ('inline', 'dict', 'struct', 'struct reversed', 'h5', 'h5 reversed', 'mixed')
