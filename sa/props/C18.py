"""Frames and logical files are isolated from one another.

Abstract interpretation of the writer on specifications of several logical files and frames over unknown data and
attribute values.  A program of add_* calls is enumerated for each logical file and the programs are interleaved; the
file decoded from its byte term must contain, logical file by logical file in creation order, exactly the objects,
references, origins, rows and payloads of that logical file.  Set names follow every scheme (distinct, partly default,
partly shared, equal across object types); where objects of two logical files would share a set, the writer must refuse,
or write each of them into its own logical file.
"""
import itertools
import random

from .C13 import frame_index
from .kinds import *

DT = ('<u1', '<i2', '>u4', '<f4', '>f8', '<i4')


# ------------------------------------------------------------------ programs
class Prog:
    """the calls that make up one logical file, as a list of steps; each step may use what earlier ones made"""
    def __init__(self, S, n, scheme, names='same', rows=(2,), kinds=(), seed=0, origins=1, nof=True, source='inline'):
        self.S, self.n, self.scheme, self.names = S, n, scheme, names
        self.lf = None
        self.made = {}
        r = random.Random(f'{seed}-{n}')
        steps = [('origin', lambda: self.origin(0))]
        steps += [('origin', lambda j=j: self.origin(j)) for j in range(1, origins)]
        simple = ['zone', 'zone', 'axis', 'equipment', 'comment', 'long_name', 'message']
        for i, k in enumerate(simple):
            steps.append((k, lambda k=k, i=i: self.simple(k, i)))
        for k in ('parameter', 'tool', 'group', 'computation', 'splice', 'calibration_measurement', 'well_reference_point',
                  'process', 'path', 'calibration_coefficient', 'calibration'):
            if k in kinds or kinds == 'all':
                steps.append((k, lambda k=k: self.linked(k)))
        for j, m in enumerate(rows):
            w = r.choice((1, 2))
            cs = [(f'CH{j}{i}', r.choice(DT), r.choice((None, 2))) for i in range(w)]
            for nm, dt, wd in cs:
                steps.append(('channel', lambda nm=nm, dt=dt, wd=wd, m=m: self.channel(nm, dt, wd, m)))
            steps.append(('frame', lambda j=j, cs=cs: self.frame(j, [c[0] for c in cs])))
        if nof:
            steps.append(('no_format', lambda: self.nof(0)))
            steps.append(('payload', lambda: self.payload(0, 'a')))
            steps.append(('payload', lambda: self.payload(0, 'b')))
        self.steps = steps

    def sn(self, kind):
        s = self.scheme(self.n, kind)
        return {} if s is None else dict(set_name=s)

    def nm(self, base):
        return base if self.names == 'same' else f'{base}-{self.n}'

    def open(self):
        if self.lf is None:
            self.lf = self.S.lf(fh_id=f'HEADER-{self.n}', fh_sequence_number=self.n + 1)

    def text(self, what):
        return self.S.text(f'{what}{self.n}', 4)

    def origin(self, j):
        x = self.S.origin(self.lf, self.nm(f'ORIGIN-{j}'), file_set_number=40 + self.n * 3 + j, well_name=self.text(f'well{j}'),
                          **self.sn('origin'), **(dict(origin_reference=j * 7 + 2 + self.n) if j else {}))
        self.made.setdefault('origin', []).append(x)

    def put(self, kind, x):
        self.made.setdefault(kind, []).append(x)
        return x

    def simple(self, kind, i):
        S = self.S
        attr, v = {'zone': ('description', self.text(f'zone{i}')), 'axis': ('axis_id', self.text('axis')),
                   'equipment': ('trademark_name', self.text('equipment')), 'comment': ('text', [self.text('comment')]),
                   'long_name': ('quantity', self.text('long')), 'message': ('text', [self.text('message')])}[kind]
        name = self.nm('OBJ' if not (kind == 'zone' and i == 1) else 'OBJ')
        x = S.add(self.lf, kind, name, **{attr: v}, **self.sn(kind))
        x.mark = S.label(kind, attr)
        self.put(kind, x)

    def linked(self, kind):
        S, m = self.S, self.made
        num = S.real(f'{kind}{self.n}')
        z, ch = m['zone'], m.get('channel', [])
        kw = {
            'parameter': dict(zones=z, values=[num, 1.0], long_name=m['long_name'][0]),
            'tool': dict(parts=m['equipment'], channels=ch[:1], parameters=m.get('parameter', [])),
            'group': dict(object_list=[z[0], z[0]], group_list=[]),
            'computation': dict(zones=z, values=[num, 2.0], axis=m['axis'], source=z[1]),
            'splice': dict(zones=z, input_channels=ch),
            'calibration_measurement': dict(axis=m['axis'][0], measurement=[num]),
            'well_reference_point': dict(permanent_datum=self.text('datum')),
            'process': dict(parameters=m.get('parameter', []), input_channels=ch, comments=[self.text('process')]),
            'path': dict(frame_type=m['frame'][0] if 'frame' in m else None, value=ch, borehole_depth=num),
            'calibration_coefficient': dict(coefficients=[num]),
            'calibration': dict(coefficients=m.get('calibration_coefficient', []), parameters=m.get('parameter', []),
                                calibrated_channels=ch[:1]),
        }[kind]
        kw = {a: v for a, v in kw.items() if v is not None and v != []}
        self.put(kind, S.add(self.lf, kind, self.nm('OBJ'), **kw, **self.sn(kind)))

    def channel(self, nm, dt, wd, m):
        S = self.S
        c = C(self.nm(nm), dt, wd)
        x = S.add(self.lf, 'channel', self.nm(nm), data=c.array(S, m, key=f'{nm}-of-{self.n}'), **self.sn('channel'))
        x.desc, x.c = c.written(), c
        c.ds_key = f'{nm}-of-{self.n}'
        x.m = m
        self.put('channel', x)
        self.made.setdefault('by', {})[nm] = x

    def slots(self, x):
        S, c = self.S, x.c
        d = npm.plain(c.dt)
        w = c.width or 1
        es = c.elems(x.m, c.ds_key)
        return [mk('b', [npm.elem_part(e, '>', d.kind, d.size) for e in es[k * w:(k + 1) * w]]) for k in range(x.m)]

    def frame(self, j, names):
        S = self.S
        chans = [self.made['by'][n] for n in names]
        f = S.add(self.lf, 'frame', self.nm(f'FR{j if self.n % 2 else 0}'), channels=chans, description=self.text(f'fr{j}'), **self.sn('frame'))
        f.rows = [list(r) for r in zip(*[self.slots(c) for c in chans])]
        f.mark = 'DESCRIPTION'
        self.put('frame', f)

    def nof(self, j):
        self.put('no_format', self.S.add(self.lf, 'no_format', self.nm('NOF'), description=self.text('nof'),
                                         **self.sn('no_format')))

    def payload(self, j, tag):
        self.S.nof_data(self.lf, self.made['no_format'][j], self.S.bytes(f'pay{tag}{self.n}', 5 + self.n))


def interleave(progs, how, seed=0):
    """order of the steps: (program index) list"""
    ns = [len(p.steps) for p in progs]
    if how == 'one after the other':
        return [i for i, k in enumerate(ns) for _ in range(k)]
    if how == 'last first':
        return [i for i in reversed(range(len(ns))) for _ in range(ns[i])]
    if how == 'in turn':
        return [i for k in range(max(ns)) for i in range(len(ns)) if k < ns[i]]
    if how == 'in turn, last first':
        return [i for k in range(max(ns)) for i in reversed(range(len(ns))) if k < ns[i]]
    if how == 'halves':
        return [i for i, k in enumerate(ns) for _ in range(k // 2)] + \
            [i for i, k in reversed(list(enumerate(ns))) for _ in range(k - k // 2)]
    out = [i for i, k in enumerate(ns) for _ in range(k)]
    random.Random(seed).shuffle(out)
    return out


def files(n, scheme, how, lazy=False, reorder=None, **kw):
    """n logical files, their programs interleaved; lazy: each logical file is created when first used"""
    def b(S):
        S.dlis()
        rows = kw.get('rows', ((2,), (3, 1), (1,), (2, 2)))
        ps = [Prog(S, i, scheme, **dict({k: v for k, v in kw.items() if k != 'rows'}, rows=rows[i % len(rows)]))
              for i in range(n)]
        order = interleave(ps, how, kw.get('seed', 0))
        if reorder == 'origin late':
            for p in ps:
                o = [s for s in p.steps if s[0] == 'origin']
                rest = [s for s in p.steps if s[0] != 'origin']
                p.steps = rest[:p.n * 3 + 2] + o + rest[p.n * 3 + 2:] if p.n < 2 else rest + o
        if not lazy:
            for p in ps:
                p.open()
        pos = [0] * n
        for i in order:
            p = ps[i]
            if lazy and p.lf is None:
                for q in ps[:i + 1] if lazy == 'in order' else (p,):
                    q.open()
            p.steps[pos[i]][1]()
            pos[i] += 1
        return S.write()
    return b


DISTINCT = {
    'distinct names': lambda n, k: f'SET-{n}',
    'distinct names in reverse': lambda n, k: f'SET-{9 - n}',
    'the first default': lambda n, k: f'SET-{n}' if n else None,
    'the last default': lambda n, k: f'SET-{n}' if not n else None if n == 1 else f'S{n}',
    'names by type': lambda n, k: f'{k}-{n}',
    'default where nobody else is': lambda n, k: None if (n + len(k)) % 2 == 0 and n < 2 else f'X{n}',
    'prefixes of one another': lambda n, k: 'A' * (n + 1),
    'names of other types': lambda n, k: ('zone', 'frame', 'axis', 'channel')[n],
    'spaces and case': lambda n, k: ('x', 'X', ' x', 'x ')[n],
}


def judge(J, S, t):
    full(J, S, t)


def shared(n, kind, name, how, who=(0, 1)):
    """everything in sets of its own, except that two logical files use one set for one type"""
    def scheme(i, k):
        if k == kind and i in who:
            return name
        return f'SET-{i}'
    return files(n, scheme, how, kinds='all')


def all_shared(n, name, how):
    return files(n, lambda i, k: name, how)


# ------------------------------------------------------------------ frames
def frames(rowcounts, names='different', source='inline', widths=(None, 2, 1), order=None, write=None,
           index=False, dts=DT, fsame=False):
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        fr = []
        k = 0
        for i, m in enumerate(rowcounts):
            cs = []
            for j in range(1 + i % 3):
                nm = f'C{j}' if names == 'same' else f'C{i}{j}'
                ds = None
                if names == 'same' and source != 'inline':
                    ds = f'ds-{i}-{j}'
                if index and j == 0:
                    cs.append(C(nm, '<f8', None, values=[i + 1 + (i + 2) * r for r in range(m)], ds=ds))
                else:
                    cs.append(C(nm, dts[k % len(dts)], widths[k % len(widths)], ds=ds))
                k += 1
            fr.append(('F' if fsame else f'F{i}', cs, dict(rows=m, description=f'frame {i}', **({'index_type': 'BOREHOLE-DEPTH'} if index else {}))))
        if names == 'same' and source == 'inline':
            kw = same_named(S, lf, fr)
        else:
            tot = sum(len(cs) for _, cs, _ in fr)
            pm = {None: None, 'reversed': list(reversed(range(tot))), 'shuffled': random.Random(3).sample(range(tot), tot)}
            kw = supply(S, lf, fr, source, max(rowcounts), permute=pm[order])
        w = dict(write or {})
        lo, hi = w.get('from_idx', 0), w.get('to_idx')
        for f in lf.frames:
            f.mark = 'DESCRIPTION'
            f.rows = f.rows[lo:hi]
        return S.write(**kw, **w)
    return b


def same_named(S, lf, fr):
    """channels of the same names in every frame: different arrays"""
    for i, (nm, cs, k) in enumerate(fr):
        m = k.pop('rows')
        xs = []
        for j, c in enumerate(cs):
            x = S.add(lf, 'channel', c.name, data=c.array(S, m, f'{c.name}-of-{i}'),
                      long_name=f'channel {j} of frame {i}')
            x.mark = 'LONG-NAME'
            x.desc, x.c = c.written(), c
            xs.append(x)
        f = S.add(lf, 'frame', nm, channels=xs, **k)
        d = [npm.plain(c.dt) for c in cs]
        f.rows = [[mk('b', [npm.elem_part(e, '>', dd.kind, dd.size) for e in c.elems(m, f'{c.name}-of-{i}')
                            [r * (c.width or 1):(r + 1) * (c.width or 1)]]) for c, dd in zip(cs, d)] for r in range(m)]
        f.n, f.cs = m, cs
    return {}


def judge_frames(J, S, t):
    V = full(J, S, t)
    for lf in S.lfs:
        for f in lf.frames:
            if 'INDEX-TYPE' in f.attrs and hasattr(f, 'cs'):
                frame_index(V, f, f.cs[0].elems(f.n))


def frames_sharing(k):
    """one channel in several frames: each frame still has the rows of its own channels"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        common = chan(S, lf, 'COMMON', '<f4', (3,))
        for i in range(k):
            c = chan(S, lf, f'C{i}', DT[i], (3, 2) if i % 2 else (3,))
            frame(S, lf, f'F{i}', [common, c] if i % 2 == 0 else [c, common])
        return S.write()
    return b


def frames_and_files(S):
    """two logical files with the same frames and channels, numbers of rows apart"""
    S.dlis()
    for n in range(2):
        lf = S.lf(fh_id=f'H{n}', fh_sequence_number=n + 1)
        sn = dict(set_name=f'S{n}')
        S.origin(lf, **sn)
        for i in range(2):
            c = chan(S, lf, f'C{i}', '<u2', (3 + n - i,), arr=S.array(f'C{n}{i}', '<u2', (3 + n - i,)), **sn)
            frame(S, lf, f'F{i}', [c], **sn)
    return S.write(input_chunk_size=2)


def external(n, source, names, in_turn=False, rows=3, write=None):
    """n logical files whose channels' data are given to write() by data set name"""
    def b(S):
        S.dlis()
        w = dict(write or {})
        lfs = [S.lf(fh_id=f'H{i}', fh_sequence_number=i + 1) for i in range(n)]
        allc, counts = [], {}
        inline = []
        for i, lf in enumerate(lfs):
            if not in_turn:
                S.origin(lf, set_name=f'S{i}')
        if in_turn:
            for i in reversed(range(n)):
                S.origin(lfs[i], set_name=f'S{i}')
        for i, lf in enumerate(lfs) if not in_turn else reversed(list(enumerate(lfs))):
            sn = dict(set_name=f'S{i}')
            cs = []
            for j, (nm, dt, wd) in enumerate((('A', '<f4', None), ('B', '>i2', 2), ('A', '<u4', None))):
                ds = {'same': None, 'own': f'{nm}{j}-of-{i}', 'different': None, 'part': f'B-of-{i}' if nm == 'B' else None,
                      'crossed': 'XYZ'[(i + j) % 3] if dt != '>i2' else 'Q'}[names]
                if names == 'crossed' and j == 2:
                    continue
                if ds is None and j == 2:
                    continue
                cs.append(C(nm if names != 'different' else f'{nm}{i}', dt if names != 'crossed' else '<f4',
                            wd if names != 'crossed' else None, ds=ds, **sn))
            inl = source == 'mixed' and i % 2 == 0
            if inl:
                assert names in ('own', 'different')
            supply(S, lf, [('F', cs[:2], dict(rows=rows, **sn))] +
                   ([('G', cs[2:], dict(rows=rows, **sn))] if cs[2:] else []), 'inline' if inl else 'none')
            window(S, lf, w)
            if not inl:
                allc += cs
        if source == 'struct':
            kw = dict(data=struct_array(S, allc, rows))
        elif source == 'h5':
            kw = dict(data=h5_file(S, allc, rows))
        else:
            d = VDict()
            for c in {c.dsname: c for c in allc}.values():
                S.it.dict_set(d, c.dsname, c.array(S, rows))
            kw = dict(data=d)
        return S.write(**kw, **w)
    return b


def smallest(n, rows, extra):
    """nothing but what a logical file needs"""
    def b(S):
        S.dlis()
        for i in range(n):
            lf = S.lf(fh_id=f'H{i}', fh_sequence_number=i + 1)
            sn = dict(set_name=f'S{i}')
            S.origin(lf, **sn)
            c = chan(S, lf, 'C', '<u2', (rows,), arr=S.array(f'C{i}', '<u2', (rows,)), **sn)
            frame(S, lf, 'F', [c], **sn)
            if extra:
                nf = S.add(lf, 'no_format', 'NF', **sn)
                S.nof_data(lf, nf, b'x%d' % i)
        return S.write()
    return b


# ------------------------------------------------------------------ histories
def later(what):
    def b(S):
        S.dlis()
        sch = DISTINCT['distinct names']
        p = Prog(S, 0, sch, seed=1)
        q = Prog(S, 1, sch, seed=2)
        p.open()
        if what != 'new file':
            q.open()
        for _, f in p.steps:
            f()
        if what != 'new file':
            for _, f in q.steps[:3]:
                f()
            # the second logical file has no frame yet: refused
            try:
                S.write()
            except PyRaise:
                pass
        else:
            S.write()
            q.open()
        for _, f in q.steps if what == 'new file' else q.steps[3:]:
            f()
        if what == 'more in the first':
            S.write()
            x = S.add(p.lf, 'zone', 'LATE', description=S.text('late', 3), **p.sn('zone'))
            x2 = S.add(p.lf, 'parameter', 'LATE', zones=[x], values=[1.5], **p.sn('parameter'))
        return S.write()
    return b


def foreign(how):
    """objects of one logical file used in another"""
    def b(S):
        S.dlis()
        ls = []
        for n in range(2):
            lf = S.lf(fh_id=f'H{n}', fh_sequence_number=n + 1)
            sn = dict(set_name=f'S{n}')
            S.origin(lf, **sn)
            z = S.add(lf, 'zone', 'Z', **sn)
            c = chan(S, lf, f'C{n}', '<f4', (2,), **sn)
            f = None
            if not (how == 'channel' and n == 1):
                f = frame(S, lf, f'F{n}', [c], **sn)
            nf = S.add(lf, 'no_format', 'NF', **sn)
            ls.append((lf, z, c, f, nf, sn))
        (l0, z0, c0, f0, n0, s0), (l1, z1, c1, f1, n1, s1) = ls
        if how == 'channel':
            frame(S, l1, 'F1', [c1, c0], **s1)
        elif how == 'zone':
            S.add(l1, 'parameter', 'P', zones=[z0], values=[1], **s1)
        elif how == 'frame':
            S.add(l0, 'path', 'P', frame_type=f1, **s0)
        elif how == 'no-format':
            S.nof_data(l1, n0, b'abc')
        elif how == 'any':
            S.add(l1, 'group', 'G', object_list=[z1, z0], **s1)
        elif how == 'later':
            p = S.add(l1, 'parameter', 'P', values=[1], **s1)
            S.set(S.get(p.handle, 'zones'), 'value', S.lst([z0]))
        elif how == 'channel later':
            S.set(S.get(f1.handle, 'channels'), 'value', S.lst([c1, c0]))
        return S.write()
    return b


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []

    def add(name, b, expect='ok', j=judge, **k):
        out.append(Scenario(name, b, j, expect=expect, **k))
    hows = ('one after the other', 'last first', 'in turn', 'in turn, last first', 'halves')
    for sch, f in DISTINCT.items():
        for how in hows:
            for n in (2, 3):
                add(f'{n} logical files, {sch}, {how}', files(n, f, how, kinds='all' if n == 2 else ('parameter', 'tool')))
    for how in hows:
        for lazy in ('in order', True):
            add(f'2 logical files created when first used ({lazy}), {how}',
                files(2, DISTINCT['distinct names'], how, lazy=lazy, kinds=('parameter', 'group'), names='different'))
        add(f'origin late, {how}', files(3, DISTINCT['the first default'], how, reorder='origin late',
                                         kinds=('parameter', 'splice')))
        add(f'several origins, {how}', files(2, DISTINCT['the first default'], how, origins=3, kinds=('parameter',)))
    add('4 logical files', files(4, DISTINCT['distinct names'], 'in turn', kinds=('parameter', 'computation')))
    add('12 logical files', files(12, lambda n, k: f'SET-{n}', 'in turn', nof=False))
    rnd = random.Random(18 + seed)
    names = list(DISTINCT)
    for i in range(80 if q else 800):
        sch = DISTINCT[rnd.choice(names)]
        if rnd.random() < .5:
            # a set name for each type and logical file, drawn without sharing
            tab = {}
            pool = [None, '', 'A', 'B', 'a', 'AB', 'SET', '0', 'x y', 'D', 'E']

            def sch(n, k, tab=tab, pool=pool, r=random.Random(rnd.random())):
                if (n, k) not in tab:
                    used = {tab[x] or None for x in tab if x[1] == k}
                    tab[n, k] = r.choice([p for p in pool if (p or None) not in used])
                return tab[n, k]
        add(f'random calls {i}', files(rnd.choice((2, 2, 3, 4)), sch, 'random', seed=rnd.randrange(10 ** 6),
                                       lazy=rnd.choice((False, True, 'in order')), names=rnd.choice(('same', 'different')),
                                       kinds=rnd.choice(('all', ('parameter',), ('tool', 'group', 'process'))),
                                       origins=rnd.choice((1, 1, 2)),
                                       rows=rnd.choice((((2,), (3, 1), (1,), (2, 2)), ((1, 2, 3), (2,)), ((3,),)))),
            paths=30)
    # sets shared between logical files
    for kind in sorted(KINDS):
        for nm in (None, 'COMMON', ''):
            for how in ('one after the other', 'in turn') if q else hows:
                add(f'shared {kind} set {nm!r}, {how}', shared(2, kind, nm, how), 'raise-or-faithful')
        add(f'shared {kind} set, first and last of three', shared(3, kind, 'COMMON', 'in turn', (0, 2)), 'raise-or-faithful')
        add(f'shared {kind} set, last two of three', shared(3, kind, None, 'one after the other', (1, 2)), 'raise-or-faithful')
    for nm in (None, 'COMMON'):
        for n in (2, 3):
            for how in hows:
                add(f'all sets {nm!r} shared by {n}, {how}', all_shared(n, nm, how), 'raise-or-faithful')
    # frames
    for rc in ((1, 1), (1, 3), (3, 1), (2, 2, 2), (1, 2, 3, 4), (5, 1, 2), (4, 4)):
        for src in ('inline', 'dict', 'h5'):
            for nm in ('different', 'same'):
                add(f'frames of {rc} rows, {src}, {nm} names', frames(rc, nm, src), j=judge_frames)
            add(f'frames of one name of {rc} rows, {src}', frames(rc, 'different', src, fsame=True), j=judge_frames)
            add(f'frames and channels of one name of {rc} rows, {src}', frames(rc, 'same', src, fsame=True, index=True),
                j=judge_frames)
            add(f'indexed frames of {rc} rows, {src}', frames(rc, 'different', src, index=True), j=judge_frames)
            for order in ('reversed', 'shuffled'):
                add(f'frames of {rc} rows, {src}, channels {order}', frames(rc, 'different', src, order=order),
                    j=judge_frames)
        if len(set(rc)) == 1:
            for src in ('struct', 'struct reversed', 'mixed'):
                add(f'frames of {rc} rows, {src}', frames(rc, 'different', src), j=judge_frames)
    for w in (dict(from_idx=1), dict(to_idx=2), dict(from_idx=1, to_idx=3), dict(input_chunk_size=1),
              dict(input_chunk_size=2), dict(from_idx=1, input_chunk_size=2), dict(output_chunk_size=8192)):
        for src in ('inline', 'dict', 'h5', 'struct'):
            for nm in ('different', 'same'):
                add(f'frames of equal rows, {w}, {src}, {nm} names', frames((3, 3, 3), nm if src != 'struct' else 'different',
                                                                           src, write=w), j=judge_frames)
            if src != 'struct' and 'from_idx' not in w and 'to_idx' not in w:
                add(f'frames of different rows, {w}, {src}', frames((5, 2, 3), 'different', src, write=w), j=judge_frames)
            elif src != 'struct':
                add(f'frames of different rows, {w}, {src}', frames((5, 3, 4), 'different', src, write=w), j=judge_frames)
    add('long frames', frames((130, 3, 129), 'different', 'inline'), j=judge_frames)
    add('a frame beyond 16383 rows', frames((3, 16386), 'different', 'inline', widths=(None,), dts=('<u1',)) if not q else
        frames((3, 200), 'same', 'dict', widths=(None,)), j=judge_frames)
    for n in (1, 2, 3, 6):
        for m in (1, 2, 5):
            for one in (False, True):
                add(f'{n} logical files of {m} rows, one object of a type, with no-format data {one}', smallest(n, m, one))
    for n in (2, 3):
        for src in ('dict', 'struct', 'h5', 'mixed'):
            for nm in ('same', 'own', 'different', 'part', 'crossed'):
                if src == 'mixed' and nm not in ('own', 'different'):
                    continue
                for turn in (False, True):
                    for w in ({}, dict(from_idx=1, to_idx=3), dict(input_chunk_size=2)):
                        add(f'{n} logical files, data at write() from {src}, {nm} names, {turn}, {w}',
                            external(n, src, nm, turn, write=w))
    for k in (2, 3):
        add(f'one channel in {k} frames', frames_sharing(k))
    add('frames and logical files', frames_and_files)
    for what in ('new file', 'refused first', 'more in the first'):
        add(f'written, then more: {what}', later(what))
    for how in ('channel', 'zone', 'frame', 'no-format', 'any', 'later', 'channel later'):
        add(f'an object of another logical file: {how}', foreign(how), 'raise')
    return out
