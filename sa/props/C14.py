"""Output depends only on the current specification, not on process history.

Relational abstract interpretation.  A specification over unknown values is written in a process that has just been
started (the analysed program's per-process state as after loading its modules).  The same specification is then written
after other specifications were built and written, or again from the same object, or reached by changing an object that
has been written before; the byte terms of the files must be equal for every value of the unknowns.
"""
import random

from .C10 import first_diff
from .kinds import *
from . import C05


def judge(J, S, t):
    base = t['files'][0]
    for i, f in enumerate(t['files'][1:]):
        J.check(J.bytes_eq(base, f), 'same-bytes', f'{t["options"][i + 1]}: the file differs from {t["options"][0]}: '
                                                   f'{first_diff(J, base, f)}')


def proc(S, path):
    """another specification object in the same process"""
    T = S.fresh()
    T.PATH = path
    return T


class HC:
    """the high-compatibility context"""
    def __init__(self, S):
        self.S = S
        self.cm = S.it.call(S.name('high_compatibility_mode'), [], {})

    def __enter__(self):
        self.S.call(self.cm, '__enter__')

    def __exit__(self, t, e, tb):
        if isinstance(e, PyRaise):
            # the context sees the exception; it is not swallowed
            c = e.exc.cls
            r = self.S.call(self.cm, '__exit__', c, e.exc, None)
            return False
        self.S.call(self.cm, '__exit__', None, None, None)


def quiet(S, f):
    """run f, whatever it raises"""
    try:
        return f()
    except PyRaise:
        return None


# ------------------------------------------------------------------ specifications
def kind_spec(kind, route='kw', dup=0, tag='', units=None, origin_number=None, changed=False, name='OBJ', set_name=None):
    """everything of one kind"""
    def make(S):
        S.dlis()
        B = Base(S, **({'origin_reference': origin_number} if origin_number is not None else {}))
        ps = {p: sample(vk, f'{tag}{p}-', B) for p, vk in KINDS[kind].items() if p not in C05.CONFLICTS.get(kind, ())}
        if kind == 'frame':
            ps.pop('index_type', None)
        if tag:
            ps.pop('creation_time', None)
        un = {p: UNITS[j % len(UNITS)] for j, (p, vk) in enumerate(KINDS[kind].items())
              if vk in HAS_UNITS and p in ps and (route, p) != ('later', 'file_set_number')} if units else None
        more = {'set_name': set_name} if set_name else {}
        for i in range(dup):
            put(B, kind, name, {}, **more) if kind not in ('frame', 'channel') else \
                put(B, kind, name + str(i), {}, **more)
        put(B, kind, name, ps, route, un, **more)
        return {}
    return make


def frames_spec(source, chans, n=3, fk=None, write=None, names=('F',)):
    def make(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        fr = [(nm, [C(**dict(c, name=c['name'] + ('' if not i else str(i)))) for c in chans], dict(fk or {}))
              for i, nm in enumerate(names)]
        return dict(supply(S, lf, fr, source, n), **(write or {}))
    return make


def noformat_spec(tag='', n=2):
    def make(S):
        S.dlis()
        B = Base(S)
        xs = [S.add(B.lf, 'no_format', f'NF{i}', description=S.text(f'{tag}d{i}', 5)) for i in range(n)]
        for i in range(3):
            S.nof_data(B.lf, xs[i % n], S.bytes(f'{tag}b{i}', 30 + i))
        return {}
    return make


def files_spec(n=2, tag='', names='same', rev=False):
    def make(S):
        S.dlis(set_identifier='SET-ID')
        for i in reversed(range(n)) if rev else range(n):
            lf = S.lf(fh_id=f'HEAD{i}', fh_sequence_number=i + 1)
            sn = dict(set_name=f'S{i}')
            S.origin(lf, 'O', **sn)
            p = '' if names == 'same' else str(i)
            z = [S.add(lf, 'zone', 'Z' + p, description=S.text(f'{tag}z{i}{j}', 5), **sn) for j in range(2)]
            S.add(lf, 'parameter', 'P' + p, zones=z, values=[S.real(f'{tag}p{i}'), 2], **sn)
            c = chan(S, lf, 'C' + p, '<f8', (2 + i,), arr=S.array(f'{tag}C{i}', '<f8', (2 + i,)), **sn)
            frame(S, lf, 'F' + p, [c], **sn)
        return {}
    return make


SMALL = [dict(name='A', dt='<i4'), dict(name='B', dt='>u2', width=2), dict(name='D', dt='<f4', width=1)]
INDEX = [dict(name='A', dt='<f8', values=[1.0, 2.0, 3.0, 4.0, 5.0]), dict(name='B', dt='<u1')]
CASTS = [dict(name='A', dt='<i4', cast='i2'), dict(name='B', dt='<f8', cast='f4', width=2), dict(name='D', dt='<u1', cast='f8')]
OTHER = [dict(name='A', dt='>u1', width=3), dict(name='B', dt='<f8'), dict(name='D', dt='>i2', cast='f4', width=2)]


def specs(q):
    out = {}
    for kind in KINDS:
        out[f'{kind}'] = kind_spec(kind, 'kw')
        out[f'{kind} with units'] = kind_spec(kind, 'dict', units=True, set_name='MY-SET')
        out[f'second {kind} of its name'] = kind_spec(kind, 'later', dup=1)
    for s in SOURCES:
        out[f'frame from {s}'] = frames_spec(s, SMALL)
        out[f'indexed frame from {s}'] = frames_spec(s, INDEX, 5, {'index_type': 'BOREHOLE-DEPTH'})
        out[f'cast frame from {s}'] = frames_spec(s, CASTS)
        out[f'window of a frame from {s}'] = frames_spec(s, INDEX, 5, {'index_type': 'TIME'}, dict(from_idx=1, to_idx=4))
    out['frame of other types'] = frames_spec('dict', OTHER)
    out['two frames'] = frames_spec('inline', SMALL, names=('F', 'G'))
    out['no-format data'] = noformat_spec()
    out['logical files'] = files_spec()
    out['logical files of other names'] = files_spec(3, names='other')
    return out


# ------------------------------------------------------------------ histories
def history(name, avoid):
    """hist(S): builds and writes other files"""
    def build(mk_, write=True):
        def h(S, i=[0]):
            i[0] += 1
            T = proc(S, f'/out/h{i[0]}.dlis')
            kw = mk_(T)
            if write:
                T.write(**kw)
        return h

    def hc(S):
        with HC(S):
            build(frames_spec('dict', OTHER))(S)

    def hc_failing(S):
        def f():
            with HC(S):
                T = proc(S, '/out/hcf.dlis')
                T.dlis()
                B = Base(T)
                T.add(B.lf, 'zone', 'not allowed here!')
        quiet(S, f)

    def hc_nested(S):
        with HC(S):
            def f():
                with HC(S):
                    raise S.it.throw('ValueError', 'stop')
            quiet(S, f)

    def failing(S):
        T = proc(S, '/out/bad.dlis')
        T.dlis()
        B = Base(T)
        quiet(T, lambda: T.add(B.lf, 'zone', 'OBJ', domain='nonsense', minimum='x'))
        quiet(T, lambda: T.add(B.lf, 'axis', 'OBJ', coordinates=[None]))
        quiet(T, lambda: T.add(B.lf, 'equipment', 'OBJ', height='x', status=7))
        quiet(T, lambda: T.add(B.lf, 'channel', 'OBJ', data=5))
        T.add(B.lf, 'comment', 'OBJ', text=['caf\u00e9'])
        quiet(T, lambda: T.write())
        T = proc(S, '/out/bad2.dlis')
        kw = frames_spec('dict', OTHER, 4)(T)
        T.it.dict_set(kw['data'], 'B', T.array('short', '<f8', (2,)))
        quiet(T, lambda: T.write(**kw))

    def unwritten(S):
        for k in ('zone', 'parameter', 'equipment', 'channel', 'long_name'):
            build(kind_spec(k, tag='u'), False)(S)

    H = {
        'the same with other values': lambda S: build(avoid('h'))(S),
        'the same twice': lambda S: [build(avoid('h'))(S), build(avoid('hh'))(S)],
        'other origin numbers': lambda S: [build(kind_spec(k, origin_number=7, dup=2, tag='h'))(S) for k in
                                           ('zone', 'axis', 'parameter', 'equipment', 'comment', 'channel', 'long_name')],
        'other units and routes': lambda S: [build(kind_spec(k, 'dict', units=True, tag='h', name='OBJ'))(S)
                                             for k in ('equipment', 'axis', 'message', 'path', 'zone')],
        'frames of the same names': lambda S: [build(frames_spec(s, [dict(OTHER[1], values=[9.0, 4.0, 4.0, 1.0])] + OTHER[:1] + OTHER[2:], 4, {'index_type': 'TIME', 'spacing': 3.5} if i else {},
                                                                 dict(from_idx=1) if i else {}))(S)
                                               for i, s in enumerate(('dict', 'inline', 'h5', 'struct'))],
        'logical files': lambda S: [build(files_spec(3, 'h'))(S), build(noformat_spec('h'))(S)],
        'high-compatibility mode': hc,
        'failing high-compatibility mode': lambda S: [hc_failing(S), hc_nested(S)],
        'failures': failing,
        'unwritten files': unwritten,
    }
    return H[name]


HISTORIES = ('the same with other values', 'the same twice', 'other origin numbers', 'other units and routes',
             'frames of the same names', 'logical files', 'high-compatibility mode', 'failing high-compatibility mode',
             'failures', 'unwritten files')


def other_of(label, make, q):
    """the same kind of specification over other values"""
    def f(tag):
        for k in KINDS:
            if label.startswith(k) or label.startswith(f'second {k}'):
                base = k
                if label.startswith('second'):
                    return kind_spec(k, 'dict', dup=0, tag=tag, units=True)
        ks = [k for k in KINDS if label in (k, f'{k} with units', f'second {k} of its name')]
        if ks:
            return kind_spec(ks[0], 'dict' if 'units' not in label else 'kw', dup=1, tag=tag, units='units' not in label,
                             set_name='MY-SET' if 'units' in label else None)
        if 'frame' in label:
            return frames_spec('dict', OTHER, 4)
        if 'no-format' in label:
            return noformat_spec(tag, 3)
        return files_spec(3, tag, names='other', rev=True)
    return f


def after(make, hist):
    def b(S):
        out = dict(files=[], options=['a fresh process'])
        S.PATH = '/out/base.dlis'
        out['files'].append(S.write(**make(S)))
        S.it.new_process()
        hist(S)
        T = proc(S, '/out/after.dlis')
        out['files'].append(T.write(**make(T)))
        out['options'].append('after other files')
        return out
    return b


def rewritten(make, times=3):
    """the same object written again: same path, another path, other chunking, after its first data"""
    def b(S):
        out = dict(files=[], options=['the first write'])
        S.PATH = '/out/base.dlis'
        kw = make(S)
        out['files'].append(S.write(**kw))
        for i in range(1, times):
            S.PATH = '/out/base.dlis' if i % 2 else f'/out/again{i}.dlis'
            k = dict(kw)
            if i % 2 == 0:
                k.update(input_chunk_size=2)
            out['files'].append(S.write(**k))
            out['options'].append(f'write {i + 1}')
        T = proc(S, '/out/new.dlis')
        out['files'].append(T.write(**make(T)))
        out['options'].append('an equal specification')
        return out
    return b


def interleaved(make1, make2):
    """two specifications built side by side, then written, then written again"""
    def b(S):
        S.PATH = '/out/base.dlis'
        f1 = S.write(**make1(S))
        S.it.new_process()
        A, B = proc(S, '/out/a.dlis'), proc(S, '/out/b.dlis')
        ka = make1(A)
        kb = make2(B)
        B.write(**kb)
        fa = A.write(**ka)
        B.write(**kb)
        fb = A.write(**ka)
        return dict(files=[f1, fa, fb], options=['a fresh process', 'beside another', 'beside another, again'])
    return b


# ------------------------------------------------------------------ changes after a write
def changed_value(kind, p, old, new, units=(None, None), cleared=False):
    """value set, written, replaced, written: as if set to the last one in the first place"""
    def b(S):
        out = dict(files=[], options=['set at once', 'changed after a write'])
        for i in (0, 1):
            T = proc(S, f'/out/{i}.dlis') if i else S
            T.PATH = f'/out/{i}.dlis'
            if i:
                S.it.new_process()
            T.dlis()
            B = Base(T)
            vo, vn = old(B), new(B)
            x = put(B, kind, 'OBJ', {p: vo if i else vn}, 'dict' if (units[0] if i else units[1]) else 'kw',
                    {p: units[0] if i else units[1]} if (units[0] if i else units[1]) else None)
            if i:
                T.write()
                at = T.get(x.handle, T.attr_name(kind, p))
                T.set(at, 'value', T.val(vn))
                if units[1]:
                    T.set(at, 'units', units[1])
            out['files'].append(T.write())
        return out
    return b


def two_ways(direct, then):
    """direct(S) -> kw;  then(S) -> kw after having written something and changed it"""
    def b(S):
        S.PATH = '/out/direct.dlis'
        f = S.write(**direct(S))
        S.it.new_process()
        T = proc(S, '/out/then.dlis')
        g = T.write(**then(T))
        return dict(files=[f, g], options=['specified at once', 'changed after a write'])
    return b


def changes():
    out = {}

    def c(name, final):
        """final(S, first): first = True on the object that is written before its last change"""
        def direct(S):
            return final(S, lambda **k: None, False)

        def then(S):
            return final(S, lambda **k: S.write('/out/early.dlis', **k), True)
        out[name] = two_ways(direct, then)

    def rename(kind):
        def f(S, early, first):
            S.dlis()
            B = Base(S)
            nm = 'FIRST' if not first else 'BEFORE'
            if kind == 'channel':
                a = S.add(B.lf, 'channel', nm, data=S.array('X', '<f8', (1,)), long_name='LN')
                S.add(B.lf, 'frame', 'XF', channels=[a])
            elif kind == 'frame':
                a = S.add(B.lf, 'frame', nm, channels=[S.add(B.lf, 'channel', 'XC', data=S.array('X', '<f8', (1,)))])
            else:
                a = put(B, kind, nm, {})
            put(B, kind, 'OTHER', {})
            early()
            if first:
                S.set(a.handle, 'name', 'FIRST')
            return {}
        return f

    def renumber(kind):
        def f(S, early, first):
            S.dlis()
            B = Base(S)
            S.origin(B.lf, 'SECOND', file_set_number=43, origin_reference=43)
            a = put(B, kind, 'OBJ', {}, **({} if first else {'origin_reference': 43}))
            early()
            if first:
                S.set(a.handle, 'origin_reference', 43)
            return {}
        return f

    def add_more(kind):
        def f(S, early, first):
            S.dlis()
            B = Base(S)
            put(B, kind, 'OBJ', {})
            early()
            put(B, kind, 'OBJ', {}) if kind not in ('frame', 'channel') else None
            put(B, kind, 'NEW', {})
            return {}
        return f

    def first_of(kind):
        def f(S, early, first):
            S.dlis()
            B = Base(S)
            early()
            put(B, kind, 'OBJ', {p: sample(vk, p, B) for p, vk in KINDS[kind].items() if vk in (T, TS, NUM, I)})
            return {}
        return f
    for kind in KINDS:
        if kind != 'origin':
            c(f'{kind} renamed', rename(kind))
            c(f'{kind} given another origin', renumber(kind))
        c(f'{kind} added', add_more(kind))
        c(f'first {kind} added', first_of(kind))

    def target(S, early, first):
        S.dlis()
        B = Base(S)
        z = S.add(B.lf, 'zone', 'Z' if first else 'LAST')
        S.add(B.lf, 'parameter', 'P', zones=[z], values=[1])
        S.add(B.lf, 'group', 'G', object_list=[z])
        early()
        if first:
            S.set(z.handle, 'name', 'LAST')
        return {}
    c('a referenced object renamed', target)

    def origin_number(S, early, first):
        S.dlis()
        B = Base(S)
        z = S.add(B.lf, 'zone', 'Z', origin_reference=None)
        S.add(B.lf, 'parameter', 'P', zones=[z], values=[1])
        early()
        return {}
    c('nothing changed', origin_number)

    def header(S, early, first):
        S.dlis(**({} if first else dict(set_identifier='LAST-ID', sul_sequence_number=7, max_record_length=2048)))
        lf = S.lf(**(dict(fh_id='EARLY') if first else dict(fh_id='LATER', fh_sequence_number=5)))
        B = Base(S, lf=lf)
        early()
        if first:
            u = S.get(S.file, 'storage_unit_label')
            S.set(u, 'set_identifier', 'LAST-ID')
            S.set(u, 'sequence_number', 7)
            S.set(u, 'max_record_length', 2048)
            h = S.get(lf.handle, 'file_header')
            S.set(h, 'header_id', 'LATER')
            S.set(h, 'sequence_number', 5)
        at = S.get(B.origin.handle, 'file_id')
        S.set(at, 'value', 'LATER')
        return {}
    c('label and header', header)

    def data_dict(S, early, first):
        """the dict handed to write() holds other arrays the second time"""
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        cs = [S.add(lf, 'channel', n) for n in 'AB']
        S.add(lf, 'frame', 'F', channels=cs, index_type='TIME')
        if first:
            early(data={'A': C('A', '<f8', values=[5.0, 4.0]).array(S, 2), 'B': C('B', '<i2', 3).array(S, 2, key='early')})
        return dict(data={'A': C('A', '>i4', values=[1, 2, 3]).array(S, 3), 'B': C('B', '<f4').array(S, 3)})
    c('other data', data_dict)

    def data_same_dict(S, early, first):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        cs = [S.add(lf, 'channel', n) for n in 'AB']
        S.add(lf, 'frame', 'F', channels=cs)
        d = VDict()
        if first:
            for n, w in (('A', None), ('B', 3)):
                S.it.dict_set(d, n, C(n, '<f8', w).array(S, 2, key=n + 'early'))
            S.call(S.file, 'write', '/out/early.dlis', data=d)
        for n, w in (('A', 2), ('B', None)):
            S.it.dict_set(d, n, C(n, '>i2', w).array(S, 4))
        return dict(data=d)
    c('the same dict with other arrays', data_same_dict)

    def inline_then_dict(S, early, first):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        cs = [S.add(lf, 'channel', n, **({'data': C(n, '<f8', 2).array(S, 3, key=n + 'x')} if n == 'A' or first else {}))
              for n in 'A']
        cs += [S.add(lf, 'channel', 'B')]
        S.add(lf, 'frame', 'F', channels=cs)
        if first:
            early(data={'B': C('B', '<u1').array(S, 3, key='early')})
        return dict(data={'B': C('B', '<u2', 2).array(S, 3)})
    c('one channel inline, the other with each write', inline_then_dict)

    def windows(S, early, first):
        kw = frames_spec('dict', INDEX, 5, {'index_type': 'TIME'})(S)
        if first:
            early(from_idx=3, **kw)
            early(to_idx=1, **kw)
            early(**kw)
        return dict(kw, from_idx=1, to_idx=3)
    c('another window', windows)

    def whole_after_window(S, early, first):
        kw = frames_spec('h5', INDEX, 5, {'index_type': 'TIME'})(S)
        if first:
            early(from_idx=3, to_idx=4, **kw)
        return kw
    c('everything after a window', whole_after_window)

    def cast_changed(S, early, first):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        a = C('A', '<i4').array(S, 3)
        x = S.add(lf, 'channel', 'A', data=a, **({'cast_dtype': np_type(S, 'float64')} if not first else
                                                 {'cast_dtype': np_type(S, 'int16')}))
        S.add(lf, 'frame', 'F', channels=[x])
        early()
        if first:
            S.set(x.handle, 'cast_dtype', np_type(S, 'float64'))
        return {}
    c('another cast', cast_changed)

    def ds_changed(S, early, first):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        x = S.add(lf, 'channel', 'A', dataset_name='one' if first else 'two')
        S.add(lf, 'frame', 'F', channels=[x])
        d = {'one': C('one', '<i4', 2).array(S, 3), 'two': C('two', '>f4').array(S, 3)}
        if first:
            early(data=d)
            S.set(x.handle, 'dataset_name', 'two')
        return dict(data=d)
    c('another data set', ds_changed)

    def frame_channels(S, early, first):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        cs = [S.add(lf, 'channel', n, data=C(n, '<i4', values=[3 + i, 2, 9 * i]).array(S, 3)) for i, n in enumerate('ABD')]
        f = S.add(lf, 'frame', 'F', channels=cs[:2] if first else [cs[2], cs[0]], index_type='TIME')
        if first:
            S.add(lf, 'group', 'G', object_list=[cs[1]])
            early()
            S.set(S.get(f.handle, 'channels'), 'value', S.lst([cs[2], cs[0]]))
        else:
            S.add(lf, 'group', 'G', object_list=[cs[1]])
        return {}
    c('other channels in the frame', frame_channels)

    def nof_more(S, early, first):
        S.dlis()
        B = Base(S)
        x = S.add(B.lf, 'no_format', 'N')
        S.nof_data(B.lf, x, S.bytes('p1', 20))
        early()
        S.nof_data(B.lf, x, S.bytes('p2', 30))
        return {}
    c('more no-format data', nof_more)

    def lf_more(S, early, first):
        S.dlis()
        for i in range(2):
            lf = S.lf(fh_id=f'H{i}', fh_sequence_number=i + 1)
            S.origin(lf, f'O{i}', set_name=f'S{i}')
            ch_ = S.add(lf, 'channel', 'A', data=C('A', '<i4').array(S, 2 + i, key=f'A{i}'), set_name=f'S{i}')
            S.add(lf, 'frame', 'F', channels=[ch_], set_name=f'S{i}')
            if not i:
                early()
        return {}
    c('another logical file', lf_more)

    def frame_more(S, early, first):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        for i in range(3):
            x = S.add(lf, 'channel', f'A{i}', data=C(f'A{i}', '<i4', i + 1).array(S, 2 + i))
            S.add(lf, 'frame', f'F{i}', channels=[x])
            early()
        return {}
    c('more frames', frame_more)

    def hc_between(S, early, first):
        kw = frames_spec('dict', INDEX, 5, {'index_type': 'TIME'})(S)
        if first:
            with HC(S):
                early(**kw)
        return kw
    c('written in high-compatibility mode first', hc_between)

    def explicit_later(S, early, first):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        x = S.add(lf, 'channel', 'I', data=C('I', '<f8', values=[1.0, 2.0, 3.0]).array(S, 3), **({} if first else {'units': 'ft'}))
        f = S.add(lf, 'frame', 'F', channels=[x], **({} if first else dict(index_type='TIME', index_min=-5.5)))
        early()
        if first:
            S.set(S.get(f.handle, 'index_type'), 'value', 'TIME')
            S.set(S.get(f.handle, 'index_min'), 'value', -5.5)
            S.set(S.get(x.handle, 'units'), 'value', 'ft')
        return {}
    c('index type, minimum and units given later', explicit_later)
    return out


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []

    def add(name, b, expect='ok', **k):
        out.append(Scenario(name, b, judge, expect=expect, **k))

    sp = specs(q)
    for label, make in sp.items():
        add(f'{label}: written again', rewritten(make))
        for i, h in enumerate(HISTORIES):
            if q and ('with units' in label and i % 3 == 2 or 'second' in label and i % 3 == 1) and i > 1:
                continue
            add(f'{label}: after {h}', after(make, history(h, other_of(label, make, q))))
        add(f'{label}: beside another', interleaved(make, other_of(label, make, q)('w')))
    for label, b in changes().items():
        add(f'change: {label}', b)
    for kind, ps in KINDS.items():
        for p, vk in ps.items():
            if p in ('file_set_number', 'creation_time'):
                continue
            vs = variants(vk, p + '-')
            if q:
                vs = [v for v in vs if v[0] not in ('200 numbers', '127 numbers')]
            n = len(vs)
            for i in range(n):
                for step in (1, 2, n // 2 + 1) if not q else (1 + i % 2,):
                    j = (i + step) % n
                    if i == j or 'any' in vs[i][0] and 'any' in vs[j][0] and 'date' in vs[i][0] + vs[j][0]:
                        continue
                    add(f'{kind}.{p}: {vs[i][0]} replaced by {vs[j][0]}', changed_value(kind, p, vs[i][1], vs[j][1]))
            if vk in HAS_UNITS:
                add(f'{kind}.{p}: units replaced', changed_value(kind, p, vs[0][1], vs[0][1], ('m', 'ft')))
                add(f'{kind}.{p}: units added', changed_value(kind, p, vs[0][1], vs[0][1], (None, '0.1 in')))
                add(f'{kind}.{p}: value replaced, units kept', changed_value(kind, p, vs[0][1], vs[1][1], ('m', 'm')))
    return out
