"""A rejected call leaves no trace in later files.

Relational abstract interpretation.  A history of calls is run twice on fresh specifications over the same unknowns: once
as it is, once with calls in between which the writer rejects (every parameter of every add_* method with values of every
wrong kind, names, set names, origin references, data, in and outside of the high-compatibility mode; assignments; writes
failing for every reason, the reason removed afterwards).  The byte terms of the files written at the end must be equal
for every value of the unknowns.  A call which is not rejected says nothing about the property: it is left out.
"""
import datetime as _dt
import random

from .C10 import first_diff
from .C14 import HC, proc
from .kinds import *

UTC = _dt.timezone.utc
NOW = XDT(_dt.datetime(2021, 4, 5, 6, 7, 8, 9000, UTC))


def judge(J, S, t):
    if t is None:
        return
    a, b, n, what = t
    if isinstance(a, PyRaise):
        J.fail('no-trace', f'{what}: {n} rejected calls; without them the file is written, after them it raises {a}')
        return
    J.check(J.bytes_eq(a, b), 'no-trace', f'{what}: {n} rejected calls; the file differs from that of a specification '
                                          f'without them: {first_diff(J, a, b)}')


class Rejector:
    """makes the calls that have to be rejected; those which are not are left out in the next attempt"""
    def __init__(self, S, skip, hc=False):
        self.S, self.skip, self.hc = S, skip, hc
        self.n = 0          # rejected
        self.k = 0          # tried
        self.on = True
        self.again = False

    def __call__(self, f, key=None):
        if not self.on:
            return
        k, self.k = self.k, self.k + 1
        if key is not None:
            k = key
        if k in self.skip:
            return
        try:
            if self.hc:
                with HC(self.S):
                    f()
            else:
                f()
        except PyRaise as e:
            if not e.exc.cls.issub(self.S.it.builtins['Exception']):
                raise
            self.n += 1
            return
        self.skip.add(k)
        self.again = True


def twice(story, what='', hc=False):
    """story(S, bad) -> keywords of write(): the file with the rejected calls and the file without them"""
    def b(S):
        S.it.new_process()
        U = proc(S, '/out/without.dlis')
        quiet = Rejector(U, set())
        quiet.on = False
        ref = U.write(**story(U, quiet))         # refused all by itself: says nothing
        skip = set()
        for i in range(20):
            T = proc(S, '/out/with.dlis')
            bad = Rejector(T, skip, hc)
            S.it.new_process()
            try:
                kw = story(T, bad)
            except PyRaise as e:
                if not bad.again:
                    S.rejected = bad.n
                    return e, ref, bad.n, what
            if not bad.again:
                break
        else:
            raise Unsupported('too many calls are accepted')
        S.rejected = bad.n
        if not bad.n:
            return None
        try:
            f = T.write(**kw)
        except PyRaise as e:
            f = e
        return f, ref, bad.n, what
    return b


# ------------------------------------------------------------------ values
def good(vk, R, i=0):
    """a valid literal value"""
    if vk in (T, 'text|ref:long_name', I):
        return f'TEXT{i}'
    if vk == TS:
        return ['a', f'b{i}']
    if vk in (NUM, DTN):
        return 1.5 + i
    if vk == DTM:
        return NOW
    if vk in ('coords', 'param', NUMS, NEST):
        return [1.5 + i]
    if vk in (ST, 'flag'):
        return 1
    if vk == DIM:
        return [1]
    if vk == 'intnum' or vk.startswith('int:'):
        return 7 + i
    if vk.startswith('enum:'):
        return vk[5:].split(',')[-1]
    if vk.startswith('enums:'):
        return vk[6:].split(',')[:1]
    if vk == 'units':
        return 'm'
    if vk.startswith('ref:'):
        return R.of(vk[4:])
    if vk.startswith('refs:'):
        return [R.of(vk[5:])]
    raise KeyError(vk)


def wrong(vk, R):
    """values of every wrong kind"""
    z, a = R.of('zone'), R.of('axis')
    g = good(vk, R)
    out = []
    if vk in (T, I, 'text|ref:long_name'):
        out = [5, 1.5, b'abc', z, ['a', 'b'], NOW, True, 'x' * 300, 'caf\u00e9', 'not a good name!']
    elif vk == TS:
        out = [5, [1], ['a', 1], z, [z], ['a', None], [['a'], 'b'], b'x']
    elif vk == NUM:
        out = ['abc', [1, 2], z, b'1', NOW, 2 ** 70 + 1, [1.5, 'x'], '']
    elif vk in (NUMS, NEST):
        out = [['a'], [1, 'b'], [1, z], z, [None], 'abc', [NOW], [2 ** 70 + 1]]
    elif vk == 'coords':
        out = [[None], z, [z], [1, NOW], [b'x'], [[None]]]
    elif vk == 'param':
        out = [[None], z, [z], [NOW, 'x'], [1, 'x'], [b'x']]
    elif vk == DTN:
        out = ['not a date', z, [1, 2], b'x', [NOW, NOW]]
    elif vk == DTM:
        out = [5, 'not a date', z, [NOW, NOW], 1.5]
    elif vk in (ST, 'flag'):
        out = [7, 'x', z, [1, 1], -1, 0.5]
    elif vk == DIM:
        out = [['x'], [1.5], 'x', z, [z], [1, 'x'], [None], -1]
    elif vk == 'intnum' or vk.startswith('int:'):
        out = ['x', 1.5, z, [1, 2], NOW, b'1', -1, 2 ** 40]
    elif vk.startswith('enum'):
        out = [5, z, ['A', 'B'], 'NOT-A-MEMBER', b'x', 1.5, [5], ['NOT-A-MEMBER'], vk.split(',')[-1].lower() + '?']
    elif vk == 'units':
        out = [5, z, ['m'], b'm', 'no-such-unit', ['m', 'ft'], 'caf\u00e9']
    elif vk.startswith('ref:'):
        o = z if vk not in ('ref:zone',) else a
        out = ['text', 5, [R.of(vk[4:]), R.of(vk[4:])], b'x', NOW] + ([o] if vk != 'ref:any' else [])
    elif vk.startswith('refs:'):
        o = z if vk not in ('refs:zone',) else a
        t = R.of(vk[5:])
        out = [['text'], 5, [t, 'x'], [None], ['x', t], [t, 5], 'text'] + ([o, [o], [t, o], [o, t]] if vk != 'refs:any' else [])
    out += [{'value': out[0]}, {'value': out[1], 'units': 'm'}, {'value': g, 'units': 5}, {'value': g, 'units': ['m']},
            {'value': g, 'nonsense': 1}, {'nonsense': 1}, {'value': g, 'units': 'no-such-unit'}]
    return out


CONF = C05_CONF = {'computation': ('dimension',), 'parameter': ('dimension',),
                   'calibration_measurement': ('dimension',), 'long_name': ('private_symbol',)}


class R:
    """the objects of a history, made first, to which the calls refer"""
    def __init__(self, S, origin=True, sn=None, lf=None):
        self.S = S
        self.sn = sn or {}
        self.lf = lf or S.lf(fh_id='HEADER')
        self.objs = {}
        if origin:
            self.objs['origin'] = S.origin(self.lf, 'O', **self.sn)

    def of(self, kind):
        S = self.S
        if kind == 'any':
            kind = 'zone'
        if kind not in self.objs:
            if kind == 'frame':
                self.objs[kind] = S.add(self.lf, 'frame', 'HELP', channels=[self.of('channel')], **self.sn)
            elif kind == 'channel':
                self.objs[kind] = S.add(self.lf, 'channel', 'HELP', data=S.array('HELP', '<f8', (2,)), **self.sn)
            else:
                self.objs[kind] = S.add(self.lf, kind, 'HELP', **self.sn)
        return self.objs[kind]

    def all_for(self, kind):
        for k in ('zone', 'axis', 'channel', 'frame'):
            self.of(k)
        for vk in KINDS[kind].values():
            if vk.startswith('ref:') or vk.startswith('refs:'):
                self.of(vk.split(':')[1])

    def raw(self, kind, name, k):
        """the add_ call without bookkeeping"""
        S = self.S
        return S.call(self.lf.handle, 'add_' + kind, S.val(name), **{a: S.val(v) for a, v in k.items()})

    def plain(self, kind, name, sn=None, **k):
        """a valid object of the kind"""
        S = self.S
        sn = {'set_name': sn} if sn else self.sn
        if kind == 'frame':
            c = S.add(self.lf, 'channel', name + '-C', data=S.array(name, '<u2', (2,)), **self.sn)
            return S.add(self.lf, 'frame', name, channels=[c], **k, **sn)
        if kind == 'channel':
            c = S.add(self.lf, 'channel', name, data=S.array(name, '<u2', (2,)), **k, **sn)
            S.add(self.lf, 'frame', name + '-F', channels=[c], **self.sn)
            return c
        if kind == 'origin':
            return S.origin(self.lf, name, **k, **sn)
        return S.add(self.lf, kind, name, **k, **sn)


def bad_calls(r, kind, part=None):
    """(name, keywords) of calls to be rejected"""
    ps = {p: vk for p, vk in KINDS[kind].items()}
    must = {'frame': lambda: {'channels': [r.of('channel')]}, 'channel': lambda: {},
            'origin': lambda: {'file_set_number': 42, 'creation_time': NOW}}.get(kind, lambda: {})
    full = {p: good(vk, r) for p, vk in ps.items() if p not in CONF.get(kind, ())}
    if kind == 'frame':
        full.pop('index_type')
    out = []
    if part in (None, 'values'):
        for p, vk in ps.items():
            for i, v in enumerate(wrong(vk, r)):
                out.append(('OBJ', {**must(), p: v}))
                if i % 3 == 0:
                    out.append(('OBJ', {**must(), **full, p: v}))
    if part in (None, 'call'):
        m = must()
        z = r.of('zone')
        for nm in (5, None, b'x', z, ['OBJ'], 'caf\u00e9', 'x' * 300, 'not a good name!'):
            out.append((nm, dict(m)))
            out.append((nm, {**m, **full}))
        for sn in (5, b'x', ['a'], z, 'caf\u00e9', 'x' * 300):
            out.append(('OBJ', {**m, 'set_name': sn}))
        for o in ('x', -1, 1.5, [1], z, 2 ** 31, 0 if kind == 'origin' else 'y'):
            out.append(('OBJ', {**m, 'origin_reference': o}))
            out.append(('OBJ', {**m, 'origin_reference': o, 'set_name': 'REJECTED-SET'}))
            out.append(('OBJ', {**m, **full, 'origin_reference': o}))
        out.append(('OBJ', {**m, 'nonsense': 1}))
        p = next(iter(ps))
        w = wrong(ps[p], r)[1]
        for k in (dict(set_name='REJECTED-SET'), dict(set_name='SET'), dict(set_name=''), dict(origin_reference=5),
                  dict(set_name='REJECTED-SET', origin_reference=5)):
            out.append(('OBJ', {**m, **k, p: w}))
            out.append(('ANOTHER', {**m, **k, p: w}))
        S = r.S
        if kind == 'channel':
            arr = lambda nm, dt, sh: S.array(nm, dt, sh)
            for d in (5, 'x', [1.0, 2.0], {'a': 1}, z, b'x'):
                out.append(('OBJ', {'data': d}))
                out.append(('REJ', {'data': d, 'dataset_name': 'OBJ'}))
            for k in ({'units': 5}, {'cast_dtype': 'x'}, {'cast_dtype': 5}, {'dataset_name': 5}, {'dataset_name': 'HELP'},
                      {'minimum_value': 'x'}, {'dimension': ['x']}, {'dimension': 'x', 'element_limit': [1]},
                      {'properties': ['NOT-A-MEMBER']}, {'axis': 'x'}, {'element_limit': [1.5]}, {'long_name': 5},
                      {'source': 'x'}, {'set_name': 5}, {'origin_reference': 'x'}):
                for d in (arr('REJ', '<f8', (2,)), arr('REJ3', '<f4', (3, 2)), arr('REJB', '>i2', (5,))):
                    out.append(('OBJ', {'data': d, **k}))
                    out.append(('REJ', {'data': d, **k}))
                    out.append(('OBJ', {'data': d, 'dataset_name': 'OTHER-DS', **k}))
            for d in (arr('S', '<f8', (2, 2)),):
                out.append(('OBJ', {'data': d, 'dimension': [3]}))
                out.append(('OBJ', {'data': d, 'element_limit': [1]}))
        if kind == 'frame':
            c = r.of('channel')
            for cs in ([], None, 5, [z], [c, z], c, 'x', [c, 'x'], [None]):
                out.append(('OBJ', {'channels': cs}))
                out.append(('OBJ', {'channels': cs, 'description': 'rejected', 'set_name': 'REJECTED-SET'}))
        if kind == 'origin':
            for k in ({'file_set_number': 'x'}, {'file_set_number': -1}, {'file_set_number': 1.5}, {'creation_time': 'x'},
                      {'creation_time': 5}, {'file_id': 5}, {'well_id': ['a', 'b']}):
                out.append(('OBJ', {**m, **k}))
                out.append(('OBJ', {**k, 'origin_reference': 9}))
                out.append(('OBJ', {**k}))
    return out


STAGES = ('first', 'middle', 'last', 'after a write', 'throughout')


def one_kind(kind, stage, part, sets=None, hc=False):
    """valid objects of the kind before and after the rejected calls; later objects of all those types"""
    def story(S, bad):
        S.dlis()
        r = R(S)
        r.all_for(kind)

        def go(st):
            if stage in (st, 'throughout') or st == 'written' and stage == 'after a write':
                calls = bad_calls(r, kind, part)
                if stage == 'throughout':
                    calls = calls[len(st) % 3::3]
                for nm, k in calls:
                    bad(lambda nm=nm, k=k: r.raw(kind, nm, k))
        go('first')
        r.plain(kind, 'OBJ')
        go('middle')
        r.plain(kind, 'OBJ' if kind not in ('frame',) else 'OBJ2', sn=sets)
        S.origin(r.lf, 'LATER-ORIGIN', file_set_number=43)
        if stage in ('after a write',):
            if bad.on:
                S.write('/out/early.dlis')
            go('written')
        go('last') if stage in ('last', 'throughout') else None
        x = r.plain(kind, 'ANOTHER', sn='REJECTED-SET' if sets else None)
        r.plain('channel', 'REJ')
        if kind not in ('frame', 'channel', 'origin'):
            r.plain(kind, 'OBJ', origin_reference=1)
        S.add(r.lf, 'group', 'G', object_list=[x, r.of('zone')])
        return {}
    return twice(story, f'add_{kind}', hc)


# ------------------------------------------------------------------ one rejected call at a time
def single(kind, seed, hc=False):
    """a random one of the rejected calls, once, at a random place of a short history"""
    def story(S, bad):
        rnd = random.Random(seed)
        S.dlis()
        r = R(S, origin=rnd.random() < .7)
        r.all_for(kind)
        calls = bad_calls(r, kind)
        # the first of the shuffled calls that is rejected at all
        order = rnd.sample(range(len(calls)), len(calls))
        key = next(i for i in order if i not in bad.skip)
        nm, k = calls[key]
        at = rnd.randrange(4)
        for i in range(4):
            if i == at:
                bad(lambda: r.raw(kind, nm, k), key)
                if rnd.random() < .3:
                    bad(lambda: r.raw(kind, nm, k), key)
            if 'origin' not in r.objs and i == 2:
                r.objs['origin'] = S.origin(r.lf, 'O')
            elif i == 1:
                r.plain(kind, 'OBJ')
            elif i == 3:
                r.plain(kind, 'OBJ' if kind not in ('frame', 'channel') else 'OBJ3', sn=rnd.choice((None, 'REJECTED-SET', 'SET')))
        if rnd.random() < .5:
            S.origin(r.lf, 'LATER', file_set_number=50)
        return {}
    return twice(story, f'add_{kind}', hc)


def mixed(seed, n, nlf=1):
    """random calls, valid and rejected, of all kinds and in several logical files"""
    def story(S, bad):
        rnd = random.Random(seed)
        S.dlis()
        rs = [R(S, sn={'set_name': f'S{i}'} if i else {}, lf=S.lf(fh_id=f'H{i}', fh_sequence_number=i + 1)) for i in range(nlf)]
        for r in rs:
            r.of('channel')
            r.of('zone'), r.of('axis'), r.of('frame')
        ks = list(KINDS)
        count = 0
        for j in range(n):
            r = rnd.choice(rs)
            kind = rnd.choice(ks)
            u = rnd.random()
            hc = rnd.random() < .2
            if u < .35:
                r.all_for(kind)
                count += 1
                nm = rnd.choice(('OBJ', 'ANOTHER')) if kind not in ('frame', 'channel') else f'OBJ{count}'
                p = [(p, vk) for p, vk in KINDS[kind].items() if p not in CONF.get(kind, ()) and
                     (kind, p) not in (('frame', 'index_type'), ('origin', 'file_set_number'), ('origin', 'creation_time'))]
                kw = {p: good(vk, r, j) for p, vk in rnd.sample(p, min(len(p), 2))}
                x = r.plain(kind, nm, sn=r.sn.get('set_name') or rnd.choice((None, None, 'REJECTED-SET')), **kw)
                r.last = (kind, x)
            elif u < .8:
                r.all_for(kind)
                calls = bad_calls(r, kind)
                nm, k = rnd.choice(calls)
                if hc:
                    def f(r=r, nm=nm, k=k, kind=kind):
                        with HC(S):
                            r.raw(kind, nm, k)
                    bad(f)
                else:
                    bad(lambda: r.raw(kind, nm, k))
            elif u < .9 and getattr(r, 'last', None):
                kind, x = r.last
                p, vk = rnd.choice(list(KINDS[kind].items()))
                if (kind, p) in (('channel', 'units'),):
                    continue
                w = rnd.choice(wrong(vk, r))
                if not isinstance(w, dict):
                    bad(lambda: S.set(S.get(x.handle, S.attr_name(kind, p)), 'value', S.val(w)))
            else:
                lo, w = rnd.choice((0, 7)), rnd.choice(({}, dict(from_idx=9), dict(input_chunk_size=0), dict(data=5),
                                                        dict(output_chunk_size='x')))
                if bad.on:
                    try:
                        if hc:
                            with HC(S):
                                S.write('/out/early.dlis', from_idx=lo)
                        else:
                            S.write('/out/early.dlis', **w)
                    except PyRaise:
                        bad.n += 1
        return {}
    return twice(story, 'random calls')


# ------------------------------------------------------------------ assignments
def assigned(kind, stage, hc=False):
    """values, units, names and numbers assigned to existing objects and rejected"""
    def story(S, bad):
        S.dlis()
        r = R(S)
        r.all_for(kind)
        fixed = ('index_type',) if kind == 'frame' else ()
        if stage == 'set':
            kw = {p: good(vk, r) for p, vk in KINDS[kind].items() if p not in CONF.get(kind, ()) and p not in fixed and
                  not (kind == 'origin' and p in ('file_set_number', 'creation_time'))}
        else:
            kw = {}
        x = r.plain(kind, 'OBJ', **kw)
        if stage == 'written' and bad.on:
            S.write('/out/early.dlis')
        for p, vk in KINDS[kind].items():
            at = S.get(x.handle, S.attr_name(kind, p))
            for w in wrong(vk, r):
                if isinstance(w, dict):
                    u = w.get('units', None)
                    if u is not None:
                        bad(lambda: S.set(at, 'units', S.val(u)))
                    continue
                bad(lambda: S.set(at, 'value', S.val(w)))
                bad(lambda: S.call(x.handle, 'set_attributes', **{S.attr_name(kind, p): S.val(w)}))
                bad(lambda: S.call(x.handle, 'set_attributes', **{S.attr_name(kind, p) + '.value': S.val(w)}))
                bad(lambda: S.call(x.handle, 'set_attributes', **{S.attr_name(kind, p) + '.nonsense': S.val(w)}))
            for u in (5, ['m'], r.of('zone'), b'm', 'no-such-unit'):
                bad(lambda: S.set(at, 'units', S.val(u)))
                bad(lambda: S.call(x.handle, 'set_attributes', **{S.attr_name(kind, p) + '.units': S.val(u)}))
        for nm in (5, None, b'x', ['A'], 'not a good name!', 'x' * 300):
            bad(lambda: S.set(x.handle, 'name', S.val(nm)))
        for o in ('x', -1, 1.5, 2 ** 31, 77):
            bad(lambda: S.set(x.handle, 'origin_reference', S.val(o)))
        if kind == 'channel':
            for v in (5, None, 'HELP', ['x']):
                bad(lambda: S.set(x.handle, 'dataset_name', S.val(v)))
            for v in (5, 'x', 'f4', [1]):
                bad(lambda: S.set(x.handle, 'cast_dtype', S.val(v)))
            for p in ('dimension', 'element_limit', 'representation_code'):
                at = S.get(x.handle, p)
                for v in ('x', [1.5], ['x'], -1, r.of('zone'), 99):
                    bad(lambda: S.set(at, 'value', S.val(v)))
        if kind == 'frame':
            at = S.get(x.handle, 'channels')
            for v in ('x', [r.of('zone')], [r.of('channel'), r.of('zone')], 5, [None]):
                bad(lambda: S.set(at, 'value', S.val(v)))
        return {}
    return twice(story, f'assignments to {kind}', hc)


def file_level(hc=False):
    """logical files, no-format data and the file itself"""
    def story(S, bad):
        S.dlis()
        for k in (dict(fh_id=5), dict(fh_id='x' * 70), dict(fh_id='caf\u00e9'), dict(fh_identifier=5),
                  dict(fh_identifier='12'), dict(fh_sequence_number='x'), dict(fh_sequence_number=-1),
                  dict(fh_sequence_number=10 ** 11), dict(fh_id=None), dict(nonsense=1), dict(fh_id='not good!')):
            bad(lambda: S.call(S.file, 'add_logical_file', **k))
        r = R(S)
        r.all_for('parameter')
        nf = S.add(r.lf, 'no_format', 'NF')
        nf2 = S.add(r.lf, 'no_format', 'NF')
        for o, d in ((5, b'x'), (r.of('zone').handle, b'x'), (None, b'x'), (nf.handle, 5), (nf.handle, None),
                     (nf.handle, 1.5), ('NF', b'x'), (nf2.handle, [b'x']), (nf2.handle, ['x'])):
            bad(lambda: S.call(r.lf.handle, 'add_no_format_frame_data', o, S.val(d)))
        S.nof_data(r.lf, nf2, b'second')
        S.nof_data(r.lf, nf, b'first')
        for k in (dict(fh_id=5), dict(fh_id='x' * 70), dict(fh_identifier='12'), dict(fh_sequence_number=-1)):
            bad(lambda: S.call(S.file, 'add_logical_file', **k))
        r2 = R(S, sn={'set_name': 'S2'}, lf=S.lf(fh_id='SECOND', fh_sequence_number=2))
        r2.of('channel'), r2.of('frame')
        for k in (dict(fh_id='x' * 70), dict(fh_sequence_number='x')):
            bad(lambda: S.call(S.file, 'add_logical_file', **k))
        r2.of('axis'), r.of('zone')
        # objects of one logical file in a call of the other one, where it is refused at once
        bad(lambda: r2.raw('parameter', 'P', dict(zones=[r2.of('axis')])))
        bad(lambda: r2.raw('frame', 'F', dict(channels=[r.of('zone')])))
        bad(lambda: r2.raw('origin', 'O', dict(origin_reference=0, file_set_number=1, creation_time=NOW, set_name='S2')))
        fh = S.get(r.lf.handle, 'file_header')
        for a, v in (('header_id', 5), ('header_id', 'x' * 70), ('sequence_number', 'x'), ('sequence_number', -1),
                     ('identifier', 'xyz'), ('identifier', 5)):
            bad(lambda: S.set(fh, a, v))
        return {}
    return twice(story, 'logical files and no-format data', hc)


# ------------------------------------------------------------------ writes that fail
class W:
    """a specification whose write fails until the cause is removed.  `fail(S)` makes the failing calls of write()"""
    def __init__(self, S, bad):
        self.S, self.bad = S, bad

    def __call__(self, **k):
        self.bad(lambda: self.S.write('/out/failing.dlis', **k))


CH = [('A', '<f8', None), ('B', '>u2', 2), ('D', '<f4', None)]


def frames_of(S, src, fk=None, values=True, rows=4, cast=None, nf=1, sn={}):
    """frames over literal and unknown data; returns the logical file, the channels and the good keywords of write()"""
    lf = S.lf(fh_id='H')
    S.origin(lf, **sn)
    fr = []
    for i in range(nf):
        cs = [C(f'{n}{i or ""}', dt, w, cast=cast if j else None, values=[1.0, 2.0, 3.0, 4.0][:rows] if not j and values else None)
              for j, (n, dt, w) in enumerate(CH)]
        fr.append((f'F{i}', cs, dict(fk or {}, rows=rows)))
    kw = supply(S, lf, fr, src, rows)
    return lf, fr, kw


def short_dict(S, cs, change, rows):
    """data unlike the good ones: `change` names a channel; its array has other rows, types or widths, or is missing"""
    d = VDict()
    for i, c in enumerate(cs):
        dt, w, n, vals = c.dt, c.width, rows, c.values
        for ch, what, arg in change:
            if ch == i:
                if what == 'rows':
                    n = arg
                elif what == 'type':
                    dt = arg
                elif what == 'width':
                    w = arg
                elif what == 'missing':
                    n = None
                elif what == 'values':
                    vals = arg
                elif what == 'object':
                    S.it.dict_set(d, c.dsname, arg)
                    n = None
        if n is None:
            continue
        cc = C(c.name, dt, w, values=[vals[k % len(vals)] for k in range(n)] if vals else None)
        S.it.dict_set(d, c.dsname, cc.array(S, n, 'bad-' + c.name))
    return d


CHANGES = {
    'a channel without data': [(1, 'missing', 0)], 'the index without data': [(0, 'missing', 0)],
    'the last channel without data': [(2, 'missing', 0)],
    'short rows': [(1, 'rows', 3)], 'long rows': [(2, 'rows', 7)], 'short index': [(0, 'rows', 2)],
    'other types and short rows': [(0, 'type', '<i4'), (1, 'width', 3), (2, 'rows', 2)],
    'other index values and short rows': [(0, 'values', [9.0, 7.0, 5.0, 3.0]), (2, 'rows', 3)],
    'other widths and short rows': [(0, 'rows', 5), (1, 'width', None), (2, 'width', 4)],
    'unsupported type': [(2, 'type', '<i8')], 'unsupported index type': [(0, 'type', '<u8')],
    'other types and an unsupported one': [(0, 'type', '<f4'), (1, 'type', '<i2'), (2, 'type', '<u8')],
    'no array': [(2, 'object', 5)], 'a list': [(1, 'object', 'x')],
}


def failing_data(change, src='none', fk=None, cast=None, times=1, then='dict', nf=1):
    """write() with unusable data, then with good ones, from a dictionary, a structured array or a file"""
    def story(S, bad):
        S.dlis()
        lf, fr, kw = frames_of(S, 'none', fk, cast=cast, nf=nf)
        cs = [c for _, x, _ in fr for c in x]
        w = W(S, bad)
        for i in range(times):
            for ch in (CHANGES[change],) if isinstance(change, str) else [CHANGES[c] for c in change]:
                w(data=short_dict(S, cs, ch, 4))
        if then == 'struct':
            return dict(data=struct_array(S, cs, 4))
        if then == 'h5':
            return dict(data=h5_file(S, cs, 4))
        d = VDict()
        for c in cs:
            S.it.dict_set(d, c.dsname, c.array(S, 4))
        return dict(data=d)
    return twice(story, str(change))


BAD_WRITE = (dict(input_chunk_size=0), dict(input_chunk_size=-1), dict(input_chunk_size='x'), dict(input_chunk_size=1.5),
             dict(output_chunk_size=0), dict(output_chunk_size='x'), dict(output_chunk_size=100), dict(output_chunk_size=-5),
             dict(from_idx=4), dict(from_idx=9), dict(from_idx='x'), dict(to_idx=0), dict(to_idx=99), dict(from_idx=3, to_idx=2),
             dict(from_idx=-1), dict(to_idx=-1), dict(to_idx='x'), dict(data=5), dict(data='no-such-file.h5'), dict(data=[1]),
             dict(data='text'))


def failing_arguments(src, fk=None, cast=None, which=BAD_WRITE):
    """write() with unusable arguments, then with good ones"""
    def story(S, bad):
        S.dlis()
        lf, fr, kw = frames_of(S, src, fk, cast=cast)
        w = W(S, bad)
        for k in which:
            w(**{**kw, **k})
        return kw
    return twice(story, 'write arguments')


def failing_output(src, how, fk=None, cast=None, big=False):
    """the output cannot be opened or its device is full, then it can"""
    def story(S, bad):
        S.dlis()
        lf, fr, kw = frames_of(S, src, fk, cast=cast)
        nf = S.add(lf, 'no_format', 'NF')
        for i in range(3):
            S.nof_data(lf, nf, S.bytes(f'n{i}', 10 + i))
        if bad.on:
            def fail(**k):
                try:
                    S.write('/out/with.dlis' if how != 'denied' else '/out/failing.dlis', **kw, **k)
                except PyRaise:
                    bad.n += 1
            if how == 'denied':
                S.fs.denied.add('/out/failing.dlis')
                fail()
                fail(input_chunk_size=1)
            else:
                for r in range(how):
                    S.fs.room = r
                    fail(output_chunk_size=8192 if not big else 2 ** 20, input_chunk_size=2)
                S.fs.room = None
        return kw
    return twice(story, 'output')


def cause(name):
    """(break_it, mend_it): something in the specification which makes every write fail, and its removal; the reference
    specification never had it"""
    def story(S, bad):
        broken = bad.on
        S.dlis()
        lf = S.lf(fh_id='H')
        w = W(S, bad)
        go = lambda **k: w(**k) if broken else None
        if name == 'no objects':
            go()
        if name == 'no origin':
            pass
        else:
            S.origin(lf, 'O')
        if name == 'no frame' or name == 'no objects':
            go()
        cs = [chan(S, lf, 'A', '<f8', (3,), values=None, arr=C('A', '<f8', values=[1.0, 3.0, 5.0]).array(S, 3)),
              chan(S, lf, 'B', '<u2', (3, 2))]
        if name == 'channel without frame':
            go()
        f = S.add(lf, 'frame', 'F', channels=cs, index_type='BOREHOLE-DEPTH')
        z = S.add(lf, 'zone', 'Z', description='a zone')
        z2 = S.add(lf, 'zone', 'Z')
        p = S.add(lf, 'parameter', 'P', zones=[z], values=[1.5])
        e = S.add(lf, 'equipment', 'E', trademark_name='T', height=2.0)
        g = S.add(lf, 'group', 'G', object_list=[z, p])
        nf = S.add(lf, 'no_format', 'NF')
        S.nof_data(lf, nf, b'payload')
        v = lambda x, a, val: S.set(S.get(x.handle, a), 'value', S.val(val))
        if name == 'no origin':
            go()
            S.origin(lf, 'O')
        elif name == 'text too long':
            if broken:
                v(e, 'serial_number', 'x' * 300)
                go()
            v(e, 'serial_number', 'short')
        elif name == 'name too long':
            if broken:
                S.set(z.handle, 'name', 'x' * 300)
                go()
                S.set(z.handle, 'name', 'Z')
        elif name == 'not ascii':
            if broken:
                v(z, 'description', 'caf\u00e9')
                go()
                v(z, 'description', 'a zone')
        elif name == 'wrong origin':
            if broken:
                S.set(z.handle, 'origin_reference', 77)
                go()
            S.set(z.handle, 'origin_reference', 0)
        elif name == 'no such object':
            # a reference to an object of another file
            if broken:
                T_ = proc(S, '/out/x.dlis')
                T_.dlis()
                l2 = T_.lf(fh_id='X')
                zz = T_.add(l2, 'zone', 'Z')
                v(p, 'zones', [z, zz])
                v(g, 'object_list', [zz])
                go()
            v(p, 'zones', [z])
            v(g, 'object_list', [z, p])
        elif name == 'number out of range':
            if broken:
                S.set(S.get(S.get(lf.handle, 'defining_origin'), 'descent_number'), 'value', 2 ** 20)
                go()
            S.set(S.get(S.get(lf.handle, 'defining_origin'), 'descent_number'), 'value', 20)
        elif name == 'names in the mode':
            if broken:
                S.set(z.handle, 'name', 'not allowed here')
                S.set(cs[0].handle, 'name', 'not allowed')
                try:
                    with HC(S):
                        S.write('/out/failing.dlis')
                except PyRaise:
                    bad.n += 1
                S.set(z.handle, 'name', 'Z')
                S.set(cs[0].handle, 'name', 'A')
        elif name == 'signed data in the mode':
            if broken:
                S.set(cs[1].handle, 'cast_dtype', np_type(S, 'int16'))
                try:
                    with HC(S):
                        S.write('/out/failing.dlis')
                except PyRaise:
                    bad.n += 1
                S.set(cs[1].handle, 'cast_dtype', None)
        elif name == 'dimension':
            if broken:
                v(cs[1], 'dimension', [3])
                go()
            v(cs[1], 'dimension', [2])
        elif name == 'element limit':
            if broken:
                v(cs[1], 'element_limit', [1])
                go()
            v(cs[1], 'element_limit', [2])
        elif name == 'frame without channels':
            if broken:
                v(f, 'channels', [])
                go()
            v(f, 'channels', cs)
        elif name == 'foreign channel':
            if broken:
                T_ = proc(S, '/out/x.dlis')
                T_.dlis()
                c2 = chan(T_, T_.lf(fh_id='X'), 'A', '<f4', (3,))
                v(f, 'channels', [cs[0], c2])
                go()
            v(f, 'channels', cs)
        elif name == 'dataset name':
            if broken:
                S.set(cs[1].handle, 'dataset_name', 'missing')
                go()
                go(data=VDict())
            S.set(cs[1].handle, 'dataset_name', 'B')
        elif name == 'long header in the mode':
            if broken:
                fh = S.get(lf.handle, 'file_header')
                S.set(fh, 'header_id', 'not good')
                try:
                    with HC(S):
                        S.write('/out/failing.dlis')
                except PyRaise:
                    bad.n += 1
                S.set(fh, 'header_id', 'H')
        elif name == 'second logical file without origin':
            l2 = S.lf(fh_id='H2', fh_sequence_number=2)
            sn = dict(set_name='S2')
            c = chan(S, l2, 'A', '<f4', (2,), **sn)
            go()
            S.origin(l2, 'O2', **sn)
            go()
            frame(S, l2, 'F', [c], **sn)
        elif name == 'second logical file empty':
            l2 = S.lf(fh_id='H2', fh_sequence_number=2)
            sn = dict(set_name='S2')
            go()
            S.origin(l2, 'O2', **sn)
            c = chan(S, l2, 'A', '<f4', (2,), **sn)
            go()
            frame(S, l2, 'F', [c], **sn)
        S.add(lf, 'zone', 'Z')
        return {}
    return twice(story, name)


CAUSES = ('no frame', 'no origin', 'channel without frame', 'no objects', 'text too long', 'name too long',
          'not ascii', 'wrong origin', 'no such object', 'number out of range', 'names in the mode', 'signed data in the mode', 'dimension', 'element limit', 'frame without channels',
          'foreign channel', 'dataset name', 'long header in the mode', 'second logical file without origin',
          'second logical file empty')


def failing_mode(values, fk, src, inside):
    """data which the high-compatibility mode refuses, then other data"""
    def story(S, bad):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        ok = C('A', '<f8', values=[1.0, 1.5, 2.0, 2.5])
        cs = [ok, C('B', '<u2', 2)]
        supply(S, lf, [('F', cs, dict(fk, rows=4))], 'none', 4)

        def d(c):
            if src == 'struct':
                return struct_array(S, [c, cs[1]], 4)
            if src == 'h5':
                return h5_file(S, [c, cs[1]], 4, path=f'/in/{c is ok}.h5')
            x = VDict()
            S.it.dict_set(x, 'A', c.array(S, 4))
            S.it.dict_set(x, 'B', cs[1].array(S, 4))
            return x
        ko = C('A', values[0], values=values[1])

        def f():
            with HC(S):
                S.write('/out/failing.dlis', data=d(ko))
        bad(f)
        if inside:
            # one more correct write within the mode, of which nothing may stay either
            def g():
                with HC(S):
                    S.write('/out/inside.dlis', data=d(ok))
            if bad.on:
                g()
        return dict(data=d(ok))
    return twice(story, 'data refused in the mode')


def rejected_inline(k, then):
    """inline data given in a rejected call, data from another source at the write"""
    def story(S, bad):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        cs = [C(n, dt, w) for n, dt, w in CH]
        for c in cs:
            for kk in k:
                bad(lambda: S.call(lf.handle, 'add_channel', c.name, **{a: S.val(v) for a, v in
                                                                       {'data': c.array(S, 4, 'rejected'), **kk}.items()}))
        kw = supply(S, lf, [('F', cs, {})], then, 4)
        return kw
    return twice(story, 'inline data')


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []

    def add(name, b, **k):
        out.append(Scenario(name, b, judge, expect='any', **dict(dict(paths=40, seconds=90), **k)))
    for kind in KINDS:
        for stage in STAGES:
            for part in ('values', 'call'):
                for sets in (None, 'SET'):
                    for hc in (False, True):
                        if q and (sets, hc) == ('SET', True) and stage != 'throughout':
                            continue
                        add(f'{kind}: rejected {part}, {stage}, set {sets}, mode {hc}',
                            one_kind(kind, stage, part, sets, hc))
        for stage in ('fresh', 'set', 'written'):
            for hc in (False, True):
                add(f'{kind}: rejected assignments, {stage}, mode {hc}', assigned(kind, stage, hc))
        for i in range(12 if q else 150):
            add(f'{kind}: one rejected call {i}', single(kind, f'{seed}-{kind}-{i}', i % 4 == 3))
    for hc in (False, True):
        add(f'logical files and no-format data, mode {hc}', file_level(hc))
    for i in range(100 if q else 1500):
        add(f'random calls {i}', mixed(f'{seed}-{i}', 8 + i % 25, 1 if i % 3 else 2))
    ix = {'index_type': 'BOREHOLE-DEPTH'}
    for fk in (None, ix, {**ix, 'spacing': 1.0}, {**ix, 'index_min': 0.5}):
        for cast in (None, 'f4'):
            for ch in CHANGES:
                for then in ('dict', 'struct', 'h5'):
                    if q and then != 'dict' and cast:
                        continue
                    add(f'write fails: {ch}; then {then}, frame {fk}, cast {cast}', failing_data(ch, 'none', fk, cast, 1, then))
            add(f'write fails for all reasons, frame {fk}, cast {cast}', failing_data(tuple(CHANGES), 'none', fk, cast, 2))
            for ch in CHANGES:
                add(f'write fails: {ch}; two frames {fk}, cast {cast}', failing_data(ch, 'none', fk, cast, 1, 'dict', 2))
            for src in SOURCES:
                add(f'write fails for its arguments, {src}, frame {fk}, cast {cast}', failing_arguments(src, fk, cast))
                if src in ('inline', 'dict', 'h5', 'struct'):
                    add(f'output denied, {src}, frame {fk}, cast {cast}', failing_output(src, 'denied', fk, cast))
                    add(f'device full, {src}, frame {fk}, cast {cast}', failing_output(src, 6, fk, cast))
    for k in BAD_WRITE:
        for src in ('inline', 'dict', 'struct', 'h5'):
            add(f'write fails for {k}, {src}', failing_arguments(src, ix, None, (k,)))
    for vals in (('<f8', [1.0, 2.0, 4.0, 8.0]), ('<f4', [3.0, 2.0, 2.0, 9.0]), ('<i2', [4, 3, 2, 1]), ('<f8', [5.0, 5.0, 5.0, 5.0]),
                 ('<i4', [1, 2, 4, 5])):
        for fk in (ix, {**ix, 'spacing': 0.5}, {**ix, 'index_max': 9.5}, {}):
            for src in ('dict', 'struct', 'h5'):
                for ins in (False, True):
                    add(f'refused in the mode: {vals}, {src}, frame {fk}, another write {ins}', failing_mode(vals, fk, src, ins))
    for c in CAUSES:
        add(f'write fails: {c}', cause(c))
    for then in ('inline', 'dict', 'struct', 'h5', 'mixed'):
        for k in ({'units': 5}, {'cast_dtype': 'x'}, {'minimum_value': 'x'}, {'properties': [5]}, {'dimension': ['x']},
                  {'axis': 'x'}, {'set_name': 5}, {'origin_reference': 'x'}, {'long_name': 5}, {'source': 5}, {'data': 5},
                  {'dataset_name': 5}):
            add(f'inline data rejected for {k}, then {then}', rejected_inline([k], then))
    return out
