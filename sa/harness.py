"""Scenarios: abstract specifications built through the public API, the byte term of the resulting file, obligations.

A scenario is analysed on every partition of its inputs.  On a partition the obligations are first decided on terms
(holding for every instance of the partition).  An obligation that is not proved is evaluated on instances of the same
partition; only an instance that breaks the property makes an alarm, everything else is reported as undecided.
"""
import datetime as _dt
import os
import sys
import time

from .lin import Atom, Num, N, add, sub, scale, Infeasible
from .terms import SSeq, SVar, PNum, PSlice, PCell, mk, parts_of, simp, kind_of, concat
from .ctx import Ctx, Unsupported, Cut, Model, explore, slen_
from .values import *
from .libs import VFile, VFileModel
from . import npm, spec, libs
from .spec import Bad, Unk
from .interp import Interp

ROOT = os.environ.get('SA_ROOT', '/repo/src')
_engine = {}


def engine():
    """the abstract program: every module of the package analysed once per process"""
    if 'it' not in _engine:
        sys.setrecursionlimit(30000)
        it = Interp(ROOT)
        _engine['m'] = it.import_module('dliswriter')
        _engine['it'] = it
    return _engine['it'], _engine['m']


# ------------------------------------------------------------------ file system model
class FS:
    """what is on disk, and when it gets there"""
    def __init__(self, files=None):
        self.files = dict(files or {})     # path -> byte term
        self.snaps = []                    # (kind, path, content) after each flush / close
        self.ops = []
        self.denied = set()                # paths which cannot be opened for writing
        self.room = None                   # number of writes until the disk is full

    def exists(self, it, path):
        return path in self.files

    def size(self, it, path):
        if path not in self.files:
            raise it.throw('FileNotFoundError', path)
        return simp(N(slen_(self.files[path])))

    def open(self, it, path, mode, kw):
        if kind_of(path) == 's' and isinstance(path, SSeq):
            raise it.unsupported('file name of unknown text')
        path = str(path)
        if path in self.denied:
            raise it.throw('PermissionError', path)
        if 'x' in mode and path in self.files:
            raise it.throw('FileExistsError', path)
        if 'w' in mode or 'x' in mode:
            self.files[path] = b''
            self.ops.append(('truncate', path, it.where()))
        elif 'a' in mode:
            if path not in self.files:
                self.files[path] = b''
                self.ops.append(('create', path, it.where()))
        elif path not in self.files:
            raise it.throw('FileNotFoundError', path)
        f = VFile(it, path, mode)
        f.pos = None if 'a' in mode else 0
        f.pending = b''
        return f

    def event(self, it, kind, f, data):
        if kind == 'write':
            if self.room is not None:
                if self.room <= 0:
                    raise it.throw('OSError', 'No space left on device')
                self.room -= 1
            cur = self.files[f.path]
            if f.pos is None or (it.ctx.branch('==', sub(N(f.pos), slen_(cur)))):
                self.files[f.path] = concat(cur, data)
                if f.pos is not None:
                    f.pos = simp(N(slen_(self.files[f.path])))
            else:
                if not it.ctx.branch('<=', sub(N(f.pos), slen_(cur))):
                    raise it.unsupported('writing behind the end of a file')
                head, tail = it.ctx.split(cur, N(f.pos))
                n = N(slen_(data))
                if it.ctx.branch('>=', sub(n, slen_(tail))):
                    tail = b''
                else:
                    tail = it.ctx.split(tail, n)[1]
                self.files[f.path] = concat(concat(head, data), tail)
                f.pos = simp(add(N(f.pos), n))
            self.ops.append(('write', f.path, it.where()))
        elif kind in ('flush', 'close'):
            self.snaps.append((kind, f.path, self.files.get(f.path), it.where()))
        elif kind == 'read':
            cur = self.files[f.path]
            at = N(0) if f.pos is None else N(f.pos)
            if not it.ctx.branch('<=', sub(at, slen_(cur))):
                return b''
            rest = it.ctx.split(cur, at)[1]
            n = data[0] if data else None
            if n is None or it.ctx.branch('<', N(n)) or it.ctx.branch('>=', sub(N(n), slen_(rest))):
                f.pos = simp(N(slen_(cur)))
                return rest
            f.pos = simp(add(at, N(n)))
            return it.ctx.split(rest, N(n))[0]
        elif kind == 'truncate':
            n = data[0] if data else None
            if n is None:
                n = simp(N(slen_(self.files[f.path]))) if f.pos is None else f.pos
            self.files[f.path] = it.ctx.split(self.files[f.path], N(n))[0]
            self.ops.append(('truncate', f.path, it.where()))
        elif kind == 'seek':
            off, wh = data if len(data) > 1 else (data[0], 0)
            base = 0 if wh == 0 else (f.pos or 0) if wh == 1 else simp(N(slen_(self.files[f.path])))
            f.pos = simp(add(base, off))
            return f.pos
        elif kind == 'remove':
            if data not in self.files:
                raise it.throw('FileNotFoundError', data)
            del self.files[data]
            self.ops.append(('remove', data, it.where()))
        elif kind == 'rename':
            src, data = data
            if src not in self.files:
                raise it.throw('FileNotFoundError', src)
            self.files[data] = self.files.pop(src)
            self.ops.append(('rename', data, it.where()))
            self.snaps.append(('rename', data, self.files[data], it.where()))
        else:
            raise it.unsupported(f'file operation {kind}')

    def tell(self, it, f):
        return simp(N(slen_(self.files[f.path]))) if f.pos is None else f.pos


# ------------------------------------------------------------------ expected objects (the oracle's view)
LABEL = {('equipment', 'eq_type'): 'TYPE', ('message', 'message_type'): 'TYPE',
         ('calibration_measurement', 'measurement_type'): 'TYPE', ('frame', 'encrypted'): 'ENCRYPTED'}
SET = {'axis': 'AXIS', 'calibration': 'CALIBRATION', 'calibration_coefficient': 'CALIBRATION-COEFFICIENT',
       'calibration_measurement': 'CALIBRATION-MEASUREMENT', 'channel': 'CHANNEL', 'comment': 'COMMENT',
       'computation': 'COMPUTATION', 'equipment': 'EQUIPMENT', 'frame': 'FRAME', 'group': 'GROUP',
       'long_name': 'LONG-NAME', 'message': 'MESSAGE', 'no_format': 'NO-FORMAT', 'origin': 'ORIGIN',
       'parameter': 'PARAMETER', 'path': 'PATH', 'process': 'PROCESS', 'splice': 'SPLICE', 'tool': 'TOOL',
       'well_reference_point': 'WELL-REFERENCE', 'zone': 'ZONE'}
NOT_ATTR = ('set_name', 'origin_reference', 'data', 'dataset_name', 'cast_dtype')

ANY = object()          # a value is allowed but not prescribed here


class Exp:
    """expected content of one attribute"""
    __slots__ = ('values', 'units')

    def __init__(self, values, units=None):
        self.values, self.units = values, units

    def __repr__(self):
        return f'{self.values}' + (f' [{self.units}]' if self.units is not None else '')


class X:
    """one object of the specification"""
    def __init__(self, kind, name, lf, handle, set_name=None, origin=None):
        self.kind, self.name, self.lf, self.handle, self.set_name, self.origin = kind, name, lf, handle, set_name, origin
        self.set_type = SET.get(kind, 'FILE-HEADER')
        self.attrs = {}
        self.ident = None
        self.data = None
        self.cast = None
        self.explicit_origin = None

    def __repr__(self):
        return f'{self.set_type} {self.name!r}'

    def exp(self, label, values, units=None):
        if not isinstance(values, (list, tuple)):
            values = [values]
        self.attrs[label] = Exp(list(values), units)
        return self

    def absent(self, label):
        self.attrs.pop(label, None)
        return self

    def any(self, label):
        self.attrs[label] = ANY
        return self


class XLF:
    def __init__(self, handle, fh_id, fh_identifier, seq):
        self.handle, self.fh_id, self.fh_identifier, self.seqnum = handle, fh_id, fh_identifier, seq
        self.objs = []
        self.noform = []      # (X, payload term)
        self.frames = []      # X (frame) in creation order

    def of(self, kind):
        return [o for o in self.objs if o.kind == kind]


class XDT:
    """expected instant"""
    def __init__(self, dt):
        self.dt = dt

    def __repr__(self):
        return str(self.dt)


class Rejected(Exception):
    """an API call raised although the scenario calls for it to succeed"""
    def __init__(self, e, what):
        self.e, self.what = e, what


class Sc:
    """one partition of one scenario: builds the specification and keeps the oracle's view of it"""
    def __init__(self, it, m, ctx, other=None):
        self.it, self.m, self.ctx = it, m, ctx
        self.fs = other.fs if other else FS()
        self.memo = other.memo if other else {}
        self.force = {}
        if not other:
            it.fs = self.fs
            it.h5files = {}
        self.file = None
        self.lfs = []
        self.maxlen = 8192
        self.sul = dict(seq=1, set_id='MAIN-STORAGE-UNIT')
        self.calls = []

    def fresh(self, **force):
        """another specification over the same unknowns and the same file system"""
        S = Sc(self.it, self.m, self.ctx, self)
        S.force = force
        return S

    # ---- plain calls
    def call(self, o, name, *a, **k):
        return self.it.call(self.it.getattr(o, name), list(a), k)

    def get(self, o, name):
        return self.it.getattr(o, name)

    def set(self, o, name, v):
        return self.it.setattr(o, name, v)

    def new(self, path, *a, **k):
        """instantiate dliswriter.<path>"""
        return self.it.call(self.name(path), list(a), k)

    def name(self, path):
        o = self.m
        for p in path.split('.'):
            o = self.it.getattr(o, p)
        return o

    def lst(self, xs):
        return VList([self.val(x) for x in xs])

    def val(self, v):
        if isinstance(v, X):
            return v.handle
        if isinstance(v, list):
            return VList([self.val(x) for x in v])
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, dict):
            d = VDict()
            for k, x in v.items():
                self.it.dict_set(d, self.val(k), self.val(x))
            return d
        if isinstance(v, XDT):
            return self.dt(v.dt)
        if isinstance(v, bytearray):
            return VBA(bytes(v))
        return v

    def dt(self, d):
        """abstract value of a given date-time"""
        return libs.dt_native(d)

    def instant(self, name, zone='utc'):
        """unknown date-time: aware in UTC, aware in another zone, or naive (the local zone unknown)"""
        if ('instant', name, zone) in self.memo:
            return self.memo['instant', name, zone]
        v = self.memo['instant', name, zone] = libs.VDatetime(libs.fresh_fields(self.it, name), libs.UTC if zone == 'utc' else
                           libs.VZone('other') if zone == 'other' else None, None, name)
        if zone != 'utc':
            v.utc(self.it)
        return v

    # ---- unknowns
    def text(self, name, n, ascii=True, hint='ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_'):
        """unknown text of n characters"""
        if ('text', name) in self.memo:
            return self.memo['text', name]
        v = SVar(name, 's', n if isinstance(n, (int, Num)) else None, hint=hint if ascii else None)
        if ascii is True:
            self.ctx.set_pred(('ascii', v.uid), lambda m, v=v: m.var(v).isascii(), True, f'{name} is ASCII')
        return self.memo.setdefault(('text', name), v.term())

    def bytes(self, name, n):
        return self.memo.get(('bytes', name)) or self.memo.setdefault(('bytes', name), SVar(name, 'b', n).term())

    def int(self, name, lo=None, hi=None):
        if ('int', name) not in self.memo:
            self.memo['int', name] = Num.of(Atom(name, lo=lo, hi=hi))
        return self.memo['int', name]

    def real(self, name, lo=None, hi=None):
        if ('real', name) not in self.memo:
            self.memo['real', name] = Num.of(Atom(name, isint=False, lo=lo, hi=hi))
        return self.memo['real', name]

    # ---- specification
    def dlis(self, **k):
        k.update(self.force)
        self.maxlen = k.get('max_record_length', 8192)
        self.sul = dict(seq=k.get('sul_sequence_number', 1), set_id=k.get('set_identifier', 'MAIN-STORAGE-UNIT'))
        self.file = self.new('DLISFile', **{a: self.val(b) for a, b in k.items()})
        return self.file

    def lf(self, **k):
        if self.file is None:
            self.dlis()
        h = self.call(self.file, 'add_logical_file', **k)
        x = XLF(h, k.get('fh_id', 'FILE-HEADER'), k.get('fh_identifier', '0'), k.get('fh_sequence_number', 1))
        self.lfs.append(x)
        return x

    def add(self, lf, kind, name, unit_of=None, route='kw', **k):
        """add_<kind>; `unit_of` maps parameter names to units; route: kw | dict | AttrSetup | later"""
        args = {}
        later = []
        units = unit_of or {}
        for a, v in k.items():
            w = self.val(v)
            u = units.get(a)
            if a in NOT_ATTR or v is None or (kind, a) == ('frame', 'channels'):
                args[a] = w
            elif route == 'dict' or route == 'kw' and u is not None:
                args[a] = self.val({'value': v, **({'units': u} if u is not None else {})})
            elif route == 'AttrSetup':
                args[a] = self.new('AttrSetup', w, **({'units': u} if u is not None else {}))
            elif route == 'later' and not (kind, a) in (('origin', 'file_set_number'), ('origin', 'creation_time')):
                later.append((a, w, u))
            else:
                args[a] = w
        h = self.call(lf.handle, 'add_' + kind, name, **args)
        for a, w, u in later:
            at = self.it.getattr(h, self.attr_name(kind, a))
            self.it.setattr(at, 'value', w)
            if u is not None:
                self.it.setattr(at, 'units', u)
        x = X(kind, name, lf, h, k.get('set_name') or None)
        x.explicit_origin = k.get('origin_reference')
        for a, v in k.items():
            if a in NOT_ATTR or v is None:
                continue
            vs = self.flat(v) if isinstance(v, (list, tuple)) else [v]
            if not vs:
                continue
            x.attrs[self.label(kind, a)] = Exp(vs, units.get(a))
        if kind == 'channel':
            x.data = k.get('data')
            x.cast = k.get('cast_dtype')
            x.attrs.setdefault('LONG-NAME', Exp([name]))
            for l in ('REPRESENTATION-CODE', 'DIMENSION', 'ELEMENT-LIMIT'):
                x.attrs.setdefault(l, ANY)
        elif kind == 'frame':
            x.channels = list(k['channels'])
            for l in ('SPACING', 'INDEX-MIN', 'INDEX-MAX', 'DIRECTION'):
                x.attrs.setdefault(l, ANY)
            lf.frames.append(x)
        elif kind == 'origin':
            x.attrs['FILE-ID'] = Exp([lf.fh_id])
            x.attrs.setdefault('FIELD-NAME', Exp(['WILDCAT']))
            x.attrs.setdefault('FILE-SET-NUMBER', ANY)
            x.attrs.setdefault('CREATION-TIME', ANY)
        elif kind in ('computation', 'parameter', 'calibration_measurement'):
            vals = 'VALUES' if kind != 'calibration_measurement' else None
            if kind == 'calibration_measurement' or vals in x.attrs:
                x.attrs.setdefault('DIMENSION', ANY)
        lf.objs.append(x)
        self.calls.append(f'add_{kind}({name!r})')
        return x

    @staticmethod
    def flat(v):
        out = []
        for w in v:
            if isinstance(w, (list, tuple)):
                out.extend(Sc.flat(w))
            else:
                out.append(w)
        return out

    @staticmethod
    def label(kind, a):
        return LABEL.get((kind, a)) or a.upper().replace('_', '-')

    def attr_name(self, kind, a):
        return {('equipment', 'eq_type'): '_type', ('message', 'message_type'): '_type',
                ('calibration_measurement', 'measurement_type'): 'type'}.get((kind, a), a)

    CT = _dt.datetime(2020, 3, 5, 11, 22, 33, 444000, tzinfo=_dt.timezone.utc)

    def origin(self, lf, name='ORIGIN', **k):
        k.setdefault('file_set_number', 42)
        k.setdefault('creation_time', XDT(self.CT))
        return self.add(lf, 'origin', name, **k)

    def array(self, name, dt, shape, order='C', values=None):
        return npm.source(self.it, name, npm.plain(dt), tuple(shape), order=order, values=values)

    def nof_data(self, lf, x, payload):
        self.call(lf.handle, 'add_no_format_frame_data', x.handle, self.val(payload))
        lf.noform.append((x, payload))

    PATH = '/out/f.dlis'

    def write(self, path=None, **k):
        path = path or self.PATH
        self.call(self.file, 'write', path, **{a: self.val(b) for a, b in k.items()})
        return self.fs.files.get(path)

    def out(self, path=None):
        return self.fs.files.get(path or self.PATH)


# ------------------------------------------------------------------ obligations
class Finding:
    __slots__ = ('prop', 'rule', 'msg')

    def __init__(self, prop, rule, msg):
        self.prop, self.rule, self.msg = prop, rule, msg

    def __repr__(self):
        return f'{self.prop} {self.rule}: {self.msg}'


class Judge:
    """decides obligations on terms (m is None) or on one instance (m a Model)"""
    def __init__(self, ctx, prop, m=None):
        self.prop, self.m = prop, m
        self.ctx = ctx if m is None else Ctx()
        self.findings = []
        self.open = []          # obligations neither proved nor refuted on terms
        self.n = 0
        self.rules = {}

    def v(self, x):
        """instance of a term"""
        if self.m is None:
            return x
        if isinstance(x, Num):
            r = self.m.num(x)
            return float(r) if x.isfloat else r
        if isinstance(x, SSeq):
            return self.m.seq(x)
        if isinstance(x, (list, tuple)):
            return type(x)(self.v(y) for y in x)
        return x

    def ok(self, rule):
        self.n += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1

    def fail(self, rule, msg, prop=None):
        self.n += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        self.findings.append(Finding(prop or self.prop, rule, msg))

    def maybe(self, rule, msg):
        self.n += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        self.open.append(f'{rule}: {msg}')

    def check(self, cond, rule, msg):
        """cond: True / False / None"""
        if cond is None:
            self.maybe(rule, msg)
        elif cond:
            self.ok(rule)
        else:
            self.fail(rule, msg)
        return cond

    # -- three-valued equality
    def num_eq(self, a, b):
        a, b = self.v(a), self.v(b)
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return (a != a) == (b != b) if not isinstance(a, Num) and not isinstance(b, Num) else None
        if not isinstance(a, Num) and not isinstance(b, Num):
            return a == b
        for p in (a, b):
            if isinstance(p, float) and p in (float('inf'), float('-inf')):
                return None
        return self.ctx.facts.decide('==', sub(a, b))

    def bytes_eq(self, a, b):
        a, b = self.v(a), self.v(b)
        return self.ctx.seq_eq(a, b)

    def text_eq(self, exp, got):
        """expected text against decoded bytes"""
        exp = self.v(exp)
        if isinstance(exp, str):
            if not exp.isascii():
                return False
            exp = exp.encode('ascii')
        elif isinstance(exp, SSeq) and exp.kind == 's':
            exp = self.ctx.encode(self.ctx.norm(exp))
        return self.ctx.seq_eq(exp, self.v(got))


def decode(ctx, term):
    ph = spec.parse_phys(ctx, term)
    return ph, spec.parse_logical(ctx, ph)


# ------------------------------------------------------------------ running scenarios
class Scenario:
    """name, build(S) -> any, judge(J, S, term)"""
    def __init__(self, name, build, judge=None, expect='ok', paths=400, seconds=60, tags=(), loop=None, tries=16):
        self.name, self.build, self.judge, self.expect = name, build, judge, expect
        self.paths, self.seconds, self.tags, self.loop, self.tries = paths, seconds, tags, loop, tries

    def __repr__(self):
        return self.name


def exc_name(e):
    return e.exc.cls.name


def run_scenario(sc, prop, seed=1, verbose=False):
    it, m = engine()
    it.loop_bound = sc.loop or 6
    res = dict(name=sc.name, paths=0, obligations=0, rules={}, undecided=[], violations=[], raises={}, steps=0)
    t0 = time.time()

    def run(ctx):
        it.begin_path(ctx)
        try:
            return one(ctx)
        finally:
            res['steps'] += it.steps
            it.end_path()
            it.fs = None

    def one(ctx):
        S = Sc(it, m, ctx)
        raised = None
        term = None
        try:
            term = sc.build(S)
        except PyRaise as e:
            raised = e
        S.warnings = list(it.warnings)
        S.events = list(it.events)
        if raised is not None:
            if not raised.exc.cls.issub(it.builtins['Exception']):
                return [('undecided', 'raises ' + exc_name(raised))]
            k = f'{exc_name(raised)} at {raised.where}'
            res['raises'][k] = res['raises'].get(k, 0) + 1
            if sc.expect in ('raise', 'raise-or-faithful', 'any'):
                if sc.expect == 'raise':
                    res['obligations'] += 1
                    res['rules']['must-raise'] = res['rules'].get('must-raise', 0) + 1
                return []
            return confirm(ctx, S, [f'raises {str(raised)[:300]}'],
                           lambda mm: [Finding(prop, 'accepted-input', f'valid specification is refused: '
                                               f'{str(raised)[:300]}')])
        if sc.expect == 'raise':
            return confirm(ctx, S, ['returns'],
                           lambda mm: [Finding(prop, 'must-raise', 'the call returns normally')])
        if sc.judge is None:
            return []
        J = Judge(ctx, prop)
        msgs = []
        try:
            sc.judge(J, S, term)
        except Bad as b:
            J.fail(b.rule, b.msg)
        except (Unk, Unsupported) as u:
            J.open.append(f'{type(u).__name__}: {u}')
        res['obligations'] += J.n
        for k, n in J.rules.items():
            res['rules'][k] = res['rules'].get(k, 0) + n
        if not J.findings and not J.open:
            return []

        def instance(mm):
            K = Judge(ctx, prop, mm)
            try:
                sc.judge(K, S, inst(mm, term))
            except Bad as b:
                K.fail(b.rule, b.msg)
            return K.findings
        return confirm(ctx, S, [repr(f) for f in J.findings] + J.open, instance, term)

    def inst(mm, t):
        if isinstance(t, (SSeq, Num)):
            return mm.seq(t) if isinstance(t, SSeq) else mm.num(t)
        if isinstance(t, (list, tuple)):
            return type(t)(inst(mm, x) for x in t)
        if isinstance(t, dict):
            return {k: inst(mm, x) for k, x in t.items()}
        return t

    def confirm(ctx, S, why, instance, term=None):
        """is some instance of this partition a violation?"""
        n = 0
        terms = [x for x in flat_terms(term)][:3]
        errs = set()
        for mm in ctx.models(extra=terms, tries=sc.tries, seed=seed):
            n += 1
            try:
                fs = instance(mm)
            except (Unk, Unsupported, OverflowError, ValueError, ZeroDivisionError, TypeError) as e:
                errs.add(f'{type(e).__name__}: {e}'[:120])
                continue
            if fs:
                return [('violation', dict(scenario=sc.name, findings=[repr(f) for f in fs][:8],
                                           rule=fs[0].rule, message=fs[0].msg, instance=mm.describe(),
                                           partition=[l for _, _, l in ctx.log][-40:],
                                           calls=getattr(S, 'calls', []), undecided=why[:5]))]
        return [('undecided', '; '.join(why[:3])[:400] + f' ({n} instances agree with the property'
                 + (f', {sorted(errs)[:2]}' if errs else '') + ')')]

    import traceback
    for oc in explore(run, max_paths=sc.paths, seconds=sc.seconds, where=it.where):
        if oc.kind == 'infeasible':
            continue
        res['paths'] += 1
        if oc.kind == 'undecided':
            res['undecided'].append(oc.info[:300])
            continue
        for kind, info in oc.info:
            if kind == 'violation':
                res['violations'].append(info)
            else:
                res['undecided'].append(info)
        if len(res['violations']) >= 3:
            break
    res['wall'] = round(time.time() - t0, 3)
    return res


def flat_terms(t):
    if isinstance(t, (SSeq, Num)):
        yield t
    elif isinstance(t, (list, tuple)):
        for x in t:
            yield from flat_terms(x)
    elif isinstance(t, dict):
        for x in t.values():
            yield from flat_terms(x)
