"""Metadata fidelity: what the user sets is what a reader gets.

Abstract interpretation of every add_* method and assignment route on unknown numbers, texts and date-times (and
concrete edge values); every attribute decoded from the file must be the value and units given, the documented default,
or absent.
"""
import datetime as _dt

from .kinds import *


def judge(J, S, t):
    V = jd.View(J, S, t)
    jd.match(V)
    jd.fidelity(V)


def single(kind, param, label, value, route, units):
    def b(S):
        S.dlis()
        B = Base(S)
        v = value(B)
        put(B, kind, 'OBJ', {param: v}, route, {param: units} if units else None)
        return S.write()
    return b


def batch(kind, param, vs, route, units):
    """one object per value"""
    def b(S):
        S.dlis()
        B = Base(S)
        for i, (label, value) in enumerate(vs):
            if 'any' in label and 'date-time' in label:
                continue       # analysed on their own
            put(B, kind, f'OBJ{i}', {param: value(B)}, route, {param: units} if units else None)
        return S.write()
    return b


def everything(kind, route='kw', drop=(), units=None, named=False, n=1):
    """all parameters at once"""
    def b(S):
        S.dlis()
        B = Base(S)
        for i in range(n):
            ps = {p: sample(vk, f'{p}{i}-', B, i) for j, (p, vk) in enumerate(KINDS[kind].items()) if p not in drop}
            if kind == 'frame':
                ps.pop('index_type', None)
            if n > 1 and kind == 'origin':
                ps.pop('creation_time')
            un = None
            if units:
                un = {p: UNITS[(j + i) % len(UNITS)] for j, (p, vk) in enumerate(KINDS[kind].items())
                      if vk in HAS_UNITS and p in ps and (route, p) != ('later', 'file_set_number')}
            put(B, kind, f'OBJ{i}', ps, route, un, **({'set_name': 'MY-SET'} if named else {}))
        return S.write()
    return b


CONFLICTS = {'calibration_measurement': ('dimension', 'axis'), 'computation': ('dimension', 'axis', 'zones'),
             'parameter': ('dimension', 'axis', 'zones')}


def defaults(S):
    """nothing assigned anywhere: only the documented defaults"""
    S.dlis()
    B = Base(S)
    for kind in KINDS:
        put(B, kind, f'BARE-{kind.upper()}', {})
    return S.write()


def related(S):
    """values with zones, axes and dimensions that agree"""
    S.dlis()
    B = Base(S)
    lf = B.lf
    zs = [S.add(lf, 'zone', f'Z{i}', domain='BOREHOLE-DEPTH', minimum=S.real(f'lo{i}'), maximum=S.real(f'hi{i}'))
          for i in range(3)]
    ax = S.add(lf, 'axis', 'AX', coordinates=[1.0, 2.0], axis_id='ID')
    ay = S.add(lf, 'axis', 'AY', coordinates=['p', 'q', 'r'])
    S.add(lf, 'computation', 'C1', zones=zs, values=[S.real('v1'), S.real('v2'), S.real('v3')])
    S.add(lf, 'computation', 'C2', zones=zs[:2], axis=[ax], dimension=[2], values=[[1, 2], [S.real('w'), 4]])
    S.add(lf, 'computation', 'C3', axis=[ax, ay], dimension=[2, 3], values=[[[1, 2, 3], [4, 5, 6]]])
    S.add(lf, 'parameter', 'P1', zones=zs[:2], values=['ab', 'c d'])
    S.add(lf, 'parameter', 'P2', zones=zs, values=[S.real('q1'), 2, 3.5], unit_of={'values': 'm'})
    S.add(lf, 'parameter', 'P3', axis=ax, dimension=[2], zones=zs[:1], values=[[1.5, 2.5]])
    S.add(lf, 'calibration_measurement', 'M', axis=ax, dimension=[2], measurement=[[1, 2], [3, 4]],
          maximum_deviation=[[1, 2]], standard=[[S.real('s1'), S.real('s2')]])
    return S.write()


def later_changes(S):
    """values and units replaced after creation; only the last ones reach the file"""
    S.dlis()
    B = Base(S)
    lf = B.lf
    e = S.add(lf, 'equipment', 'E', height=1.0, unit_of={'height': 'm'}, trademark_name='first', status=1)
    at = S.get(e.handle, 'height')
    S.set(at, 'value', S.real('h2'))
    S.set(at, 'units', 'ft')
    e.attrs['HEIGHT'] = Exp([S.real('h2')], 'ft')
    S.set(S.get(e.handle, 'trademark_name'), 'value', S.text('tm', 30))
    e.attrs['TRADEMARK-NAME'] = Exp([S.text('tm', 30)])
    S.set(S.get(e.handle, 'status'), 'value', 0)
    e.attrs['STATUS'] = Exp([0])
    c = B.chans[0]
    S.set(S.get(c.handle, 'units'), 'value', 'ft')
    c.attrs['UNITS'] = Exp(['ft'])
    S.set(S.get(c.handle, 'long_name'), 'value', 'longer name')
    c.attrs['LONG-NAME'] = Exp(['longer name'])
    z = S.add(lf, 'zone', 'Z', minimum=XDT(S.CT), maximum=XDT(S.CT), domain='TIME')
    S.set(S.get(z.handle, 'domain'), 'value', 'VERTICAL-DEPTH')
    S.set(S.get(z.handle, 'minimum'), 'value', 3)
    S.set(S.get(z.handle, 'maximum'), 'value', S.real('zm'))
    S.set(S.get(z.handle, 'maximum'), 'units', 'm')
    z.attrs.update({'DOMAIN': Exp(['VERTICAL-DEPTH']), 'MINIMUM': Exp([3]), 'MAXIMUM': Exp([S.real('zm')], 'm')})
    p = S.add(lf, 'parameter', 'P', values=[1])
    S.set(S.get(p.handle, 'values'), 'value', S.lst(['text now']))
    p.attrs['VALUES'] = Exp(['text now'])
    x = S.add(lf, 'axis', 'X', coordinates=[1, 2])
    S.set(S.get(x.handle, 'coordinates'), 'value', S.lst(['k', 'l', 'm']))
    x.attrs['COORDINATES'] = Exp(['k', 'l', 'm'])
    g = S.add(lf, 'group', 'G', object_list=[e])
    S.set(S.get(g.handle, 'object_list'), 'value', S.lst([z, p]))
    g.attrs['OBJECT-LIST'] = Exp([z, p])
    S.set(S.get(g.handle, 'object_type'), 'value', 'ZONE')
    g.attrs['OBJECT-TYPE'] = Exp(['ZONE'])
    o = B.origin
    S.set(S.get(o.handle, 'company'), 'value', 'Comp')
    o.attrs['COMPANY'] = Exp(['Comp'])
    S.set(S.get(o.handle, 'run_number'), 'value', S.int('rn', 0, 65535))
    o.attrs['RUN-NUMBER'] = Exp([S.int('rn', 0, 65535)])
    return S.write()


def cleared(S):
    """values assigned and then removed again decode as absent"""
    S.dlis()
    B = Base(S)
    lf = B.lf
    e = S.add(lf, 'comment', 'K', text=['a'])
    n = S.add(lf, 'no_format', 'N', consumer_name='cn', description='d')
    z = S.add(lf, 'parameter', 'P', values=[5], long_name='ln')
    a = S.add(lf, 'axis', 'A', coordinates=[1.0, 2.0], axis_id='a')
    for x, at, l in ((e, 'text', 'TEXT'), (a, 'coordinates', 'COORDINATES')):
        S.set(S.get(x.handle, at), 'value', S.lst([]))
        x.absent(l)
    return S.write()


def enum_members(S):
    """enumeration members instead of their text"""
    S.dlis()
    B = Base(S)
    lf = B.lf
    E = lambda p: S.name('enums.' + p)
    c = S.add(lf, 'channel', 'CE', data=S.array('CE', '<f8', (1,)), units=E('Unit.METER'),
              properties=VList([E('Property.AVERAGED'), E('Property.STD')]))
    c.attrs.update({'UNITS': Exp(['m']), 'PROPERTIES': Exp(['AVERAGED', 'STANDARD-DEVIATION'])})
    f = S.add(lf, 'frame', 'FE', channels=[c], index_type=E('FrameIndexType.VERTICAL_DEPTH'))
    f.attrs['INDEX-TYPE'] = Exp(['VERTICAL-DEPTH'])
    z = S.add(lf, 'zone', 'Z', domain=E('ZoneDomain.TIME'))
    z.attrs['DOMAIN'] = Exp(['TIME'])
    q = S.add(lf, 'equipment', 'Q', eq_type=E('EquipmentType.TOOL_MODULE'), location=E('EquipmentLocation.REMOTE'))
    q.attrs.update({'TYPE': Exp(['Tool-Module']), 'LOCATION': Exp(['Remote'])})
    p = S.add(lf, 'process', 'P', status=E('ProcessStatus.COMPLETE'), properties=E('Property.SPLICED'))
    p.attrs.update({'STATUS': Exp(['COMPLETE']), 'PROPERTIES': Exp(['SPLICED'])})
    m = S.add(lf, 'calibration_measurement', 'M', phase=E('CalibrationMeasurementPhase.AFTER'))
    m.attrs['PHASE'] = Exp(['AFTER'])
    u = S.add(lf, 'equipment', 'U', height=S.new('AttrSetup', 3.5, units=E('Unit.METER')))
    u.attrs['HEIGHT'] = Exp([3.5], 'm')
    w = S.add(lf, 'equipment', 'W', height=S.val({'value': 1, 'units': E('Unit.SECOND')}))
    w.attrs['HEIGHT'] = Exp([1], 's')
    return S.write()


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []

    def add(name, b, **k):
        out.append(Scenario(name, b, judge, **k))

    for kind, ps in KINDS.items():
        for p, vk in ps.items():
            vs = variants(vk, p + '-')
            if p in ('field_name',):
                vs = [v for v in vs if v[0] != 'empty text']
            # unknown values first: one object each; then the whole list in one file per route
            for label, f in vs:
                if 'any' in label or 'unknown' in label or not q:
                    add(f'{kind}.{p}: {label}', single(kind, p, label, f, 'kw', None))
            for route in ('kw', 'dict', 'AttrSetup', 'later'):
                if route == 'later' and p in ('file_set_number',):
                    continue
                add(f'{kind}.{p}: every value, by {route}', batch(kind, p, vs, route, None))
                if vk in HAS_UNITS and route != 'kw':
                    un = UNITS[(len(out) // 3) % len(UNITS)]
                    add(f'{kind}.{p}: every value with units {un}, by {route}', batch(kind, p, vs, route, un))
        drop = CONFLICTS.get(kind, ())
        for route in ('kw', 'dict', 'AttrSetup', 'later'):
            add(f'{kind}: everything at once, by {route}', everything(kind, route, drop))
            add(f'{kind}: everything at once with units, by {route}', everything(kind, route, drop, True, True, 2))
    add('nothing assigned', defaults)
    add('values with zones, axes and dimensions', related)
    add('values and units replaced later', later_changes)
    add('values cleared', cleared)
    add('enumeration members', enum_members)
    return out
