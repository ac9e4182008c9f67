"""Every object type of the public API, its parameters and the values they accept (transcribed from the API
documentation and RP66, not read from the code under analysis)."""
import datetime as _dt

from .data import *

T, I, NUM, NUMS, NEST, TS, ST, DTM, DTN, DIM = 'text', 'ident', 'num', 'nums', 'nested', 'texts', 'status', 'dtime', \
    'dtime|num', 'dims'

KINDS = {
    'axis': dict(axis_id=I, coordinates='coords', spacing=NUM),
    'calibration': dict(calibrated_channels='refs:channel', uncalibrated_channels='refs:channel',
                        coefficients='refs:calibration_coefficient', measurements='refs:calibration_measurement',
                        parameters='refs:parameter', method=I),
    'calibration_coefficient': dict(label=I, coefficients=NUMS, references=NUMS, plus_tolerances=NUMS,
                                    minus_tolerances=NUMS),
    'calibration_measurement': dict(phase='enum:AFTER,BEFORE,MASTER', measurement_source='ref:any', measurement_type=I,
                                    dimension=DIM, axis='ref:axis', measurement=NEST, sample_count='intnum',
                                    maximum_deviation=NEST, standard_deviation=NEST, begin_time=DTN, duration=NUM,
                                    reference=NEST, standard=NEST, plus_tolerance=NEST, minus_tolerance=NEST),
    'channel': dict(long_name='text|ref:long_name', properties='enums:AVERAGED,INCLINOMETRY-CORRECTD,SPLICED',
                    units='units', axis='ref:axis', minimum_value=NUM, maximum_value=NUM, source='ref:any'),
    'comment': dict(text=TS),
    'computation': dict(long_name='text|ref:long_name', properties='enums:RE-SAMPLED,MODELLED', dimension=DIM,
                        axis='refs:axis', zones='refs:zone', values=NEST, source='ref:any'),
    'equipment': dict(trademark_name=T, status=ST, eq_type='enum:Tool,Board,Radioactive-Source', serial_number=I,
                      location='enum:Rig,Well', height=NUM, length=NUM, minimum_diameter=NUM, maximum_diameter=NUM,
                      volume=NUM, weight=NUM, hole_size=NUM, pressure=NUM, temperature=NUM, vertical_depth=NUM,
                      radial_drift=NUM, angular_drift=NUM),
    'frame': dict(description=T, index_type='enum:BOREHOLE-DEPTH,NON-STANDARD', direction='enum:INCREASING,DECREASING',
                  spacing=NUM, encrypted='flag', index_min=NUM, index_max=NUM),
    'group': dict(description=T, object_list='refs:any', group_list='refs:group'),
    'long_name': dict(general_modifier=TS, quantity=T, quantity_modifier=TS, altered_form=T, entity=T,
                      entity_modifier=TS, entity_number=T, entity_part=T, entity_part_number=T, generic_source=T,
                      source_part=TS, source_part_number=TS, conditions=TS, standard_symbol=T, private_symbol=T),
    'message': dict(message_type=I, time=DTN, borehole_drift=NUM, vertical_depth=NUM, radial_drift=NUM,
                    angular_drift=NUM, text=TS),
    'no_format': dict(consumer_name=I, description=T),
    'origin': dict(file_set_name=I, file_set_number='int:UVARI', file_number='int:UVARI', file_type=I, product=T,
                   version=T, programs=TS, creation_time=DTM, order_number=T, descent_number='int:UNORM',
                   run_number='int:UNORM', well_id=T, well_name=T, field_name=T, producer_code='int:UNORM',
                   producer_name=T, company=T, name_space_name=I, name_space_version='int:UVARI'),
    'parameter': dict(long_name='text|ref:long_name', dimension=DIM, axis='ref:axis', zones='refs:zone',
                      values='param'),
    'path': dict(frame_type='ref:frame', well_reference_point='ref:well_reference_point', value='refs:channel',
                 borehole_depth=NUM, vertical_depth=NUM, radial_drift=NUM, angular_drift=NUM, time=NUM,
                 depth_offset=NUM, measure_point_offset=NUM, tool_zero_offset=NUM),
    'process': dict(description=T, trademark_name=T, version=T, properties='enums:AVERAGED,STACKED',
                    status='enum:COMPLETE,ABORTED,IN-PROGRESS', input_channels='refs:channel',
                    output_channels='refs:channel', input_computations='refs:computation',
                    output_computations='refs:computation', parameters='refs:parameter', comments=TS),
    'splice': dict(output_channel='ref:channel', input_channels='refs:channel', zones='refs:zone'),
    'tool': dict(description=T, trademark_name=T, generic_name=T, parts='refs:equipment', status=ST,
                 channels='refs:channel', parameters='refs:parameter'),
    'well_reference_point': dict(permanent_datum=T, vertical_zero=T, permanent_datum_elevation=NUM,
                                 above_permanent_datum=NUM, magnetic_declination=NUM, coordinate_1_name=T,
                                 coordinate_1_value=NUM, coordinate_2_name=T, coordinate_2_value=NUM,
                                 coordinate_3_name=T, coordinate_3_value=NUM),
    'zone': dict(description=T, domain='enum:BOREHOLE-DEPTH,TIME,VERTICAL-DEPTH', maximum=DTN, minimum=DTN),
}

UNITS = ('m', 'ft', '0.1 in', 'g/cm3', 'us/ft', 'uncommon-unit')
HAS_UNITS = (NUM, NUMS, NEST, 'coords', 'param', DTN, 'intnum', 'int:UVARI', 'int:UNORM')


class Base:
    """a logical file with one of everything to refer to"""
    def __init__(self, S, rows=1, lf=None, origin=True, inline=True, **o):
        self.S = S
        self.lf = lf or S.lf(fh_id='HEADER')
        if origin:
            self.origin = S.origin(self.lf, **o)
        self.chans = [chan(S, self.lf, n, '<f8', (rows,)) for n in ('CH0', 'CH1', 'CH2')]
        self.frame = frame(S, self.lf, 'MAIN', self.chans)
        self.memo = {}

    def ref(self, kind, i=0):
        S, lf = self.S, self.lf
        if kind == 'any':
            kind = ('zone', 'axis', 'equipment', 'comment')[i % 4]
        if kind == 'channel':
            return self.chans[i % 3]
        if kind == 'frame':
            return self.frame
        k = (kind, i)
        if k not in self.memo:
            self.memo[k] = S.add(lf, kind, f'REF-{kind.upper()}-{i}')
        return self.memo[k]


def variants(vk, tag):
    """list of (label, value function of Base): concrete edge cases and unknown values for one kind of value"""
    V = []

    def v(label, f):
        V.append((label, f))
    if vk in (T, 'text|ref:long_name'):
        v('text', lambda B: 'Some text, with (punctuation) & 0123')
        v('empty text', lambda B: '')
        v('blank text', lambda B: '  x ')
        v('control characters', lambda B: 'a\nb\x00c\x7f')
        for n in (1, 127, 128, 300):
            v(f'any text of {n}', lambda B, n=n: B.S.text(f'{tag}{n}', n))
    if vk == I:
        v('text', lambda B: 'IDENT-1')
        v('odd text', lambda B: 'a b/c.d_E')
        for n in (1, 127, 128, 255):
            v(f'any text of {n}', lambda B, n=n: B.S.text(f'{tag}{n}', n))
    if vk == 'text|ref:long_name':
        v('object', lambda B: B.ref('long_name'))
    if vk == TS:
        v('single', lambda B: 'one line')
        v('list of one', lambda B: ['x'])
        v('three', lambda B: ['first', '', 'third line'])
        v('tuple', lambda B: ('p', 'q'))
        v('many', lambda B: [f'line {i}' for i in range(130)])
        v('unknown texts', lambda B: [B.S.text(f'{tag}a', 3), B.S.text(f'{tag}b', 200)])
    if vk in (NUM, DTN, 'coords', 'param'):
        one = vk not in (DTN,)
        v('integer', lambda B: 7)
        v('negative', lambda B: -12.625)
        v('zero', lambda B: 0)
        v('fraction', lambda B: 0.1)
        if vk == NUM:
            v('large integer', lambda B: 2 ** 53)
            v('larger integer', lambda B: -2 ** 60)
        v('large', lambda B: 1e300)
        v('tiny', lambda B: 5e-324)
        v('infinite', lambda B: float('-inf'))
        v('not a number', lambda B: float('nan'))
        v('any number', lambda B: B.S.real(tag + 'x'))
        v('any integer', lambda B: B.S.int(tag + 'i', -2 ** 31, 2 ** 31 - 1))
        if vk == NUM:
            v('negative zero', lambda B: -0.0)
    if vk in (DTN, DTM):
        v('date-time', lambda B: XDT(_dt.datetime(2023, 12, 31, 23, 59, 59, 999000, UTC)))
        v('date-time in a zone', lambda B: XDT(_dt.datetime(2024, 2, 29, 1, 2, 3, 4000,
                                                            _dt.timezone(_dt.timedelta(hours=5, minutes=30)))))
        v('any date-time', lambda B: B.S.instant(tag + 'dt'))
        v('any date-time in another zone', lambda B: B.S.instant(tag + 'dz', 'other'))
        v('any naive date-time', lambda B: B.S.instant(tag + 'dn', None))
    if vk in (NUMS, NEST, 'coords'):
        v('list of one', lambda B: [1.5])
        v('list', lambda B: [1, 2, 3])
        v('mixed list', lambda B: [1, 2.5, -3])
        v('tuple', lambda B: (0.25, 1e10))
        v('unknown numbers', lambda B: [B.S.real(tag + 'a'), B.S.real(tag + 'b')])
        v('200 numbers', lambda B: [float(i) for i in range(200)])
        v('127 numbers', lambda B: [i + 0.5 for i in range(127)])
        v('128 numbers', lambda B: [i + 0.5 for i in range(128)])
    if vk == NEST:
        v('nested', lambda B: [[1.0, 2.0], [3.0, 4.0]])
        v('nested twice', lambda B: [[[1, 2], [3, 4]], [[5, 6], [7, 8.5]]])
    if vk == 'coords':
        v('texts', lambda B: ['a', 'b', 'c d'])
        v('integers', lambda B: [2 ** 31 - 1, -2 ** 31])
    if vk == 'param':
        v('text', lambda B: 'abc def')
        v('list of one text', lambda B: ['abc'])
        v('list of one', lambda B: [1.5])
        v('any text', lambda B: concat('T:', B.S.text(tag + 't', 40)))
        v('nested', lambda B: [[1.25]])
    if vk == ST:
        for x in (0, 1, True, False, 1.0):
            v(repr(x), lambda B, x=x: x)
    if vk == 'flag':
        for x in (1, True):
            v(repr(x), lambda B, x=x: x)
    if vk == DIM:
        v('one', lambda B: [1])
        v('several', lambda B: [2, 127, 128, 16384])
        v('unknown', lambda B: [B.S.int(tag + 'd', 1, 2 ** 30 - 1)])
    if vk == 'intnum':
        v('seven', lambda B: 7)
        v('any', lambda B: B.S.int(tag + 'i', -2 ** 31, 2 ** 31 - 1))
    if vk.startswith('int:'):
        hi = {'UVARI': 2 ** 30 - 1, 'UNORM': 65535, 'USHORT': 255}[vk[4:]]
        for x in (0, 1, 127, 128, 255, 256, hi):
            v(str(x), lambda B, x=x: x)
        v('any', lambda B: B.S.int(tag + 'i', 0, hi))
        v('integral float', lambda B: 12.0)
    if vk.startswith('enum:'):
        for x in vk[5:].split(','):
            v(x, lambda B, x=x: x)
    if vk.startswith('enums:'):
        xs = vk[6:].split(',')
        v('one', lambda B: xs[0])
        v('several', lambda B: list(xs))
    if vk == 'units':
        for x in UNITS:
            v(x, lambda B, x=x: x)
    if vk.startswith('ref:'):
        for i in range(4 if vk == 'ref:any' else 2):
            v(f'object {i}', lambda B, i=i: B.ref(vk[4:], i))
    if vk.startswith('refs:'):
        v('one', lambda B: [B.ref(vk[5:])])
        v('three', lambda B: [B.ref(vk[5:], i) for i in (2, 0, 1)])
        v('single', lambda B: B.ref(vk[5:], 1))
        v('repeated', lambda B: [B.ref(vk[5:]), B.ref(vk[5:])])
    return V


def sample(vk, tag, B, i=0):
    """one value of the kind, unknown where possible"""
    S = B.S
    if vk in (T, 'text|ref:long_name', I):
        return S.text(tag, 4 + i)
    if vk == TS:
        return [S.text(tag + 'a', 3), 'x']
    if vk in (NUM, 'coords', DTN):
        return S.real(tag) if vk != 'coords' else [S.real(tag)]
    if vk == 'param':
        return [S.real(tag)]
    if vk in (NUMS, NEST):
        return [S.real(tag + 'a'), S.real(tag + 'b')]
    if vk == DTM:
        return S.instant(tag)
    if vk in (ST, 'flag'):
        return 1
    if vk == DIM:
        return [1]
    if vk == 'intnum':
        return S.int(tag, -1000, 1000)
    if vk.startswith('int:'):
        return S.int(tag, 0, 127)
    if vk.startswith('enum:'):
        return vk[5:].split(',')[-1]
    if vk.startswith('enums:'):
        return vk[6:].split(',')
    if vk == 'units':
        return 'm'
    if vk.startswith('ref:'):
        return B.ref(vk[4:], i % 2)
    if vk.startswith('refs:'):
        return [B.ref(vk[5:], 1), B.ref(vk[5:], 0)]
    raise KeyError(vk)


def put(B, kind, name, params, route='kw', units=None, **more):
    """add one object of a kind with the given parameters; frames and origins need company"""
    S, lf = B.S, B.lf
    k = dict(params)
    k.update(more)
    if kind == 'frame':
        c = chan(S, lf, concat(name, '-C'), '<f8', (1,))
        x = S.add(lf, 'frame', name, route=route, unit_of=units, channels=[c], **k)
        x.rows = row_terms(S, [(c.arr, None)])
        return x
    if kind == 'origin':
        k.setdefault('file_set_number', 77)
        k.setdefault('creation_time', XDT(S.CT))
        x = S.add(lf, 'origin', name, route=route, unit_of=units, **k)
        x.attrs.pop('FILE-ID', None)
        x.any('FIELD-NAME') if 'field_name' not in params else None
        x.any('FILE-ID')
        return x
    if kind == 'channel':
        a = S.array(name, '<f8', (1,))
        x = S.add(lf, 'channel', name, route=route, unit_of=units, data=a, **k)
        x.arr, x.castname, x.desc = a, None, ('f8', [1])
        f = S.add(lf, 'frame', concat(name, '-F'), channels=[x])
        f.rows = row_terms(S, [(a, None)])
        return x
    return S.add(lf, kind, name, route=route, unit_of=units, **k)
