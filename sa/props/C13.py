"""Frame index metadata is truthful for the rows written.

Abstract interpretation of frames over index data that are given, affine in unknowns, or unknown altogether; whole,
windowed, cast, chunked, from every source, in several frames and in repeated writes.  INDEX-MIN, INDEX-MAX, SPACING and
DIRECTION decoded from the file are compared with what exact rational arithmetic says of the rows decoded from it.
"""
import math
import random
from fractions import Fraction

from ..lin import Infeasible
from .data import *

FOUR = ('SPACING', 'INDEX-MIN', 'INDEX-MAX', 'DIRECTION')
UP, DOWN = b'INCREASING', b'DECREASING'


def number(J, e):
    """value of an index element: a number, a Num, or None where the term does not say"""
    if isinstance(e, npm.ENum):
        return J.v(simp(e.val))
    if isinstance(e, npm.ELit):
        raw = e.bits
    elif J.m is not None:
        raw = e.evaluate(J.m)
    else:
        return None
    f = {('i', 1): 'b', ('i', 2): 'h', ('i', 4): 'i', ('u', 1): 'B', ('u', 2): 'H', ('u', 4): 'I', ('f', 4): 'f',
         ('f', 8): 'd'}[(e.kind, e.size)]
    return spec.struct.unpack('>' + f, raw)[0]


def got(J, o, label, code_ok=(2, 7, 12, 13, 14, 15, 16, 17, 18, 22, 26)):
    a = o.attrs.get(label)
    if a is None or a.absent:
        return None
    if len(a.values) != 1:
        J.fail('one-value', f'{label} has {len(a.values)} values')
        return None
    return a.values[0]


def conj(rs):
    rs = list(rs)
    return False if False in rs else None if None in rs else True


def disj(rs):
    rs = list(rs)
    return True if True in rs else None if None in rs else False


def le(J, a, b):
    a, b = J.v(a), J.v(b)
    if not isinstance(a, Num) and not isinstance(b, Num):
        return a <= b
    return J.ctx.facts.decide('>=', sub(b, a))


def frame_index(V, fr, elems):
    """elems: the index channel's elements of the rows that must be in the file"""
    J = V.J
    o = V.map.get(fr)
    if o is None:
        return
    mine = [l for l in FOUR if l in fr.attrs and fr.attrs[l] is not ANY]
    jd.attrs(V, fr, o, labels=mine)
    rest = [l for l in FOUR if l not in mine]
    g = {l: got(J, o, l) for l in rest}
    n = len(elems)
    it = fr.attrs.get('INDEX-TYPE')
    if it is None:
        for l, w in (('INDEX-MIN', 1), ('INDEX-MAX', n)):
            if l in rest:
                J.check(g[l] is not None and J.num_eq(w, g[l]), 'row-numbers', f'{fr}: {l} is {g[l]}, {n} rows are '
                                                                             f'written and there is no index')
        if 'DIRECTION' in rest:
            J.check(g['DIRECTION'] is None, 'no-direction', f'{fr}: DIRECTION {g["DIRECTION"]} without an index')
        return
    vs = [number(J, e) for e in elems]
    if not vs:
        return
    if any(v is None for v in vs):
        exact(J, fr, elems, g)
        for l in ('SPACING', 'DIRECTION'):
            if l in rest and n > 1:
                J.maybe('index-term', f'{l} over unknown data')
        return
    bad = [v for v in vs if isinstance(v, float) and not math.isfinite(v)]
    for l, op in (('INDEX-MIN', min), ('INDEX-MAX', max)):
        if l not in rest:
            continue
        if g[l] is None:
            J.fail('index-range', f'{fr}: {l} is missing, the index is {vs[:12]}')
            continue
        if any(v != v for v in bad):
            continue                            # no order among values that are not numbers
        ok = conj(([le(J, g[l], v) for v in vs] if op is min else [le(J, v, g[l]) for v in vs])
                  + [disj(J.num_eq(g[l], v) for v in vs)])
        J.check(ok, 'index-range', f'{fr}: {l} is {g[l]}, the index is {vs[:12]}')
    sp, di = g.get('SPACING'), g.get('DIRECTION')
    if n == 1:
        if 'SPACING' in rest:
            J.check(sp is None, 'one-row', f'{fr}: SPACING {sp} from a single row')
        if 'DIRECTION' in rest:
            J.check(di is None, 'one-row', f'{fr}: DIRECTION {di} from a single row')
        return
    if di is not None:
        J.check(di in (UP, DOWN), 'direction-value', f'{fr}: DIRECTION {di!r}')
    if any(isinstance(v, Num) for v in vs):
        return symbolic(J, fr, vs, sp, di, rest)
    if bad:
        if 'SPACING' in rest:
            J.check(sp is None, 'spacing-uniform', f'{fr}: SPACING {sp} of the index {vs[:12]}')
        if di is not None and not any(v != v for v in bad) and 'DIRECTION' in rest:
            up, dn = all(a <= b for a, b in zip(vs, vs[1:])), all(a >= b for a, b in zip(vs, vs[1:]))
            J.check(up and di == UP or dn and di == DOWN, 'direction', f'{fr}: DIRECTION {di!r} of the index {vs[:12]}')
        return
    vs = [Fraction(v) for v in vs]
    ds = [b - a for a, b in zip(vs, vs[1:])]
    shown = [float(v) for v in vs[:12]]
    s = sorted(ds)
    med = (s[(n - 1) // 2] + s[(n - 2) // 2]) / 2
    if all(d == 0 for d in ds):
        if sp is not None and 'SPACING' in rest:
            J.check(sp == 0, 'spacing-value', f'{fr}: SPACING {sp} of the index {shown}')
        if 'DIRECTION' in rest:
            J.check(di is None, 'direction', f'{fr}: DIRECTION {di!r} of the constant index {shown}')
        return
    dev = max((1 - d / med) ** 2 for d in ds) if med else Fraction(1)
    sense = UP if all(d >= 0 for d in ds) else DOWN if all(d <= 0 for d in ds) else None
    if 'SPACING' in rest:
        if dev < Fraction(9, 10000):
            J.check(sp is not None, 'spacing-present', f'{fr}: no SPACING though the index {shown} is uniform')
            if sp is not None:
                tol = Fraction(35, 1000) if len(set(ds)) > 1 else Fraction(1, 10 ** 6) if any(
                    d.denominator > 1 or abs(d) > 2 ** 24 for d in vs) else 0
                J.check(all(abs(Fraction(sp) - d) <= tol * abs(d) for d in ds), 'spacing-value',
                        f'{fr}: SPACING {sp} of the index {shown}')
        elif dev > Fraction(11, 10000):
            J.check(sp is None, 'spacing-uniform', f'{fr}: SPACING {sp} though the index {shown} is not uniform')
    if 'DIRECTION' in rest:
        if di is not None:
            J.check(di == sense, 'direction', f'{fr}: DIRECTION {di!r} of the index {shown}')
        elif sp is None and 'SPACING' in rest:
            J.check(sense is None, 'direction', f'{fr}: no DIRECTION though the index {shown} is monotonic and has no '
                                                f'SPACING')


def exact(J, fr, elems, g):
    """unknown elements: the range is made of the elements themselves"""
    for l in ('INDEX-MIN', 'INDEX-MAX'):
        if l in g:
            J.check(False if g[l] is None else True if len(elems) == 1 and same(g[l], elems[0]) else None, 'index-range',
                    f'{fr}: {l} is {g[l]}')


def same(g, e):
    return isinstance(g, tuple) and g[0] == 'cell' and g[1].cell.key() == e.key()


def symbolic(J, fr, vs, sp, di, rest):
    ds = [sub(N(b), N(a)) for a, b in zip(vs, vs[1:])]
    if 'SPACING' in rest:
        if sp is not None:
            J.check(conj(J.num_eq(sp, d) for d in ds), 'spacing-value', f'{fr}: SPACING {sp} of the index {vs}')
        else:
            J.check(disj([False if r is True else True if r is False else None
                          for r in (J.num_eq(ds[0], d) for d in ds[1:])] + [J.num_eq(ds[0], 0)]),
                    'spacing-present', f'{fr}: no SPACING of the index {vs}')
    if di is not None and 'DIRECTION' in rest:
        J.check(conj(J.ctx.facts.decide('>=', d if di == UP else scale(d, -1)) for d in map(N, ds)), 'direction',
                f'{fr}: DIRECTION {di!r} of the index {vs}')


def judge(J, S, t):
    for f in t if isinstance(t, list) else [t]:
        V = jd.View(J, S, f)
        jd.match(V)
        for lf in S.lfs:
            for fr in lf.frames:
                es = fr.index if not isinstance(t, list) else fr.indexes[t.index(f)]
                frame_index(V, fr, es)


def index_of(S, c, n, lo=0, hi=None):
    """elements of channel c as written, rows lo..hi"""
    d = npm.plain(c.dt)
    es = c.elems(n)
    w = c.width or 1
    es = es[::w][lo:hi]                  # with several elements per row only the number of rows counts
    if c.cast:
        es = [npm.cast_elem(S.it, e, d.kind, d.size, c.cast[0], int(c.cast[1:])) for e in es]
    return es


def index_frame(c, n, fk=None, source='inline', write=None, others=2, route='kw', late_type=None, unit_of=None):
    """a frame whose first channel is c"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        cc = c(S) if callable(c) else C(**c)
        k = dict(fk if fk is not None else {'index_type': 'BOREHOLE-DEPTH'})
        fr = [('F', [cc] + [C('Z1', '<u1'), C('Z2', '>f4', 2)][:others], {})]
        kw = supply_routed(S, lf, fr, source, n, k, route, unit_of)
        w = dict(write or {})
        f = lf.frames[0]
        if late_type is not None:
            S.set(S.get(f.handle, 'index_type'), 'value', late_type)
            f.attrs['INDEX-TYPE'] = Exp([late_type])
        f.index = index_of(S, cc, n, w.get('from_idx', 0), w.get('to_idx'))
        return S.write(**kw, **w)
    return b


def supply_routed(S, lf, fr, source, n, k, route, unit_of):
    kw = supply(S, lf, [(a, cs, {}) for a, cs, _ in fr], source, n) if route == 'kw' and not k and not unit_of else None
    if kw is not None:
        return kw
    add = S.add

    def routed(lf_, kind, name, **a):
        if kind == 'frame':
            return add(lf_, kind, name, route=route, unit_of=unit_of, **a, **k)
        return add(lf_, kind, name, **a)
    S.add = routed
    try:
        return supply(S, lf, [(a, cs, {}) for a, cs, _ in fr], source, n)
    finally:
        del S.add


def lists(dt):
    """index values by name, valid for the data type"""
    k, s = dt[-2], int(dt[-1])
    if k == 'f':
        lo, hi = -1e30, 1e30
    else:
        lo, hi = (0, 2 ** (8 * s) - 1) if k == 'u' else (-2 ** (8 * s - 1), 2 ** (8 * s - 1) - 1)
    one = float if k == 'f' else int
    out = {'up': [1, 2, 3, 4, 5], 'down': [50, 40, 30, 20, 10], 'constant': [7, 7, 7], 'up with plateau': [1, 2, 2, 3],
           'down with plateau': [9, 5, 5, 1], 'zigzag': [1, 3, 2, 4], 'swing': [1, 2, 1], 'swing back': [2, 1, 2],
           'uneven up': [1, 2, 4, 8, 16], 'uneven down': [100, 70, 60, 5], 'two up': [3, 9], 'two down': [9, 3],
           'two equal': [4, 4], 'one': [42], 'mostly equal': [0, 0, 0, 1], 'mostly equal down': [1, 1, 1, 0],
           'extremes': [lo, hi], 'extremes down': [hi, lo], 'from lowest': [lo, lo + 1, lo + 2], 'from highest': [hi, hi - 1, hi - 2],
           'wrapping': [hi, lo, hi], 'big steps': [lo, 0, hi], 'zero first': [0, 5, 10], 'zero last': [10, 5, 0],
           'min inside': [5, 1, 9, 3], 'nearly': [0, 100, 201, 300], 'not nearly': [0, 100, 204, 300],
           'nearly down': [120, 80, 41, 1], 'median zero': [1, 1, 5, 5, 5, 6], 'even count': [10, 20, 31],
           'first step differs': [0, 50, 51, 52, 53], 'last step differs': [1, 2, 3, 4, 99], 'sum of zero': [5, 6, 5, 6, 5]}
    if k != 'u':
        out.update({'negative up': [-50, -40, -30], 'negative down': [-10, -20, -30], 'across zero': [-2, -1, 0, 1, 2],
                    'across down': [10, 0, -10], 'symmetric': [-5, 0, 5, 0, -5]})
    if k == 'f':
        nan, inf = float('nan'), float('inf')
        out.update({'tenths': [0.1 * i for i in range(8)], 'tenths down': [9.9 - 0.1 * i for i in range(6)],
                    'tiny': [i * 1e-6 for i in range(4)], 'large offset': [1e6 + 0.5 * i for i in range(5)],
                    'missing': [1, nan, 3], 'missing first': [nan, 2, 3], 'missing last': [1, 2, nan], 'all missing': [nan, nan],
                    'infinite': [1, 2, inf], 'minus infinite': [-inf, 1, 2], 'feet': [0.1524 * i for i in range(9)],
                    'three percent': [0, 1, 2.03, 3.03, 4.03], 'five percent': [0, 1, 2.05, 3.05, 4.05],
                    'minus zero': [-0.0, 1, 2], 'negative noise': [-0.0, 0.0, -0.0], 'sub step': [1, 1.5, 2, 2.5, 3.000001]})
    else:
        if s > 1:
            out.update({'over a byte': [100, 200, 300], 'over a byte down': [300, 200, 100], 'from 255': [255, 256, 257]})
        if s > 2:
            out.update({'over a word': [65000, 66000, 67000], 'large steps': [0, 2 * 10 ** 9 if hi > 2 * 10 ** 9 else 10 ** 9, hi]})
    return {a: [one(v) for v in vs] for a, vs in out.items() if all(not (v == v) or abs(v) == float('inf') or lo <= v <= hi
                                                                    for v in vs)}


def again(first, second, fk=None):
    """the same file object written twice; both files must be truthful.  first, second: (values, write keywords)"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        x = S.add(lf, 'channel', 'I')
        z = S.add(lf, 'channel', 'Z')
        f = S.add(lf, 'frame', 'F', channels=[x, z], **(fk if fk is not None else {'index_type': 'TIME'}))
        f.indexes = []
        out = []
        for i, (vals, w) in enumerate((first, second)):
            c = C('I', '<f8' if any(isinstance(v, float) for v in vals) else '<i4', values=vals)
            d = C('Z', '>u2')
            S.PATH = f'/out/{i}.dlis'
            out.append(S.write(data={'I': c.array(S, len(vals)), 'Z': d.array(S, len(vals), key=f'Z{i}')}, **w))
            f.indexes.append(index_of(S, c, len(vals), w.get('from_idx', 0), w.get('to_idx')))
        return out
    return b


def several(specs, shared=False, lfs=1):
    """several frames with indexes of their own: specs = [(values, frame keywords)]"""
    def b(S):
        S.dlis()
        for j in range(lfs):
            lf = S.lf(fh_id=f'H{j}', fh_sequence_number=j + 1)
            sn = {'set_name': f'S{j}'} if lfs > 1 else {}
            S.origin(lf, f'O{j}', **sn)
            z = S.add(lf, 'channel', 'Z', data=C('Z', '<u1').array(S, 9), **sn) if shared else None
            for i, (vals, fk) in enumerate(specs):
                c = C(f'I{i}', '<f8' if any(isinstance(v, float) for v in vals) else '<i4',
                      values=[v + j for v in vals])
                x = S.add(lf, 'channel', c.name, data=c.array(S, len(vals)), **sn)
                f = S.add(lf, 'frame', f'F{i}', channels=[x] + ([z] if z and len(vals) == 9 else []), **fk, **sn)
                f.index = index_of(S, c, len(vals))
        return S.write()
    return b


def position(order):
    """the index channel is the first of the frame, whatever the order of creation"""
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        cs = [C('A', '<i4', values=[5, 1, 9]), C('B', '<i4', values=[10, 20, 30]), C('D', '<f8', values=[3.0, 2.0, 0.5])]
        xs = [S.add(lf, 'channel', c.name, data=c.array(S, 3)) for c in cs]
        f = S.add(lf, 'frame', 'F', channels=[xs[i] for i in order], index_type='BOREHOLE-DEPTH')
        f.index = index_of(S, cs[order[0]], 3)
        return S.write()
    return b


def renamed(late):
    def b(S):
        S.dlis()
        lf = S.lf(fh_id='H')
        S.origin(lf)
        c, d = C('I', '<i4', values=[30, 20, 10]), C('D', '<i4', values=[1, 2, 4])
        x = S.add(lf, 'channel', 'I', **({} if late else {'dataset_name': 'D'}))
        y = S.add(lf, 'channel', 'D', **({} if late else {'dataset_name': 'I'}))
        if late:
            S.set(x.handle, 'dataset_name', 'D')
            S.set(y.handle, 'dataset_name', 'I')
        f = S.add(lf, 'frame', 'F', channels=[x, y], index_type='BOREHOLE-DEPTH')
        f.index = index_of(S, c, 3)
        return S.write(data={'I': d.array(S, 3), 'D': c.array(S, 3)})
    return b


def affine(dt, n, down=None):
    """index a, a+s, a+2s, ...: a and s unknown"""
    def mk_c(S):
        k, s = dt[-2], int(dt[-1])
        b = 8 * s
        lo, hi = (0, 2 ** b - 1) if k == 'u' else (-2 ** (b - 1), 2 ** (b - 1) - 1)
        a = S.int('a', lo, hi)
        st = S.int('s', lo - hi, hi - lo)
        last = add(N(a), scale(N(st), n - 1))
        if not (S.ctx.branch('>=', sub(last, lo)) and S.ctx.branch('>=', sub(hi, last))):
            raise Infeasible()
        return C('I', dt, values=[simp(add(N(a), scale(N(st), i))) for i in range(n)])
    return mk_c


def unknown(dt, n):
    def mk_c(S):
        k, s = dt[-2], int(dt[-1])
        b = 8 * s
        lo, hi = (0, 2 ** b - 1) if k == 'u' else (-2 ** (b - 1), 2 ** (b - 1) - 1)
        return C('I', dt, values=[S.int(f'v{i}', lo, hi) for i in range(n)])
    return mk_c


def scenarios(tier, seed):
    q = tier == 'quick'
    out = []
    r = random.Random(seed)

    def add_(name, b, expect='any', **k):
        out.append(Scenario(name, b, judge, expect=expect, **k))

    for dt in ALL_DT:
        for label, vals in lists(dt).items():
            for o in '<>':
                if s_one(dt) and o == '>':
                    continue
                add_(f'{o}{dt} {label}', index_frame(dict(name='I', dt=o + dt, values=vals), len(vals)), expect='ok')
    for src in ('dict', 'struct', 'struct reversed', 'h5', 'mixed'):
        for dt in ('<f8', '>i2', '<u1', '>f4'):
            for label, vals in lists(dt).items():
                add_(f'{dt} {label} from {src}', index_frame(dict(name='I', dt=dt, values=vals), len(vals), source=src))
    # windows
    w = {'up then down': [1, 2, 3, 2, 1, 0], 'uneven then even': [0, 7, 8, 10, 12, 14, 16], 'constant inside': [1, 5, 5, 5, 9],
         'extremes outside': [100, 3, 2, 1, 120], 'down up': [9, 6, 3, 4, 5, 6]}
    for label, vals in w.items():
        n = len(vals)
        for lo in range(n):
            for hi in [None] + list(range(lo + 1, n + 1)):
                for dt, src in (('<i2', 'inline'), ('>f8', 'dict'), ('<u1', 'h5'), ('<f4', 'struct')):
                    vv = [float(v) for v in vals] if 'f' in dt else vals
                    add_(f'{dt} {label}, window {lo}..{hi}, {src}', index_frame(
                        dict(name='I', dt=dt, values=vv), n, source=src, write=dict(from_idx=lo, to_idx=hi)))
    # casts
    for src_dt in ('<f8', '<i4', '>i8', '<u4', '>u8'):
        for cast in ALL_DT:
            for label, vals in lists('i1' if cast[0] != 'u' else 'u1').items():
                if min(vals) < 0 and (src_dt[1] == 'u' or cast[0] == 'u'):
                    continue
                vv = [float(v) for v in vals] if 'f' in src_dt else vals
                if q and label not in ('up', 'down', 'zigzag', 'negative up', 'uneven up', 'across zero', 'up with plateau'):
                    continue
                add_(f'{src_dt} cast to {cast}: {label}', index_frame(dict(name='I', dt=src_dt, values=vv, cast=cast), len(vals)))
    for cast in ('f4', 'i4', 'i2', 'u2'):
        for label, vals in {'fractions': [0.4, 1.4, 2.6, 3.5], 'rounding apart': [1.0, 1.9, 3.1, 3.99], 'rounding together':
                            [0.1, 0.2, 0.3], 'rounding up': [0.6, 1.2, 1.8, 2.4]}.items():
            for src in ('inline', 'dict', 'h5'):
                add_(f'{label} cast to {cast} from {src}', index_frame(dict(name='I', dt='<f8', values=vals, cast=cast), len(vals),
                                                                      source=src))
    add_('f8 cast to f4 beyond its accuracy', index_frame(dict(name='I', dt='<f8', cast='f4', values=[
        16777216.0, 16777217.0, 16777218.0, 16777219.0]), 4))
    # chunking
    for ck in (1, 2, 3, 5, 100):
        for label in ('up', 'uneven up', 'zigzag', 'down', 'last step differs', 'min inside', 'first step differs'):
            vals = lists('i4')[label]
            for src in ('inline', 'dict', 'struct', 'h5'):
                add_(f'{label}, chunks of {ck}, {src}', index_frame(dict(name='I', dt='<i4', values=vals), len(vals), source=src,
                                                                    write=dict(input_chunk_size=ck)))
    # no index type
    for n in (1, 2, 3, 7):
        for win in ((0, None), (1, None), (0, n - 1), (1, n)):
            if win[0] >= (n if win[1] is None else win[1]):
                continue
            for src in ('inline', 'dict', 'h5', 'struct'):
                for wd in (None, 2):
                    add_(f'no index, {n} rows of width {wd}, window {win}, {src}', index_frame(
                        dict(name='I', dt='<f8', width=wd), n, {}, src, dict(from_idx=win[0], to_idx=win[1])), expect='ok')
    # values given by the user
    give = {'spacing': [0.5, 0, -2, 1e300, -0.0], 'index_min': [0, -7.5, 1, 99, 2], 'index_max': [0, -1e9, 3, 5, 1],
            'direction': ['INCREASING', 'DECREASING'], 'encrypted': [1]}
    for fkt in (None, 'BOREHOLE-DEPTH', 'my index'):
        for a, vs in give.items():
            for v in vs:
                for route in ('kw', 'dict', 'AttrSetup', 'later'):
                    for vals in ([1, 2, 3], [9, 5, 4]):
                        k = {a: v}
                        if fkt:
                            k['index_type'] = fkt
                        add_(f'{a}={v} by {route}, index type {fkt}, index {vals}', index_frame(
                            dict(name='I', dt='<f8', values=[float(x) for x in vals]), 3, k, route=route))
        for a in range(16):
            k = {n: give[n][0] for j, n in enumerate(('spacing', 'index_min', 'index_max', 'direction')) if a >> j & 1}
            if fkt:
                k['index_type'] = fkt
            for vals in ([1, 2, 3], [9, 5, 4], [1, 5, 2], [7]):
                add_(f'given {sorted(k)}, index {vals}', index_frame(dict(name='I', dt='<i4', values=vals), len(vals), k))
        for a, u in (('spacing', 'ft'), ('index_min', 'm'), ('index_max', '0.1 in')):
            k = {a: 3.5}
            if fkt:
                k['index_type'] = fkt
            for route in ('dict', 'AttrSetup', 'later'):
                add_(f'{a} in {u} by {route}, index type {fkt}', index_frame(
                    dict(name='I', dt='<f8', values=[1.0, 2.0, 3.0], units='s'), 3, k, route=route, unit_of={a: u}))
        k = {'index_min': S_int('gmin'), 'index_max': S_int('gmax'), 'spacing': S_int('gsp')}
        for a in k:
            def b(S, a=a, f=k[a], fkt=fkt):
                return index_frame(dict(name='I', dt='<i4', values=[4, 6, 8]), 3,
                                   {a: f(S), **({'index_type': fkt} if fkt else {})})(S)
            add_(f'any {a} given, index type {fkt}', b)
    # repeated writes
    ws = [([1, 2, 3, 4], {}), ([10, 7, 4], {}), ([5, 6, 9], {}), ([3, 1, 2], {}), ([7.5, 8.0, 8.5, 9.0], {}),
          ([1, 2, 3, 9, 27], dict(from_idx=0, to_idx=3)), ([1, 2, 3, 9, 27], dict(from_idx=2)), ([8], {})]
    for i, a in enumerate(ws):
        for j, b in enumerate(ws):
            add_(f'index {a} then {b}', again(a, b), expect='ok')
            if not q or j == (i + 1) % len(ws):
                add_(f'no index, {a} then {b}', again(a, b, {}), expect='ok')
                for g in ('spacing', 'index_min', 'index_max'):
                    add_(f'{g} given, {a} then {b}', again(a, b, {'index_type': 'TIME', g: 0}), expect='ok')
    # several frames and logical files
    fs = [([1, 2, 3], {'index_type': 'TIME'}), ([9, 6, 3, 0], {'index_type': 'BOREHOLE-DEPTH'}), ([5, 1, 2, 8, 8], {}),
          ([1, 2, 4, 8, 16, 32], {'index_type': 'TIME'}), ([4.5], {'index_type': 'TIME'}),
          ([1, 1, 1, 1, 1, 1, 1, 1, 2], {'index_type': 'TIME'})]
    for i in range(len(fs)):
        add_(f'frames from {i}', several(fs[i:] + fs[:i], shared=True), expect='ok')
        add_(f'logical files of frames from {i}', several(fs[i:] + fs[:i][:2], lfs=2), expect='ok')
    import itertools
    for o in itertools.permutations(range(3)):
        add_(f'channels of the frame in order {o}', position(o), expect='ok')
    for late in (False, True):
        add_(f'crossed data sets, late {late}', renamed(late), expect='ok')
    add_('index type later', index_frame(dict(name='I', dt='<i4', values=[1, 3, 5]), 3, {}, late_type='TIME'), expect='ok')
    add_('index type replaced', index_frame(dict(name='I', dt='<i4', values=[1, 3, 6]), 3, late_type='TIME'), expect='ok')
    for o in (0, 1, 2):
        add_(f'{o} other channels', index_frame(dict(name='I', dt='<i4', values=[1, 3, 6]), 3, others=o), expect='ok')
    # index data that cannot serve
    for w_ in (1, 2):
        add_(f'index of width {w_}', index_frame(dict(name='I', dt='<i4', width=w_, values=[1, 2, 3, 4, 5, 6]), 3))
    # unknown index data
    for dt in ('<i4', '>i2', '<u1', '>u4', '<i1', '<u2'):
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            add_(f'affine {dt}, {n} rows', index_frame(affine(dt, n), n))
        for n in (1, 2, 3):
            add_(f'unknown {dt}, {n} rows', index_frame(unknown(dt, n), n))
    for i in range(400 if q else 6000):
        dt = r.choice('<>') + r.choice(ALL_DT)
        n = r.randint(1, 12)
        k, s = dt[1], int(dt[2])
        if k == 'f':
            kind = r.randrange(4)
            a, st = r.choice([0, 1000, -3.25, 1e5]), r.choice([0.5, -0.25, 0.1524, 3, -7])
            vals = [a + st * j for j in range(n)]
            if kind == 1:
                vals = [v + st * r.choice([0, .01, -.01]) for v in vals]
            elif kind == 2:
                vals = [v + st * r.choice([0, .3, -.4, 0]) for v in vals]
            elif kind == 3:
                r.shuffle(vals)
            vals = [float(v) for v in vals]
        else:
            lo, hi = (0, 2 ** (8 * s) - 1) if k == 'u' else (-2 ** (8 * s - 1), 2 ** (8 * s - 1) - 1)
            kind = r.randrange(4)
            st = r.choice([1, 2, 5, (hi - lo) // max(1, n - 1), -1, -3, -((hi - lo) // max(1, n - 1))]) or 1
            a = (lo if st > 0 else hi) if abs(st) * (n - 1) > (hi - lo) // 2 else (lo + hi) // 2
            vals = [a + st * j for j in range(n)]
            if kind == 1:
                vals = [r.randint(lo, hi) for _ in vals]
            elif kind == 2:
                vals = sorted(r.randint(lo, hi) for _ in vals)
            elif kind == 3:
                vals = sorted((r.randint(lo, hi) for _ in vals), reverse=True)
            vals = [min(hi, max(lo, v)) for v in vals]
        lo_ = r.randrange(n)
        hi_ = r.choice([None] + list(range(lo_ + 1, n + 1)))
        cast = r.choice([None, None, None, 'f8', 'f4' if s < 4 else None])
        add_(f'random {i}: {dt} {vals[:4]}.. {n} rows {lo_}..{hi_} cast {cast}', index_frame(
            dict(name='I', dt=dt, values=vals, cast=cast), n, source=r.choice(['inline', 'dict', 'struct', 'h5']),
            write=dict(from_idx=lo_, to_idx=hi_, input_chunk_size=r.choice([None, 1, 2, 5]))))
    return out


def S_int(name):
    return lambda S: S.int(name, -2 ** 40, 2 ** 40)


def s_one(dt):
    return dt[-1] == '1'
