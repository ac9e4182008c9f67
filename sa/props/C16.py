"""No-format payloads come back exactly, in order, under their object.

Abstract interpretation of the writer from the public API to the file bytes; the payload is an unknown byte or text
string (length unknown within the stated range, or one of the listed lengths), and every logical record is
reassembled from the byte term of the file and compared with the payload term.
"""
from .common import *


def build(payloads, maxlen=8192, nobj=1, order=None, kind='b', sym=None):
    def b(S):
        lf = minimal(S, max_record_length=maxlen)
        nofs = [S.add(lf, 'no_format', f'NOF{i}') for i in range(nobj)]
        for i, n in enumerate(payloads):
            x = nofs[(order or (lambda j: j % nobj))(i)]
            if isinstance(n, (bytes, bytearray, str)):
                p = n
            elif kind == 's':
                p = S.text(f'p{i}', n if sym is None else S.int(f'n{i}', *sym))
            elif kind == 'ba':
                p = VBA(S.bytes(f'p{i}', n))
                S.nof_data(lf, x, p)
                lf.noform[-1] = (x, p.seq)
                continue
            else:
                p = S.bytes(f'p{i}', n if sym is None else S.int(f'n{i}', *sym))
            S.nof_data(lf, x, p)
        return S.write()
    return b


def judge(J, S, t):
    V = jd.View(J, S, t)
    jd.match(V)
    jd.noformat(V)


def scenarios(tier, seed):
    out = []
    for kind in ('b', 's', 'ba'):
        out.append(Scenario(f'{kind}: lengths 0..20', build([0, 1, 2, 3, 5, 7, 8, 11, 12, 13, 20], kind=kind), judge))
        out.append(Scenario(f'{kind}: long', build([127, 8190, 8200, 20000, 1], kind=kind), judge))
        out.append(Scenario(f'{kind}: two objects', build([4, 9, 1, 17, 0], nobj=2, kind=kind), judge))
        out.append(Scenario(f'{kind}: three objects, last first', build([4, 9, 1, 17, 6, 2], nobj=3, kind=kind,
                                                                         order=lambda i: (2, 0, 0, 1, 2, 1)[i]), judge))
        for ml in (20, 22, 36, 128, 16384):
            out.append(Scenario(f'{kind}: records of {ml}', build([0, 1, 5, 11, 12, 13, 40], ml, kind=kind), judge))
    for kind in ('b', 's'):
        for ml in (64, 8192):
            cap = ml - 8
            for k in range(3 if tier == 'quick' else 8):
                lo, hi = max(0, k * cap - 8), (k + 1) * cap - 9
                out.append(Scenario(f'{kind}: any length {lo}..{hi}, records of {ml}',
                                    build([None, 3], ml, kind=kind, sym=(lo, hi)), judge, paths=300, seconds=90,
                                    loop=12))
    out.append(Scenario('literal payloads', build([b'', b'\x00', b'\xff\x01', b'\x01' * 13, b'\x01', 'abc', '',
                                                   bytearray(b'xyz'), b' pad ', b'\x00\x00', '\t\n', b'\x00' * 30]),
                        judge))
    out.append(Scenario('equal payloads under two objects', build([b'same', b'same', b'same', b'other', b'same'],
                                                                  nobj=2), judge))
    return out
