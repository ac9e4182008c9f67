"""Models of the builtins and of the standard library modules the repository uses."""
import ast as _ast
import collections as _coll
import datetime as _dt
import itertools as _it
import math as _math
import re as _re
import struct as _struct

from .lin import Num, N, add, sub, scale
from .terms import (SSeq, SVar, PNum, PSlice, PRep, PDec, WIDTH, RANGE, mk, parts_of, simp, kind_of, concat, slen)
from .ctx import Unsupported, Cut
from .values import *

EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'ArithmeticError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'FloatingPointError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'BufferError': 'Exception', 'EOFError': 'Exception',
    'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'LookupError': 'Exception',
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'MemoryError': 'Exception', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'OSError': 'Exception', 'FileNotFoundError': 'OSError',
    'FileExistsError': 'OSError', 'PermissionError': 'OSError', 'IsADirectoryError': 'OSError',
    'ReferenceError': 'Exception', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'RecursionError': 'RuntimeError', 'StopIteration': 'Exception', 'SyntaxError': 'Exception',
    'SystemError': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception', 'UnicodeError': 'ValueError',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError', 'Warning': 'Exception',
    'UserWarning': 'Warning', 'DeprecationWarning': 'Warning', 'RuntimeWarning': 'Warning',
    'FutureWarning': 'Warning', 'GeneratorExit': 'BaseException', 'KeyboardInterrupt': 'BaseException',
    'SystemExit': 'BaseException', 'TimeoutError': 'OSError',
}
EXC['IOError'] = 'OSError'

SAFE_ERR = (TypeError, ValueError, IndexError, KeyError, OverflowError, ZeroDivisionError, AttributeError,
            UnicodeError, LookupError)


def native(it, fn, *a, **k):
    """fold an operation on plain values; its exceptions are those of the analysed program"""
    try:
        return fn(*a, **k)
    except UnicodeEncodeError as e:
        raise it.throw('UnicodeEncodeError', str(e))
    except UnicodeDecodeError as e:
        raise it.throw('UnicodeDecodeError', str(e))
    except SAFE_ERR as e:
        raise it.throw(type(e).__name__ if type(e).__name__ in EXC else 'ValueError', str(e))


def kwget(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def is_plain(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, complex))


def to_val(v):
    """python value -> abstract value"""
    if isinstance(v, list):
        return VList([to_val(x) for x in v])
    if isinstance(v, bytearray):
        return VBA(bytes(v))
    if isinstance(v, tuple):
        return tuple(to_val(x) for x in v)
    return v


def fn_text(it, kind, tag, fn, *deps):
    """text/bytes that is a function of other unknown text"""
    key = ('fntext', tag) + tuple(d.key() if hasattr(d, 'key') else d for d in deps)
    c = it.ctx
    if key not in c.derived:
        def ev(m):
            return fn(*[m.seq(d) if kind_of(d) else m.num(d) for d in deps])
        ln = c.fresh(f'len({tag})', lo=0, defn=lambda m: len(ev(m)))
        v = SVar(f'{tag}(…)', kind, ln, defn=('fn', ev))
        c.derived[key] = v.term()
    return c.derived[key]


# ------------------------------------------------------------------ methods of builtin values
STR_M = set(dir(str)) - set(dir(object))
BYTES_M = set(dir(bytes)) - set(dir(object))
BA_M = set(dir(bytearray)) - set(dir(object))
LIST_M = set(dir(list)) - set(dir(object))
COUNTER_M = set(dir(_coll.Counter)) - set(dir(object))
DEQUE_M = set(dir(_coll.deque)) - set(dir(object))
TUPLE_M = set(dir(tuple)) - set(dir(object))
DICT_M = set(dir(_coll.OrderedDict)) - set(dir(object))
SET_M = set(dir(set)) - set(dir(object))
INT_M = set(dir(int)) - set(dir(object)) - {'real', 'imag', 'numerator', 'denominator'}
FLOAT_M = set(dir(float)) - set(dir(object)) - {'real', 'imag'}
COMMON = {'__eq__', '__ne__', '__hash__', '__repr__', '__str__', '__format__', '__lt__', '__le__', '__gt__', '__ge__',
          '__init__', '__sizeof__', '__reduce__'}


def method_names(it, o):
    if isinstance(o, VLazyStr) or isinstance(o, str) or isinstance(o, SSeq) and o.kind == 's':
        return STR_M
    if isinstance(o, bytes) or isinstance(o, SSeq):
        return BYTES_M
    if isinstance(o, VBA):
        return BA_M
    if isinstance(o, VDeque):
        return DEQUE_M
    if isinstance(o, VList):
        return LIST_M
    if isinstance(o, tuple):
        return TUPLE_M
    if isinstance(o, VDict) and o.factory is COUNTER:
        return COUNTER_M
    if isinstance(o, (VDict, VAttrsView)):
        return DICT_M
    if isinstance(o, VSet):
        return SET_M
    if isinstance(o, bool) or isinstance(o, int) or isinstance(o, Num) and not o.isfloat:
        return INT_M
    if isinstance(o, (float, Num)):
        return FLOAT_M
    if isinstance(o, VIter):
        return {'__next__', '__iter__', 'send', 'close', 'throw'}
    if isinstance(o, VRange):
        return {'index', 'count', '__len__', '__iter__', '__getitem__', '__contains__'}
    if isinstance(o, slice):
        return {'indices'}
    return ()


def has_method(it, o, name):
    return name in method_names(it, o) or (name in COMMON and not isinstance(o, (VClass, VModule)))


def unbound_builtin(it, cls, name):
    n = cls.name
    sample = {'str': STR_M, 'bytes': BYTES_M, 'bytearray': BA_M, 'list': LIST_M, 'tuple': TUPLE_M, 'dict': DICT_M,
              'defaultdict': DICT_M, 'OrderedDict': DICT_M, 'set': SET_M, 'frozenset': SET_M, 'int': INT_M,
              'bool': INT_M, 'float': FLOAT_M}.get(n)
    if name == '__new__' and n in ('int', 'str', 'float', 'bytes', 'tuple', 'dict', 'list', 'set', 'defaultdict'):
        return VNative('__new__', lambda i, a, k: builtin_new(i, a[0], a[1:], k))
    if n == 'type' and name == '__call__':
        return VNative('__call__', lambda i, a, k: i.type_call(a[0], a[1:], k))
    if n == 'type' and name == '__new__':
        return VNative('__new__', type_new)
    if n == 'type' and name == '__init__':
        return VNative('__init__', lambda i, a, k: None)
    if sample is not None and name in sample:
        if name == 'fromkeys':
            def fk(i, a, k):
                d = VDict()
                for x in i.iterate(a[0]):
                    i.dict_set(d, x, a[1] if len(a) > 1 else None)
                return d
            return VNative(name, fk)
        if name == 'maketrans' or name == 'fromhex' or name == 'from_bytes':
            def st(i, a, k):
                a = [i.prim(x) for x in a]
                if name == 'from_bytes':
                    return int_from_bytes(i, a, k)
                if all(is_plain(x) for x in a):
                    r = native(i, getattr({'str': str, 'bytes': bytes, 'int': int, 'float': float}[n], name), *a)
                    if isinstance(r, dict):
                        d = VDict()
                        for x, y in r.items():
                            i.dict_set(d, x, y)
                        return d
                    return r
                raise i.unsupported(f'{n}.{name}')
            return VNative(name, st)

        def call(i, a, k):
            if not a:
                raise i.throw('TypeError', f'unbound method {n}.{name}() needs an argument')
            return call_method(i, a[0], name, a[1:], k)
        return VNative(f'{n}.{name}', call, bind=True)
    return MISSING


def _abstract(it, args, kw):
    f = args[0]
    if isinstance(f, VFunc):
        f.attrs['__isabstractmethod__'] = True
    return f


def builtin_new(it, cls, args, kw):
    return it.object_new(cls, args, kw)


def type_new(it, args, kw):
    mcs, name, bases, ns = args[:4]
    d = {}
    for k, v in it.dict_items(ns):
        if k not in ('__annotations_list__', '__class_cell__'):
            d[k] = v
    bases = list(bases) or [it.builtins['object']]
    return it.new_class(mcs, name, bases, d)


def super_builtin(it, b, name, o, cls):
    n = b.name
    if n == 'object':
        return MISSING
    if name == '__init__':
        if n == 'BaseException' or 'BaseException' in [c.name for c in b.mro]:
            def einit(i, a, k):
                o.touch()
                o.attrs['args'] = tuple(a)
            return VNative('__init__', einit)
        if n == 'type':
            return VNative('__init__', lambda i, a, k: None)
        if n in ('dict', 'defaultdict', 'OrderedDict'):
            def dinit(i, a, k):
                a = list(a)
                o.touch()
                if n == 'defaultdict' and a:
                    o.prim.touch()
                    o.prim.factory = a.pop(0)
                for s in a:
                    i.dict_update(o.prim, s)
                for kk, vv in k.items():
                    i.dict_set(o.prim, kk, vv)
            return VNative('__init__', dinit)
        if n in ('list', 'set'):
            def linit(i, a, k):
                if a:
                    o.prim.touch()
                    if n == 'list':
                        o.prim.items = list(i.iterate(a[0]))
                    else:
                        for x in i.iterate(a[0]):
                            i.set_add(o.prim, x)
            return VNative('__init__', linit)
        if n in ('int', 'float', 'str', 'bytes', 'tuple', 'Enum'):
            return VNative('__init__', lambda i, a, k: None)
        return MISSING
    if name == '__new__':
        return unbound_builtin(it, b, name)
    if n == 'type' and isinstance(o, VClass):
        if name == '__call__':
            return VNative('__call__', lambda i, a, k: i.type_call(o, a, k))
        if name == '__setattr__':
            def sa(i, a, k):
                o.touch()
                o.ns[a[0]] = a[1]
            return VNative('__setattr__', sa)
        return MISSING
    if n in ('Exception', 'BaseException') and name in ('__str__', '__repr__'):
        return VNative(name, lambda i, a, k: i.str_(VObj(b, {'args': o.attrs.get('args', ())})))
    if isinstance(o, VObj) and o.prim is not None and has_method(it, o.prim, name):
        return VNative(name, lambda i, a, k: builtin_method(i, o, o.prim, name, a, k))
    if n in ('Enum', 'IntEnum', 'StrEnum') and name == '_missing_':
        return VNative(name, lambda i, a, k: None)
    return MISSING


def call_method(it, o, name, args, kw):
    p = o
    if isinstance(o, VObj):
        p = o.prim
    return builtin_method(it, o, p, name, list(args), kw)


def builtin_method(it, o, p, name, args, kw):
    if isinstance(p, VLazyStr):
        p = it.force(p)
    f = None
    if isinstance(p, (str, bytes, SSeq, VBA)):
        if isinstance(p, VBA) and name in BA_MUT:
            return BA_MUT[name](it, p, args, kw)
        return text_method(it, p, name, args, kw)
    if isinstance(p, VDeque):
        f = DEQUE.get(name)
    elif isinstance(p, VList):
        f = LIST.get(name)
    elif isinstance(p, tuple):
        f = TUPLE.get(name)
    elif isinstance(p, (VDict, VAttrsView)):
        if isinstance(p, VDict) and p.factory is COUNTER and name in ('update', 'subtract', 'total', 'most_common',
                                                                      'elements'):
            return counter_method(it, p, name, args, kw)
        f = DICT.get(name)
        if f is not None and isinstance(o, VObj) and name == '__getitem__':
            r = it.dict_get(p, args[0])
            return r if r is not MISSING else it.dict_missing(p, args[0])
    elif isinstance(p, VSet):
        f = SET.get(name)
    elif isinstance(p, (int, float, Num)):
        return num_method(it, p, name, args, kw)
    elif isinstance(p, VIter):
        if name == '__next__':
            return it.next(p)
        if name == '__iter__':
            return p
        if name == 'close':
            if not hasattr(p.it, 'close'):
                raise it.unsupported('close of an iterator')
            it.closing = True
            try:
                p.it.close()
            finally:
                it.closing = False
            return None
        if name == 'send' and hasattr(p.it, 'send'):
            return it.next(p, send=args[0])
        raise it.unsupported(f'generator.{name}')
    elif isinstance(p, slice) and name == 'indices':
        return slice_indices(it, p, args[0])
    elif isinstance(p, VRange):
        if name in ('__len__', '__iter__', '__getitem__', '__contains__'):
            return dunder(it, p, name, args)
        if name == 'index' or name == 'count':
            l = VList(list(it.iterate(p)))
            return LIST[name](it, l, args, kw)
    if f is None:
        if name in DUNDERS:
            return dunder(it, p, name, args)
        if p is None or is_plain(p):
            return dunder(it, p, name, args)
        raise it.unsupported(f'method {name} of {it.type_of(o).name}')
    return f(it, p, args, kw)


DUNDERS = ('__len__', '__iter__', '__getitem__', '__contains__', '__eq__', '__ne__', '__str__', '__repr__',
           '__format__', '__hash__', '__setitem__', '__delitem__', '__lt__', '__le__', '__gt__', '__ge__', '__add__',
           '__or__', '__mul__', '__sub__', '__and__', '__mod__', '__floordiv__', '__truediv__', '__init__',
           '__radd__', '__ror__')


def dunder(it, p, name, args):
    import ast
    if name == '__len__':
        return it.length(p)
    if name == '__iter__':
        return VIter(it.iterate(p))
    if name == '__getitem__':
        return it.getitem(p, args[0])
    if name == '__setitem__':
        return it.setitem(p, args[0], args[1])
    if name == '__delitem__':
        return it.delitem(p, args[0])
    if name == '__contains__':
        return it.contains(p, args[0])
    if name == '__str__':
        return it.str_(p)
    if name == '__repr__':
        return it.repr_(p)
    if name == '__format__':
        return it.format_(p, args[0])
    if name == '__hash__':
        return b_hash(it, [p], {})
    if name == '__init__':
        return None
    cmp = {'__eq__': ast.Eq, '__ne__': ast.NotEq, '__lt__': ast.Lt, '__le__': ast.LtE, '__gt__': ast.Gt,
           '__ge__': ast.GtE}
    if name in cmp:
        return it.compare(cmp[name](), p, args[0])
    ops = {'__add__': ast.Add, '__or__': ast.BitOr, '__mul__': ast.Mult, '__sub__': ast.Sub, '__and__': ast.BitAnd,
           '__mod__': ast.Mod, '__floordiv__': ast.FloorDiv, '__truediv__': ast.Div}
    if name in ops:
        return it.binop(ops[name](), p, args[0])
    rops = {'__radd__': ast.Add, '__ror__': ast.BitOr}
    if name in rops:
        return it.binop(rops[name](), args[0], p)
    raise it.unsupported(f'method {name}')


def slice_indices(it, s, n):
    if s.step not in (None, 1):
        if not any(isinstance(x, Num) for x in (s.start, s.stop, s.step, n)):
            return s.indices(n)
        raise it.unsupported('slice.indices with a step')
    lo, hi = it.norm_bounds(s, n)
    return (lo, hi, 1)


# ---- text
def text_method(it, s, name, args, kw):
    ba = isinstance(s, VBA)
    if ba:
        s = s.seq
    s = it.ctx.norm(s) if it.ctx and isinstance(s, SSeq) else s
    args = [it.prim(a) if not isinstance(a, VBA) else a.seq for a in args]
    if name in ('join',):
        return text_join(it, s, args[0])
    if name == 'format':
        return str_format(it, s, args, kw)
    if name in ('startswith', 'endswith') and args and isinstance(args[0], tuple):
        return any(text_method(it, s, name, [x] + args[1:], kw) for x in args[0])
    if name in DUNDERS:
        return dunder(it, s, name, args)
    conc = not isinstance(s, SSeq) and all(is_plain(a) or isinstance(a, tuple) and all(map(is_plain, a))
                                           for a in args) and all(is_plain(v) for v in kw.values())
    if conc:
        m = getattr(s, name, None)
        if m is None:
            raise it.throw('AttributeError', name)
        return to_val(native(it, m, *args, **kw))
    if name == 'translate' and not isinstance(s, SSeq) and isinstance(args[0], VDict):
        tab = {k: it.prim(v) for k, v in it.dict_items(args[0])}
        if all(is_plain(v) for v in tab.values()):
            return to_val(native(it, s.translate, tab))
    kind = kind_of(s)
    c = it.ctx
    if name == 'encode':
        enc = kwget(args, kw, 0, 'encoding', 'utf-8')
        errors = kwget(args, kw, 1, 'errors', 'strict')
        if isinstance(enc, str):
            e = enc.lower().replace('_', '-')
            if e in ('ascii', 'us-ascii', 'utf-8', 'utf8', 'latin-1', 'latin1', 'iso-8859-1', 'cp1252'):
                if c.is_ascii(s):
                    return c.encode(s)
                if e in ('ascii', 'us-ascii') and errors == 'strict':
                    raise it.throw('UnicodeEncodeError', 'ascii codec')
                if errors == 'strict' and e not in ('utf-8', 'utf8'):
                    if not c.pred(('enc', e, s.key()), lambda m: _encodable(m.seq(s), e), f'{s!r} fits {e}'):
                        raise it.throw('UnicodeEncodeError', 'codec')
                return fn_text(it, 'b', f'{e}/{errors}', lambda x: x.encode(e, errors), s)
    elif name == 'decode':
        enc = kwget(args, kw, 0, 'encoding', 'utf-8')
        out = []
        for p in parts_of(s):
            if isinstance(p, bytes):
                out.append(native(it, p.decode, enc))
            elif isinstance(p, PSlice) and p.var.defn and p.var.defn[0] == 'enc':
                out.append(PSlice(p.var.defn[1], p.lo, p.hi))
            elif isinstance(p, PDec):
                out.append(p)
            elif isinstance(p, PRep):
                out.append(PRep(native(it, p.lit.decode, enc), p.n))
            else:
                raise it.unsupported('decoding of unknown bytes')
        return mk('s', out)
    elif name in ('ljust', 'rjust'):
        w = args[0]
        ch = args[1] if len(args) > 1 else (' ' if kind == 's' else b' ')
        return it_pad(it, s, w, ch, name == 'ljust')
    elif name == 'zfill':
        if all(isinstance(p, PDec) or isinstance(p, (str, bytes)) and p.isdigit() for p in parts_of(s)):
            return it_pad(it, s, args[0], '0' if kind == 's' else b'0', False)
    elif name in ('startswith', 'endswith') and kind_of(args[0]) == kind and len(args) == 1:
        a = args[0]
        n = it.length(a)
        ln = it.length(s)
        if not it.ctx_compare('>=', ln, n):
            return False
        if it.ctx_compare('==', n, 0):
            return True
        try:
            if name == 'startswith':
                pre = c.split(s, N(n))[0]
            else:
                pre = c.split(s, sub(ln, n))[1]
            r = c.seq_eq(pre, a)
        except Unsupported:
            r = None
        if r is not None:
            return r
        return c.pred((name, s.key() if isinstance(s, SSeq) else s, a if not isinstance(a, SSeq) else a.key()),
                      lambda m: getattr(m.seq(s), name)(m.seq(a)), f'{s!r}.{name}({a!r})')
    elif name in ('isascii',):
        return c.is_ascii(s)
    elif name in ('isdigit', 'isdecimal', 'isnumeric', 'isalnum', 'isalpha', 'isupper', 'islower', 'isspace',
                  'isidentifier', 'isprintable', 'istitle'):
        if name in ('isdigit', 'isdecimal', 'isnumeric', 'isalnum') and isinstance(s, SSeq) and all(
                isinstance(p, PDec) or isinstance(p, (str, bytes)) and getattr(p, name)() for p in s.parts):
            return True
        return c.pred((name, s.key()), lambda m: getattr(m.seq(s), name)(), f'{s!r}.{name}()')
    elif name == 'hex' and isinstance(s, SSeq) and not args:
        return fn_text(it, 's', 'hex', lambda x: x.hex(), s)
    elif name in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'swapcase', 'casefold',
                  'replace', 'translate', 'removeprefix', 'removesuffix', 'center', 'expandtabs'):
        if all(is_plain(a) for a in args) and not kw:
            # strip of text that is known not to start/end with blanks is undecided: two partitions
            if name in ('strip', 'lstrip', 'rstrip', 'upper', 'lower', 'replace', 'title', 'capitalize'):
                same = c.pred(('unchanged', name, tuple(args), s.key()),
                              lambda m: getattr(m.seq(s), name)(*args) == m.seq(s), f'{s!r}.{name}() is the same text')
                if same:
                    return s
            a = tuple(args)
            return fn_text(it, kind, f'{name}{a}', lambda x: getattr(x, name)(*a), s)
    elif name in ('find', 'index', 'count', 'rfind') and is_plain(args[0]) and len(args) == 1 and name in ('find', 'count'):
        return c.func(f'{name}:{args[0]!r}', lambda x: getattr(x, name)(args[0]), s,
                      lo=-1 if name == 'find' else 0)
    elif name in ('split', 'rsplit', 'partition', 'rpartition', 'splitlines'):
        sep = args[0] if args else None
        if is_plain(sep) and sep is not None:
            if not it.contains(s, sep):
                if name in ('split', 'rsplit'):
                    return VList([s])
                e = '' if kind == 's' else b''
                return (s, e, e) if name == 'partition' else (e, e, s)
    raise it.unsupported(f'text method {name}')


def _encodable(t, e):
    try:
        t.encode(e)
        return True
    except UnicodeError:
        return False


def it_pad(it, s, w, ch, left):
    n = it.length(s)
    if it.ctx_compare('>=', n, w):
        return s
    if isinstance(ch, (bytes, str)) and len(ch) != 1:
        raise it.throw('TypeError', 'The fill character must be exactly one character long')
    p = mk(kind_of(s), [PRep(ch, sub(w, n))])
    return concat(s, p) if left else concat(p, s)


def text_join(it, sep, items):
    out = None
    k = kind_of(sep)
    lazy = []
    parts = list(it.iterate(items))
    if any(isinstance(x, VLazyStr) for x in parts) and k == 's':
        for i, x in enumerate(parts):
            if i:
                lazy.append(sep) if isinstance(sep, str) else lazy.append((sep, '', ''))
            x = it.prim(x) if not isinstance(x, VLazyStr) else x
            if isinstance(x, VLazyStr):
                lazy.extend(x.parts)
            elif isinstance(x, str):
                lazy.append(x)
            else:
                lazy.append((x, '', ''))
        return VLazyStr(lazy)
    acc = []
    for i, x in enumerate(parts):
        x = it.prim(x)
        if isinstance(x, VBA):
            x = x.seq
        if isinstance(x, VExt) and hasattr(x, 'vbytes') and k == 'b':
            x = x.vbytes(it)
        if kind_of(x) != k:
            raise it.throw('TypeError', f'sequence item {i}: expected str/bytes instance')
        if i:
            acc.extend(parts_of(sep))
        acc.extend(parts_of(x))
    return mk(k, acc)


def str_format(it, s, args, kw):
    if isinstance(s, SSeq):
        raise it.unsupported('unknown format string')
    import string
    parts = []
    auto = 0
    try:
        pieces = list(string.Formatter().parse(s))
    except ValueError as e:
        raise it.throw('ValueError', str(e))
    for lit, field, spec, conv in pieces:
        if lit:
            parts.append(lit)
        if field is None:
            continue
        m = _re.fullmatch(r'(\w*)((?:\.\w+|\[\w+\])*)', field)
        if not m:
            raise it.unsupported('format field')
        nm = m.group(1)
        if nm == '':
            if auto >= len(args):
                raise it.throw('IndexError', 'Replacement index out of range')
            v = args[auto]
            auto += 1
        elif nm.isdigit():
            if int(nm) >= len(args):
                raise it.throw('IndexError', 'Replacement index out of range')
            v = args[int(nm)]
        else:
            if nm not in kw:
                raise it.throw('KeyError', nm)
            v = kw[nm]
        for a in _re.findall(r'\.(\w+)|\[(\w+)\]', m.group(2)):
            if a[0]:
                v = it.getattr(v, a[0])
            else:
                v = it.getitem(v, int(a[1]) if a[1].isdigit() else a[1])
        if '{' in (spec or ''):
            spec = str_format(it, spec, args[auto:], kw)
        parts.append((v, conv or '', spec or ''))
    r = it.lazy(parts)
    # numbers with a format specification are formatted right away
    if isinstance(r, VLazyStr) and any(not isinstance(p, str) and p[2] for p in r.parts):
        return it.force(r)
    return r


def _ba(fn):
    def f(it, b, a, k):
        b.touch()
        return fn(it, b, a, k)
    return f


def _ba_extend(it, b, a, k):
    b.seq = concat(b.seq, it.as_bytes(a[0]))


def _ba_append(it, b, a, k):
    b.seq = concat(b.seq, it.pack_byte(a[0]))


def _ba_clear(it, b, a, k):
    b.seq = b''


def _ba_insert(it, b, a, k):
    i = it.as_index(a[0])
    l, r = it.ctx.split(b.seq, N(i))
    b.seq = concat(concat(l, it.pack_byte(a[1])), r)


BA_MUT = {'extend': _ba(_ba_extend), 'append': _ba(_ba_append), 'clear': _ba(_ba_clear), 'insert': _ba(_ba_insert),
          '__iadd__': _ba(_ba_extend), 'copy': lambda it, b, a, k: VBA(b.seq)}


# ---- numbers
def num_method(it, p, name, args, kw):
    if isinstance(p, (int, float)) and all(is_plain(a) for a in args) and all(is_plain(a) for a in kw.values()):
        m = getattr(p, name, None)
        if m is not None:
            return to_val(native(it, m, *args, **kw))
    if name == 'is_integer':
        return it.ctx.is_integer(p)
    if name == 'to_bytes':
        n = kwget(args, kw, 0, 'length', 1)
        order = kwget(args, kw, 1, 'byteorder', 'big')
        signed = kw.get('signed', False)
        fmt = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}.get(n)
        if fmt and signed:
            fmt = fmt.lower()
        if fmt is None:
            raise it.unsupported('int.to_bytes length')
        lo, hi = RANGE[fmt]
        if not (it.ctx_compare('>=', p, lo) and it.ctx_compare('<=', p, hi)):
            raise it.throw('OverflowError', 'int too big to convert')
        return mk('b', [PNum(fmt, p, '>' if order == 'big' else '<')])
    if name in ('__int__', '__index__', '__trunc__'):
        return simp(it.ctx.trunc(p))
    if name == '__float__':
        return it.as_float(p)
    if name in ('bit_length',):
        return it.ctx.func('bit_length', lambda x: int(x).bit_length(), p, lo=0)
    if name in ('conjugate',):
        return p
    if name == '__round__':
        return b_round(it, [p] + args, kw)
    if name == '__abs__':
        return b_abs(it, [p], kw)
    if name == '__bool__':
        return it.truth(p)
    if name == '__neg__':
        return scale(p, -1)
    return dunder(it, p, name, args)


def int_from_bytes(it, a, kw):
    b = it.as_bytes(a[0])
    order = kwget(a, kw, 1, 'byteorder', 'big')
    signed = kw.get('signed', False)
    if isinstance(b, bytes):
        return int.from_bytes(b, order, signed=signed)
    r = N(0)
    n = it.length(b)
    if isinstance(n, Num) or signed:
        raise it.unsupported('int.from_bytes')
    ps = parts_of(b)
    if len(ps) == 1 and isinstance(ps[0], PNum) and ps[0].fmt in 'BHIQ' and (ps[0].order == '>') == (order == 'big'):
        return simp(ps[0].val)
    idx = range(n) if order == 'big' else range(n - 1, -1, -1)
    for i in idx:
        r = add(scale(r, 256), it.str_getitem(b, i))
    return simp(r)


# ---- list / tuple / dict / set methods
def l_append(it, l, a, k):
    l.touch()
    l.items.append(a[0])


def l_extend(it, l, a, k):
    v = list(it.iterate(a[0]))
    l.touch()
    l.items.extend(v)


def l_insert(it, l, a, k):
    l.touch()
    l.items.insert(it.as_index(a[0]), a[1])


def l_pop(it, l, a, k):
    i = it.as_index(a[0]) if a else -1
    if isinstance(i, Num):
        raise it.unsupported('pop at unknown index')
    if not l.items or not -len(l.items) <= i < len(l.items):
        raise it.throw('IndexError', 'pop index out of range')
    l.touch()
    return l.items.pop(i)


def seq_index(it, items, a):
    lo = a[1] if len(a) > 1 else 0
    for i, x in enumerate(items):
        if i >= lo and (x is a[0] or it.eq(x, a[0])):
            return i
    raise it.throw('ValueError', 'not in list')


def l_remove(it, l, a, k):
    i = seq_index(it, l.items, a[:1])
    l.touch()
    del l.items[i]


def seq_count(it, items, v):
    return sum(1 for x in items if x is v or it.eq(x, v))


def l_sort(it, l, a, k):
    l.touch()
    l.items[:] = sort_items(it, l.items, k)


def l_reverse(it, l, a, k):
    l.touch()
    l.items.reverse()


def l_clear(it, l, a, k):
    l.touch()
    l.items.clear()


LIST = {'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'remove': l_remove,
        'index': lambda it, l, a, k: seq_index(it, l.items, a), 'count': lambda it, l, a, k: seq_count(it, l.items, a[0]),
        'sort': l_sort, 'reverse': l_reverse, 'clear': l_clear, 'copy': lambda it, l, a, k: VList(l.items),
        '__reversed__': lambda it, l, a, k: VIter(iter(l.items[::-1]))}
def l_appendleft(it, l, a, k):
    l.touch()
    l.items.insert(0, a[0])


def l_extendleft(it, l, a, k):
    for x in list(it.iterate(a[0])):
        l_appendleft(it, l, [x], {})


def l_popleft(it, l, a, k):
    if not l.items:
        raise it.throw('IndexError', 'pop from an empty deque')
    l.touch()
    return l.items.pop(0)


def l_rotate(it, l, a, k):
    n = a[0] if a else 1
    if not isinstance(n, int):
        raise it.unsupported('rotation by an unknown amount')
    if l.items:
        l.touch()
        n %= len(l.items)
        l.items = l.items[-n:] + l.items[:-n]


DEQUE = dict(LIST, appendleft=l_appendleft, extendleft=l_extendleft, popleft=l_popleft, rotate=l_rotate,
             copy=lambda it, l, a, k: VDeque(l.items))
TUPLE = {'index': lambda it, l, a, k: seq_index(it, l, a), 'count': lambda it, l, a, k: seq_count(it, l, a[0])}


class VView(VExt):
    """dict view"""
    __slots__ = ('d', 'what')

    def __init__(self, d, what):
        self.d, self.what = d, what

    def _items(self, it):
        return it.dict_items(self.d)

    def viter(self, it):
        if isinstance(self.d, VDict):
            n = len(self.d.d)

            def gen():
                for kv in list(self.d.d.values()):
                    if len(self.d.d) != n:
                        raise it.throw('RuntimeError', 'dictionary changed size during iteration')
                    # value read late: it may have been replaced
                    v = it.dict_get(self.d, kv[0], kv[1])
                    yield kv[0] if self.what == 'keys' else v if self.what == 'values' else (kv[0], v)
                if len(self.d.d) != n:
                    raise it.throw('RuntimeError', 'dictionary changed size during iteration')
            return gen()
        i = {'keys': 0, 'values': 1}.get(self.what)
        return iter([kv if i is None else kv[i] for kv in self._items(it)])

    def vlen(self, it):
        return len(self._items(it))

    def vtruth(self, it):
        return bool(self._items(it))

    def vcontains(self, it, v):
        if self.what == 'keys':
            return it.contains(self.d, v)
        for x in self.viter(it):
            if x is v or it.eq(x, v):
                return True
        return False

    def vtype(self, it):
        return it.builtins_hidden['dict_' + self.what]

    def vget(self, it, name):
        if name in ('__iter__', '__len__'):
            return VNative(name, lambda i, a, k: dunder(i, self, name, a))
        if name in ('isdisjoint', 'mapping'):
            raise it.unsupported('dict view method')
        return MISSING

    def vbinop(self, it, sym, o, rev):
        import ast
        a = VSet()
        for x in self.viter(it):
            it.set_add(a, x)
        if isinstance(o, VView):
            b = VSet()
            for x in o.viter(it):
                it.set_add(b, x)
            o = b
        elif not isinstance(o, VSet):
            raise it.throw('TypeError', 'unsupported operand')
        op = {'|': ast.BitOr, '&': ast.BitAnd, '-': ast.Sub, '^': ast.BitXor}.get(sym)
        if op is None:
            raise it.throw('TypeError', 'unsupported operand')
        return it.binop(op(), o, a) if rev else it.binop(op(), a, o)

    def vcompare(self, it, sym, o, rev):
        if o is self:
            return sym in ('==', '<=', '>=')
        if self.what == 'values':
            return sym == '!='
        a = VSet()
        for x in self.viter(it):
            it.set_add(a, x)
        if isinstance(o, VView):
            b = VSet()
            for x in o.viter(it):
                it.set_add(b, x)
            o = b
        if not isinstance(o, VSet):
            return sym == '!='
        import ast
        op = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE}[sym]()
        return it.compare(op, o, a) if rev else it.compare(op, a, o)


def d_get(it, d, a, k):
    if isinstance(d, VAttrsView):
        return d.obj.attrs.get(a[0], kwget(a, k, 1, 'default'))
    return it.dict_get(d, a[0], a[1] if len(a) > 1 else None)


def d_setdefault(it, d, a, k):
    if isinstance(d, VAttrsView):
        if a[0] not in d.obj.attrs:
            it.setitem(d, a[0], a[1] if len(a) > 1 else None)
        return d.obj.attrs[a[0]]
    r = it.dict_get(d, a[0])
    if r is MISSING:
        r = a[1] if len(a) > 1 else None
        it.dict_set(d, a[0], r)
    return r


def d_pop(it, d, a, k):
    if isinstance(d, VAttrsView):
        if a[0] in d.obj.attrs:
            d.obj.touch()
            return d.obj.attrs.pop(a[0])
        r = MISSING
    else:
        r = it.dict_del(d, a[0])
    if r is MISSING:
        if len(a) > 1:
            return a[1]
        raise it.throw('KeyError', a[0])
    return r


def d_update(it, d, a, k):
    tgt = d
    if isinstance(d, VAttrsView):
        d.obj.touch()
        for s in a:
            for kk, v in it.dict_items(s):
                d.obj.attrs[kk] = v
        for kk, v in k.items():
            d.obj.attrs[kk] = v
        return
    for s in a:
        it.dict_update(tgt, s)
    for kk, v in k.items():
        it.dict_set(tgt, kk, v)


def d_clear(it, d, a, k):
    if isinstance(d, VAttrsView):
        d.obj.touch()
        d.obj.attrs.clear()
        return
    d.touch()
    d.d.clear()
    d.nsym = 0


def d_copy(it, d, a, k):
    r = VDict()
    it.dict_update(r, d)
    r.factory = getattr(d, 'factory', None)
    return r


def d_popitem(it, d, a, k):
    if not d.d:
        raise it.throw('KeyError', 'popitem(): dictionary is empty')
    kk = list(d.d)[-1]
    d.touch()
    return d.d.pop(kk)


def d_move(it, d, a, kw):
    last = kwget(a, kw, 1, 'last', True)
    if it.dict_get(d, a[0]) is MISSING:
        raise it.throw('KeyError', a[0])
    k = it.hkey(a[0])
    if k is None or k not in d.d:
        raise it.unsupported('move_to_end of an unknown key')
    d.touch()
    e = d.d.pop(k)
    if last:
        d.d[k] = e
    else:
        d.d = {k: e, **d.d}


DICT = {'move_to_end': d_move, 'get': d_get, 'setdefault': d_setdefault, 'pop': d_pop, 'update': d_update, 'clear': d_clear, 'copy': d_copy,
        'popitem': d_popitem,
        'keys': lambda it, d, a, k: VView(d, 'keys'), 'values': lambda it, d, a, k: VView(d, 'values'),
        'items': lambda it, d, a, k: VView(d, 'items'),
        '__ior__': lambda it, d, a, k: (it.dict_update(d, a[0]), d)[1],
        '__missing__': lambda it, d, a, k: it.dict_missing(d, a[0]),
        '__reversed__': lambda it, d, a, k: VIter(iter([x for x, _ in it.dict_items(d)][::-1]))}


def s_add(it, s, a, k):
    it.set_add(s, a[0])


def s_discard(it, s, a, k):
    kk = it.find(s, a[0])
    if kk is not None:
        s.touch()
        if kk[0].startswith('sym'):
            s.nsym -= 1
        del s.d[kk]
        return True
    return False


def s_remove(it, s, a, k):
    if not s_discard(it, s, a, k):
        raise it.throw('KeyError', a[0])


def as_set(it, v):
    if isinstance(v, VSet):
        return v
    return c_set(False)(it, None, [v], {})


def s_op(op):
    def f(it, s, a, k):
        import ast
        r = s
        for x in a:
            r = it.binop({'|': ast.BitOr, '&': ast.BitAnd, '-': ast.Sub, '^': ast.BitXor}[op](), r, as_set(it, x))
        if r is s:
            r = VSet(s.frozen)
            r.d, r.nsym = dict(s.d), s.nsym
        return r
    return f


def s_disjoint(it, s, t):
    for x, y in ((s, t), (t, s)):
        if x.texts and (known := it.known_chars(y)) is not None:
            return not any(it.find(y, e) is not None for e, _ in x._d.values()) and not any(
                it.chars_in(u, frozenset(known - w), 'any') for u, w in x.texts)
    return not any(it.find(s, x) is not None for x, _ in t.d.values())


def s_update(it, s, a, k):
    for x in a:
        for v in list(it.iterate(x)):
            it.set_add(s, v)


def s_clear(it, s, a, k):
    s.touch()
    s.d.clear()
    s.nsym = 0


def s_pop(it, s, a, k):
    if not s.d:
        raise it.throw('KeyError', 'pop from an empty set')
    s.touch()
    kk = next(iter(s.d))
    if kk[0].startswith('sym'):
        s.nsym -= 1
    return s.d.pop(kk)[0]


def s_diff_update(it, s, a, k):
    for x in a:
        for v in list(it.iterate(x)):
            s_discard(it, s, [v], k)


SET = {'add': s_add, 'discard': s_discard, 'remove': s_remove, 'union': s_op('|'), 'intersection': s_op('&'),
       'difference': s_op('-'), 'symmetric_difference': s_op('^'), 'update': s_update, 'clear': s_clear, 'pop': s_pop,
       'difference_update': s_diff_update,
       'copy': s_op('|'),
       'issubset': lambda it, s, a, k: it.truth(it.compare(__import__('ast').LtE(), s, as_set(it, a[0]))),
       'issuperset': lambda it, s, a, k: it.truth(it.compare(__import__('ast').GtE(), s, as_set(it, a[0]))),
       'isdisjoint': lambda it, s, a, k: s_disjoint(it, s, as_set(it, a[0]))}


# ------------------------------------------------------------------ builtin functions
def less(it, a, b):
    import ast
    return it.truth(it.compare(ast.Lt(), a, b))


def sort_items(it, items, kw):
    import functools
    key = kw.get('key')
    ks = [(it.call(key, [x]) if key is not None else x, x) for x in items]

    def cmp(a, b):
        if less(it, a[0], b[0]):
            return -1
        if less(it, b[0], a[0]):
            return 1
        return 0
    if kw.get('reverse') and it.truth(kw['reverse']):
        ks = ks[::-1]
        ks.sort(key=functools.cmp_to_key(cmp))
        ks = ks[::-1]
    else:
        ks.sort(key=functools.cmp_to_key(cmp))
    return [x for _, x in ks]


def b_minmax(which):
    def f(it, a, kw):
        key = kw.get('key')
        if len(a) == 1:
            if isinstance(a[0], VExt) and hasattr(a[0], 'vminmax'):
                return a[0].vminmax(it, which)
            items = list(it.iterate(a[0]))
            if not items:
                if 'default' in kw:
                    return kw['default']
                raise it.throw('ValueError', f'{which}() iterable argument is empty')
        else:
            items = a
        best = items[0]
        bk = it.call(key, [best]) if key is not None else best
        for x in items[1:]:
            k = it.call(key, [x]) if key is not None else x
            if (less(it, k, bk) if which == 'min' else less(it, bk, k)):
                best, bk = x, k
        return best
    return f


def b_abs(it, a, kw):
    v = it.prim(a[0])
    if isinstance(v, VExt) and hasattr(v, 'vabs'):
        return v.vabs(it)
    if isinstance(v, Num):
        return v if it.ctx.compare('>=', v, 0) else scale(v, -1)
    if not isinstance(v, (int, float)):
        raise it.throw('TypeError', 'bad operand type for abs()')
    return abs(v)


def b_round(it, a, kw):
    v = it.prim(a[0])
    nd = kwget(a, kw, 1, 'ndigits')
    if isinstance(v, VExt) and hasattr(v, 'vround'):
        return v.vround(it, nd)
    if isinstance(v, Num):
        if nd is None:
            return it.ctx.round_(v)
        if v.isfloat or not v.allint():
            return it.ctx.func(f'round{nd}', lambda x: float(round(float(x), nd)), v, isint=False)
        return v
    return native(it, round, v, *([nd] if nd is not None else []))


def b_sum(it, a, kw):
    import ast
    r = kwget(a, kw, 1, 'start', 0)
    for x in it.iterate(a[0]):
        r = it.binop(ast.Add(), r, x)
    return r


def b_len(it, a, kw):
    return it.length(a[0])


def b_any(it, a, kw):
    if (r := it.over_text(a[0], True)) is not None:
        return r
    for x in it.iterate(a[0]):
        if it.truth(x):
            return True
    return False


def b_all(it, a, kw):
    if (r := it.over_text(a[0], False)) is not None:
        return r
    for x in it.iterate(a[0]):
        if not it.truth(x):
            return False
    return True


def b_zip(it, a, kw):
    its = [it.iterate(x) for x in a]
    strict = kw.get('strict')

    def gen():
        while True:
            out = []
            for j, i in enumerate(its):
                try:
                    out.append(next(i))
                except StopIteration:
                    if strict:
                        if j > 0:
                            raise it.throw('ValueError', 'zip() argument is shorter')
                        for i2 in its[1:]:
                            try:
                                next(i2)
                            except StopIteration:
                                continue
                            raise it.throw('ValueError', 'zip() argument is longer')
                    return
            yield tuple(out)
    return VIter(gen() if its else iter(()))


def b_map(it, a, kw):
    its = [it.iterate(x) for x in a[1:]]

    def gen():
        for xs in zip(*its):
            yield it.call(a[0], list(xs))
    return VIter(gen())


def b_filter(it, a, kw):
    src = it.iterate(a[1])

    def gen():
        for x in src:
            if it.truth(x if a[0] is None else it.call(a[0], [x])):
                yield x
    return VIter(gen())


def b_enumerate(it, a, kw):
    start = kwget(a, kw, 1, 'start', 0)
    src = it.iterate(a[0])

    def gen():
        i = start
        for x in src:
            yield (i, x)
            i = simp(add(i, 1)) if isinstance(i, Num) else i + 1
    return VIter(gen())


def b_reversed(it, a, kw):
    o = a[0]
    p = it.prim(o)
    if isinstance(p, (VDict, VView)):
        return VIter(iter(list(it.iterate(p))[::-1]))
    if isinstance(o, VObj):
        r = o.cls.lookup('__reversed__')
        if r is not MISSING:
            return it.call(r, [o])
    return VIter(iter(list(it.iterate(o))[::-1]))


def b_iter(it, a, kw):
    if len(a) == 2:
        def gen():
            while True:
                v = it.call(a[0], [])
                if it.eq(v, a[1]):
                    return
                yield v
        return VIter(gen())
    if isinstance(a[0], VIter):
        return a[0]
    if isinstance(a[0], VObj):
        f = a[0].cls.lookup('__iter__')
        if isinstance(f, VFunc):
            return it.call(f, [a[0]])
    return VIter(it.iterate(a[0]))


def b_next(it, a, kw):
    return it.next(a[0], a[1] if len(a) > 1 else MISSING)


def b_getattr(it, a, kw):
    n = it.prim(a[1])
    if not isinstance(n, str):
        raise it.unsupported('getattr with unknown name')
    return it.getattr(a[0], n, a[2] if len(a) > 2 else MISSING)


_NO = object()


def b_hasattr(it, a, kw):
    n = it.prim(a[1])
    if not isinstance(n, str):
        raise it.unsupported('hasattr with unknown name')
    try:
        return it.getattr(a[0], n, _NO) is not _NO
    except PyRaise as e:
        if e.exc.cls.issub(it.builtins['AttributeError']):
            return False
        raise


def b_setattr(it, a, kw):
    n = it.prim(a[1])
    if not isinstance(n, str):
        raise it.unsupported('setattr with unknown name')
    it.setattr(a[0], n, a[2])


def b_delattr(it, a, kw):
    it.delattr(a[0], it.prim(a[1]))


def b_isinstance(it, a, kw):
    return it.isinstance_(a[0], a[1])


def b_issubclass(it, a, kw):
    if not isinstance(a[0], VClass):
        raise it.throw('TypeError', 'issubclass() arg 1 must be a class')
    t = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(isinstance(x, VClass) and a[0].issub(x) for x in t)


def b_hash(it, a, kw):
    it.hashable(a[0])
    if isinstance(a[0], VObj):
        h, owner = a[0].cls.lookup_cls('__hash__')
        if h is not MISSING and not owner.builtin:
            return it.call(h, [a[0]])
    k = it.hkey(a[0])
    if k is None:
        raise it.unsupported('hash of an unknown')
    return hash(repr(k)) & 0x7fffffff


def b_repr(it, a, kw):
    return it.repr_(a[0])


def b_format(it, a, kw):
    return it.format_(a[0], a[1] if len(a) > 1 else '')


def b_ord(it, a, kw):
    v = it.prim(a[0])
    if isinstance(v, (str, bytes)):
        return native(it, ord, v)
    if isinstance(v, SSeq):
        return it.ctx.func('ord', lambda x: ord(x), v, lo=0, hi=0x10ffff)
    raise it.throw('TypeError', 'ord() expected a string')


def b_chr(it, a, kw):
    v = it.prim(a[0])
    if isinstance(v, Num):
        v = it.concretise(v, 300)
    return native(it, chr, v)


def b_int_str(fn):
    def f(it, a, kw):
        v = it.prim(a[0])
        if isinstance(v, Num):
            v = it.concretise(v)
        return native(it, fn, v)
    return f


def b_callable(it, a, kw):
    v = a[0]
    if isinstance(v, VObj):
        return v.cls.lookup('__call__') is not MISSING
    if isinstance(v, VOpaque):
        raise it.unsupported(f'callable({v})')
    if isinstance(v, VExt):
        return hasattr(v, 'vcall')
    return isinstance(v, (VFunc, VNative, VBound, VMethod, VClass, VCache, VPartial))


def b_vars(it, a, kw):
    if not a:
        raise it.unsupported('vars() without argument')
    v = a[0]
    if isinstance(v, VObj):
        return VAttrsView(v)
    if isinstance(v, VClass):
        return it.class_getattr(v, '__dict__')
    if isinstance(v, VModule):
        d = VDict()
        for k, x in v.ns.items():
            it.dict_set(d, k, x)
        return d
    raise it.throw('TypeError', 'vars() argument must have __dict__ attribute')


def b_dir(it, a, kw):
    names = set()
    v = a[0]
    if isinstance(v, VObj):
        names |= set(v.attrs)
        cls = v.cls
    elif isinstance(v, VClass):
        cls = v
    else:
        raise it.unsupported('dir()')
    for c in cls.mro:
        names |= set(c.ns)
    return VList(sorted(names))


def b_id(it, a, kw):
    return id(a[0])


def b_divmod(it, a, kw):
    x, y = it.prim(a[0]), it.prim(a[1])
    import ast
    return (it.binop(ast.FloorDiv(), x, y), it.binop(ast.Mod(), x, y))


def b_pow(it, a, kw):
    import ast
    if len(a) == 3:
        return native(it, pow, *a)
    return it.binop(ast.Pow(), a[0], a[1])


def b_print(it, a, kw):
    return None


def b_sorted(it, a, kw):
    return VList(sort_items(it, list(it.iterate(a[0])), kw))


def b_super(it, a, kw):
    return VSuper(a[0], a[1])


# ------------------------------------------------------------------ builtin classes
def c_int(it, cls, a, kw):
    if not a:
        return 0
    v0 = a[0]
    v = it.prim(v0)
    base = kwget(a, kw, 1, 'base')
    if isinstance(v, VExt) and hasattr(v, 'vint'):
        r = v.vint(it)
    elif isinstance(v, VObj):
        f = v.cls.lookup('__int__')
        if f is MISSING:
            f = v.cls.lookup('__index__')
        if f is MISSING:
            raise it.throw('TypeError', 'int() argument must be a string or a number')
        r = it.call(f, [v])
    elif isinstance(v, Num):
        r = it.ctx.trunc(v)
    elif isinstance(v, SSeq):
        r = parse_num(it, v, 'int', base)
    elif is_plain(v) and v is not None:
        r = native(it, int, v, *([base] if base is not None else []))
    elif isinstance(v, VBA) and isinstance(v.seq, bytes):
        r = native(it, int, v.seq)
    else:
        raise it.throw('TypeError', 'int() argument must be a string, a bytes-like object or a real number')
    return simp(r)


def parse_num(it, s, what, base=None):
    c = it.ctx
    s = c.norm(s)
    if not isinstance(s, SSeq):
        return native(it, int if what == 'int' else float, s, *([base] if base is not None else []))
    if len(s.parts) == 1 and isinstance(s.parts[0], PDec) and base in (None, 10):
        v = s.parts[0].val
        return simp(v) if what == 'int' else it.as_float(v)
    head = s.parts[0] if s.parts and isinstance(s.parts[0], (str, bytes)) else None
    if base in (None, 10) and head and (head[:1] if isinstance(head, str) else head[:1].decode('latin1')) in \
            'ABCDEFGHJKLMOPQRSTUVWXYZabcdefghjklmopqrstuvwxyz:;#':
        raise it.throw('ValueError', f'could not convert string to {what}')       # no number begins like this
    conv = (lambda x: int(x, base)) if what == 'int' and base is not None else int if what == 'int' else float

    def ok(m):
        try:
            r = conv(m.seq(s))
            return r == r and r not in (float('inf'), float('-inf'))
        except ValueError:
            return False
    # text that parses as a number is a partition of its own
    if not c.pred((what, base, s.key()), ok, f'{s!r} parses as {what}'):
        raise it.throw('ValueError', f'could not convert string to {what}')
    r = c.func(f'{what}{base or ""}', conv, s, isint=what == 'int')
    if what == 'float':
        r = Num(r.t, r.c, True)
    return r


def c_float(it, cls, a, kw):
    if not a:
        return 0.0
    v = it.prim(a[0])
    if isinstance(v, VExt) and hasattr(v, 'vfloat'):
        return v.vfloat(it)
    if isinstance(v, VObj):
        f = v.cls.lookup('__float__')
        if f is MISSING:
            raise it.throw('TypeError', 'float() argument must be a string or a real number')
        return it.call(f, [v])
    if isinstance(v, Num):
        return it.as_float(v)
    if isinstance(v, SSeq):
        return parse_num(it, v, 'float')
    if is_plain(v) and v is not None:
        return native(it, float, v)
    raise it.throw('TypeError', 'float() argument must be a string or a real number')


def c_bool(it, cls, a, kw):
    return it.truth(a[0]) if a else False


def c_str(it, cls, a, kw):
    if not a:
        return ''
    v = a[0]
    if len(a) > 1 or 'encoding' in kw:
        return text_method(it, it.as_bytes(v), 'decode', a[1:], kw)
    r = it.str_(v)
    if isinstance(r, VLazyStr) and len(r.parts) == 1 and not isinstance(r.parts[0], str) \
            and isinstance(r.parts[0][0], Num) and not r.parts[0][0].isfloat:
        return r
    return r


def c_bytes(it, cls, a, kw):
    if not a:
        return b''
    v = it.prim(a[0])
    if isinstance(v, (int, Num)) and not isinstance(v, bool) or isinstance(v, bool):
        if isinstance(v, Num):
            if v.isfloat:
                raise it.throw('TypeError', "'float' object cannot be interpreted as an integer")
            if it.ctx.compare('<', v, 0):
                raise it.throw('ValueError', 'negative count')
            return it.repeat(b'\0', v)
        if v < 0:
            raise it.throw('ValueError', 'negative count')
        return it.repeat(b'\0', int(v))
    if kind_of(v) == 's':
        if len(a) < 2 and 'encoding' not in kw:
            raise it.throw('TypeError', 'string argument without an encoding')
        return text_method(it, v, 'encode', a[1:], kw)
    if v is None or isinstance(v, float):
        raise it.throw('TypeError', 'cannot convert object to bytes')
    if isinstance(v, VObj):
        f = v.cls.lookup('__bytes__')
        if f is not MISSING:
            return it.call(f, [v])
    return it.as_bytes(v)


def c_bytearray(it, cls, a, kw):
    return VBA(c_bytes(it, cls, a, kw))


def c_list(it, cls, a, kw):
    return VList(list(it.iterate(a[0])) if a else [])


def c_deque(it, cls, a, kw):
    m = kwget(a, kw, 1, 'maxlen')
    if m is not None:
        raise it.unsupported('deque of limited length')
    return VDeque(list(it.iterate(a[0])) if a else [])


def c_tuple(it, cls, a, kw):
    return tuple(it.iterate(a[0])) if a else ()


def c_dict(it, cls, a, kw):
    d = VDict()
    for s in a:
        it.dict_update(d, s)
    for k, v in kw.items():
        it.dict_set(d, k, v)
    return d


def c_defaultdict(it, cls, a, kw):
    d = VDict()
    a = list(a)
    if a:
        d.factory = a.pop(0)
    for s in a:
        it.dict_update(d, s)
    return d


def c_set(frozen):
    def f(it, cls, a, kw):
        s = VSet(frozen)
        if a:
            if isinstance(a[0], VSet) and a[0].texts:
                s._d, s.nsym, s.texts, s.it = dict(a[0]._d), a[0].nsym, a[0].texts, it
                return s
            if kind_of(a[0]) == 's':
                x = it.ctx.norm(a[0]) if isinstance(a[0], SSeq) else a[0]
                if isinstance(x, SSeq):
                    s.texts, s.it = ((x, frozenset()),), it
                    return s
            for x in it.iterate(a[0]):
                it.set_add(s, x)
        return s
    return f


def c_range(it, cls, a, kw):
    a = [it.as_index(x) for x in a]
    for x in a:
        if not isinstance(x, (int, Num)) or isinstance(x, Num) and x.isfloat:
            raise it.throw('TypeError', 'object cannot be interpreted as an integer')
    if len(a) == 1:
        return VRange(0, a[0], 1)
    if len(a) == 2:
        return VRange(a[0], a[1], 1)
    if a[2] == 0:
        raise it.throw('ValueError', 'range() arg 3 must not be zero')
    if isinstance(a[2], Num) and not it.ctx.facts.entails('>', a[2]):
        if not it.ctx.compare('>', a[2], 0):
            if it.ctx.compare('==', a[2], 0):
                raise it.throw('ValueError', 'range() arg 3 must not be zero')
    return VRange(a[0], a[1], a[2])


def c_slice(it, cls, a, kw):
    return slice(*a)


def c_type(it, cls, a, kw):
    if len(a) == 1:
        return it.type_of(a[0])
    return type_new(it, [cls if cls is not it.builtins['type'] else None] + list(a), kw)


def c_object(it, cls, a, kw):
    return VObj(cls)


def c_property(it, cls, a, kw):
    return VProperty(kwget(a, kw, 0, 'fget'), kwget(a, kw, 1, 'fset'), kwget(a, kw, 2, 'fdel'))


class VFileModel(Cell):
    """the file system as far as the writer touches it: path -> bytes on disk"""
    __slots__ = ('files', 'log')

    def __init__(self):
        self.era = Cell.current
        self.files = {}
        self.log = []

    def snapshot(self):
        return dict(self.files), list(self.log)

    def restore(self, s):
        self.files, self.log = s


class VFile(VExt):
    """open file; writes reach the disk model at flush()/close() at the latest, at any time in between"""
    def __init__(self, it, path, mode, buffered=True):
        self.path, self.mode, self.closed, self.buf = path, mode, False, []
        self.pos = None

    def check(self, it):
        if self.closed:
            raise it.throw('ValueError', 'I/O operation on closed file.')

    def venter(self, it):
        self.check(it)
        return self

    def vexit(self, it, e):
        self.close(it)
        return False

    def close(self, it):
        if not self.closed:
            self.closed = True
            it.fs_event('close', self, None)

    def vtype(self, it):
        return it.builtins_hidden['file']

    def viter(self, it):
        raise it.unsupported('reading a file')

    def vget(self, it, name):
        def nat(f):
            return VNative(name, f)
        if name == 'write':
            def write(i, a, k):
                self.check(i)
                if 'b' in self.mode:
                    data = i.as_bytes(a[0])
                else:
                    data = i.prim(a[0])
                    if kind_of(data) != 's':
                        raise i.throw('TypeError', 'write() argument must be str')
                if not any(c in self.mode for c in 'wax+'):
                    raise i.throw('OSError', 'not writable')
                i.fs_event('write', self, data)
                return i.length(data)
            return nat(write)
        if name == 'writelines':
            def wl(i, a, k):
                for x in i.iterate(a[0]):
                    i.fs_event('write', self, i.as_bytes(x))
            return nat(wl)
        if name == 'flush':
            return nat(lambda i, a, k: i.fs_event('flush', self, None))
        if name == 'close':
            return nat(lambda i, a, k: self.close(i))
        if name in ('__enter__', '__exit__'):
            return nat((lambda i, a, k: self) if name == '__enter__' else (lambda i, a, k: self.close(i)))
        if name == 'name':
            return self.path
        if name == 'mode':
            return self.mode
        if name == 'read':
            def rd(i, a, k):
                self.check(i)
                if 'b' not in self.mode:
                    raise i.unsupported('reading a text file')
                if 'r' not in self.mode and '+' not in self.mode:
                    raise i.throw('OSError', 'not readable')
                return i.fs_event('read', self, tuple(a))
            return nat(rd)
        if name == 'closed':
            return self.closed
        if name == 'tell':
            return nat(lambda i, a, k: i.fs_tell(self))
        if name == 'fileno':
            return nat(lambda i, a, k: 3)
        if name in ('seek', 'truncate'):
            return nat(lambda i, a, k: i.fs_event(name, self, tuple(a)))
        if name == 'writable':
            return nat(lambda i, a, k: True)
        raise it.unsupported(f'file.{name}')


def b_open(it, a, kw):
    path = a[0]
    mode = kwget(a, kw, 1, 'mode', 'r')
    return it.fs_open(path, mode, kw)


# ------------------------------------------------------------------ datetime
class VDatetime(VExt):
    """f: year..microsecond in its own zone; utc: the same instant in UTC (None until asked for)"""
    __slots__ = ('f', 'tz', 'utcf', 'name', 'nat')
    FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')

    def __init__(self, f, tz, utcf=None, name='datetime', nat=None):
        self.f, self.tz, self.utcf, self.name, self.nat = f, tz, utcf, name, nat

    def __repr__(self):
        return f'<{self.name} {self.f}>'

    def vtype(self, it):
        return it.datetime_cls

    def vget(self, it, name):
        if name in self.FIELDS:
            return self.f[self.FIELDS.index(name)]
        if name == 'tzinfo':
            return self.tz
        if name == 'fold':
            return 0
        if name == 'astimezone':
            def f(i, a, k):
                tz = kwget(a, k, 0, 'tz')
                return self.astimezone(i, tz)
            return VNative(name, f)
        if name == 'replace':
            def f(i, a, k):
                f2 = list(self.f)
                for n, v in zip(self.FIELDS, a):
                    f2[self.FIELDS.index(n)] = v
                tz = self.tz
                for n, v in k.items():
                    if n == 'tzinfo':
                        tz = v
                    else:
                        f2[self.FIELDS.index(n)] = v
                if all(x is y or x == y for x, y in zip(f2, self.f)) and tz is self.tz:
                    return self
                r = VDatetime(f2, tz, None, self.name + "'")
                if is_utc(tz):
                    r.utcf = list(f2)
                elif tz is self.tz and self.nat is not None and f2[:6] == self.f[:6]:
                    r.utcf = list(self.utc(it))[:6] + [f2[6]]
                return r
            return VNative(name, f)
        if name == 'utcoffset':
            def f(i, a, k):
                if self.tz is None:
                    return None
                return VTimedelta(i.ctx.fresh('utcoffset', lo=-86399, hi=86399))
            return VNative(name, f)
        if name in ('timetuple', 'utctimetuple'):
            def f(i, a, k):
                fl = self.f if name == 'timetuple' else self.utc(i)
                return VRecord({n: v for n, v in zip(('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec'),
                                                     fl)})
            return VNative(name, f)
        if name in ('isoformat', 'strftime', 'ctime'):
            def f(i, a, k):
                return VLazyStr([(self, name, '')])
            return VNative(name, f)
        if name in ('timestamp',):
            raise it.unsupported('datetime.timestamp')
        raise it.unsupported(f'datetime.{name}')

    def utc(self, it):
        if self.utcf is None:
            if is_utc(self.tz):
                self.utcf = list(self.f)
            else:
                self.utcf = utc_fields(it, self)
        return self.utcf

    def astimezone(self, it, tz):
        if tz is None or tz is MISSING:
            tz = VZone('local')
        if is_utc(tz):
            return VDatetime(list(self.utc(it)), tz, list(self.utc(it)), self.name + ' in UTC')
        if tz is self.tz:
            return self
        # other zone: a fresh wall clock for the same instant
        key = ('tzconv', id(self), id(tz))
        d = it.ctx.derived
        if key not in d:
            d[key] = fresh_fields(it, f'{self.name} local')
        return VDatetime(d[key], tz, list(self.utc(it)), self.name + ' in another zone')

    def vcompare(self, it, sym, o, rev):
        if not isinstance(o, VDatetime):
            if sym in ('==', '!='):
                return sym == '!='
            raise it.throw('TypeError', 'cannot compare')
        if (self.tz is None) != (o.tz is None):
            if sym in ('==', '!='):
                return sym == '!='
            raise it.throw('TypeError', "can't compare offset-naive and offset-aware datetimes")
        a, b = (self.f, o.f) if self.tz is o.tz else (self.utc(it), o.utc(it))
        if rev:
            a, b = b, a
        if sym in ('==', '!='):
            r = all(it.ctx_compare('==', x, y) for x, y in zip(a, b))
            return r == (sym == '==')
        for x, y in zip(a, b):
            if not it.ctx_compare('==', x, y):
                return it.ctx_compare(sym, x, y)
        return sym in ('<=', '>=')

    def vhash(self, it):
        if all(not isinstance(x, Num) for x in self.utc(it) if self.tz is not None) and self.tz is not None:
            return ('dt',) + tuple(self.utc(it))
        return ('id', id(self))

    def vbinop(self, it, sym, o, rev):
        if isinstance(o, VTimedelta) and sym in '+-':
            secs = o.secs if sym == '+' else scale(o.secs, -1)
            s = simp(N(secs))
            return VDatetime(shift_fields(it, self.f, s), self.tz, shift_fields(it, self.utc(it), s),
                             self.name + '+shift')
        if isinstance(o, VDatetime) and sym == '-':
            return VTimedelta(it.ctx.fresh('datetime difference', isint=False))
        raise it.throw('TypeError', 'unsupported operand type(s)')

    def vstr(self, it):
        return VLazyStr([(self, 'iso', '')])

    def vtruth(self, it):
        return True


def is_utc(tz):
    return isinstance(tz, VZone) and tz.kind == 'utc'


class VZone(VExt):
    __slots__ = ('kind',)

    def __init__(self, kind):
        self.kind = kind

    def vtype(self, it):
        return it.builtins_hidden['timezone']

    def vget(self, it, name):
        raise it.unsupported(f'timezone.{name}')

    def vcompare(self, it, sym, o, rev):
        e = isinstance(o, VZone) and (o is self or self.kind == o.kind == 'utc')
        return e == (sym == '==')


class VTimedelta(VExt):
    __slots__ = ('secs',)

    def __init__(self, secs):
        self.secs = secs

    def vtype(self, it):
        return it.builtins_hidden['timedelta']

    def vget(self, it, name):
        if name == 'total_seconds':
            return VNative(name, lambda i, a, k: self.secs)
        raise it.unsupported(f'timedelta.{name}')

    def vstr(self, it):
        return VLazyStr([(self.secs, '', '')])

    def vtruth(self, it):
        return it.truth(self.secs)

    def vcompare(self, it, sym, o, rev):
        if isinstance(o, VTimedelta):
            return it.ctx_compare(sym, *((o.secs, self.secs) if rev else (self.secs, o.secs)))
        return sym == '!='


class VRecord(VExt):
    def __init__(self, d):
        self.d = d

    def vget(self, it, name):
        return self.d.get(name, MISSING)

    def vtype(self, it):
        return it.builtins['object']

    def viter(self, it):
        return iter(self.d.values())


def fresh_fields(it, name, years=(1900, 2155)):
    c = it.ctx
    lims = (years, (1, 12), (1, 28), (0, 23), (0, 59), (0, 59), (0, 999999))
    return [c.fresh(f'{name}.{n}', lo=l, hi=h) for n, (l, h) in zip(VDatetime.FIELDS, lims)]


def utc_fields(it, d):
    """UTC fields of an aware or naive date-time: unknown function of its fields and zone"""
    if d.nat is not None:
        u = d.nat.astimezone(_dt.timezone.utc)
        return [u.year, u.month, u.day, u.hour, u.minute, u.second, u.microsecond]
    # the same zone and the same fields down to the second give the same UTC fields
    key = ('utc', d.tz.kind if isinstance(d.tz, VZone) else None) + tuple(
        x.key() if isinstance(x, Num) else x for x in d.f[:6])
    memo = it.ctx.derived
    if key not in memo:
        memo[key] = fresh_fields(it, d.name + ' in UTC')
    return memo[key][:6] + [d.f[6]]


def shift_fields(it, f, secs):
    if not any(isinstance(x, Num) for x in list(f) + [secs]):
        try:
            d = _dt.datetime(*[int(x) for x in f]) + _dt.timedelta(seconds=secs)
        except (OverflowError, ValueError):
            raise it.throw('OverflowError', 'date value out of range')
        return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond]
    # a shift below one second that stays within the second only touches the microseconds
    us = it.ctx.round_(scale(secs, 1000000)) if isinstance(secs, Num) else round(secs * 1000000)
    n = add(f[6], us)
    if it.ctx_compare('>=', simp(n), 0) and it.ctx_compare('<', simp(n), 1000000):
        return list(f[:6]) + [simp(n)]
    # carry: the other fields change
    return fresh_fields(it, 'shifted date-time')


def dt_native(d, zone=MISSING):
    """abstract value of a concrete datetime"""
    f = [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond]
    if d.tzinfo is None:
        tz = None
    elif d.utcoffset() == _dt.timedelta(0):
        tz = UTC
    else:
        tz = VZone(str(d.tzinfo))
    return VDatetime(f, tz, None, 'datetime', nat=d if d.tzinfo is not None else None)


UTC = VZone('utc')


def c_datetime(it, cls, a, kw):
    vals = []
    for i, n in enumerate(VDatetime.FIELDS):
        v = kwget(a, kw, i, n, 0 if i > 2 else MISSING)
        if v is MISSING:
            raise it.throw('TypeError', 'function missing required argument')
        vals.append(it.prim(v))
    tz = kwget(a, kw, 7, 'tzinfo')
    if not any(isinstance(v, Num) for v in vals):
        native(it, _dt.datetime, *vals)
    return VDatetime(vals, tz)


def dt_strptime(it, a, kw):
    s, f = it.prim(a[0]), it.prim(a[1])
    if isinstance(s, str) and isinstance(f, str):
        return dt_native(native(it, _dt.datetime.strptime, s, f))
    if not isinstance(s, SSeq) and kind_of(s) != 's':
        raise it.throw('TypeError', 'strptime() argument 1 must be str')
    c = it.ctx

    def ok(m):
        try:
            _dt.datetime.strptime(m.seq(s), f)
            return True
        except ValueError:
            return False
    if not c.pred(('strptime', s.key(), f), ok, f'{s!r} is a date in {f}'):
        raise it.throw('ValueError', 'time data does not match format')
    raise Cut('text that parses as a date')


# ------------------------------------------------------------------ struct
class VStruct(VExt):
    __slots__ = ('fmt', 'order', 'codes')

    def __init__(self, it, fmt):
        fmt = it.prim(fmt)
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        if not isinstance(fmt, str):
            raise it.unsupported('unknown struct format')
        self.fmt = fmt
        native_check(it, fmt)
        f = fmt.replace(' ', '')
        self.order = '<'
        if f and f[0] in '@=<>!':
            self.order = {'@': '<', '=': '<', '<': '<', '>': '>', '!': '>'}[f[0]]
            f = f[1:]
        self.codes = []
        for n, ch in _re.findall(r'(\d*)(\D)', f):
            if ch == 's':
                self.codes.append((ch, int(n or 1)))
            else:
                self.codes.extend([(ch, 1)] * int(n or 1))

    def vtype(self, it):
        return it.builtins_hidden['Struct']

    def vget(self, it, name):
        if name == 'pack':
            return VNative('pack', lambda i, a, k: self.pack(i, a))
        if name == 'size':
            return _struct.calcsize(self.fmt)
        if name == 'format':
            return self.fmt
        if name == 'unpack':
            return VNative('unpack', lambda i, a, k: self.unpack(i, a[0]))
        if name == 'unpack_from':
            def uf(i, a, k):
                off = it.as_index(kwget(a, k, 1, 'offset', 0))
                return self.unpack(i, i.getitem(a[0], slice(off, simp(add(off, _struct.calcsize(self.fmt))))))
            return VNative('unpack_from', uf)
        if name == 'pack_into':
            def pi(i, a, k):
                buf, off = a[0], it.as_index(a[1])
                data = self.pack(i, a[2:])
                if isinstance(buf, (VBA, VMemView)):
                    n = i.length(buf.seq if isinstance(buf, VBA) else buf)
                    if i.ctx_compare('<', off, 0):
                        off = simp(add(off, n))
                    if i.ctx_compare('<', off, 0) or i.ctx_compare('>', add(off, i.length(data)), n):
                        raise i.throw_struct('pack_into requires a larger buffer')
                    i.setitem(buf, slice(off, simp(add(off, i.length(data)))), data)
                    return None
                raise i.unsupported('pack_into')
            return VNative('pack_into', pi)
        raise it.unsupported(f'Struct.{name}')

    def vhash(self, it):
        return ('id', id(self))

    def pack(self, it, args):
        n = sum(1 for c, _ in self.codes if c != 'x')
        if len(args) != n:
            raise it.throw_struct('pack expected %d items for packing (got %d)' % (n, len(args)))
        out = []
        args = list(args)
        for code, cnt in self.codes:
            if code == 'x':
                out.append(b'\0')
                continue
            v = it.prim(args.pop(0))
            out.extend(self.pack1(it, code, cnt, v))
        return mk('b', out)

    def pack1(self, it, code, cnt, v):
        if isinstance(v, VExt) and hasattr(v, 'vprim'):
            v = v.vprim(it)
        if code == 's':
            b = it.as_bytes(v) if not kind_of(v) == 's' else None
            if b is None:
                raise it.throw_struct("argument for 's' must be a bytes object")
            n = it.length(b)
            if it.ctx_compare('>=', n, cnt):
                return parts_of(it.ctx.split(b, N(cnt))[0]) if isinstance(b, SSeq) else [b[:cnt]]
            return parts_of(b) + [PRep(b'\0', sub(cnt, n))]
        if code == 'c':
            return parts_of(it.as_bytes(v))
        if code == '?':
            return [b'\1' if it.truth(v) else b'\0']
        if code in 'fd':
            if isinstance(v, VExt) and hasattr(v, 'vpackf'):
                return v.vpackf(it, code, self.order)
            if isinstance(v, (int, float)):
                try:
                    return [_struct.pack(self.order + code, v)]
                except OverflowError as e:
                    raise it.throw('OverflowError', str(e))
                except _struct.error as e:
                    raise it.throw_struct(str(e))
            if isinstance(v, Num):
                if code == 'f' and it.float32_limit:
                    lim = 3.4e38
                    b = it.ctx.bounds(v)
                    if b[0] is None or b[1] is None or b[0] < -lim or b[1] > lim:
                        if it.ctx_compare('>', v, lim) or it.ctx_compare('<', v, -lim):
                            raise it.throw('OverflowError', 'float too large to pack with f format')
                return [PNum(code, v, self.order)]
            raise it.throw_struct('required argument is not a float')
        if code in RANGE:
            if isinstance(v, VExt) and hasattr(v, 'vindex'):
                v = v.vindex(it)
            if isinstance(v, VObj):
                f = v.cls.lookup('__index__')
                if f is MISSING:
                    raise it.throw_struct('required argument is not an integer')
                v = it.call(f, [v])
            if not isinstance(v, (int, Num)) or isinstance(v, Num) and v.isfloat:
                raise it.throw_struct('required argument is not an integer')
            lo, hi = RANGE[code]
            if not (it.ctx_compare('>=', v, lo) and it.ctx_compare('<=', v, hi)):
                raise it.throw_struct(f'argument out of range for {code}')
            return [PNum(code, int(v) if isinstance(v, bool) else v, self.order)]
        raise it.unsupported(f'struct code {code}')

    def unpack(self, it, b):
        b = it.as_bytes(b)
        if isinstance(b, bytes):
            return tuple(native(it, _struct.unpack, self.fmt, b))
        ps = parts_of(b)
        if len(ps) == len(self.codes) and all(isinstance(p, PNum) and p.fmt == c and (p.order == self.order or
                                                                                   WIDTH[c] == 1)
                                              for p, (c, _) in zip(ps, self.codes)):
            return tuple(simp(p.val) for p in ps)
        raise it.unsupported('struct.unpack')


def native_check(it, fmt):
    try:
        _struct.calcsize(fmt)
    except _struct.error as e:
        raise it.throw_struct(str(e))


# ------------------------------------------------------------------ re
class VPattern(VExt):
    __slots__ = ('rx', 'src')

    def __init__(self, it, src, flags=0):
        src = it.prim(src)
        if not isinstance(src, (str, bytes)):
            raise it.unsupported('unknown pattern')
        self.src = src
        try:
            self.rx = _re.compile(src, flags if isinstance(flags, int) else 0)
        except _re.error as e:
            raise it.throw('ValueError', str(e))

    def vtype(self, it):
        return it.builtins_hidden['Pattern']

    def vhash(self, it):
        return ('pat', self.src)

    def vget(self, it, name):
        if name in ('fullmatch', 'match', 'search'):
            return VNative(name, lambda i, a, k: self.match(i, name, a[0]))
        if name == 'pattern':
            return self.src
        if name in ('sub', 'findall', 'split', 'finditer', 'subn'):
            def f(i, a, k):
                a = [i.prim(x) for x in a]
                if all(is_plain(x) for x in a) and name != 'finditer':
                    return to_val(native(i, getattr(self.rx, name), *a))
                if name == 'sub' and is_plain(a[0]):
                    s = a[1]
                    if i.ctx.pred(('resub', self.src, a[0], s.key()),
                                  lambda m: self.rx.sub(a[0], m.seq(s)) == m.seq(s), f'{s!r} has no match'):
                        return s
                    return fn_text(i, kind_of(s), f're.sub({self.src!r})', lambda x: self.rx.sub(a[0], x), s)
                if name == 'findall' :
                    s = a[0]
                    if not i.ctx.pred(('search', self.src, s.key()), lambda m: bool(self.rx.search(m.seq(s))),
                                      f'{self.src!r} in {s!r}'):
                        return VList([])
                raise i.unsupported(f'Pattern.{name}')
            return VNative(name, f)
        raise it.unsupported(f'Pattern.{name}')

    def match(self, it, how, s):
        s = it.prim(s)
        if isinstance(s, SSeq):
            s = it.ctx.norm(s)
        if kind_of(s) != kind_of(self.src):
            raise it.throw('TypeError', 'expected string or bytes-like object')
        if not isinstance(s, SSeq):
            m = getattr(self.rx, how)(s)
            return None if m is None else VMatch(m)
        rx = self.rx
        if it.ctx.pred((how, self.src, rx.flags, s.key()), lambda m: bool(getattr(rx, how)(m.seq(s))),
                       f'{s!r} matches {self.src!r}'):
            # impose consequences: the empty text and ascii-ness
            if not getattr(rx, how)('' if isinstance(self.src, str) else b''):
                it.ctx.branch('>', N(slen(s)), f'{s!r} is not empty') or it.infeasible()
            return VMatch(None)
        return None


class VMatch(VExt):
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def vtruth(self, it):
        return True

    def vtype(self, it):
        return it.builtins_hidden['Match']

    def vget(self, it, name):
        if self.m is None:
            raise it.unsupported('groups of a match on unknown text')
        if name in ('group', 'groups', 'start', 'end', 'span'):
            return VNative(name, lambda i, a, k: to_val(native(i, getattr(self.m, name), *a)))
        if name == 'string':
            return self.m.string
        raise it.unsupported(f'Match.{name}')


# ------------------------------------------------------------------ context managers
class VGenCM(VExt):
    def __init__(self, gen, again=None):
        self.gen, self.again = gen, again

    def vtype(self, it):
        return it.builtins['object']

    def vget(self, it, name):
        if name == '__enter__':
            return VNative(name, lambda i, a, k: self.venter(i))
        if name == '__call__':
            return VNative(name, lambda i, a, k: self.vcall(i, a, k))
        if name == '__exit__':
            return VNative(name, lambda i, a, k: self.vexit(i, PyRaise(a[1]) if a and a[0] is not None else None))
        return MISSING

    def venter(self, it):
        try:
            return next(self.gen.it)
        except StopIteration:
            raise it.throw('RuntimeError', "generator didn't yield")

    def vexit(self, it, e):
        if e is None:
            try:
                next(self.gen.it)
            except StopIteration:
                return False
            raise it.throw('RuntimeError', "generator didn't stop")
        try:
            self.gen.it.throw(e)
        except StopIteration:
            return True
        except PyRaise as e2:
            if e2 is e or e2.exc is e.exc:
                return False
            raise
        raise it.throw('RuntimeError', "generator didn't stop after throw()")

    def vcall(self, it, args, kw):
        """as a decorator: every call runs in a context manager of its own"""
        return within_context(args[0], lambda i: VGenCM(self.again()))


def within_context(f, make):
    def run(i, a, k):
        cm = make(i)
        i.call(i.getattr(cm, '__enter__'), [], {})
        try:
            r = i.call(f, list(a), k)
        except PyRaise as e:
            if i.truth(i.call(i.getattr(cm, '__exit__'), [e.exc.cls, e.exc, None], {})):
                return None
            raise
        i.call(i.getattr(cm, '__exit__'), [None, None, None], {})
        return r
    return VNative(getattr(f, 'name', 'decorated'), run, bind=True)


# ------------------------------------------------------------------ typing
class VTyping(VExt):
    """annotation objects: inert"""
    __slots__ = ('name', 'args')

    def __init__(self, name, args=()):
        self.name, self.args = name, args

    def __repr__(self):
        return self.name

    def vget(self, it, name):
        if name == '__args__':
            return tuple(self.args)
        if name == '__name__':
            return self.name
        return VTyping(f'{self.name}.{name}')

    def vcall(self, it, args, kw):
        return VTyping(f'{self.name}()')

    def vgetitem(self, it, i):
        return VTyping(f'{self.name}[...]', i if isinstance(i, tuple) else (i,))

    def vbinop(self, it, sym, o, rev):
        if sym == '|':
            return VTyping('union', (self, o))
        raise it.throw('TypeError', 'unsupported operand')

    def vtype(self, it):
        return it.builtins['object']

    def vinstancecheck(self, it, v):
        if self.name.startswith('Union') or self.name.startswith('union') or self.name.startswith('Optional'):
            r = any(it.isinstance_(v, x) for x in self.args)
            return r or (self.name.startswith('Optional') and v is None)
        if self.name.split('[')[0] in ('Callable',):
            return b_callable(it, [v], {})
        if self.name in ('Sequence',):
            return it.isinstance_(v, it.abc['Sequence'])
        raise it.throw('TypeError', 'isinstance() arg 2 must be a type')

    def vhash(self, it):
        return ('typing', self.name, len(self.args), id(self) if self.args else 0)

    def vtruth(self, it):
        return True


# ------------------------------------------------------------------ logging
class VLogger(VExt):
    def __init__(self, name):
        self.name = name

    def vtype(self, it):
        return it.builtins['object']

    def vget(self, it, name):
        if name in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'warn', 'log'):
            def f(i, a, k):
                lvl = 'warning' if name == 'warn' else name
                i.logs.append((lvl, a))
                if lvl != 'debug' and lvl != 'info':
                    i.warnings.append((lvl, a[0] if a else None, i.where()))
                return None
            return VNative(name, f)
        if name in ('setLevel', 'addHandler', 'removeHandler', 'addFilter', 'setFormatter'):
            return VNative(name, lambda i, a, k: None)
        if name == 'isEnabledFor':
            return VNative(name, lambda i, a, k: True)
        if name in ('handlers', 'filters'):
            return VList([])
        if name in ('level', 'disabled', 'propagate'):
            return 0
        if name == 'name':
            return self.name
        raise it.unsupported(f'Logger.{name}')

    def vset(self, it, name, v):
        return None


def install(it):
    B = {}
    it.builtins = B
    H = it.builtins_hidden = {}
    it.extmods = {}
    it.abc = {}
    it.float32_limit = False
    obj = VClass('object', (), builtin=True, construct=None)
    obj.mro = [obj]
    B['object'] = obj
    typ = VClass('type', (obj,), builtin=True, construct=c_type)
    B['type'] = typ

    def mkc(name, bases=('object',), construct=None, hidden=False):
        c = VClass(name, tuple(B.get(b) or H[b] for b in bases), builtin=True, construct=construct)
        (H if hidden else B)[name] = c
        return c
    mkc('int', construct=c_int)
    mkc('bool', ('int',), construct=c_bool)
    mkc('float', construct=c_float)
    mkc('complex')
    mkc('str', construct=c_str)
    mkc('bytes', construct=c_bytes)
    mkc('bytearray', construct=c_bytearray)
    mkc('list', construct=c_list)
    mkc('tuple', construct=c_tuple)
    mkc('dict', construct=c_dict)
    mkc('set', construct=c_set(False))
    mkc('frozenset', construct=c_set(True))
    mkc('range', construct=c_range)
    mkc('slice', construct=c_slice)
    mkc('property', construct=c_property)
    mkc('staticmethod', construct=lambda i, c, a, k: VStatic(a[0]))
    mkc('classmethod', construct=lambda i, c, a, k: VClassM(a[0]))
    mkc('memoryview', construct=lambda i, c, a, k: _memview(i, a[0]))
    for n, base in EXC.items():
        mkc(n, (base,) if base else ('object',))
    B['EnvironmentError'] = B['OSError']
    for n in ('NoneType', 'generator', 'function', 'module', 'file', 'Struct', 'Pattern', 'Match', 'timezone',
              'timedelta', 'dict_keys', 'dict_values', 'dict_items', 'ellipsis', 'NotImplementedType', 'PathLike'):
        mkc(n, hidden=True)
    mkc('defaultdict', ('dict',), construct=c_defaultdict, hidden=True)
    mkc('OrderedDict', ('dict',), construct=c_dict, hidden=True)
    mkc('Counter', ('dict',), construct=c_counter, hidden=True)
    mkc('deque', construct=c_deque, hidden=True)
    mkc('NamedTuple', construct=lambda i, c, a, k: namedtuple_(i, [a[0], VList([p[0] for p in map(
        lambda q: list(i.iterate(q)), i.iterate(a[1]))])], {}), hidden=True)
    mkc('EnumType', ('type',), hidden=True)
    H['EnumType'].construct = None
    mkc('Enum', hidden=True)
    en = H['Enum']
    en.members = None
    for n, bs in (('IntEnum', ('int', 'Enum')), ('StrEnum', ('str', 'Enum')), ('Flag', ('Enum',)),
                  ('IntFlag', ('int', 'Flag'))):
        mkc(n, bs, hidden=True)
    for c in H.values():
        if c.name in ('Enum', 'IntEnum', 'StrEnum'):
            c.builtin = True
    mkc('ABC', hidden=True)
    mkc('Number', hidden=True)
    H['Number'].native_type = lambda i, v, c: any(x.name in ('int', 'float', 'complex') or x.name == 'np.number'
                                                  for x in c.mro)
    mkc('Real', hidden=True)
    H['Real'].native_type = lambda i, v, c: any(x.name in ('int', 'float') or x.name == 'np.number' for x in c.mro)
    mkc('Integral', hidden=True)
    H['Integral'].native_type = lambda i, v, c: any(x.name == 'int' or x.name == 'np.integer' for x in c.mro)
    mkc('CacheInfo', hidden=True)

    def abc_cls(name, test):
        c = mkc('abc.' + name, hidden=True)
        c.native_type = test
        it.abc[name] = c
    names = lambda c: {x.name for x in c.mro}
    has = lambda c, *ms: all(c.lookup(m) is not MISSING for m in ms)
    abc_cls('Sequence', lambda i, v, c: bool(names(c) & {'list', 'tuple', 'str', 'bytes', 'range', 'bytearray'}))
    abc_cls('MutableSequence', lambda i, v, c: bool(names(c) & {'list', 'bytearray'}))
    abc_cls('Mapping', lambda i, v, c: bool(names(c) & {'dict'}))
    abc_cls('MutableMapping', lambda i, v, c: bool(names(c) & {'dict'}))
    abc_cls('Iterable', lambda i, v, c: bool(names(c) & {'list', 'tuple', 'str', 'bytes', 'range', 'bytearray', 'dict',
                                                         'set', 'frozenset', 'generator', 'dict_keys', 'dict_values',
                                                         'dict_items', 'np.ndarray'}) or has(c, '__iter__'))
    abc_cls('Iterator', lambda i, v, c: c.name == 'generator' or has(c, '__iter__', '__next__'))
    abc_cls('Generator', lambda i, v, c: c.name == 'generator')
    abc_cls('Callable', lambda i, v, c: b_callable(i, [v], {}))
    abc_cls('Hashable', lambda i, v, c: not (names(c) & {'list', 'dict', 'set', 'bytearray'}))
    abc_cls('Sized', lambda i, v, c: bool(names(c) & {'list', 'tuple', 'str', 'bytes', 'range', 'bytearray', 'dict',
                                                      'set', 'frozenset'}) or has(c, '__len__'))
    abc_cls('Set', lambda i, v, c: bool(names(c) & {'set', 'frozenset'}))
    abc_cls('Collection', lambda i, v, c: bool(names(c) & {'list', 'tuple', 'str', 'bytes', 'range', 'dict', 'set'}))
    abc_cls('ByteString', lambda i, v, c: bool(names(c) & {'bytes', 'bytearray'}))
    abc_cls('KeysView', lambda i, v, c: c.name == 'dict_keys')
    abc_cls('ValuesView', lambda i, v, c: c.name == 'dict_values')

    fns = {'len': b_len, 'min': b_minmax('min'), 'max': b_minmax('max'), 'abs': b_abs, 'round': b_round, 'sum': b_sum,
           'any': b_any, 'all': b_all, 'zip': b_zip, 'map': b_map, 'filter': b_filter, 'enumerate': b_enumerate,
           'reversed': b_reversed, 'sorted': b_sorted, 'iter': b_iter, 'next': b_next, 'getattr': b_getattr,
           'hasattr': b_hasattr, 'setattr': b_setattr, 'delattr': b_delattr, 'isinstance': b_isinstance,
           'issubclass': b_issubclass, 'hash': b_hash, 'repr': b_repr, 'format': b_format, 'ord': b_ord, 'chr': b_chr,
           'bin': b_int_str(bin), 'hex': b_int_str(hex), 'oct': b_int_str(oct), 'callable': b_callable,
           'vars': b_vars, 'dir': b_dir, 'id': b_id, 'divmod': b_divmod, 'pow': b_pow, 'print': b_print,
           'super': b_super, 'open': b_open,
           'ascii': lambda i, a, k: i.repr_(a[0])}
    for n, f in fns.items():
        B[n] = VNative(n, f)
    B['NotImplemented'] = NotImplemented
    B['Ellipsis'] = Ellipsis
    B['__debug__'] = True
    B['True'], B['False'], B['None'] = True, False, None
    B['__name__'] = 'builtins'

    def o_setattr(i, a, k):
        o, n, v = a
        n = i.prim(n)
        if isinstance(o, VObj):
            i.obj_setattr(o, n, v)
        else:
            o.touch()
            o.ns[n] = v

    def o_getattribute(i, a, k):
        return i.getattr(a[0], i.prim(a[1]))

    def o_new(i, a, k):
        return i.object_new(a[0], a[1:], k)

    def o_eq(i, a, k):
        return True if a[0] is a[1] else NotImplemented

    def o_repr(i, a, k):
        return f'<{i.type_of(a[0]).name} object>'
    it.object_methods = {n: VNative(n, f, bind=(n not in ('__new__', '__init_subclass__'))) for n, f in {
        '__init__': lambda i, a, k: None, '__new__': o_new, '__setattr__': o_setattr,
        '__getattribute__': o_getattribute, '__delattr__': lambda i, a, k: i.delattr(a[0], a[1]), '__eq__': o_eq,
        '__ne__': lambda i, a, k: a[0] is not a[1], '__hash__': lambda i, a, k: b_hash(i, a, k),
        '__repr__': o_repr, '__str__': lambda i, a, k: i.repr_(a[0]), '__init_subclass__': lambda i, a, k: None,
        '__format__': lambda i, a, k: i.str_(a[0]), '__dir__': b_dir,
        '__reduce__': lambda i, a, k: (_ for _ in ()).throw(i.unsupported('__reduce__')),
        '__sizeof__': lambda i, a, k: 64}.items()}

    def throw_struct(msg):
        return PyRaise(it.make_exc(H['struct.error'], (msg,)), it.where())
    it.throw_struct = throw_struct
    e = VClass('struct.error', (B['Exception'],), builtin=False)
    H['struct.error'] = e

    def infeasible():
        from .lin import Infeasible
        raise Infeasible()
    it.infeasible = infeasible

    # file system model (replaced by harnesses)
    it.fs = None

    def fs_open(path, mode, kw):
        if it.fs is None:
            raise it.unsupported('open()')
        return it.fs.open(it, fspath(it, path), mode, kw)
    it.fs_open = fs_open

    def fs_event(kind, f, data):
        return it.fs.event(it, kind, f, data)
    it.fs_event = fs_event
    it.fs_tell = lambda f: it.fs.tell(it, f)

    M = it.extmods

    def mod(name, **ns):
        m = VModule(name, external=True)
        m.ns.update(ns)
        M[name] = m
        if '.' in name:
            p, c = name.rsplit('.', 1)
            if p in M:
                M[p].ns[c] = m
        return m

    def nat(name, f):
        return VNative(name, f)

    # struct
    mod('struct', Struct=VClass('Struct', (obj,), builtin=True, construct=lambda i, c, a, k: VStruct(i, a[0])),
        pack=nat('pack', lambda i, a, k: VStruct(i, a[0]).pack(i, a[1:])),
        unpack=nat('unpack', lambda i, a, k: VStruct(i, a[0]).unpack(i, a[1])),
        calcsize=nat('calcsize', lambda i, a, k: native(i, _struct.calcsize, a[0])), error=e,
        unpack_from=nat('unpack_from', lambda i, a, k: i.call(VStruct(i, a[0]).vget(i, 'unpack_from'), a[1:], k)),
        pack_into=nat('pack_into', lambda i, a, k: i.call(VStruct(i, a[0]).vget(i, 'pack_into'), a[1:])))
    # enum
    from .interp import AUTO
    mod('enum', Enum=H['Enum'], IntEnum=H['IntEnum'], StrEnum=H['StrEnum'], EnumMeta=H['EnumType'],
        EnumType=H['EnumType'], Flag=H['Flag'], IntFlag=H['IntFlag'], auto=nat('auto', lambda i, a, k: AUTO),
        unique=nat('unique', lambda i, a, k: a[0]))
    # datetime
    dtc = VClass('datetime', (obj,), builtin=True, construct=c_datetime)
    it.datetime_cls = dtc

    def dt_now(i, a, k):
        tz = kwget(a, k, 0, 'tz')
        i.now_calls = getattr(i, 'now_calls', 0) + 1
        i.events.append(('now', i.where()))
        return VDatetime(fresh_fields(i, 'now'), tz, name='now')
    dtc.ns['now'] = VStatic(nat('now', dt_now))
    dtc.ns['utcnow'] = VStatic(nat('utcnow', lambda i, a, k: dt_now(i, [], {})))
    dtc.ns['today'] = VStatic(nat('today', dt_now))
    dtc.ns['strptime'] = VStatic(nat('strptime', dt_strptime))

    def dt_iso(i, a, k):
        s = i.prim(a[0])
        if isinstance(s, str):
            return dt_native(native(i, _dt.datetime.fromisoformat, s))
        raise i.unsupported('fromisoformat of unknown text')
    dtc.ns['fromisoformat'] = VStatic(nat('fromisoformat', dt_iso))
    tzc = H['timezone']
    tzc.ns['utc'] = UTC
    tzc.construct = lambda i, c, a, k: UTC if isinstance(a[0], VTimedelta) and i.ctx_compare('==', a[0].secs, 0) \
        else VZone('offset')

    def c_td(i, c, a, k):
        u = dict(zip(('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'), a))
        u.update(k)
        w = {'days': 86400, 'seconds': 1, 'microseconds': 1e-6, 'milliseconds': 1e-3, 'minutes': 60, 'hours': 3600,
             'weeks': 604800}
        from fractions import Fraction
        w['microseconds'], w['milliseconds'] = Fraction(1, 10 ** 6), Fraction(1, 1000)
        t = N(0)
        for n, v in u.items():
            v = i.prim(v)
            if isinstance(v, float) and (v != v):
                raise i.throw('ValueError', 'cannot convert float NaN to integer')
            if not isinstance(v, (int, float, Num)):
                raise i.throw('TypeError', 'unsupported type for timedelta')
            t = add(t, scale(v, w[n]))
        return VTimedelta(simp(t))
    H['timedelta'].construct = c_td
    mod('datetime', datetime=dtc, timezone=tzc, timedelta=H['timedelta'], UTC=UTC,
        date=VClass('date', (obj,), builtin=True), time=VClass('time', (obj,), builtin=True),
        tzinfo=VClass('tzinfo', (obj,), builtin=True))
    # re
    def refn(name):
        def f(i, a, k):
            p = a[0] if isinstance(a[0], VPattern) else VPattern(i, a[0], k.get('flags', 0))
            return i.call(p.vget(i, name), a[1:])
        return nat(name, f)
    mod('re', compile=nat('compile', lambda i, a, k: VPattern(i, a[0], kwget(a, k, 1, 'flags', 0))),
        Pattern=H['Pattern'], ASCII=int(_re.ASCII), IGNORECASE=int(_re.I), I=int(_re.I), A=int(_re.A),
        escape=nat('escape', lambda i, a, k: native(i, _re.escape, a[0])),
        **{n: refn(n) for n in ('fullmatch', 'match', 'search', 'sub', 'findall', 'split')})
    # logging
    lg = nat('getLogger', lambda i, a, k: VLogger(a[0] if a else 'root'))
    root = VLogger('root')
    mod('logging', getLogger=lg, DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50,
        Logger=VClass('Logger', (obj,), builtin=True),
        NullHandler=nat('NullHandler', lambda i, a, k: VLogger('h')),
        StreamHandler=nat('StreamHandler', lambda i, a, k: VLogger('h')),
        Formatter=nat('Formatter', lambda i, a, k: VLogger('f')),
        basicConfig=nat('basicConfig', lambda i, a, k: None),
        **{n: root.vget(it, n) for n in ('debug', 'info', 'warning', 'error', 'critical')})
    # functools
    def f_lru(i, a, k):
        if a and (isinstance(a[0], (VFunc, VNative, VClass, VStatic, VClassM))):
            return VCache(a[0], 128)
        ms = kwget(a, k, 0, 'maxsize', 128)
        return nat('lru_cache', lambda i2, a2, k2: VCache(a2[0], ms))

    def f_wraps(i, a, k):
        w = a[0]

        def deco(i2, a2, k2):
            f = a2[0]
            if isinstance(f, VFunc):
                f.name = getattr(w, 'name', f.name)
                f.qualname = getattr(w, 'qualname', f.qualname)
                f.attrs['__wrapped__'] = w
            return f
        return nat('wraps', deco)

    def f_reduce(i, a, k):
        src = i.iterate(a[1])
        if len(a) > 2:
            r = a[2]
        else:
            try:
                r = next(src)
            except StopIteration:
                raise i.throw('TypeError', 'reduce() of empty iterable')
        for x in src:
            r = i.call(a[0], [r, x])
        return r
    from .interp import VPartialMethod
    mod('functools', lru_cache=nat('lru_cache', f_lru), cache=nat('cache', lambda i, a, k: VCache(a[0], None)),
        cached_property=VClass('cached_property', (obj,), builtin=True,
                               construct=lambda i, c, a, k: VCachedProperty(a[0])),
        wraps=nat('wraps', f_wraps), partial=nat('partial', lambda i, a, k: VPartial(a[0], a[1:], k)),
        reduce=nat('reduce', f_reduce), partialmethod=nat('partialmethod', lambda i, a, k: VPartialMethod(a[0], a[1:], k)),
        update_wrapper=nat('update_wrapper', lambda i, a, k: a[0]),
        total_ordering=nat('total_ordering', lambda i, a, k: a[0]),
        singledispatch=nat('singledispatch', lambda i, a, k: (_ for _ in ()).throw(i.unsupported('singledispatch'))))
    # contextlib
    def cm(i, a, k):
        f = a[0]

        def make(i2, a2, k2):
            return VGenCM(i2.call(f, a2, k2), lambda: i2.call(f, a2, k2))
        return VNative(getattr(f, 'name', 'cm'), make, bind=True)

    class Suppress(VExt):
        def __init__(self, excs):
            self.excs = excs

        def vtype(self, i):
            return obj

        def venter(self, i):
            return None

        def vexit(self, i, e):
            return e is not None and i.isinstance_(e.exc, tuple(self.excs))

    class NullCM(VExt):
        def __init__(self, v):
            self.v = v

        def vtype(self, i):
            return obj

        def venter(self, i):
            return self.v

        def vexit(self, i, e):
            return False
    it.null_cm = NullCM

    class ExitStack(VExt):
        """callbacks and contexts, left in reverse order"""
        def __init__(self):
            self.todo = []          # f(i, e) -> swallowed

        def vtype(self, i):
            return obj

        def vget(self, i, name):
            def enter_context(i, a, k):
                c = a[0]
                v = i.call(i.getattr(c, '__enter__'), [], {}) if not hasattr(c, 'venter') else c.venter(i)

                def leave(i, e):
                    if hasattr(c, 'vexit'):
                        return c.vexit(i, e)
                    x = [e.exc.cls, e.exc, None] if e is not None else [None, None, None]
                    return i.truth(i.call(i.getattr(c, '__exit__'), x, {}))
                self.todo.append(leave)
                return v

            def callback(i, a, k):
                def run(i, e):
                    i.call(a[0], list(a[1:]), k)
                    return False
                self.todo.append(run)
                return a[0]
            if name == 'enter_context':
                return VNative(name, enter_context)
            if name == 'callback':
                return VNative(name, callback)
            if name == 'close':
                return VNative(name, lambda i, a, k: self.vexit(i, None))
            if name == 'pop_all':
                def pop_all(i, a, k):
                    n = ExitStack()
                    n.todo, self.todo = self.todo, []
                    return n
                return VNative(name, pop_all)
            if name == '__enter__':
                return VNative(name, lambda i, a, k: self)
            if name == '__exit__':
                return VNative(name, lambda i, a, k: self.vexit(i, PyRaise(a[1]) if a and a[0] is not None else None))
            return MISSING

        def venter(self, i):
            return self

        def vexit(self, i, e):
            first, swallowed = e, False
            while self.todo:
                f = self.todo.pop()
                try:
                    if f(i, e) and e is not None:
                        e, swallowed = None, True
                except PyRaise as e2:
                    e, swallowed = e2, False
            if e is not None and e is not first:
                raise e
            return swallowed and e is None

    ctx_dec = VClass('ContextDecorator', (obj,), builtin=True)
    ctx_dec.ns['__call__'] = VNative('__call__', lambda i, a, k: within_context(a[1], lambda j, s=a[0]: s), bind=True)
    mod('contextlib', ContextDecorator=ctx_dec, AbstractContextManager=VClass('AbstractContextManager', (obj,), builtin=True),
        ExitStack=VClass('ExitStack', (obj,), builtin=True, construct=lambda i, c, a, k: ExitStack()),
        contextmanager=nat('contextmanager', cm),
        suppress=nat('suppress', lambda i, a, k: Suppress(a)),
        nullcontext=nat('nullcontext', lambda i, a, k: NullCM(a[0] if a else None)))
    # collections
    from collections import namedtuple as _nt  # noqa
    mod('collections', defaultdict=H['defaultdict'], OrderedDict=H['OrderedDict'], Counter=H['Counter'],
        namedtuple=nat('namedtuple', namedtuple_), deque=H['deque'])
    mod('collections.abc', **it.abc)
    # typing
    names_t = ('Any Union Optional Callable Generator Iterable Iterator Sequence Type Dict List Tuple Set Literal '
               'ClassVar Final TypeAlias Mapping MutableMapping NoReturn Self Hashable Annotated Concatenate '
               'FrozenSet Awaitable Text AnyStr IO BinaryIO Collection DefaultDict SupportsIndex Never LiteralString '
               'Sized').split()
    tns = {n: VTyping(n) for n in names_t}
    tns['TYPE_CHECKING'] = False
    ident = nat('identity', lambda i, a, k: a[0])
    for n in ('overload', 'final', 'runtime_checkable', 'no_type_check', 'override'):
        tns[n] = ident
    tns['cast'] = nat('cast', lambda i, a, k: a[1])
    tns['TypeVar'] = nat('TypeVar', lambda i, a, k: VTyping(f'~{a[0]}'))
    tns['ParamSpec'] = nat('ParamSpec', lambda i, a, k: VTyping(f'~{a[0]}'))
    tns['NewType'] = nat('NewType', lambda i, a, k: ident)
    tns['get_args'] = nat('get_args', lambda i, a, k: tuple(getattr(a[0], 'args', ())))
    tns['get_origin'] = nat('get_origin', lambda i, a, k: None)
    gen = VClass('Generic', (obj,), builtin=True)
    gen.ns['__class_getitem__'] = VNative('cgi', lambda i, a, k: a[0])
    tns['Generic'] = gen
    proto = VClass('Protocol', (obj,), builtin=True)
    proto.ns['__class_getitem__'] = VNative('cgi', lambda i, a, k: a[0])
    tns['Protocol'] = proto
    tns['TypedDict'] = VClass('TypedDict', (B['dict'],), builtin=True,
                              construct=lambda i, c, a, k: B['dict'] if c is tns['TypedDict'] else c_dict(i, c, a, k))
    tns['NamedTuple'] = H['NamedTuple']
    mod('typing', **tns)
    mod('typing_extensions', **tns)
    mod('types', MappingProxyType=nat('MappingProxyType', lambda i, a, k: a[0]), FunctionType=H['function'],
        NoneType=H['NoneType'], SimpleNamespace=nat('SimpleNamespace', lambda i, a, k: VObj(obj, dict(k))),
        GeneratorType=H['generator'])
    # abc
    mod('abc', ABC=H['ABC'], ABCMeta=typ, abstractmethod=nat('abstractmethod', _abstract),
        abstractproperty=nat('abstractproperty', lambda i, a, k: VProperty(a[0])))
    # numbers
    mod('numbers', Number=H['Number'], Real=H['Real'], Integral=H['Integral'])
    # dataclasses
    mod('dataclasses', dataclass=nat('dataclass', dataclass_),
        field=nat('field', lambda i, a, k: VField(k)), replace=nat('replace', dc_replace),
        asdict=nat('asdict', dc_as(False)), astuple=nat('astuple', dc_as(True)),
        is_dataclass=nat('is_dataclass', lambda i, a, k: isinstance(a[0], (VObj, VClass)) and bool(_dc_all(a[0]))),
        KW_ONLY=VOpaque('KW_ONLY'), InitVar=VOpaque('InitVar'),
        fields=nat('fields', lambda i, a, k: tuple(_dc_all(a[0])[n] for n in _dc_fields(a[0]))))
    # operator
    def opf(op):
        return lambda i, a, k: i.binop(op(), a[0], a[1])

    def attrgetter(i, a, k):
        def one(i2, o, path):
            for p in path.split('.'):
                o = i2.getattr(o, p)
            return o
        return nat('attrgetter', lambda i2, a2, k2: one(i2, a2[0], a[0]) if len(a) == 1
                   else tuple(one(i2, a2[0], p) for p in a))

    def itemgetter(i, a, k):
        return nat('itemgetter', lambda i2, a2, k2: i2.getitem(a2[0], a[0]) if len(a) == 1
                   else tuple(i2.getitem(a2[0], p) for p in a))
    mod('operator', attrgetter=nat('attrgetter', attrgetter), itemgetter=nat('itemgetter', itemgetter),
        methodcaller=nat('methodcaller', lambda i, a, k: nat('mc', lambda i2, a2, k2: i2.call(
            i2.getattr(a2[0], a[0]), a[1:], k))),
        add=nat('add', opf(_ast.Add)), sub=nat('sub', opf(_ast.Sub)), mul=nat('mul', opf(_ast.Mult)),
        or_=nat('or_', opf(_ast.BitOr)), and_=nat('and_', opf(_ast.BitAnd)),
        eq=nat('eq', lambda i, a, k: i.compare(_ast.Eq(), a[0], a[1])),
        ne=nat('ne', lambda i, a, k: i.compare(_ast.NotEq(), a[0], a[1])),
        lt=nat('lt', lambda i, a, k: i.compare(_ast.Lt(), a[0], a[1])),
        gt=nat('gt', lambda i, a, k: i.compare(_ast.Gt(), a[0], a[1])),
        is_=nat('is_', lambda i, a, k: a[0] is a[1]), contains=nat('contains', lambda i, a, k: i.contains(a[0], a[1])),
        index=nat('index', op_index), getitem=nat('getitem', lambda i, a, k: i.getitem(a[0], a[1])),
        not_=nat('not_', lambda i, a, k: not i.truth(a[0])))
    def bisector(left, insert):
        def f(i, a, k):
            l, x = a[0], a[1]
            key = k.get('key')
            lo, hi = kwget(a, k, 2, 'lo', 0), kwget(a, k, 3, 'hi')
            hi = i.length(l) if hi is None else hi
            if key is not None and not insert:
                kx = x
            else:
                kx = i.call(key, [x]) if key is not None else x
            while i.ctx_compare('<', lo, hi):
                mid = i.binop(_ast.FloorDiv(), i.binop(_ast.Add(), lo, hi), 2)
                y = i.getitem(l, mid)
                y = i.call(key, [y]) if key is not None else y
                if i.truth(i.compare(_ast.Lt(), y, kx)) if left else not i.truth(i.compare(_ast.Lt(), kx, y)):
                    lo = i.binop(_ast.Add(), mid, 1)
                else:
                    hi = mid
            if insert:
                return i.call(i.getattr(l, 'insert'), [lo, x])
            return lo
        return f
    mod('bisect', bisect_left=nat('bisect_left', bisector(True, False)), bisect=nat('bisect', bisector(False, False)),
        bisect_right=nat('bisect_right', bisector(False, False)), insort=nat('insort', bisector(False, True)),
        insort_left=nat('insort_left', bisector(True, True)), insort_right=nat('insort_right', bisector(False, True)))
    # math
    def mfn(name):
        fn = getattr(_math, name)

        def f(i, a, k):
            a = [i.prim(x) for x in a]
            a = [x.vprim(i) if isinstance(x, VExt) and hasattr(x, 'vprim') else x for x in a]
            if all(isinstance(x, (int, float)) for x in a):
                return native(i, fn, *a)
            if all(isinstance(x, (int, float, Num)) for x in a):
                if name == 'ceil':
                    return i.ctx.floor(a[0], ceil=True)
                if name == 'floor':
                    return i.ctx.floor(a[0])
                if name == 'trunc':
                    return i.ctx.trunc(a[0])
                if name in ('isnan', 'isinf'):
                    return False
                if name == 'isfinite':
                    return True
                if name == 'fabs':
                    return i.as_float(b_abs(i, a, {}))
                if name in ('log10', 'log2', 'log', 'sqrt', 'log1p', 'exp'):
                    return i.ctx.func(name, lambda *x: fn(*map(float, x)), *a, isint=False)
                if name == 'isclose':
                    kk = {n: float(v) for n, v in k.items()}
                    x, y = a
                    return i.ctx.pred(('isclose', N(x).key(), N(y).key(), tuple(sorted(kk.items()))),
                                      lambda m: fn(float(m.num(x)), float(m.num(y)), **kk), 'isclose')
            if any(not isinstance(x, (int, float, Num)) for x in a):
                raise i.throw('TypeError', 'must be real number')
            raise i.unsupported(f'math.{name}')
        return nat(name, f)
    mod('math', pi=_math.pi, inf=_math.inf, nan=_math.nan, e=_math.e,
        prod=nat('prod', b_prod),
        **{n: mfn(n) for n in ('ceil', 'floor', 'trunc', 'isnan', 'isinf', 'isfinite', 'fabs', 'log10', 'log2', 'log',
                               'sqrt', 'isclose', 'gcd', 'exp', 'copysign', 'lcm', 'fmod', 'modf', 'frexp', 'ldexp', 'sin', 'cos',
                               'tan', 'atan', 'atan2', 'radians', 'degrees', 'hypot', 'pow', 'log1p', 'expm1', 'isqrt',
                               'remainder', 'comb', 'factorial')})
    # itertools
    def i_chain(i, a, k):
        def gen():
            for x in a:
                yield from i.iterate(x)
        return VIter(gen())

    def i_chain_from(i, a, k):
        def gen():
            for x in i.iterate(a[0]):
                yield from i.iterate(x)
        return VIter(gen())
    chain = VNative('chain', i_chain)
    chain.attrs['from_iterable'] = nat('from_iterable', i_chain_from)

    def i_count(i, a, k):
        def gen():
            n = kwget(a, k, 0, 'start', 0)
            st = kwget(a, k, 1, 'step', 1)
            while True:
                yield n
                n = simp(add(n, st)) if isinstance(n, Num) or isinstance(st, Num) else n + st
        return VIter(gen())

    def i_islice(i, a, k):
        src = i.iterate(a[0])
        s = slice(*[i.as_index(x) for x in a[1:]]) if len(a) > 2 else slice(0, i.as_index(a[1]), 1)
        if any(isinstance(x, Num) for x in (s.start, s.stop, s.step)):
            def gen():
                n = s.start or 0
                j = 0
                while i.ctx_compare('<', j, n):
                    if next(src, _NO) is _NO:
                        return
                    j += 1
                while s.stop is None or i.ctx_compare('<', j, s.stop):
                    v = next(src, _NO)
                    if v is _NO:
                        return
                    yield v
                    j += 1
            return VIter(gen())
        return VIter(_it.islice(src, s.start, s.stop, s.step))

    def i_groupby(i, a, k):
        key = kwget(a, k, 1, 'key')

        def gen():
            cur = _NO
            acc = []
            for x in i.iterate(a[0]):
                kk = i.call(key, [x]) if key is not None else x
                if cur is not _NO and i.eq(kk, cur):
                    acc.append(x)
                else:
                    if cur is not _NO:
                        yield (cur, VIter(iter(acc)))
                    cur, acc = kk, [x]
            if cur is not _NO:
                yield (cur, VIter(iter(acc)))
        return VIter(gen())

    def i_takewhile(i, a, k):
        def gen():
            for x in i.iterate(a[1]):
                if not i.truth(i.call(a[0], [x])):
                    return
                yield x
        return VIter(gen())

    def i_acc(i, a, k):
        def gen():
            r = _NO
            for x in i.iterate(a[0]):
                r = x if r is _NO else (i.binop(_ast.Add(), r, x) if len(a) < 2 else i.call(a[1], [r, x]))
                yield r
        return VIter(gen())
    def i_repeat(i, a, k):
        n = kwget(a, k, 1, 'times', MISSING)
        if n is MISSING:
            return VIter(_it.repeat(a[0]))
        return VIter(_it.repeat(a[0], n if isinstance(n, int) else i.concretise(n)))

    def i_dropwhile(i, a, k):
        def gen():
            xs = i.iterate(a[1])
            for x in xs:
                if not i.truth(i.call(a[0], [x])):
                    yield x
                    break
            yield from xs
        return VIter(gen())

    def i_cycle(i, a, k):
        def gen():
            xs = []
            for x in i.iterate(a[0]):
                xs.append(x)
                yield x
            while xs:
                for x in xs:
                    yield x
        return VIter(gen())

    def i_batched(i, a, k):
        def gen():
            xs = i.iterate(a[0])
            while b := tuple(_it.islice(xs, a[1])):
                yield b
        return VIter(gen())
    mod('itertools', dropwhile=nat('dropwhile', i_dropwhile), cycle=nat('cycle', i_cycle),
        batched=nat('batched', i_batched),
        permutations=nat('permutations', lambda i, a, k: VIter(_it.permutations(list(i.iterate(a[0])), *a[1:]))),
        combinations_with_replacement=nat('cwr', lambda i, a, k: VIter(_it.combinations_with_replacement(
            list(i.iterate(a[0])), a[1]))),
        compress=nat('compress', lambda i, a, k: VIter(x for x, y in zip(i.iterate(a[0]), i.iterate(a[1])) if i.truth(y))),
        chain=chain, count=nat('count', i_count), islice=nat('islice', i_islice),
        repeat=nat('repeat', i_repeat),
        groupby=nat('groupby', i_groupby), takewhile=nat('takewhile', i_takewhile),
        accumulate=nat('accumulate', i_acc),
        product=nat('product', lambda i, a, k: VIter(_it.product(*[list(i.iterate(x)) for x in a]))),
        combinations=nat('combinations', lambda i, a, k: VIter(_it.combinations(list(i.iterate(a[0])), a[1]))),
        starmap=nat('starmap', lambda i, a, k: VIter(i.call(a[0], list(i.iterate(x))) for x in i.iterate(a[1]))),
        zip_longest=nat('zip_longest', lambda i, a, k: VIter(_it.zip_longest(
            *[i.iterate(x) for x in a], fillvalue=k.get('fillvalue')))),
        pairwise=nat('pairwise', lambda i, a, k: VIter(_it.pairwise(i.iterate(a[0])))),
        tee=nat('tee', lambda i, a, k: tuple(VIter(x) for x in _it.tee(i.iterate(a[0]), *(a[1:2] or [2])))),
        filterfalse=nat('filterfalse', lambda i, a, k: VIter(x for x in i.iterate(a[1]) if not i.truth(
            i.call(a[0], [x])))))
    # copy
    mod('copy', copy=nat('copy', copy_), deepcopy=nat('deepcopy', deepcopy_))
    # timeit, time
    def timeit_(i, a, k):
        fn = kwget(a, k, 0, 'stmt')
        num = kwget(a, k, 3, 'number', k.get('number', 1))
        for _ in range(num if isinstance(num, int) else 1):
            i.call(fn, [])
        return 0.5
    mod('timeit', timeit=nat('timeit', timeit_), default_timer=nat('default_timer', lambda i, a, k: 0.5))
    mod('time', time=nat('time', lambda i, a, k: 0.5), perf_counter=nat('perf_counter', lambda i, a, k: 0.5),
        monotonic=nat('monotonic', lambda i, a, k: 0.5))
    mod('progressbar', progressbar=nat('progressbar', progress))
    mod('warnings', warn=nat('warn', lambda i, a, k: i.warnings.append(('warning', a[0], i.where()))),
        catch_warnings=nat('catch_warnings', lambda i, a, k: NullCM(None)),
        simplefilter=nat('simplefilter', lambda i, a, k: None))
    mod('random', randint=nat('randint', lambda i, a, k: rand_int(i, a[0], a[1])),
        randrange=nat('randrange', lambda i, a, k: rand_int(i, a[0] if len(a) > 1 else 0,
                                                            (a[1] if len(a) > 1 else a[0]) - 1)))
    mod('sys', version_info=(3, 12, 3), maxsize=2 ** 63 - 1, byteorder='little', platform='linux')
    mod('string', ascii_uppercase='ABCDEFGHIJKLMNOPQRSTUVWXYZ', ascii_lowercase='abcdefghijklmnopqrstuvwxyz',
        digits='0123456789', ascii_letters='abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
    # os, pathlib, io
    H['PathLike'].native_type = lambda i, v, c: c.name in ('Path', 'PurePath', 'PathLike')
    osm = mod('os', PathLike=H['PathLike'], fspath=nat('fspath', lambda i, a, k: fspath(i, a[0])), linesep='\n', sep='/',
              fsync=nat('fsync', lambda i, a, k: None),
              remove=nat('remove', lambda i, a, k: i.fs_event('remove', None, fspath(i, a[0]))),
              getcwd=nat('getcwd', lambda i, a, k: '/w'),
              unlink=nat('unlink', lambda i, a, k: i.fs_event('remove', None, fspath(i, a[0]))),
              environ=VDict(), replace=nat('replace', lambda i, a, k: i.fs_event('rename', None, (fspath(i, a[0]), fspath(i, a[1])))),
              rename=nat('rename', lambda i, a, k: i.fs_event('rename', None, (fspath(i, a[0]), fspath(i, a[1])))))
    H['PathLike'].ns['__class_getitem__'] = VNative('cgi', lambda i, a, k: a[0])
    mod('os.path', exists=nat('exists', lambda i, a, k: fs_exists(i, a[0])),
        isfile=nat('isfile', lambda i, a, k: fs_exists(i, a[0])),
        getsize=nat('getsize', lambda i, a, k: i.fs.size(i, fspath(i, a[0]))),
        basename=nat('basename', lambda i, a, k: native(i, __import__('os').path.basename, fspath(i, a[0]))),
        join=nat('join', lambda i, a, k: native(i, __import__('os').path.join, *[fspath(i, x) for x in a])),
        abspath=nat('abspath', lambda i, a, k: fspath(i, a[0])), splitext=nat('splitext', lambda i, a, k: native(
            i, __import__('os').path.splitext, fspath(i, a[0]))))
    pc = VClass('Path', (H['PathLike'],), builtin=True, construct=lambda i, c, a, k: VPath(c, native(i, joined_path, *[
        fspath(i, x) for x in a])))
    it.path_cls = pc
    mod('pathlib', Path=pc, PurePath=pc)
    mod('io', BytesIO=VClass('BytesIO', (obj,), builtin=True, construct=lambda i, c, a, k: VBytesIO(
        i.as_bytes(a[0]) if a else b'')), BufferedWriter=H['file'], IOBase=H['file'], RawIOBase=H['file'],
        DEFAULT_BUFFER_SIZE=8192)
    mod('__future__', annotations=None)
    mod('inspect', signature=nat('signature', lambda i, a, k: (_ for _ in ()).throw(i.unsupported('signature'))),
        isclass=nat('isclass', lambda i, a, k: isinstance(a[0], VClass)))
    from . import npm
    npm.install(it, mod, nat)


class VMemView(VExt):
    """memoryview of bytes or of a bytearray: a window, through which the bytearray is written"""
    __slots__ = ('obj', 'lo', 'n')

    def __init__(self, obj, lo, n):
        self.obj, self.lo, self.n = obj, lo, n

    def vbytes(self, it):
        return it.as_bytes(it.getitem(self.obj, slice(self.lo, add(self.lo, self.n))))

    def vlen(self, it):
        return self.n

    def vtruth(self, it):
        return it.ctx_compare('>', self.n, 0)

    def viter(self, it):
        return it.iterate(self.vbytes(it))

    def vtype(self, it):
        return it.builtins['memoryview']

    def vgetitem(self, it, i):
        if isinstance(i, slice):
            lo, hi = it.norm_bounds(i, self.n)
            return VMemView(self.obj, simp(add(self.lo, lo)), simp(sub(hi, lo)))
        return it.getitem(self.vbytes(it), i)

    def vsetitem(self, it, i, v):
        if not isinstance(self.obj, VBA):
            raise it.throw('TypeError', 'cannot modify read-only memory')
        if isinstance(i, slice):
            lo, hi = it.norm_bounds(i, self.n)
            b = it.as_bytes(v)
            if it.ctx_compare('!=', it.length(b), sub(hi, lo)):
                raise it.throw('ValueError', 'memoryview assignment: lvalue and rvalue have different structures')
            it.ba_set(self.obj, slice(simp(add(self.lo, lo)), simp(add(self.lo, hi))), b)
            return
        i = it.as_index(i)
        if it.ctx_compare('<', i, 0):
            i = simp(add(i, self.n))
        if it.ctx_compare('>=', i, self.n):
            raise it.throw('IndexError', 'index out of bounds on dimension 1')
        it.ba_set(self.obj, simp(add(self.lo, i)), v)

    def vcompare(self, it, sym, o, swapped):
        if sym not in ('==', '!='):
            raise it.throw('TypeError', f"'{sym}' not supported for memoryview")
        if isinstance(o, (VMemView, VBA)):
            o = it.as_bytes(o)
        r = isinstance(o, (bytes, SSeq)) and it.eq(self.vbytes(it), o)
        return r if sym == '==' else not r

    def vget(self, it, name):
        f = {'tobytes': lambda i, a, k: self.vbytes(i), 'release': lambda i, a, k: None,
             '__enter__': lambda i, a, k: self, '__exit__': lambda i, a, k: None,
             'toreadonly': lambda i, a, k: VMemView(self.vbytes(i), 0, self.n),
             'tolist': lambda i, a, k: VList(list(i.iterate(self)))}.get(name)
        if f is not None:
            return VNative(name, f)
        if name in ('nbytes',):
            return self.n
        if name in ('obj', 'readonly', 'itemsize', 'ndim', 'format'):
            return {'obj': self.obj, 'readonly': not isinstance(self.obj, VBA), 'itemsize': 1, 'ndim': 1,
                    'format': 'B'}[name]
        if hasattr(memoryview, name):
            raise it.unsupported(f'memoryview.{name}')
        return MISSING


def _memview(it, v):
    if isinstance(v, VMemView):
        return v
    if not isinstance(v, VBA):
        v = it.as_bytes(v)
    return VMemView(v, 0, it.length(v))


COUNTER = VNative('Counter', lambda i, a, k: 0)         # mark of a counter: missing keys count 0, but are not added


def c_counter(it, cls, a, kw):
    d = VDict()
    d.factory = COUNTER
    for s in a[:1]:
        if isinstance(it.prim(s), VDict):
            it.dict_update(d, s)
        else:
            for x in it.iterate(s):
                it.dict_set(d, x, it.binop(_ast.Add(), it.dict_get(d, x, 0), 1))
    for k, v in kw.items():
        it.dict_set(d, k, v)
    return d


def counter_method(it, d, name, a, kw):
    if name in ('update', 'subtract'):
        sg = 1 if name == 'update' else -1
        for s in a[:1]:
            items = it.dict_items(it.prim(s)) if isinstance(it.prim(s), VDict) else [(x, 1) for x in it.iterate(s)]
            for x, n in items:
                it.dict_set(d, x, it.binop(_ast.Add() if sg > 0 else _ast.Sub(), it.dict_get(d, x, 0), n))
        return None
    items = it.dict_items(d)
    if name == 'total':
        r = 0
        for x, n in items:
            r = it.binop(_ast.Add(), r, n)
        return r
    if not all(isinstance(n, int) for x, n in items):
        raise it.unsupported(f'Counter.{name} of unknown counts')
    if name == 'most_common':
        r = sorted(items, key=lambda x: -x[1])
        return VList([tuple(x) for x in (r if not a or a[0] is None else r[:a[0]])])
    return VIter(x for x, n in items for _ in range(n))


def b_prod(it, a, kw):
    import ast
    r = kw.get('start', 1)
    for x in it.iterate(a[0]):
        r = it.binop(ast.Mult(), r, x)
    return r


def op_index(it, a, k):
    v = it.prim(a[0])
    if isinstance(v, VExt) and hasattr(v, 'vindex'):
        return v.vindex(it)
    if isinstance(v, int) or isinstance(v, Num) and not v.isfloat:
        return v
    raise it.throw('TypeError', 'object cannot be interpreted as an integer')


def rand_int(it, lo, hi):
    it.events.append(('random', it.where()))
    return it.ctx.fresh('random', lo=lo, hi=hi)


def fspath(it, v):
    v = it.prim(v)
    if isinstance(v, VPath):
        return v.path
    if kind_of(v):
        return v
    if isinstance(v, VObj):
        f = v.cls.lookup('__fspath__')
        if f is not MISSING:
            return it.call(f, [v])
    raise it.throw('TypeError', 'expected str, bytes or os.PathLike object')


def fs_exists(it, p):
    if it.fs is None:
        raise it.unsupported('file system access')
    return it.fs.exists(it, fspath(it, p))


def joined_path(*p):
    import pathlib
    return str(pathlib.PurePosixPath(*p))


class VPath(VExt):
    def __init__(self, cls, path):
        self.cls, self.path = cls, path

    def vtype(self, it):
        return self.cls

    def vstr(self, it):
        return self.path

    def vhash(self, it):
        return ('path', self.path)

    def vcompare(self, it, sym, o, rev):
        e = isinstance(o, VPath) and o.path == self.path
        if sym not in ('==', '!='):
            raise it.unsupported('ordering paths')
        return e == (sym == '==')

    def vbinop(self, it, sym, o, rev):
        if sym == '/':
            a, b = fspath(it, o) if rev else self.path, self.path if rev else fspath(it, o)
            return VPath(self.cls, native(it, joined_path, a, b))
        raise it.throw('TypeError', 'unsupported operand')

    def vtruth(self, it):
        return True

    def vget(self, it, name):
        if name in ('resolve', 'absolute', 'expanduser'):
            return VNative(name, lambda i, a, k: self)
        if name in ('exists', 'is_file'):
            return VNative(name, lambda i, a, k: fs_exists(i, self))
        if name in ('suffix', 'name', 'stem'):
            import pathlib
            return getattr(pathlib.PurePosixPath(self.path), name)
        if name in ('with_suffix', 'with_name', 'with_stem', 'joinpath'):
            def wi(i, a, k):
                import pathlib
                return VPath(self.cls, str(native(i, getattr(pathlib.PurePosixPath(self.path), name),
                                                  *[fspath(i, x) for x in a])))
            return VNative(name, wi)
        if name == 'as_posix':
            return VNative(name, lambda i, a, k: self.path)
        if name in ('rename', 'replace'):
            def rn(i, a, k):
                i.fs_event('rename', None, (self.path, fspath(i, a[0])))
                return VPath(self.cls, fspath(i, a[0]))
            return VNative(name, rn)
        if name == 'read_bytes':
            return VNative(name, lambda i, a, k: i.fs_event('read', i.fs_open(self, 'rb', {}), ()))
        if name == 'parent':
            import pathlib
            return VPath(self.cls, str(pathlib.PurePosixPath(self.path).parent))
        if name == 'open':
            return VNative(name, lambda i, a, k: i.fs_open(self, kwget(a, k, 0, 'mode', 'r'), k))
        if name == 'unlink':
            def ul(i, a, k):
                if not (kwget(a, k, 0, 'missing_ok', False) and not fs_exists(i, self)):
                    i.fs_event('remove', None, self.path)
            return VNative(name, ul)
        if name == 'write_bytes':
            def wb(i, a, k):
                f = i.fs_open(self, 'wb', {})
                i.fs_event('write', f, i.as_bytes(a[0]))
                f.close(i)
                return i.length(i.as_bytes(a[0]))
            return VNative(name, wb)
        if name == '__fspath__':
            return VNative(name, lambda i, a, k: self.path)
        raise it.unsupported(f'Path.{name}')


class VBytesIO(VExt):
    def __init__(self, b):
        self.b = b

    def vtype(self, it):
        return it.builtins['object']

    def vget(self, it, name):
        if name == 'write':
            def w(i, a, k):
                d = i.as_bytes(a[0])
                self.b = concat(self.b, d)
                return i.length(d)
            return VNative(name, w)
        if name in ('getvalue', 'getbuffer'):
            return VNative(name, lambda i, a, k: self.b)
        if name == 'tell':
            return VNative(name, lambda i, a, k: i.length(self.b))
        if name == 'close':
            return VNative(name, lambda i, a, k: None)
        raise it.unsupported(f'BytesIO.{name}')

    def venter(self, it):
        return self

    def vexit(self, it, e):
        return False


# ---- copy
def copy_(it, a, k):
    v = a[0]
    if isinstance(v, VList):
        return VList(v.items)
    if isinstance(v, VDict):
        return d_copy(it, v, [], {})
    if isinstance(v, VSet):
        return s_op('|')(it, v, [], {})
    if isinstance(v, VBA):
        return VBA(v.seq)
    if isinstance(v, VObj):
        f = v.cls.lookup('__copy__')
        if f is not MISSING:
            return it.call(f, [v])
        if v.cls.members is not None:
            return v
        p = v.prim
        if isinstance(p, (VDict, VList, VSet)):
            p = copy_(it, [p], {})
        return VObj(v.cls, dict(v.attrs), p)
    if isinstance(v, VExt) and hasattr(v, 'vcopy'):
        return v.vcopy(it)
    return v


def deepcopy_(it, a, k, memo=None):
    memo = {} if memo is None else memo

    def dc(v):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, VList):
            r = VList()
            memo[id(v)] = r
            r.items = [dc(x) for x in v.items]
            return r
        if isinstance(v, tuple):
            return tuple(dc(x) for x in v)
        if isinstance(v, VDict):
            r = VDict()
            memo[id(v)] = r
            r.factory = v.factory
            r.nsym = v.nsym
            for kk, (x, y) in v.d.items():
                nk = dc(x)
                r.d[kk if nk is x else (it.hkey(nk) or it.symkey(nk))] = (nk, dc(y))
            return r
        if isinstance(v, VSet):
            r = VSet(v.frozen)
            for x, _ in v.d.values():
                it.set_add(r, dc(x))
            return r
        if isinstance(v, VBA):
            return VBA(v.seq)
        if isinstance(v, VObj):
            if v.cls.members is not None:
                return v
            f = v.cls.lookup('__deepcopy__')
            if f is not MISSING:
                return it.call(f, [v, VDict()])
            r = VObj(v.cls)
            memo[id(v)] = r
            r.attrs.update({n: dc(x) for n, x in v.attrs.items()})
            r.prim = dc(v.prim)
            return r
        if isinstance(v, VExt) and hasattr(v, 'vcopy'):
            return v.vcopy(it)
        return v
    return dc(a[0])


# ---- namedtuple / dataclass
def progress(it, a, k):
    """progressbar.progressbar: passes the items on; counting beyond the announced number raises as soon as the bar is
    redrawn, which may be at any item"""
    mv = k.get('max_value', a[2] if len(a) > 2 else k.get('total'))
    if mv is None and isinstance(a[0], VObj) and a[0].cls.lookup('__len__') is not MISSING:
        mv = it.call(it.getattr(a[0], '__len__'), [])

    def gen():
        for n, x in enumerate(it.iterate(a[0])):
            if isinstance(mv, (int, float)) and n > mv and k.get('max_error', True):
                raise it.throw('ValueError', f'Value {n} is too large. Should be between 0 and {mv}')
            yield x
    return VIter(gen())


def namedtuple_(it, a, k):
    name, fields = a[0], a[1]
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    else:
        fields = list(it.iterate(fields))
    defaults = list(it.iterate(k['defaults'])) if k.get('defaults') is not None else []

    def construct(i, c, a2, k2):
        vals = list(a2)
        for j, f in enumerate(fields[len(vals):], len(vals)):
            if f in k2:
                vals.append(k2[f])
            elif j >= len(fields) - len(defaults):
                vals.append(defaults[j - len(fields) + len(defaults)])
            else:
                raise i.throw('TypeError', f'missing argument {f}')
        if len(vals) > len(fields):
            raise i.throw('TypeError', 'too many arguments')
        return VObj(c, {}, tuple(vals))
    cls = VClass(name, (it.builtins['tuple'],), builtin=False, construct=construct)
    for j, f in enumerate(fields):
        cls.ns[f] = VProperty(VNative(f, lambda i, a2, k2, j=j: a2[0].prim[j]))
    cls.ns['_fields'] = tuple(fields)

    def repl(i, a2, k2):
        vals = [k2.get(f, v) for f, v in zip(fields, a2[0].prim)]
        return VObj(a2[0].cls, {}, tuple(vals))
    cls.ns['_replace'] = VNative('_replace', repl, bind=True)

    def asd(i, a2, k2):
        d = VDict()
        for f, v in zip(fields, a2[0].prim):
            i.dict_set(d, f, v)
        return d
    cls.ns['_asdict'] = VNative('_asdict', asd, bind=True)
    return cls


class VField(VExt):
    def __init__(self, kw):
        self.kw = kw

    def vget(self, it, name):
        return self.kw.get(name, MISSING)

    def vtype(self, it):
        return it.builtins['object']


def _dc_all(o):
    """fields of a dataclass: name -> VField (those of its bases first)"""
    cls = o if isinstance(o, VClass) else o.cls
    out = {}
    for c in reversed(cls.mro):
        for n, f in c.ns.get('__dataclass_fields__', {}).items():
            out[n] = f
    return out


def _dc_fields(o):
    return [n for n, f in _dc_all(o).items() if not f.kw.get('initvar')]


def dc_replace(it, a, k):
    o = a[0]
    args = {n: o.attrs[n] for n, f in _dc_all(o).items() if n in o.attrs and f.kw.get('init', True)}
    args.update(k)
    return it.call(o.cls, [], args)


def dc_as(tuples):
    def f(i, a, k):
        def conv(v):
            if isinstance(v, VObj) and _dc_all(v):
                xs = [(n, conv(i.getattr(v, n))) for n in _dc_fields(v)]
                return tuple(x for n, x in xs) if tuples else c_dict(i, None, [VList(xs)], {})
            if isinstance(v, VList):
                return VList([conv(x) for x in v.items])
            if isinstance(v, tuple):
                return tuple(conv(x) for x in v)
            if isinstance(v, VDict):
                return c_dict(i, None, [VList([(conv(x), conv(y)) for x, y in i.dict_items(v)])], {})
            if isinstance(v, VObj) and v.prim is None or isinstance(v, VExt):
                return i.call(i.getattr(i.import_module('copy'), 'deepcopy'), [v])
            return v
        if isinstance(a[0], VClass) or not _dc_all(a[0]):
            raise i.throw('TypeError', 'asdict() should be called on dataclass instances')
        if any(k2 != 'dict_factory' for k2 in k) or k:
            raise i.unsupported('asdict with a factory')
        return conv(a[0])
    return f


def dataclass_(it, a, k):
    def deco(i, cls):
        if k.get('order'):
            raise i.unsupported('ordered dataclass')
        own, kwonly = {}, bool(k.get('kw_only'))
        for n, text in cls.annotations.items():
            t = text.split('[')[0].split('.')[-1].strip('"\'')
            if t == 'ClassVar':
                continue
            if t == 'KW_ONLY':
                kwonly = True
                continue
            d = cls.ns.get(n, MISSING)
            f = d if isinstance(d, VField) else VField({} if d is MISSING else {'default': d})
            if isinstance(f.kw.get('default'), (VList, VDict, VSet)):
                raise i.throw('ValueError', f'mutable default {n}')
            f = VField(dict(f.kw, name=n))
            f.kw.setdefault('kw_only', kwonly)
            if t == 'InitVar':
                f.kw['initvar'] = True
            own[n] = f
            if 'default' in f.kw:
                cls.ns[n] = f.kw['default']
            elif isinstance(d, VField):
                del cls.ns[n]
        cls.touch()
        cls.ns['__dataclass_fields__'] = own

        def init(i2, a2, k2):
            self_, vals = a2[0], list(a2[1:])
            fs = _dc_all(cls)
            pos = [n for n, f in fs.items() if f.kw.get('init', True) and not f.kw.get('kw_only')]
            if len(vals) > len(pos):
                raise i2.throw('TypeError', 'too many arguments')
            given = dict(zip(pos, vals))
            for n, v in k2.items():
                if n not in fs or not fs[n].kw.get('init', True):
                    raise i2.throw('TypeError', f'unexpected argument {n}')
                if n in given:
                    raise i2.throw('TypeError', f'multiple values for argument {n}')
                given[n] = v
            for n, f in fs.items():
                if n not in given and f.kw.get('init', True) and not ('default' in f.kw or 'default_factory' in f.kw):
                    raise i2.throw('TypeError', f'missing argument {n}')
            ivars = []
            for n, f in fs.items():
                if n in given:
                    v = given[n]
                elif 'default_factory' in f.kw:
                    v = i2.call(f.kw['default_factory'], [])
                elif 'default' in f.kw:
                    v = f.kw['default']
                else:
                    continue
                if f.kw.get('initvar'):
                    ivars.append(v)
                elif k.get('frozen'):
                    self_.touch()
                    self_.attrs[n] = v
                else:
                    i2.setattr(self_, n, v)
            pi = cls.lookup('__post_init__')
            if pi is not MISSING:
                i2.call(pi, [self_] + ivars)
        if k.get('init', True) and '__init__' not in cls.ns:
            cls.ns['__init__'] = VNative('__init__', init, bind=True)
        if k.get('eq', True) and '__eq__' not in cls.ns:
            def compared(x):
                return [n for n, f in _dc_all(x).items() if f.kw.get('compare', True) and not f.kw.get('initvar')]

            def eq(i2, a2, k2):
                x, y = a2
                if not isinstance(y, VObj) or y.cls is not x.cls:
                    return NotImplemented
                return all(i2.eq(i2.getattr(x, n), i2.getattr(y, n)) for n in compared(x))
            cls.ns['__eq__'] = VNative('__eq__', eq, bind=True)
            if k.get('frozen') or k.get('unsafe_hash'):
                cls.ns.setdefault('__hash__', VNative('__hash__', lambda i2, a2, k2: b_hash(
                    i2, [tuple(i2.getattr(a2[0], n) for n in compared(a2[0]))], {}), bind=True))
        if k.get('repr', True) and '__repr__' not in cls.ns:
            def rep(i2, a2, k2):
                r = cls.qualname + '('
                for j, n in enumerate(m for m, f in _dc_all(a2[0]).items() if f.kw.get('repr', True)):
                    r = i2.binop(_ast.Add(), r, (', ' if j else '') + n + '=')
                    r = i2.binop(_ast.Add(), r, i2.repr_(i2.getattr(a2[0], n)))
                return i2.binop(_ast.Add(), r, ')')
            cls.ns['__repr__'] = VNative('__repr__', rep, bind=True)
        if k.get('frozen'):
            def sa(i2, a2, k2):
                raise i2.throw('AttributeError', f'cannot assign to field {a2[1]}')
            cls.ns['__setattr__'] = VNative('__setattr__', sa, bind=True)
        return cls
    if a:
        return deco(it, a[0])
    return VNative('dataclass', lambda i, a2, k2: deco(i, a2[0]))
