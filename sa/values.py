"""Heap cells of the abstract interpreter."""


class Cell:
    """mutable heap cell; `era` 0 = created while loading the modules"""
    __slots__ = ('era',)
    current = 0
    undo = None

    def __init__(self):
        self.era = Cell.current

    def touch(self):
        if self.era == 0 and Cell.current == 1 and Cell.undo is not None and id(self) not in Cell.undo:
            Cell.undo[id(self)] = (self, self.snapshot())

    def snapshot(self):
        raise NotImplementedError

    def restore(self, s):
        raise NotImplementedError


class VList(Cell):
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.era = Cell.current
        self.items = list(items)

    def snapshot(self):
        return list(self.items)

    def restore(self, s):
        self.items = s

    def __repr__(self):
        return repr(self.items)


class VDeque(VList):
    """collections.deque"""
    __slots__ = ('maxlen',)

    def __init__(self, items=(), maxlen=None):
        super().__init__(items)
        self.maxlen = maxlen


class VDict(Cell):
    """d: hashable key -> (key, value); symbolic keys are stored under ('sym', structure)"""
    __slots__ = ('d', 'nsym', 'factory')

    def __init__(self):
        self.era = Cell.current
        self.d = {}
        self.nsym = 0
        self.factory = None

    def snapshot(self):
        return dict(self.d), self.nsym, self.factory

    def restore(self, s):
        self.d, self.nsym, self.factory = s

    def __repr__(self):
        return '{' + ', '.join(f'{k!r}: {v!r}' for k, v in self.d.values()) + '}'


class VSet(Cell):
    """`texts`: unknown texts all of whose characters (but those of `without`) belong to the set, too; they are only
    told apart when something asks for the single elements"""
    __slots__ = ('_d', 'nsym', 'frozen', 'texts', 'it')

    def __init__(self, frozen=False):
        self.era = Cell.current
        self._d = {}
        self.nsym = 0
        self.frozen = frozen
        self.texts = ()

    @property
    def d(self):
        if self.texts:
            ts, self.texts = self.texts, ()
            for t, without in ts:
                for x in self.it.iterate(t):
                    if not any(self.it.key_eq(x, w) for w in without):
                        self.it.set_add(self, x)
        return self._d

    @d.setter
    def d(self, v):
        self._d = v

    def snapshot(self):
        return dict(self._d), self.nsym, self.texts

    def restore(self, s):
        self._d, self.nsym, self.texts = s

    def __repr__(self):
        return '{' + ', '.join(repr(k) for k, _ in self._d.values()) + '}'


class VBA(Cell):
    """bytearray"""
    __slots__ = ('seq',)

    def __init__(self, seq=b''):
        self.era = Cell.current
        self.seq = seq

    def snapshot(self):
        return self.seq

    def restore(self, s):
        self.seq = s

    def __repr__(self):
        return f'bytearray({self.seq!r})'


class VObj(Cell):
    __slots__ = ('cls', 'attrs', 'prim')

    def __init__(self, cls, attrs=None, prim=None):
        self.era = Cell.current
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.prim = prim

    def snapshot(self):
        return dict(self.attrs), self.prim, self.cls

    def restore(self, s):
        self.attrs.clear()
        self.attrs.update(s[0])
        self.prim, self.cls = s[1:]

    def __repr__(self):
        n = self.attrs.get('name')
        return f'<{self.cls.name}{" " + repr(n) if n is not None else ""}>'


class VAttrsView(Cell):
    """vars(obj) / obj.__dict__"""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.era = Cell.current
        self.obj = obj


class VClass(Cell):
    __slots__ = ('name', 'bases', 'ns', 'meta', 'builtin', 'mro', 'construct', 'members', 'annotations', 'qualname',
                 'native_type')

    def __init__(self, name, bases=(), ns=None, meta=None, builtin=False, construct=None):
        self.era = Cell.current
        self.name = self.qualname = name
        self.bases = tuple(bases)
        self.ns = ns if ns is not None else {}
        self.meta = meta
        self.builtin = builtin
        self.construct = construct
        self.members = None
        self.annotations = []
        self.native_type = None
        self.mro = c3(self)

    def snapshot(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns.clear()
        self.ns.update(s)

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return MISSING

    def lookup_cls(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return MISSING, None

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return f"<class '{self.name}'>"


class _Missing:
    def __repr__(self):
        return 'MISSING'

    def __bool__(self):
        return False


MISSING = _Missing()


def c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise TypeError('inconsistent MRO')
            res.append(h)
            seqs = [[x for x in t if x is not h] for t in seqs]
            seqs = [t for t in seqs if t]
        return res
    return [cls] + merge([b.mro for b in cls.bases] + [list(cls.bases)])


class VFunc(Cell):
    __slots__ = ('node', 'env', 'module', 'defaults', 'kwdefaults', 'name', 'attrs', 'isgen', 'cls', 'params',
                 'locals', 'qualname')

    def __init__(self, node, env, module, defaults, kwdefaults, name, isgen, cls=None):
        self.era = Cell.current
        self.node, self.env, self.module = node, env, module
        self.defaults, self.kwdefaults, self.name, self.isgen, self.cls = defaults, kwdefaults, name, isgen, cls
        self.attrs = {}
        self.qualname = name

    def snapshot(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs.clear()
        self.attrs.update(s)

    def __repr__(self):
        return f'<function {self.qualname}>'


class VBound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return f'<bound {self.func} of {self.self}>'


class VNative:
    """native function: fn(interp, args, kwargs)"""
    __slots__ = ('name', 'fn', 'attrs', 'bind')

    def __init__(self, name, fn, bind=False):
        self.name, self.fn, self.attrs, self.bind = name, fn, {}, bind

    def __repr__(self):
        return f'<builtin {self.name}>'


class VMethod:
    """method `name` of a builtin value"""
    __slots__ = ('self', 'name')

    def __init__(self, self_, name):
        self.self, self.name = self_, name

    def __repr__(self):
        return f'<method {self.name}>'


class VProperty:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class VCachedProperty:
    def __init__(self, func, name=None):
        self.func, self.name = func, name


class VStatic:
    def __init__(self, func):
        self.func = func


class VClassM:
    def __init__(self, func):
        self.func = func


class VCache(Cell):
    """functools.lru_cache: results keyed by argument equality, kept for the life of the process"""
    __slots__ = ('func', 'entries', 'attrs', 'maxsize')

    def __init__(self, func, maxsize=None):
        self.era = Cell.current
        self.func, self.entries, self.attrs, self.maxsize = func, [], {}, maxsize

    def snapshot(self):
        return list(self.entries)

    def restore(self, s):
        self.entries = s

    @property
    def name(self):
        return getattr(self.func, 'name', '?')


class VPartial:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class VIter:
    __slots__ = ('it', 'name', 'done', 'over')

    def __init__(self, it, name='iterator'):
        self.it, self.name, self.done = it, name, False

    def __repr__(self):
        return f'<{self.name}>'


class VRange:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return f'range({self.start}, {self.stop}, {self.step})'


class VModule(Cell):
    __slots__ = ('name', 'ns', 'path', 'external', 'tree')

    def __init__(self, name, path=None, external=False):
        self.era = Cell.current
        self.name, self.ns, self.path, self.external = name, {}, path, external

    def snapshot(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns.clear()
        self.ns.update(s)

    def __repr__(self):
        return f'<module {self.name}>'


class VSuper:
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class VLazyStr:
    """text built from unknowns, formatted only when it is used"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts        # str | (value, conversion, spec)

    def __repr__(self):
        return 'f"' + ''.join(p if isinstance(p, str) else '{%r}' % (p[0],) for p in self.parts) + '"'


class VExt:
    """base of modelled external values"""
    __slots__ = ()


class VOpaque(VExt):
    """a value of an external library that is not modelled"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<opaque {self.name}>'


class Env:
    __slots__ = ('vars', 'parent', 'globals', 'nonlocals', 'is_class', 'func', 'globaldecl')

    def __init__(self, parent, globals_, is_class=False, func=None):
        self.vars = {}
        self.parent = parent
        self.globals = globals_
        self.nonlocals = None
        self.globaldecl = None
        self.is_class = is_class
        self.func = func


class PyRaise(Exception):
    """an exception of the analysed program"""

    def __init__(self, exc, where='?'):
        self.exc = exc
        self.where = where

    def __str__(self):
        a = self.exc.attrs.get('args', ())
        return f'{self.exc.cls.name}({", ".join(map(repr, a))}) at {self.where}'
