"""Abstract interpreter for the repository's syntax trees."""
import ast
import builtins as _py_builtins
import os
import sys

from .lin import Num, N, add, sub, mul, scale, Infeasible
from .terms import (SSeq, SVar, PNum, PSlice, PRep, PRepNum, PDec, mk, parts_of, simp, kind_of, concat, slen)
from .ctx import Ctx, Unsupported, Cut, ProbeAbort
from .values import *

sys.setrecursionlimit(12000)

RET, BRK, CNT = 'return', 'break', 'continue'
LOGGER_FUNCS = ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'warn')


def real_type(name):
    """the type of the real Python which a class of the model stands for"""
    import collections
    import enum
    import types
    import abc
    for m in (_py_builtins, collections, enum, types):
        t = getattr(m, name, None)
        if isinstance(t, type):
            return t
    return {'NoneType': type(None), 'function': types.FunctionType, 'module': types.ModuleType, 'ABC': abc.ABC,
            'generator': types.GeneratorType, 'NotImplementedType': type(NotImplemented), 'ellipsis': type(...),
            'method': types.MethodType, 'builtin_function_or_method': type(len)}.get(name)


def has_yield(node):
    stack = list(ast.iter_child_nodes(node)) if isinstance(node, (ast.FunctionDef, ast.Lambda)) else [node]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


PLAIN = (ast.Expr, ast.Assign, ast.AnnAssign, ast.If, ast.Return, ast.Raise, ast.Pass)
PROBE_NATIVES = {'isinstance', 'issubclass', 'len', 'repr', 'str', 'type', 'callable', 'fullmatch', 'match', 'search',
                 'isEnabledFor', *LOGGER_FUNCS}


def is_checker(node, cache={}):
    """a small function of plain statements that assigns local names only: it can be run more than once"""
    if id(node) not in cache:
        ok = isinstance(node, ast.FunctionDef) and not has_yield(node)
        n = 0
        stack = list(node.body) if ok else []
        while stack and ok:
            s = stack.pop()
            n += 1
            ok = isinstance(s, PLAIN) and n <= 15
            if isinstance(s, ast.Assign):
                ok = ok and all(isinstance(t, ast.Name) for t in s.targets)
            elif isinstance(s, ast.AnnAssign):
                ok = ok and isinstance(s.target, ast.Name)
            elif isinstance(s, ast.If):
                stack += s.body + s.orelse
            if ok:
                ok = not any(isinstance(x, (ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp,
                                            ast.SetComp, ast.Global, ast.Nonlocal)) for x in ast.walk(s))
        cache[id(node)] = (ok, node)        # the node is kept: its identity is the key
    return cache[id(node)][0]


class Interp:
    closing = False
    def __init__(self, root, package='dliswriter'):
        self.root = root                      # directory containing the package
        self.package = package
        self.modules = {}
        self.ctx = None
        self.cur = None                       # (module, lineno)
        self.stack = []
        self.steps = 0
        self.max_steps = 3_000_000
        self.loop_bound = 6
        self.fold_cache = {}
        self.on_log = None
        self.warnings = []
        self.logs = []
        self.events = []
        self.touched_functions = set()
        self.yield_cache = {}
        from . import libs
        libs.install(self)

    # ------------------------------------------------------------ locations
    def where(self):
        if self.cur is None:
            return '?'
        m, ln = self.cur
        return f'{m}:{ln}'

    def unsupported(self, msg):
        e = Unsupported(msg)
        e.loc = self.where()
        return e

    def throw(self, clsname, *args):
        cls = self.exc_class(clsname)
        return PyRaise(self.make_exc(cls, args), self.where())

    def exc_class(self, name):
        return self.builtins[name]

    def make_exc(self, cls, args):
        return VObj(cls, {'args': tuple(args)})

    # ------------------------------------------------------------ modules
    def module_file(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return f if os.path.exists(f) else None
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.split('.')[0] != self.package:
            m = self.external_module(name)
            self.modules[name] = m
            return m
        parent = None
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        path = self.module_file(name)
        if path is None:
            raise self.throw('ModuleNotFoundError', f'No module named {name!r}')
        m = VModule(name, path)
        self.modules[name] = m
        m.ns['__name__'] = name
        m.ns['__file__'] = path
        m.ns['__doc__'] = None
        with open(path, encoding='utf-8') as f:
            src = f.read()
        m.tree = ast.parse(src, path)
        self.exec_module(m)
        if parent is not None:
            parent.ns[name.rsplit('.', 1)[1]] = m
        return m

    def exec_module(self, m):
        env = Env(None, m.ns)
        env.vars = m.ns
        save = self.cur
        self.exec_block(m.tree.body, env, m)
        self.cur = save

    def import_from(self, modname, name):
        m = self.import_module(modname)
        if name in m.ns:
            return m.ns[name]
        if not m.external and self.module_file(modname + '.' + name):
            return self.import_module(modname + '.' + name)
        if m.external:
            try:
                return self.import_external_sub(modname, name)
            except KeyError:
                v = VOpaque(f'{modname}.{name}')
                m.ns[name] = v
                return v
        raise self.throw('ImportError', f'cannot import name {name!r} from {modname!r}')

    def import_external_sub(self, modname, name):
        raise KeyError(name)

    def external_module(self, name):
        if name in self.extmods:
            return self.extmods[name]
        m = VModule(name, external=True)
        self.extmods[name] = m
        return m

    # ------------------------------------------------------------ names
    def lookup(self, env, name):
        e = env
        first = True
        while e is not None:
            if e.vars is not e.globals:
                if name in e.vars and (first or not e.is_class):
                    if e.globaldecl and name in e.globaldecl:
                        break
                    return e.vars[name]
            first = False
            e = e.parent
        g = env.globals
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(_py_builtins, name):
            raise self.unsupported(f'builtin {name}')
        raise self.throw('NameError', f"name '{name}' is not defined")

    def assign_name(self, env, name, value):
        if env.globaldecl and name in env.globaldecl:
            self.set_global(env, name, value)
            return
        if env.nonlocals and name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars and not e.is_class:
                    e.vars[name] = value
                    return
                e = e.parent
        if env.vars is env.globals:
            self.set_global(env, name, value)
        else:
            env.vars[name] = value

    def set_global(self, env, name, value):
        if Cell.current == 1:
            for m in self.modules.values():
                if m.ns is env.globals:
                    m.touch()
        env.globals[name] = value

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env, mod):
        for s in stmts:
            r = self.exec_stmt(s, env, mod)
            if r is not None:
                return r
        return None

    def tick(self, s, mod):
        self.cur = (mod.name, s.lineno)
        self.steps += 1
        if self.steps > self.max_steps:
            raise self.unsupported('step budget')

    def exec_stmt(self, s, env, mod):
        self.cur = (mod.name, s.lineno)
        self.steps += 1
        if self.steps > self.max_steps:
            raise Cut('step budget')
        m = self.STMT.get(type(s))
        if m is None:
            raise self.unsupported(f'statement {type(s).__name__}')
        return m(self, s, env, mod)

    def s_expr(self, s, env, mod):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, env, mod)

    def s_assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_annassign(self, s, env, mod):
        if env.is_class and isinstance(s.target, ast.Name):
            env.vars.setdefault('__annotations_list__', {})[s.target.id] = ast.unparse(s.annotation)
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def s_augassign(self, s, env, mod):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            new = self.augop(s.op, cur, self.ev(s.value, env, mod))
            self.assign_name(env, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            cur = self.getattr(o, t.attr)
            new = self.augop(s.op, cur, self.ev(s.value, env, mod))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            i = self.ev_index(t.slice, env, mod)
            cur = self.getitem(o, i)
            new = self.augop(s.op, cur, self.ev(s.value, env, mod))
            self.setitem(o, i, new)
        else:
            raise self.unsupported('augmented assignment target')

    def augop(self, op, cur, val):
        if isinstance(cur, VObj):
            dn = self.BIN[type(op)][1]
            f, owner = cur.cls.lookup_cls('__i' + dn[2:])
            if f is not MISSING and not owner.builtin:
                r = self.call(f, [cur, val])
                if r is not NotImplemented:
                    return r
        if isinstance(op, ast.Add):
            if isinstance(cur, VList):
                cur.touch()
                cur.items.extend(self.iterate(val))
                return cur
            if isinstance(cur, VBA):
                cur.touch()
                cur.seq = concat(cur.seq, self.as_bytes(val))
                return cur
        if isinstance(cur, VExt) and hasattr(cur, 'viop'):
            return cur.viop(self, op, val)
        if isinstance(op, ast.BitOr) and isinstance(cur, VDict):
            cur.touch()
            self.dict_update(cur, val)
            return cur
        if isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)) and isinstance(cur, VSet) and not cur.frozen:
            r = self.binop(op, cur, val)
            cur.touch()
            cur.d, cur.nsym = r.d, r.nsym
            return cur
        return self.binop(op, cur, val)

    def s_return(self, s, env, mod):
        return (RET, self.ev(s.value, env, mod) if s.value is not None else None)

    def s_if(self, s, env, mod):
        if self.truth(self.ev(s.test, env, mod)):
            return self.exec_block(s.body, env, mod)
        return self.exec_block(s.orelse, env, mod)

    def s_while(self, s, env, mod):
        n = 0
        while True:
            p = self.ctx.pos if self.ctx else 0
            if not self.truth(self.ev(s.test, env, mod)):
                break
            if self.ctx and self.ctx.pos != p:
                n += 1
                if n > self.loop_bound:
                    e = Cut(f'loop bound {self.loop_bound}')
                    e.loc = self.where()
                    raise e
            r = self.exec_block(s.body, env, mod)
            if r is not None:
                if r is BRK:
                    return None
                if r is not CNT:
                    return r
            self.tick(s, mod)
        return self.exec_block(s.orelse, env, mod)

    def s_for(self, s, env, mod):
        for v in self.iterate(self.ev(s.iter, env, mod)):
            self.assign(s.target, v, env, mod)
            r = self.exec_block(s.body, env, mod)
            if r is not None:
                if r is BRK:
                    return None
                if r is not CNT:
                    return r
        return self.exec_block(s.orelse, env, mod)

    def s_funcdef(self, s, env, mod):
        f = self.make_func(s, env, mod)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, env, mod), [f])
        self.assign_name(env, s.name, f)

    def make_func(self, s, env, mod):
        a = s.args
        defaults = [self.ev(d, env, mod) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env, mod) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        y = self.yield_cache.get(id(s))
        if y is None:
            y = self.yield_cache[id(s)] = has_yield(s)
        cenv = env
        cls = None
        if env.is_class:
            cls = env.vars.get('__class_cell__')
            cenv = env.parent
            # functions of a class body see the enclosing function scope / globals
        f = VFunc(s, cenv if cenv is not None else Env(None, env.globals), mod, defaults, kwd,
                  getattr(s, 'name', '<lambda>'), y, cls)
        if env.is_class:
            f.qualname = f'{env.vars.get("__qualname__", "")}.{f.name}'
        if cenv is None:
            f.env.vars = env.globals
        return f

    def s_classdef(self, s, env, mod):
        bases = []
        for b in s.bases:
            v = self.ev(b, env, mod)
            if isinstance(v, VClass):
                bases.append(v)
            elif isinstance(v, VOpaque):
                if 'Generic' in v.name or 'Protocol' in v.name or 'TypedDict' in v.name:
                    continue
                raise self.unsupported(f'base class {v}')
            elif isinstance(v, VTypingLike):
                continue
            else:
                raise self.unsupported(f'base class {v!r}')
        meta = None
        kw = {}
        for k in s.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg == 'metaclass':
                meta = v
            else:
                kw[k.arg] = v
        cenv = Env(env, env.globals, is_class=True)
        cell = [None]
        cenv.vars['__class_cell__'] = cell
        q = s.name
        if env.is_class:
            q = f'{env.vars.get("__qualname__", "")}.{s.name}'
        cenv.vars['__qualname__'] = q
        cenv.vars['__module__'] = mod.name
        self.exec_block(s.body, cenv, mod)
        ns = cenv.vars
        ann = ns.pop('__annotations_list__', {})
        ns.pop('__class_cell__')
        if meta is None:
            for b in bases:
                if b.meta is not None and b.meta is not self.builtins['type']:
                    meta = b.meta
        if not bases:
            bases = [self.builtins['object']]
        tuple_fields = None
        if any(b is self.builtins_hidden['NamedTuple'] for b in bases):
            from . import libs
            tuple_fields = list(ann)
            bases = [libs.namedtuple_(self, [s.name, VList(tuple_fields)],
                                      {'defaults': VList([ns.pop(n) for n in tuple_fields if n in ns])})]
        if meta is not None and not meta.builtin:
            new = meta.lookup('__new__')
            if new is not MISSING and isinstance(new, (VFunc, VStatic)):
                f = new.func if isinstance(new, VStatic) else new
                d = VDict()
                for k, v in ns.items():
                    self.dict_set(d, k, v)
                cls = self.call(f, [meta, s.name, tuple(bases), d])
            else:
                cls = self.new_class(meta, s.name, bases, ns, cell)
            init = meta.lookup('__init__')
            if isinstance(init, VFunc):
                self.call(init, [cls, s.name, tuple(bases), VDict()])
        else:
            cls = self.new_class(meta, s.name, bases, ns, cell)
        cls.annotations = ann
        cls.qualname = q
        cell[0] = cls
        isub = None
        for b in cls.mro[1:]:
            if '__init_subclass__' in b.ns:
                isub = b.ns['__init_subclass__']
                break
        if isub is not None:
            f = isub.func if isinstance(isub, (VClassM, VStatic)) else isub
            self.call(f, [cls], kw)
        for d in reversed(s.decorator_list):
            cls = self.call(self.ev(d, env, mod), [cls])
        self.assign_name(env, s.name, cls)

    def new_class(self, meta, name, bases, ns, cell=None):
        cls = VClass(name, bases, dict(ns), meta)
        if cell is not None:
            cell[0] = cls
        for k, v in list(cls.ns.items()):
            if isinstance(v, VCachedProperty) and v.name is None:
                v.name = k
            elif k == '__new__' and isinstance(v, VFunc):
                cls.ns[k] = VStatic(v)
            elif k == '__init_subclass__' and isinstance(v, VFunc):
                cls.ns[k] = VClassM(v)
        for k, v in list(cls.ns.items()):
            if isinstance(v, VObj):
                sn = v.cls.lookup('__set_name__')
                if sn is not MISSING:
                    self.call(sn, [v, cls, k])
        if any(b is self.builtins_hidden['Flag'] for b in cls.mro):
            raise self.unsupported('enumeration of flags')
        if any(b is self.builtins_hidden['Enum'] for b in cls.mro):
            self.make_enum(cls)
        return cls

    def make_enum(self, cls):
        members = {}
        hidden = ('_ignore_',)
        data_base = None
        for b in cls.mro:
            if b in (self.builtins['int'], self.builtins['str'], self.builtins['float']):
                data_base = b
                break
        newf = MISSING
        for c in cls.mro:
            if '__new__' in c.ns and not c.builtin:
                newf = c.ns['__new__']
                break
        items = [(k, v) for k, v in cls.ns.items()
                 if not (k.startswith('__') and k.endswith('__')) and k not in hidden
                 and not isinstance(v, (VFunc, VProperty, VStatic, VClassM, VNative, VCachedProperty, VCache))
                 and not (isinstance(v, VClass))]
        last = 0
        for k, v in items:
            if v is AUTO:
                v = last + 1
                if data_base is self.builtins['str'] and any(b.name == 'StrEnum' for b in cls.mro):
                    v = k.lower()
            if isinstance(v, int):
                last = v
            if newf is not MISSING:
                f = newf.func if isinstance(newf, VStatic) else newf
                args = list(v) if isinstance(v, tuple) else [v]
                m = self.call(f, [cls] + args)
                val = m.attrs.pop('_value_', v)
            else:
                m = VObj(cls)
                val = v
                if data_base is not None:
                    m.prim = v if not isinstance(v, tuple) else v[0]
            dup = None
            for mm in members.values():
                if self.concrete(val) and self.concrete(mm.attrs['_value_']) and mm.attrs['_value_'] == val \
                        and type(mm.attrs['_value_']) is type(val):
                    dup = mm
            if dup is not None:
                members[k] = dup
                cls.ns[k] = dup
                continue
            m.attrs['_value_'] = val
            m.attrs['_name_'] = k
            members[k] = m
            cls.ns[k] = m
        cls.members = members

    def s_import(self, s, env, mod):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.assign_name(env, a.asname, m)
            else:
                self.assign_name(env, a.name.split('.')[0], self.import_module(a.name.split('.')[0]))

    def s_importfrom(self, s, env, mod):
        name = s.module or ''
        if s.level:
            base = mod.name.split('.')
            if not (mod.path and mod.path.endswith('__init__.py')):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        for a in s.names:
            if a.name == '*':
                m = self.import_module(name)
                al = m.ns.get('__all__')
                for k, v in list(m.ns.items()):
                    if (al is None and not k.startswith('_')) or (al is not None and k in al.items):
                        self.assign_name(env, k, v)
                continue
            self.assign_name(env, a.asname or a.name, self.import_from(name, a.name))

    def s_raise(self, s, env, mod):
        if s.exc is None:
            cur = self.handling[-1] if self.handling else None
            if cur is None:
                raise self.throw('RuntimeError', 'No active exception to reraise')
            raise PyRaise(cur.exc, cur.where)
        v = self.ev(s.exc, env, mod)
        cause = MISSING
        if s.cause is not None:
            cause = self.ev(s.cause, env, mod)
            if isinstance(cause, VClass):
                cause = self.call(cause, [])
        if isinstance(v, VClass):
            v = self.call(v, [])
        if not isinstance(v, VObj):
            raise self.unsupported(f'raise {v!r}')
        if cause is not MISSING:
            v.touch()
            v.attrs['__cause__'] = cause
        raise PyRaise(v, f'{mod.name}:{s.lineno}')

    def s_try(self, s, env, mod):
        try:
            try:
                res = self.exec_block(s.body, env, mod)
                caught = False
            except PyRaise as e:
                caught = True
                h = self.find_handler(s, e, env, mod)
                if h is None:
                    raise
                self.handling.append(e)
                try:
                    if h.name:
                        self.assign_name(env, h.name, e.exc)
                    res = self.exec_block(h.body, env, mod)
                except PyRaise as e2:
                    self.chain(e2.exc, e.exc)
                    raise
                finally:
                    self.handling.pop()
            if not caught and res is None and s.orelse:
                res = self.exec_block(s.orelse, env, mod)
        except (Infeasible, Unsupported):
            raise
        except PyRaise:
            r = self.exec_block(s.finalbody, env, mod)
            if r is not None:
                return r
            raise
        if s.finalbody:
            r = self.exec_block(s.finalbody, env, mod)
            if r is not None:
                return r
        return res

    def chain(self, exc, ctx):
        if exc is not ctx and '__context__' not in exc.attrs:
            exc.touch()
            exc.attrs['__context__'] = ctx

    def find_handler(self, s, e, env, mod):
        for h in s.handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, env, mod)
            if self.isinstance_(e.exc, t):
                return h
        return None

    def s_with(self, s, env, mod):
        return self.with_items(s.items, s, env, mod)

    def with_items(self, items, s, env, mod):
        if not items:
            return self.exec_block(s.body, env, mod)
        it = items[0]
        cm = self.ev(it.context_expr, env, mod)
        v = self.enter(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env, mod)
        try:
            r = self.with_items(items[1:], s, env, mod)
        except PyRaise as e:
            if self.exit(cm, e):
                return None
            raise
        self.exit(cm, None)
        return r

    def enter(self, cm):
        if isinstance(cm, VExt) and hasattr(cm, 'venter'):
            return cm.venter(self)
        return self.call(self.getattr_type(cm, '__enter__'), [])

    def exit(self, cm, e):
        if isinstance(cm, VExt) and hasattr(cm, 'vexit'):
            return cm.vexit(self, e)
        f = self.getattr_type(cm, '__exit__')
        if e is None:
            self.call(f, [None, None, None])
            return False
        return self.truth(self.call(f, [e.exc.cls, e.exc, None]))

    def getattr_type(self, o, name):
        return self.getattr(o, name)

    def s_assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            raise self.throw('AssertionError', *([self.ev(s.msg, env, mod)] if s.msg else []))

    def s_delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in env.vars:
                    del env.vars[t.id]
                else:
                    raise self.throw('NameError', t.id)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, env, mod), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env, mod), self.ev_index(t.slice, env, mod))
            else:
                raise self.unsupported('del target')

    def s_global(self, s, env, mod):
        env.globaldecl = (env.globaldecl or set()) | set(s.names)

    def s_nonlocal(self, s, env, mod):
        env.nonlocals = (env.nonlocals or set()) | set(s.names)

    def s_pass(self, s, env, mod):
        return None

    def s_break(self, s, env, mod):
        return BRK

    def s_continue(self, s, env, mod):
        return CNT

    def s_match(self, s, env, mod):
        subj = self.ev(s.subject, env, mod)
        for c in s.cases:
            if self.match(c.pattern, subj, env, mod) and (
                    c.guard is None or self.truth(self.ev(c.guard, env, mod))):
                return self.exec_block(c.body, env, mod)
        return None

    def match(self, p, v, env, mod):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, env, mod))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env, mod):
                return False
            if p.name:
                self.assign_name(env, p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env, mod) for q in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance_(v, self.ev(p.cls, env, mod))
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, env, mod)
            if not self.isinstance_(v, cls):
                return False
            pats = []
            if p.patterns:
                if isinstance(cls, VClass) and cls.builtin and cls.name in (
                        'int', 'str', 'float', 'bool', 'bytes', 'bytearray', 'list', 'tuple', 'dict', 'set', 'frozenset'):
                    if len(p.patterns) != 1:
                        raise self.unsupported('match pattern')
                    pats.append((p.patterns[0], v))
                else:
                    ma = self.getattr(cls, '__match_args__', MISSING)
                    if ma is MISSING:
                        raise self.unsupported('match pattern')
                    names = list(self.iterate(ma))
                    for q, n in zip(p.patterns, names):
                        pats.append((q, self.getattr(v, n, MISSING)))
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                pats.append((q, self.getattr(v, n, MISSING)))
            return all(x is not MISSING and self.match(q, x, env, mod) for q, x in pats)
        if isinstance(p, ast.MatchSequence):
            w = self.prim(v) if isinstance(v, VObj) else v
            if not isinstance(w, (VList, tuple, VRange)):
                if isinstance(w, (VOpaque, VExt)):
                    raise self.unsupported('match pattern')
                return False
            vals = list(self.iterate(w))
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if not star:
                return len(vals) == n and all(self.match(q, x, env, mod) for q, x in zip(p.patterns, vals))
            i = star[0]
            after = n - i - 1
            if len(vals) < n - 1:
                return False
            if not all(self.match(q, x, env, mod) for q, x in zip(p.patterns[:i], vals[:i])):
                return False
            if p.patterns[i].name:
                self.assign_name(env, p.patterns[i].name, VList(vals[i:len(vals) - after]))
            return all(self.match(q, x, env, mod) for q, x in zip(p.patterns[i + 1:], vals[len(vals) - after:]))
        if isinstance(p, ast.MatchMapping):
            w = self.prim(v) if isinstance(v, VObj) else v
            if not isinstance(w, (VDict, VAttrsView)):
                if isinstance(w, (VOpaque, VExt)):
                    raise self.unsupported('match pattern')
                return False
            keys = [self.ev(k, env, mod) for k in p.keys]
            for k, q in zip(keys, p.patterns):
                x = self.dict_get(w, k)
                if x is MISSING or not self.match(q, x, env, mod):
                    return False
            if p.rest:
                r = VDict()
                for k, x in self.dict_items(w):
                    if not any(self.eq(k, y) for y in keys):
                        self.dict_set(r, k, x)
                self.assign_name(env, p.rest, r)
            return True
        raise self.unsupported('match pattern')

    STMT = {ast.Expr: s_expr, ast.Assign: s_assign, ast.AnnAssign: s_annassign, ast.AugAssign: s_augassign,
            ast.Return: s_return, ast.If: s_if, ast.While: s_while, ast.For: s_for, ast.FunctionDef: s_funcdef,
            ast.ClassDef: s_classdef, ast.Import: s_import, ast.ImportFrom: s_importfrom, ast.Raise: s_raise,
            ast.Try: s_try, ast.With: s_with, ast.Assert: s_assert, ast.Delete: s_delete, ast.Global: s_global,
            ast.Nonlocal: s_nonlocal, ast.Pass: s_pass, ast.Break: s_break, ast.Continue: s_continue,
            ast.Match: s_match}

    # -------------------------------------------------- generator flavour of the statements
    def g_block(self, stmts, env, mod):
        for s in stmts:
            y = self.yield_cache.get(id(s))
            if y is None:
                y = self.yield_cache[id(s)] = has_yield(s)
            if not y:
                r = self.exec_stmt(s, env, mod)
            else:
                r = yield from self.g_stmt(s, env, mod)
            if r is not None:
                return r
        return None

    def g_stmt(self, s, env, mod):
        self.tick(s, mod)
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            yield from self.g_yield(s.value, env, mod)
            return None
        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = yield from self.g_yield(s.value, env, mod)
            for t in s.targets:
                self.assign(t, v, env, mod)
            return None
        if isinstance(s, ast.Return) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = yield from self.g_yield(s.value, env, mod)
            return (RET, v)
        if isinstance(s, ast.If):
            if self.truth(self.ev(s.test, env, mod)):
                return (yield from self.g_block(s.body, env, mod))
            return (yield from self.g_block(s.orelse, env, mod))
        if isinstance(s, ast.While):
            n = 0
            while True:
                p = self.ctx.pos if self.ctx else 0
                self.tick(s, mod)
                if not self.truth(self.ev(s.test, env, mod)):
                    break
                if self.ctx and self.ctx.pos != p:
                    n += 1
                    if n > self.loop_bound:
                        e = Cut(f'loop bound {self.loop_bound}')
                        e.loc = self.where()
                        raise e
                r = yield from self.g_block(s.body, env, mod)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is not CNT:
                        return r
            return (yield from self.g_block(s.orelse, env, mod))
        if isinstance(s, ast.For):
            for v in self.iterate(self.ev(s.iter, env, mod)):
                self.assign(s.target, v, env, mod)
                r = yield from self.g_block(s.body, env, mod)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is not CNT:
                        return r
            return (yield from self.g_block(s.orelse, env, mod))
        if isinstance(s, ast.Try):
            return (yield from self.g_try(s, env, mod))
        if isinstance(s, ast.With):
            return (yield from self.g_with(s.items, s, env, mod))
        raise self.unsupported(f'yield inside {type(s).__name__}')

    def g_yield(self, y, env, mod):
        if isinstance(y, ast.Yield):
            v = self.ev(y.value, env, mod) if y.value is not None else None
            save = self.cur
            r = yield v
            self.cur = save
            return r
        src = self.ev(y.value, env, mod)
        it = self.iterate(src)
        while True:
            try:
                v = next(it)
            except StopIteration as e:
                return e.value
            yield v

    def g_try(self, s, env, mod):
        try:
            try:
                res = yield from self.g_block(s.body, env, mod)
                caught = False
            except PyRaise as e:
                caught = True
                h = self.find_handler(s, e, env, mod)
                if h is None:
                    raise
                self.handling.append(e)
                try:
                    if h.name:
                        self.assign_name(env, h.name, e.exc)
                    res = yield from self.g_block(h.body, env, mod)
                finally:
                    self.handling.pop()
            if not caught and res is None and s.orelse:
                res = yield from self.g_block(s.orelse, env, mod)
        except GeneratorExit:
            if self.closing:                # closed by the program, not by the garbage collector of the analyser
                self.exec_block(s.finalbody, env, mod)
            raise
        except PyRaise:
            r = yield from self.g_block(s.finalbody, env, mod)
            if r is not None:
                return r
            raise
        if s.finalbody:
            r = yield from self.g_block(s.finalbody, env, mod)
            if r is not None:
                return r
        return res

    def g_with(self, items, s, env, mod):
        if not items:
            return (yield from self.g_block(s.body, env, mod))
        it = items[0]
        cm = self.ev(it.context_expr, env, mod)
        v = self.enter(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env, mod)
        try:
            r = yield from self.g_with(items[1:], s, env, mod)
        except GeneratorExit:
            if self.closing:
                self.exit(cm, self.throw('GeneratorExit'))
            raise
        except PyRaise as e:
            if self.exit(cm, e):
                return None
            raise
        self.exit(cm, None)
        return r

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.assign_name(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise self.throw('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env, mod)
                self.assign(t.elts[i].value, VList(vals[i:len(vals) - after]), env, mod)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:] if after else []):
                    self.assign(e, x, env, mod)
                return
            if len(vals) != len(t.elts):
                raise self.throw('ValueError', 'wrong number of values to unpack')
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env, mod), self.ev_index(t.slice, env, mod), v)
        else:
            raise self.unsupported('assignment target')

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, mod):
        m = self.EXPR.get(type(e))
        if m is None:
            raise self.unsupported(f'expression {type(e).__name__}')
        return m(self, e, env, mod)

    def ev_index(self, e, env, mod):
        if isinstance(e, ast.Slice):
            return slice(self.ev(e.lower, env, mod) if e.lower else None,
                         self.ev(e.upper, env, mod) if e.upper else None,
                         self.ev(e.step, env, mod) if e.step else None)
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_index(x, env, mod) for x in e.elts)
        return self.ev(e, env, mod)

    def e_const(self, e, env, mod):
        return e.value

    def e_name(self, e, env, mod):
        return self.lookup(env, e.id)

    def e_attr(self, e, env, mod):
        return self.getattr(self.ev(e.value, env, mod), e.attr)

    def e_call(self, e, env, mod):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
            return self.make_super(env)
        fn = self.ev(f, env, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env, mod)))
            else:
                args.append(self.ev(a, env, mod))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, mod)
                for kk, vv in self.dict_items(d):
                    if not isinstance(kk, str):
                        raise self.unsupported('** with unknown keys')
                    if kk in kw:
                        raise self.throw('TypeError', f'multiple values for {kk}')
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        self.cur = (mod.name, e.lineno)
        r = self.call(fn, args, kw)
        self.cur = (mod.name, e.lineno)
        return r

    def make_super(self, env):
        e = env
        while e is not None and e.func is None:
            e = e.parent
        f = e.func
        cls = f.cls[0] if f.cls else None
        a = f.node.args
        first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs or a.args) else None
        if first is None or cls is None:
            raise self.unsupported('super() outside a method')
        return VSuper(cls, e.vars[first])

    def e_boolop(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x, env, mod)
            if self.truth(v) != isand:
                return v
        return self.ev(e.values[-1], env, mod)

    def e_unary(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        v = self.prim(v)
        if isinstance(v, VExt) and hasattr(v, 'vunary'):
            return v.vunary(self, e.op)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Num):
                return scale(v, -1)
            if isinstance(v, (int, float)):
                return -v
        if isinstance(e.op, ast.UAdd) and isinstance(v, (int, float, Num)):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int):
            return ~v
        if isinstance(v, VObj):
            nm = {ast.USub: '__neg__', ast.Invert: '__invert__', ast.UAdd: '__pos__'}[type(e.op)]
            return self.call(self.getattr(v, nm), [])
        if isinstance(v, (str, SSeq, VList, tuple, VDict)) or v is None:
            raise self.throw('TypeError', 'bad operand type for unary operator')
        raise self.unsupported('unary operator')

    def e_binop(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        b = self.ev(e.right, env, mod)
        return self.binop(e.op, a, b)

    def e_compare(self, e, env, mod):
        left = self.ev(e.left, env, mod)
        n = len(e.ops)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, env, mod)
            r = self.compare(op, left, right)
            if i == n - 1:
                return r
            if not self.truth(r):
                return r
            left = right
        return True

    def e_ifexp(self, e, env, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)

    def e_list(self, e, env, mod):
        return VList(self.ev_elts(e.elts, env, mod))

    def ev_elts(self, elts, env, mod):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env, mod)))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_tuple(self, e, env, mod):
        return tuple(self.ev_elts(e.elts, env, mod))

    def e_set(self, e, env, mod):
        s = VSet()
        for x in self.ev_elts(e.elts, env, mod):
            self.set_add(s, x)
        return s

    def e_dict(self, e, env, mod):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v, env, mod))
            else:
                kk = self.ev(k, env, mod)
                self.dict_set(d, kk, self.ev(v, env, mod))
        return d

    def comp(self, gens, env, mod, emit, seen=None):
        """run nested comprehension loops, python generator"""
        cenv = Env(env, env.globals)
        if env.is_class:
            cenv = Env(env, env.globals)
        first = self.ev(gens[0].iter, env, mod)
        if seen is not None:
            seen.append(first)

        def rec(i):
            g = gens[i]
            it = first if i == 0 else self.ev(g.iter, cenv, mod)
            for v in self.iterate(it):
                self.assign(g.target, v, cenv, mod)
                if all(self.truth(self.ev(c, cenv, mod)) for c in g.ifs):
                    if i + 1 < len(gens):
                        yield from rec(i + 1)
                    else:
                        yield emit(cenv)
        return rec(0)

    def e_listcomp(self, e, env, mod):
        return VList(list(self.comp(e.generators, env, mod, lambda c: self.ev(e.elt, c, mod))))

    def e_setcomp(self, e, env, mod):
        s = VSet()
        for v in self.comp(e.generators, env, mod, lambda c: self.ev(e.elt, c, mod)):
            self.set_add(s, v)
        return s

    def e_dictcomp(self, e, env, mod):
        d = VDict()
        for k, v in self.comp(e.generators, env, mod,
                              lambda c: (self.ev(e.key, c, mod), self.ev(e.value, c, mod))):
            self.dict_set(d, k, v)
        return d

    def e_genexp(self, e, env, mod):
        seen = []
        g = VIter(self.comp(e.generators, env, mod, lambda c: self.ev(e.elt, c, mod), seen), 'generator')
        if len(e.generators) == 1 and kind_of(seen[0]) == 's' and isinstance(seen[0], SSeq):
            g.over = (seen[0], e, env, mod)
        return g

    def over_text(self, g, stop):
        """all()/any() of a condition on each character of an unknown text: a predicate of the text"""
        over = getattr(g, 'over', None)
        if over is None:
            return None
        text, e, env, mod = over
        text = self.ctx.norm(text)
        if not isinstance(text, SSeq):
            return None
        g.over = None
        known = {}

        def holds(c):
            if c not in known:
                cenv = Env(env, env.globals)
                self.assign(e.generators[0].target, c, cenv, mod)
                n = len(self.ctx.log)
                known[c] = all(self.truth(self.ev(x, cenv, mod)) for x in e.generators[0].ifs) and \
                    self.truth(self.ev(e.elt, cenv, mod)) or stop is False and not all(
                        self.truth(self.ev(x, cenv, mod)) for x in e.generators[0].ifs)
                if len(self.ctx.log) != n:
                    raise self.unsupported('a condition which depends on unknowns, on each character of a text')
            return known[c]
        holds('A')
        key = ('chars', stop, id(e), id(env), text.key())
        if stop:
            return self.ctx.pred(key, lambda m: any(holds(c) for c in m.seq(text)), f'any of the characters of {text!r}')
        return self.ctx.pred(key, lambda m: all(holds(c) for c in m.seq(text)), f'all of the characters of {text!r}')

    def chars_in(self, text, known, label='all'):
        """are all (any) characters of an unknown text among the known ones?"""
        text = self.ctx.norm(text)
        if not isinstance(text, SSeq):
            return all(c in known for c in text) if label == 'all' else any(c in known for c in text)
        if label == 'all':
            return self.ctx.pred(('chars-all', text.key(), known), lambda m: all(c in known for c in m.seq(text)),
                                 f'{text!r} has only {"".join(sorted(known))!r}')
        return self.ctx.pred(('chars-any', text.key(), known), lambda m: any(c in known for c in m.seq(text)),
                             f'{text!r} has some of {"".join(sorted(known))!r}')

    def known_chars(self, s):
        """the elements of a set of known texts"""
        if s.texts or s.nsym or not all(k[0] == 's' for k in s._d):
            return None
        return frozenset(k[1] for k in s._d)

    def e_lambda(self, e, env, mod):
        return self.make_func(e, env, mod)

    def e_subscript(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        return self.getitem(o, self.ev_index(e.slice, env, mod))

    def e_joined(self, e, env, mod):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                val = self.ev(v.value, env, mod)
                spec = ''
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env, mod)
                    if not isinstance(spec, str):
                        spec = self.force(spec)
                conv = chr(v.conversion) if v.conversion != -1 else ''
                parts.append((val, conv, spec))
        return self.lazy(parts)

    def lazy(self, parts):
        out = ''
        for p in parts:
            if isinstance(p, str):
                out += p
            else:
                v, conv, spec = p
                v = self.prim_str(v)
                if isinstance(v, (str, int, float, bytes)) and isinstance(spec, str):
                    try:
                        x = repr(v) if conv == 'r' else ascii(v) if conv == 'a' else v
                        out += format(x, spec)
                    except (ValueError, TypeError):
                        raise self.throw('ValueError', 'Invalid format specifier')
                elif v is None:
                    out += 'None'
                else:
                    return VLazyStr(list(parts))
        return out

    def prim_str(self, v):
        if isinstance(v, VObj) and v.prim is not None and v.cls.lookup('__str__') is MISSING \
                and not any(c.name == 'Enum' for c in v.cls.mro):
            return v.prim
        return v

    def force(self, s):
        """text of a lazily formatted string"""
        if not isinstance(s, VLazyStr):
            return s
        out = ''
        for p in s.parts:
            if isinstance(p, str):
                out = concat(out, p)
            else:
                v, conv, spec = p
                if conv == 'r':
                    x = self.repr_(v, True)
                    out = concat(out, self.format_(x, spec))
                else:
                    out = concat(out, self.format_(v, spec))
        return out

    def e_named(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        t = env
        while t.func is None and t.parent is not None and t.vars is not t.globals and not t.is_class:
            t = t.parent
        self.assign_name(t, e.target.id, v)
        return v

    def e_starred(self, e, env, mod):
        raise self.unsupported('starred expression')

    def e_yield(self, e, env, mod):
        raise self.unsupported('yield inside an expression')

    EXPR = {ast.Constant: e_const, ast.Name: e_name, ast.Attribute: e_attr, ast.Call: e_call, ast.BoolOp: e_boolop,
            ast.UnaryOp: e_unary, ast.BinOp: e_binop, ast.Compare: e_compare, ast.IfExp: e_ifexp, ast.List: e_list,
            ast.Tuple: e_tuple, ast.Set: e_set, ast.Dict: e_dict, ast.ListComp: e_listcomp, ast.SetComp: e_setcomp,
            ast.DictComp: e_dictcomp, ast.GeneratorExp: e_genexp, ast.Lambda: e_lambda, ast.Subscript: e_subscript,
            ast.JoinedStr: e_joined, ast.NamedExpr: e_named, ast.Starred: e_starred, ast.Yield: e_yield,
            ast.YieldFrom: e_yield, ast.Slice: ev_index}

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if self.ctx is not None and self.ctx.probe is not None:
            self.probed(f)
        if isinstance(f, VFunc):
            if self.ctx is not None and self.ctx.probe is None and any(isinstance(a, SSeq) for a in args) and \
                    is_checker(f.node):
                return self.call_checker(f, args, kw)
            return self.call_func(f, args, kw)
        if isinstance(f, VBound):
            return self.call(f.func, [f.self] + args, kw)
        if isinstance(f, VNative):
            return f.fn(self, args, kw)
        if isinstance(f, VMethod):
            return self.call_method(f.self, f.name, args, kw)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, VCache):
            return self.call_cache(f, args, kw)
        if isinstance(f, VPartial):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(f.func, list(f.args) + args, k)
        if isinstance(f, VExt) and hasattr(f, 'vcall'):
            return f.vcall(self, args, kw)
        if isinstance(f, VObj):
            c = f.cls.lookup('__call__')
            if c is not MISSING:
                return self.call(c, [f] + args, kw)
            raise self.throw('TypeError', f"'{f.cls.name}' object is not callable")
        if isinstance(f, (VStatic, VClassM)):
            return self.call(f.func, args, kw)
        if isinstance(f, VOpaque):
            raise self.unsupported(f'call of {f.name}')
        if f is None or isinstance(f, (int, float, str, bytes, VList, VDict, tuple, SSeq, Num)):
            raise self.throw('TypeError', 'object is not callable')
        raise self.unsupported(f'call of {f!r}')

    def call_cache(self, c, args, kw):
        kws = sorted(kw.items())
        for i, (a2, k2, r) in enumerate(c.entries):
            if len(a2) == len(args) and [k for k, _ in k2] == [k for k, _ in kws]:
                if all(self.cache_eq(x, y) for x, y in zip(a2, args)) and \
                        all(self.cache_eq(x, y) for (_, x), (_, y) in zip(k2, kws)):
                    return r
        for a in list(args) + [v for _, v in kws]:
            self.hashable(a)
        r = self.call(c.func, args, kw)
        c.touch()
        c.entries = c.entries + [(list(args), kws, r)]
        return r

    def hashable(self, v):
        if isinstance(v, (VList, VDict, VBA)) or (isinstance(v, VSet) and not v.frozen):
            raise self.throw('TypeError', 'unhashable type')
        if isinstance(v, VObj):
            self.hkey(v)                        # raises for classes which define __eq__ and no __hash__
        return True

    def cache_eq(self, x, y):
        return x is y or self.eq(x, y)

    def probed(self, f):
        """while outcomes are compared: only calls that cannot change anything"""
        if isinstance(f, VFunc):
            ok = is_checker(f.node)
        elif isinstance(f, VNative):
            ok = f.name in PROBE_NATIVES
        elif isinstance(f, VMethod):
            ok = isinstance(f.self, (str, bytes, SSeq, int, tuple))
        elif isinstance(f, VClass):
            ok = f.issub(self.builtins['BaseException']) or f.name in ('str', 'type', 'int', 'bool')
        else:
            ok = isinstance(f, VBound)
        if not ok:
            raise ProbeAbort()

    def call_checker(self, f, args, kw):
        """A call whose result does not depend on an open condition on unknown text is not split on it."""
        c = self.ctx
        nl, nw, cur, st, nd = len(self.logs), len(self.warnings), self.cur, len(self.stack), len(self.handling)
        results = []
        prefix = []
        try:
            while True:
                c.probe = dict(prefix)
                r = self.call_func(f, list(args), dict(kw))
                results.append(r)
                seen = list(c.probe.items())
                if not seen and not results[1:]:
                    c.probe = None
                    return r
                if r is not results[0]:
                    raise ProbeAbort()
                while seen and not seen[-1][1]:
                    seen.pop()
                if not seen:
                    break
                prefix = seen[:-1] + [(seen[-1][0], False)]
        except (ProbeAbort, PyRaise, Unsupported, Infeasible):
            c.probe = None
            del self.logs[nl:], self.warnings[nw:], self.stack[st:], self.handling[nd:]
            self.cur = cur
            return self.call_func(f, args, kw)
        c.probe = None
        del self.logs[nl:], self.warnings[nw:]
        return results[0]

    def call_func(self, f, args, kw):
        env = Env(f.env, f.env.globals, func=f)
        self.bind_args(f, args, kw, env.vars)
        self.touched_functions.add(id(f.node))
        if isinstance(f.node, ast.Lambda):
            save = self.cur
            r = self.ev(f.node.body, env, f.module)
            self.cur = save
            return r
        if f.isgen:
            return VIter(self.gen_body(f, env), f.qualname)
        if len(self.stack) > 180:
            raise self.throw('RecursionError', 'maximum recursion depth exceeded')
        self.stack.append(f)
        save = self.cur
        try:
            r = self.exec_block(f.node.body, env, f.module)
        finally:
            self.stack.pop()
        self.cur = save
        if r is None:
            return None
        return r[1]

    def gen_body(self, f, env):
        try:
            r = yield from self.g_block(f.node.body, env, f.module)
        except PyRaise as e:
            if e.exc.cls.name == 'StopIteration':
                raise self.throw('RuntimeError', 'generator raised StopIteration')
            raise
        return r[1] if r is not None else None

    def bind_args(self, f, args, kw, out):
        a = f.node.args
        pos = a.posonlyargs + a.args
        n = len(pos)
        if len(args) > n:
            if a.vararg is None:
                raise self.throw('TypeError', f'{f.name}() takes {n} positional arguments but {len(args)} were given')
            out[a.vararg.arg] = tuple(args[n:])
            args = args[:n]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for p, v in zip(pos, args):
            out[p.arg] = v
        names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in out:
                    raise self.throw('TypeError', f"{f.name}() got multiple values for argument '{k}'")
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise self.throw('TypeError', f"{f.name}() got an unexpected keyword argument '{k}'")
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in out:
                j = i - (n - nd)
                if j < 0:
                    raise self.throw('TypeError', f"{f.name}() missing required argument: '{p.arg}'")
                out[p.arg] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in out:
                if p.arg not in f.kwdefaults:
                    raise self.throw('TypeError', f"{f.name}() missing keyword-only argument: '{p.arg}'")
                out[p.arg] = f.kwdefaults[p.arg]
        if a.kwarg is not None:
            d = VDict()
            for k, v in extra.items():
                self.dict_set(d, k, v)
            out[a.kwarg.arg] = d

    def instantiate(self, cls, args, kw):
        if cls.members is not None:
            if not cls.members and len(args) > 1:
                raise self.unsupported('enumeration made by a call')
            return self.enum_lookup(cls, args)
        if cls.builtin and any(b.name == 'Enum' for b in cls.mro):
            raise self.unsupported('enumeration made by a call')
        # metaclass __call__
        if cls.meta is not None and not cls.meta.builtin:
            mc = cls.meta.lookup('__call__')
            if mc is not MISSING:
                return self.call(mc, [cls] + args, kw)
        return self.type_call(cls, args, kw)

    def type_call(self, cls, args, kw):
        if cls.construct is not None:
            return cls.construct(self, cls, args, kw)
        new, owner = cls.lookup_cls('__new__')
        if new is not MISSING and not owner.builtin:
            f = new.func if isinstance(new, VStatic) else new
            o = self.call(f, [cls] + args, kw)
            if not (isinstance(o, VObj) and o.cls.issub(cls)):
                return o
        else:
            o = self.object_new(cls, args, kw)
        init, owner = cls.lookup_cls('__init__')
        if init is not MISSING:
            r = self.call(init, [o] + args, kw)
        elif args or kw:
            if not any(b.builtin and b.name not in ('object',) for b in cls.mro) and new is MISSING:
                raise self.throw('TypeError', f'{cls.name}() takes no arguments')
        return o

    def abstract(self, cls):
        """names of abstract methods which nothing overrides"""
        if not any(b.name == 'ABC' and b.builtin for b in cls.mro) and not (cls.meta and cls.meta.name == 'ABCMeta'):
            return []
        out = []
        for n in {n for b in cls.mro if not b.builtin for n in b.ns}:
            v = cls.lookup(n)
            if isinstance(v, VProperty):
                v = v.fget
            elif isinstance(v, (VStatic, VClassM)):
                v = v.func
            if isinstance(v, VFunc) and v.attrs.get('__isabstractmethod__'):
                out.append(n)
        return sorted(out)

    def object_new(self, cls, args=(), kw=None):
        ab = self.abstract(cls)
        if ab:
            raise self.throw('TypeError', f"Can't instantiate abstract class {cls.name} without an implementation for "
                                          f"abstract method {', '.join(map(repr, ab))}")
        o = VObj(cls)
        for b in cls.mro:
            if b.builtin and b.name in ('dict', 'defaultdict', 'OrderedDict'):
                o.prim = VDict()
                if b.name in ('dict', 'OrderedDict') and cls.lookup_cls('__init__')[1] is None:
                    for a in args:
                        self.dict_update(o.prim, a)
                break
            if b.builtin and b.name == 'list':
                o.prim = VList(list(self.iterate(args[0])) if args and cls.lookup_cls('__init__')[1] is None else [])
                break
            if b.builtin and b.name in ('int', 'str', 'float', 'bytes'):
                o.prim = b.construct(self, b, list(args)[:1], {})
                break
            if '_fields' in b.ns and b.construct is not None and cls.lookup('__new__') is MISSING:
                o.prim = b.construct(self, b, list(args), kw or {}).prim
                break
            if b.builtin and b.name == 'tuple':
                o.prim = tuple(self.iterate(args[0])) if args else ()
                break
            if b.builtin and b.name == 'set':
                o.prim = VSet()
                break
            if b.builtin and b.name == 'BaseException':
                o.attrs['args'] = tuple(args)
                break
        return o

    def enum_lookup(self, cls, args):
        v = self.concretise_text(args[0])
        if isinstance(v, VObj) and v.cls is cls:
            return v
        p = self.prim(v)
        sym = []
        for m in cls.members.values():
            mv = m.attrs['_value_']
            if self.concrete(p) and self.concrete(mv):
                try:
                    if p == mv:
                        return m
                except Exception:
                    pass
            else:
                sym.append(m)
        if isinstance(p, (SSeq, Num)) and sym:
            if isinstance(p, SSeq):
                vals = [m.attrs['_value_'] for m in sym]
                key = ('enum', cls.name, self.ctx.norm(p).key() if isinstance(self.ctx.norm(p), SSeq) else None)
                q = self.ctx.norm(p)
                if not isinstance(q, SSeq):
                    return self.enum_lookup(cls, [q])
                strs = [x for x in vals if isinstance(x, str)]
                if any(self.ctx.memo.get(('member', q.key(), x)) for x in strs):
                    pass
                if not self.ctx.pred(('enum', tuple(sorted(strs)), q.key()),
                                     lambda m: m.seq(q) in strs, f'{q!r} is a member of {cls.name}'):
                    raise self.throw('ValueError', f'not a valid {cls.name}')
                # a representative member
                reps = [strs[0]] if len(strs) < 3 else [strs[0], strs[len(strs) // 2]]
                for x in reps:
                    if self.ctx.equal(q, x):
                        return self.enum_lookup(cls, [x])
                raise Cut('enum member beyond the representatives')
            for m in sym:
                if self.eq(p, m.attrs['_value_']):
                    return m
        raise self.throw('ValueError', f'{v!r} is not a valid {cls.name}')

    def concretise_text(self, v):
        if isinstance(v, VLazyStr):
            return self.force(v)
        if isinstance(v, SSeq) and self.ctx:
            return self.ctx.norm(v)
        return v

    # ------------------------------------------------------------ attributes
    def type_of(self, v):
        if isinstance(v, VObj):
            return v.cls
        if v is None:
            return self.builtins_hidden['NoneType']
        if v is True or v is False:
            return self.builtins['bool']
        if isinstance(v, int):
            return self.builtins['int']
        if isinstance(v, float):
            return self.builtins['float']
        if isinstance(v, complex):
            return self.builtins['complex']
        if isinstance(v, Num):
            return self.builtins['float'] if v.isfloat else self.builtins['int']
        if isinstance(v, (str, VLazyStr)):
            return self.builtins['str']
        if isinstance(v, bytes):
            return self.builtins['bytes']
        if isinstance(v, SSeq):
            return self.builtins['str' if v.kind == 's' else 'bytes']
        if isinstance(v, VBA):
            return self.builtins['bytearray']
        if isinstance(v, VDeque):
            return self.builtins_hidden['deque']
        if isinstance(v, VList):
            return self.builtins['list']
        if isinstance(v, tuple):
            return self.builtins['tuple']
        if isinstance(v, VDict):
            return self.builtins['dict'] if v.factory is None else self.builtins_hidden[
                'Counter' if isinstance(v.factory, VNative) and v.factory.name == 'Counter' else 'defaultdict']
        if isinstance(v, VAttrsView):
            return self.builtins['dict']
        if isinstance(v, VSet):
            return self.builtins['frozenset' if v.frozen else 'set']
        if isinstance(v, VClass):
            return v.meta if v.meta is not None else (
                self.builtins_hidden['EnumType'] if v.members is not None else self.builtins['type'])
        if isinstance(v, VExt) and hasattr(v, 'vtype'):
            return v.vtype(self)
        if isinstance(v, VRange):
            return self.builtins['range']
        if isinstance(v, slice):
            return self.builtins['slice']
        if isinstance(v, VIter):
            return self.builtins_hidden['generator']
        if isinstance(v, (VFunc, VNative, VMethod, VBound, VCache, VPartial)):
            return self.builtins_hidden['function']
        if isinstance(v, VModule):
            return self.builtins_hidden['module']
        if isinstance(v, VProperty):
            return self.builtins['property']
        raise self.unsupported(f'type of {v!r}')

    def isinstance_(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance_(v, x) for x in t)
        if isinstance(t, VUnionType):
            return any(self.isinstance_(v, x) for x in t.args)
        if t is None:
            t = self.builtins_hidden['NoneType']
        if not isinstance(t, VClass):
            if isinstance(t, VExt) and hasattr(t, 'vinstancecheck'):
                return t.vinstancecheck(self, v)
            raise self.unsupported(f'isinstance(…, {t!r})')
        if isinstance(v, VOpaque):
            raise self.unsupported(f'isinstance of {v}')
        cls = self.type_of(v)
        if cls.issub(t):
            return True
        if t.native_type is not None:
            return t.native_type(self, v, cls)
        return False

    def getattr(self, o, name, default=MISSING):
        if isinstance(o, VObj):
            return self.obj_getattr(o, name, default)
        if isinstance(o, VModule):
            if name in o.ns:
                return o.ns[name]
            if o.external:
                full = f'{o.name}.{name}'
                if full in self.extmods:
                    return self.extmods[full]
                if default is not MISSING:
                    raise self.unsupported(f'hasattr on module {o.name}')
                v = VOpaque(full)
                return v
            if o.name + '.' + name in self.modules:
                return self.modules[o.name + '.' + name]
        elif isinstance(o, VClass):
            return self.class_getattr(o, name, default)
        elif isinstance(o, VSuper):
            return self.super_getattr(o, name, default)
        elif isinstance(o, VExt):
            if isinstance(o, VOpaque):
                return VOpaque(f'{o.name}.{name}')
            if name == '__class__':
                return self.type_of(o)
            r = o.vget(self, name)
            if r is not MISSING:
                return r
        elif isinstance(o, (VFunc, VCache, VNative)):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__qualname__':
                return getattr(o, 'qualname', o.name)
            if name == '__doc__' and isinstance(o, VFunc) and not isinstance(o.node, ast.Lambda):
                return ast.get_docstring(o.node, clean=False)
            if name in ('__doc__', '__module__'):
                return None
            if isinstance(o, VCache) and name in ('cache_info', 'cache_parameters'):
                raise self.unsupported(name)
            if name == '__dict__':
                return VDict()
            if name == '__wrapped__' and isinstance(o, VCache):
                return o.func
            if name == '__get__':
                return VNative('__get__', lambda it, a, k: VBound(o, a[0]) if a[0] is not None else o)
            if isinstance(o, VCache) and name == 'cache_clear':
                def clear(it, a, k):
                    o.touch()
                    o.entries = []
                return VNative('cache_clear', clear)
        elif isinstance(o, VBound):
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.func
            return self.getattr(o.func, name, default)
        elif isinstance(o, VProperty):
            if name in ('setter', 'getter', 'deleter'):
                def deco(it, a, k):
                    if name == 'setter':
                        return VProperty(o.fget, a[0], o.fdel)
                    if name == 'getter':
                        return VProperty(a[0], o.fset, o.fdel)
                    return VProperty(o.fget, o.fset, a[0])
                return VNative(name, deco)
            if name in ('fget', 'fset', 'fdel'):
                return getattr(o, name)
        elif isinstance(o, slice):
            if name in ('start', 'stop', 'step'):
                return getattr(o, name)
            if name == 'indices':
                return VMethod(o, name)
        elif isinstance(o, VRange) and name in ('start', 'stop', 'step'):
            return getattr(o, name)
        else:
            if name == '__class__':
                return self.type_of(o)
            if name == '__dict__' and isinstance(o, VList):
                pass
            elif self.has_method(o, name):
                return VMethod(o, name)
            elif isinstance(o, (int, float, Num)) and name in ('real', 'imag', 'numerator', 'denominator'):
                if name in ('real', 'numerator'):
                    return o
                return 0 if name == 'imag' else 1
        if default is not MISSING:
            return default
        raise self.no_attr(self.type_of(o), name, f"{self.type_of(o).name!r} object has no attribute {name!r}")

    def has_method(self, o, name):
        from . import libs
        return libs.has_method(self, o, name)

    def call_method(self, o, name, args, kw):
        from . import libs
        return libs.call_method(self, o, name, args, kw)

    def bind_attr(self, v, o, cls):
        if isinstance(v, (VFunc, VCache)):
            return VBound(v, o)
        if isinstance(v, VNative) and v.bind:
            return VBound(v, o)
        if isinstance(v, VProperty):
            if v.fget is None:
                raise self.throw('AttributeError', 'unreadable attribute')
            return self.call(v.fget, [o])
        if isinstance(v, VStatic):
            return v.func
        if isinstance(v, VClassM):
            return VBound(v.func, cls)
        if isinstance(v, VCachedProperty):
            if v.name in o.attrs:
                return o.attrs[v.name]
            r = self.call(v.func, [o])
            o.touch()
            o.attrs[v.name] = r
            return r
        if isinstance(v, VObj):
            g = v.cls.lookup('__get__')
            if g is not MISSING:
                return self.call(g, [v, o, cls])
        if isinstance(v, VPartialMethod):
            return VPartial(v.func, [o] + list(v.args), v.kwargs)
        return v

    def obj_getattr(self, o, name, default=MISSING):
        cls = o.cls
        v, owner = cls.lookup_cls(name)
        if v is not MISSING:
            if isinstance(v, VProperty):
                try:
                    return self.bind_attr(v, o, cls)
                except PyRaise as e:
                    if e.exc.cls.issub(self.builtins['AttributeError']):
                        ga = cls.lookup('__getattr__')
                        if ga is not MISSING:
                            return self.call(ga, [o, name])
                        if default is not MISSING:
                            return default
                    raise
            if isinstance(v, VObj) and v.cls.lookup('__set__') is not MISSING \
                    and v.cls.lookup('__get__') is not MISSING:
                return self.call(v.cls.lookup('__get__'), [v, o, cls])
        if name in o.attrs:
            return o.attrs[name]
        if name == '__class__':
            return cls
        if name == '__dict__':
            return VAttrsView(o)
        if v is not MISSING:
            return self.bind_attr(v, o, cls)
        if cls.members is not None:
            if name == 'value':
                return o.attrs['_value_']
            if name == 'name':
                return o.attrs['_name_']
        if o.prim is not None and self.has_method(o.prim, name):
            return VMethod(o, name)
        if name in self.object_methods:
            return VBound(self.object_methods[name], o)
        ga = cls.lookup('__getattr__')
        if ga is not MISSING:
            try:
                return self.call(ga, [o, name])
            except PyRaise as e:
                if default is not MISSING and e.exc.cls.issub(self.builtins['AttributeError']):
                    return default
                raise
        if default is not MISSING:
            return default
        raise self.no_attr(cls, name, f"'{cls.name}' object has no attribute '{name}'")

    def no_attr(self, cls, name, msg, of_class=False):
        """AttributeError - unless an attribute of the real Python is meant which the analyser does not know"""
        if of_class and hasattr(type, name) and not hasattr(object, name):
            return self.unsupported(f'attribute {name} of class {cls.name}')
        for b in cls.mro:
            if b.builtin:
                t = real_type(b.name)
                if t is not None and hasattr(t, name) and (t is not object or name in ('__class__', '__doc__', '__dict__')):
                    return self.unsupported(f'attribute {name} of {b.name}')
        return self.throw('AttributeError', msg)

    def class_getattr(self, c, name, default=MISSING):
        if c.meta is not None:
            mv = c.meta.lookup(name)
            if isinstance(mv, VProperty):
                return self.call(mv.fget, [c])
        v, owner = c.lookup_cls(name)
        if v is not MISSING:
            if isinstance(v, VStatic):
                return v.func
            if isinstance(v, VClassM):
                return VBound(v.func, c)
            if isinstance(v, VObj) and v.cls.lookup('__get__') is not MISSING:
                return self.call(v.cls.lookup('__get__'), [v, None, c])
            return v
        if c.meta is not None:
            mv = c.meta.lookup(name)
            if mv is not MISSING:
                return self.bind_attr(mv, c, c.meta)
        if name == '__name__':
            return c.name
        if name == '__qualname__':
            return c.qualname
        if name == '__mro__':
            return tuple(c.mro)
        if name == '__bases__':
            return c.bases
        if name == '__dict__':
            d = VDict()
            for k, x in c.ns.items():
                self.dict_set(d, k, x)
            return d
        if name == '__class__':
            return self.type_of(c)
        if name == '__module__':
            return c.ns.get('__module__', 'builtins')
        if name == '__doc__':
            return None
        if name == 'mro':
            return VNative('mro', lambda it, a, k: VList(c.mro))
        if name == '__subclasses__':
            raise self.unsupported('__subclasses__')
        if c.members is not None:
            if name == '__members__':
                d = VDict()
                for k, m in c.members.items():
                    self.dict_set(d, k, m)
                return d
            if name in ('_member_map_',):
                return self.class_getattr(c, '__members__')
            if name == '_value2member_map_':
                d = VDict()
                for m in c.members.values():
                    self.dict_set(d, m.attrs['_value_'], m)
                return d
        # methods of builtin bases: str.upper, dict.get, ...
        for b in c.mro:
            if b.builtin:
                f = self.unbound_builtin(b, name)
                if f is not MISSING:
                    return f
        if name in self.object_methods:
            return self.object_methods[name]
        if default is not MISSING:
            return default
        if name == '__annotations__':
            d = VDict()
            for n in c.annotations or ():
                self.dict_set(d, n, VOpaque('annotation'))
            return d
        raise self.no_attr(c, name, f"type object '{c.name}' has no attribute '{name}'", True)

    def unbound_builtin(self, b, name):
        from . import libs
        return libs.unbound_builtin(self, b, name)

    def super_getattr(self, s, name, default=MISSING):
        o = s.obj
        cls = o if isinstance(o, VClass) else self.type_of(o)
        start = cls.mro
        if s.cls not in start and isinstance(o, VClass):
            # super() inside a metaclass method: instance is a class
            cls = self.type_of(o)
            start = cls.mro
        i = start.index(s.cls)
        for b in start[i + 1:]:
            if name in b.ns:
                v = b.ns[name]
                if isinstance(o, VClass):
                    if isinstance(v, VStatic):
                        return v.func
                    if isinstance(v, VClassM):
                        return VBound(v.func, o)
                    if isinstance(v, VFunc):
                        return v
                    return v
                return self.bind_attr(v, o, cls)
            if b.builtin:
                f = self.super_builtin(b, name, o, cls)
                if f is not MISSING:
                    return f
        if name in self.object_methods:
            if name in ('__new__', '__init_subclass__'):
                return self.object_methods[name]
            return VBound(self.object_methods[name], o)
        if default is not MISSING:
            return default
        raise self.no_attr(cls, name, f"'super' object has no attribute '{name}'", isinstance(o, VClass))

    def super_builtin(self, b, name, o, cls):
        from . import libs
        return libs.super_builtin(self, b, name, o, cls)

    def setattr(self, o, name, v):
        if isinstance(o, VObj):
            sa, owner = o.cls.lookup_cls('__setattr__')
            if sa is not MISSING and not owner.builtin:
                self.call(sa, [o, name, v])
                return
            self.obj_setattr(o, name, v)
            return
        if isinstance(o, VClass):
            if o.meta is not None:
                mv = o.meta.lookup(name)
                if isinstance(mv, VProperty):
                    if mv.fset is None:
                        raise self.throw('AttributeError', 'no setter')
                    self.call(mv.fset, [o, v])
                    return
            o.touch()
            o.ns[name] = v
            return
        if isinstance(o, VModule):
            o.touch()
            o.ns[name] = v
            return
        if isinstance(o, (VFunc,)):
            o.touch()
            o.attrs[name] = v
            return
        if isinstance(o, (VCache, VNative)):
            o.attrs[name] = v
            return
        if isinstance(o, VExt) and hasattr(o, 'vset'):
            o.vset(self, name, v)
            return
        if isinstance(o, VOpaque):
            raise self.unsupported(f'attribute of {o}')
        raise self.no_attr(self.type_of(o), name, f"{self.type_of(o).name!r} object has no attribute {name!r}")

    def obj_setattr(self, o, name, v):
        d = o.cls.lookup(name)
        if isinstance(d, VProperty):
            if d.fset is None:
                raise self.throw('AttributeError', f"property '{name}' of '{o.cls.name}' object has no setter")
            self.call(d.fset, [o, v])
            return
        if isinstance(d, VObj):
            st = d.cls.lookup('__set__')
            if st is not MISSING:
                self.call(st, [d, o, v])
                return
        if o.prim is not None and o.cls.members is not None and name in ('value', 'name'):
            raise self.throw('AttributeError', 'cannot set attribute')
        o.touch()
        o.attrs[name] = v

    def delattr(self, o, name):
        if isinstance(o, VObj):
            d = o.cls.lookup(name)
            if isinstance(d, VProperty) and d.fdel is not None:
                self.call(d.fdel, [o])
                return
            if name in o.attrs:
                o.touch()
                del o.attrs[name]
                return
            raise self.throw('AttributeError', name)
        if isinstance(o, (VClass, VModule)):
            if name in o.ns:
                o.touch()
                del o.ns[name]
                return
            raise self.throw('AttributeError', name)
        raise self.unsupported('delattr')

    # ------------------------------------------------------------ values
    def prim(self, v):
        if isinstance(v, VObj) and v.prim is not None:
            return v.prim
        if isinstance(v, VLazyStr):
            return self.force(v)
        return v

    def concrete(self, v):
        return v is None or isinstance(v, (bool, int, float, str, bytes))

    def truth(self, v):
        if v is True or v is False:
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, Num):
            return not self.ctx.branch('==', v, f'{v} is zero')
        if isinstance(v, SSeq):
            v = self.ctx.norm(v)
            if not isinstance(v, SSeq):
                return bool(v)
            return not self.ctx.branch('==', v.length, f'{v!r} is empty')
        if isinstance(v, VLazyStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return self.truth(self.force(v))
        if isinstance(v, VList):
            return bool(v.items)
        if isinstance(v, VDict):
            return bool(v.d)
        if isinstance(v, VAttrsView):
            return bool(v.obj.attrs)
        if isinstance(v, VSet):
            for t, without in v.texts:
                if not v._d and (not self.chars_in(t, without) if without else self.truth(t)):
                    return True
            return bool(v._d)
        if isinstance(v, VBA):
            return self.truth(v.seq)
        if isinstance(v, VObj):
            b = v.cls.lookup('__bool__')
            if b is not MISSING:
                return self.truth(self.call(b, [v]))
            ln, owner = v.cls.lookup_cls('__len__')
            if ln is not MISSING and not owner.builtin:
                return self.truth(self.call(ln, [v]))
            if v.prim is not None:
                return self.truth(v.prim)
            return True
        if isinstance(v, VRange):
            return self.truth(self.length(v))
        if isinstance(v, VExt) and hasattr(v, 'vtruth'):
            return v.vtruth(self)
        if isinstance(v, VOpaque):
            raise self.unsupported(f'truth of {v}')
        return True

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, VAttrsView) and isinstance(b, VAttrsView):
            return a.obj is b.obj
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
            return False
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            return a == b and -5 <= a <= 256
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return True
        if isinstance(a, VExt) and hasattr(a, 'vis'):
            return a.vis(self, b)
        return False

    def hkey(self, v):
        """hashable key for a concrete value, None when equality depends on unknowns"""
        if v is None or v is Ellipsis:
            return ('o', v)
        if isinstance(v, (bool, int, float)):
            return ('n', v)
        if isinstance(v, str):
            return ('s', v)
        if isinstance(v, bytes):
            return ('b', v)
        if isinstance(v, VLazyStr):
            return self.hkey(self.force(v))
        if isinstance(v, tuple):
            ks = tuple(self.hkey(x) for x in v)
            return None if None in ks else ('t', ks)
        if isinstance(v, VObj):
            if v.prim is not None and not isinstance(v.prim, (VDict, VList, VSet)):
                return self.hkey(v.prim)
            eq, owner = v.cls.lookup_cls('__eq__')
            if eq is not MISSING and not owner.builtin:
                h, howner = v.cls.lookup_cls('__hash__')
                if h is MISSING or h is None or howner.builtin or v.cls.mro.index(howner) > v.cls.mro.index(owner):
                    raise self.throw('TypeError', f"unhashable type: '{v.cls.name}'")
                return None
            return ('id', id(v))
        if isinstance(v, (VClass, VFunc, VNative, VCache, VModule)):
            return ('id', id(v))
        if isinstance(v, VBound):
            return ('bd', id(v.func), id(v.self))
        if isinstance(v, (VList, VDict, VBA)) or isinstance(v, VSet) and not v.frozen:
            raise self.throw('TypeError', f"unhashable type: '{self.type_of(v).name}'")
        if isinstance(v, VSet):
            return ('fs', frozenset(v.d))
        if isinstance(v, SSeq):
            n = self.ctx.norm(v) if self.ctx else v
            if not isinstance(n, SSeq):
                return self.hkey(n)
            return None
        if isinstance(v, Num):
            n = simp(self.ctx.facts.resolve(v)) if self.ctx else v
            if not isinstance(n, Num):
                return self.hkey(n)
            return None
        if isinstance(v, VExt) and hasattr(v, 'vhash'):
            return v.vhash(self)
        if isinstance(v, VOpaque):
            return ('id', v.name)
        if isinstance(v, VExt):
            return ('id', id(v))
        raise self.unsupported(f'hash of {v!r}')

    def symkey(self, v):
        if isinstance(v, SSeq):
            return ('sym', self.ctx.norm(v).key())
        if isinstance(v, Num):
            return ('sym', self.ctx.facts.resolve(v).key())
        if isinstance(v, tuple):
            return ('symt', tuple(self.hkey(x) or self.symkey(x) for x in v))
        return ('symid', id(v))

    def find(self, d, k):
        """key under which `k` is stored in a VDict/VSet, or None"""
        hk = self.hkey(k)
        if hk is not None:
            if hk in d.d:
                return hk
            if d.nsym == 0:
                return None
            for kk, (orig, _) in list(d.d.items()):
                if kk[0].startswith('sym') and self.key_eq(k, orig):
                    return kk
            return None
        sk = self.symkey(k)
        if sk in d.d:
            return sk
        for kk, (orig, _) in list(d.d.items()):
            if self.key_eq(k, orig):
                return kk
        return None

    def key_eq(self, a, b):
        ta, tb = self.prim(a), self.prim(b)
        ka, kb = kind_of(ta), kind_of(tb)
        if ka or kb:
            if ka != kb:
                return False
            return self.ctx.equal(ta, tb)
        return self.eq(a, b)

    def dict_get(self, d, k, default=MISSING):
        kk = self.find(d, k)
        return default if kk is None else d.d[kk][1]

    def dict_set(self, d, k, v):
        if isinstance(k, VLazyStr):
            k = self.force(k)
        d.touch()
        kk = self.find(d, k)
        if kk is None:
            kk = self.hkey(k)
            if kk is None:
                kk = self.symkey(k)
                d.nsym += 1
            d.d[kk] = (k, v)
        else:
            d.d[kk] = (d.d[kk][0], v)

    def dict_del(self, d, k):
        kk = self.find(d, k)
        if kk is None:
            return MISSING
        d.touch()
        if kk[0].startswith('sym'):
            d.nsym -= 1
        return d.d.pop(kk)[1]

    def set_add(self, s, v):
        if isinstance(v, VLazyStr):
            v = self.force(v)
        if self.find(s, v) is None:
            s.touch()
            kk = self.hkey(v)
            if kk is None:
                kk = self.symkey(v)
                s.nsym += 1
            s.d[kk] = (v, None)

    def dict_items(self, d):
        d0 = d
        d = self.prim(d)
        if isinstance(d, VDict):
            return list(d.d.values())
        if isinstance(d, VAttrsView):
            return list(d.obj.attrs.items())
        if isinstance(d0, VObj) or isinstance(d, VExt):
            ks = list(self.iterate(self.call(self.getattr(d0, 'keys'), [])))
            return [(k, self.getitem(d0, k)) for k in ks]
        raise self.throw('TypeError', 'argument after ** must be a mapping')

    def dict_update(self, d, src):
        p = self.prim(src)
        if isinstance(p, (VDict, VAttrsView)):
            for k, v in self.dict_items(p):
                self.dict_set(d, k, v)
        elif isinstance(src, VObj) and src.cls.lookup('keys') is not MISSING:
            for k, v in self.dict_items(src):
                self.dict_set(d, k, v)
        else:
            for kv in self.iterate(src):
                k, v = list(self.iterate(kv))
                self.dict_set(d, k, v)

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        v0 = v
        if isinstance(v, VObj):
            it = v.cls.lookup('__iter__')
            if it is not MISSING and not isinstance(it, VNative):
                r = self.call(it, [v])
                if r is v:
                    return self.iter_next(v)
                return self.iterate(r)
            if v.cls.lookup('__next__') is not MISSING:
                return self.iter_next(v)
            if v.prim is not None:
                v = v.prim
            elif v.cls.lookup('__getitem__') is not MISSING:
                return self.iter_getitem(v)
        if isinstance(v, VLazyStr):
            v = self.force(v)
        if isinstance(v, VIter):
            return v.it
        if isinstance(v, VList):
            return self.iter_list(v)
        if isinstance(v, tuple):
            return iter(v)
        if isinstance(v, VDict):
            return self.iter_dict(v)
        if isinstance(v, VAttrsView):
            return iter(list(v.obj.attrs))
        if isinstance(v, VSet):
            return iter([x for x, _ in v.d.values()])
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, bytes):
            return iter(v)
        if isinstance(v, VRange):
            return self.iter_range(v)
        if isinstance(v, VBA):
            return self.iterate(v.seq)
        if isinstance(v, SSeq):
            return self.iter_seq(v)
        if isinstance(v, VClass):
            if v.members is not None:
                return iter(list(dict.fromkeys(v.members.values())))
        if isinstance(v, VExt) and hasattr(v, 'viter'):
            return v.viter(self)
        if isinstance(v, VOpaque):
            raise self.unsupported(f'iteration over {v}')
        if isinstance(v, VGenericIter):
            return v.it
        raise self.throw('TypeError', f"'{self.type_of(v0).name}' object is not iterable")

    def iter_seq(self, s):
        s = self.ctx.norm(s)
        n = simp(self.ctx.facts.resolve(s.length if isinstance(s, SSeq) else len(s)))
        if isinstance(n, Num):
            raise self.unsupported('iteration over text of unknown length')
        for i in range(n):
            yield self.getitem(s, i)

    def iter_next(self, v):
        nx = v.cls.lookup('__next__')
        while True:
            try:
                x = self.call(nx, [v])
            except PyRaise as e:
                if e.exc.cls.issub(self.builtins['StopIteration']):
                    return
                raise
            yield x

    def iter_getitem(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except PyRaise as e:
                if e.exc.cls.issub(self.builtins['IndexError']):
                    return
                raise
            yield x
            i += 1

    def iter_list(self, v):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1

    def iter_dict(self, v):
        n = len(v.d)
        for k, _ in list(v.d.values()):
            if len(v.d) != n:
                raise self.throw('RuntimeError', 'dictionary changed size during iteration')
            yield k
        if len(v.d) != n:
            raise self.throw('RuntimeError', 'dictionary changed size during iteration')

    def iter_range(self, r):
        i = r.start
        if isinstance(r.step, Num):
            raise self.unsupported('range with unknown step')
        n = 0
        while True:
            p = self.ctx.pos if self.ctx else 0
            if not self.ctx_compare('<' if r.step > 0 else '>', i, r.stop):
                return
            if self.ctx and self.ctx.pos != p:
                n += 1
                if n > self.loop_bound:
                    e = Cut(f'loop bound {self.loop_bound}')
                    e.loc = self.where()
                    raise e
            yield i
            i = simp(add(i, r.step)) if isinstance(i, Num) or isinstance(r.step, Num) else i + r.step

    def ctx_compare(self, op, a, b):
        if isinstance(a, Num) or isinstance(b, Num):
            return self.ctx.compare(op, a, b)
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op] \
            if op in ('==', '!=') or True else None

    def next(self, v, default=MISSING, send=None):
        if isinstance(v, VObj):
            nx = v.cls.lookup('__next__')
            if nx is MISSING:
                raise self.throw('TypeError', f"'{v.cls.name}' object is not an iterator")
            try:
                return self.call(nx, [v])
            except PyRaise as e:
                if default is not MISSING and e.exc.cls.issub(self.builtins['StopIteration']):
                    return default
                raise
        if isinstance(v, VIter):
            try:
                return next(v.it) if send is None else v.it.send(send)
            except StopIteration as e:
                if default is not MISSING:
                    return default
                raise self.throw('StopIteration', *([e.value] if e.value is not None else []))
        raise self.throw('TypeError', f"'{self.type_of(v).name}' object is not an iterator")

    def length(self, v):
        if isinstance(v, VObj):
            f, owner = v.cls.lookup_cls('__len__')
            if f is not MISSING and not owner.builtin:
                return self.call(f, [v])
            if v.prim is not None:
                v = v.prim
        if isinstance(v, VLazyStr):
            v = self.force(v)
        if isinstance(v, VList):
            return len(v.items)
        if isinstance(v, (tuple, str, bytes)):
            return len(v)
        if isinstance(v, SSeq):
            v = self.ctx.norm(v)
            return simp(self.ctx.facts.resolve(slen(v))) if isinstance(v, SSeq) else len(v)
        if isinstance(v, VBA):
            return self.length(v.seq)
        if isinstance(v, (VDict, VSet)):
            return len(v.d)
        if isinstance(v, VAttrsView):
            return len(v.obj.attrs)
        if isinstance(v, VRange):
            if not any(isinstance(x, Num) for x in (v.start, v.stop, v.step)):
                return len(range(v.start, v.stop, v.step))
            if v.step == 1:
                d = simp(sub(v.stop, v.start))
                return d if self.ctx_compare('>=', d, 0) else 0
            raise self.unsupported('len of a range')
        if isinstance(v, VClass) and v.members is not None:
            return len(set(map(id, v.members.values())))
        if isinstance(v, VExt) and hasattr(v, 'vlen'):
            return v.vlen(self)
        if isinstance(v, VOpaque):
            raise self.unsupported(f'len of {v}')
        raise self.throw('TypeError', f"object of type '{self.type_of(v).name}' has no len()")

    # ------------------------------------------------------------ subscripts
    def as_index(self, i):
        if isinstance(i, VObj) and i.prim is None:
            f, owner = i.cls.lookup_cls('__index__')
            if f is not MISSING and not owner.builtin:
                i = self.call(f, [i])
        i = self.prim(i)
        if isinstance(i, Num):
            return simp(self.ctx.facts.resolve(i))
        if isinstance(i, VExt) and hasattr(i, 'vindex'):
            return i.vindex(self)
        return i

    def getitem(self, o, i):
        if isinstance(o, VObj):
            f, owner = o.cls.lookup_cls('__getitem__')
            if f is not MISSING and not owner.builtin:
                return self.call(f, [o, i])
            if o.prim is None:
                raise self.throw('TypeError', f"'{o.cls.name}' object is not subscriptable")
            if isinstance(o.prim, VDict):
                r = self.dict_get(o.prim, i)
                if r is MISSING:
                    ms = o.cls.lookup('__missing__')
                    if ms is not MISSING:
                        return self.call(ms, [o, i])
                    return self.dict_missing(o.prim, i)
                return r
            o = o.prim
        if isinstance(o, VLazyStr):
            o = self.force(o)
        if isinstance(o, VDict):
            r = self.dict_get(o, i)
            if r is MISSING:
                return self.dict_missing(o, i)
            return r
        if isinstance(o, VAttrsView):
            if i in o.obj.attrs:
                return o.obj.attrs[i]
            raise self.throw('KeyError', i)
        if isinstance(o, (VList, tuple)):
            items = o.items if isinstance(o, VList) else o
            if isinstance(i, slice):
                s = self.conc_slice(i)
                r = items[s]
                return VList(r) if isinstance(o, VList) else r
            i = self.as_index(i)
            if isinstance(i, bool):
                i = int(i)
            if isinstance(i, Num):
                for k in range(len(items)):
                    if self.ctx.branch('==', sub(i, k)):
                        return items[k]
                for k in range(1, len(items) + 1):
                    if self.ctx.branch('==', add(i, k)):
                        return items[-k]
                raise self.throw('IndexError', 'list index out of range')
            if not isinstance(i, int):
                raise self.throw('TypeError', 'list indices must be integers or slices')
            if not -len(items) <= i < len(items):
                raise self.throw('IndexError', 'list index out of range')
            return items[i]
        if isinstance(o, (str, bytes, SSeq)):
            return self.str_getitem(o, i)
        if isinstance(o, VBA):
            r = self.str_getitem(o.seq, i)
            return VBA(r) if isinstance(i, slice) else r
        if isinstance(o, VClass):
            if o.members is not None:
                k = self.prim(i)
                if isinstance(k, str):
                    if k in o.members:
                        return o.members[k]
                    raise self.throw('KeyError', k)
                if isinstance(k, SSeq):
                    for name, m in o.members.items():
                        pass
                    raise self.unsupported('enum lookup by unknown name')
                raise self.throw('KeyError', k)
            cg = o.lookup('__class_getitem__')
            if cg is not MISSING:
                return self.call(cg.func if isinstance(cg, VClassM) else cg, [o, i])
            return VOpaque(f'{o.name}[...]')
        if isinstance(o, VRange):
            if isinstance(i, slice):
                if any(isinstance(x, Num) for x in (o.start, o.stop, o.step)):
                    raise self.unsupported('slice of range')
                r = range(o.start, o.stop, o.step)[self.conc_slice(i)]
                return VRange(r.start, r.stop, r.step)
            i = self.as_index(i)
            n = self.length(o)
            if not isinstance(n, Num) and not isinstance(i, Num):
                if not -n <= i < n:
                    raise self.throw('IndexError', 'range object index out of range')
                if i < 0:
                    i += n
            return simp(add(o.start, mul(i, o.step)))
        if isinstance(o, VExt) and hasattr(o, 'vgetitem'):
            return o.vgetitem(self, i)
        if isinstance(o, VOpaque):
            return VOpaque(f'{o.name}[...]')
        raise self.throw('TypeError', f"'{self.type_of(o).name}' object is not subscriptable")

    def dict_missing(self, d, k):
        if d.factory is not None:
            v = self.call(d.factory, [])
            if isinstance(d.factory, VNative) and d.factory.name == 'Counter':
                return v
            self.dict_set(d, k, v)
            return v
        raise self.throw('KeyError', k)

    def conc_slice(self, s):
        def c(x):
            x = self.as_index(x)
            if isinstance(x, Num):
                raise self.unsupported('list slice with unknown bounds')
            return x
        return slice(c(s.start), c(s.stop), c(s.step))

    def norm_bounds(self, s, n):
        """slice -> (lo, hi) with 0 <= lo <= hi <= n (branching where undecided)"""
        if s.step is not None and s.step != 1:
            raise self.unsupported('slice step')

        def one(x, default):
            if x is None:
                return default
            x = self.as_index(x)
            if isinstance(x, bool):
                x = int(x)
            if not isinstance(x, (int, Num)) or isinstance(x, Num) and x.isfloat:
                raise self.throw('TypeError', 'slice indices must be integers or None')
            if self.ctx_compare('<', x, 0):
                x = simp(add(x, n))
                if self.ctx_compare('<', x, 0):
                    return 0
                return x
            if self.ctx_compare('>', x, n):
                return n
            return x
        lo, hi = one(s.start, 0), one(s.stop, n)
        if self.ctx_compare('>', lo, hi):
            hi = lo
        return lo, hi

    def str_getitem(self, o, i):
        if not isinstance(o, SSeq):
            if isinstance(i, slice):
                parts = [self.as_index(x) for x in (i.start, i.stop, i.step)]
                if not any(isinstance(x, Num) for x in parts):
                    return o[slice(*parts)]
            else:
                i = self.as_index(i)
                if isinstance(i, bool):
                    i = int(i)
                if isinstance(i, int):
                    if not -len(o) <= i < len(o):
                        raise self.throw('IndexError', 'index out of range')
                    return o[i]
        else:
            o = self.ctx.norm(o)
            if not isinstance(o, SSeq):
                return self.str_getitem(o, i)
        n = self.length(o)
        if isinstance(i, slice):
            if i.step == -1 and i.start is None and i.stop is None and not isinstance(n, Num):
                raise self.unsupported('reversed text')
            lo, hi = self.norm_bounds(i, n)
            return self.ctx.slice(o, lo, hi)
        i = self.as_index(i)
        if not isinstance(i, (int, Num)):
            raise self.throw('TypeError', 'indices must be integers')
        if self.ctx_compare('<', i, 0):
            i = simp(add(i, n))
            if self.ctx_compare('<', i, 0):
                raise self.throw('IndexError', 'index out of range')
        if self.ctx_compare('>=', i, n):
            raise self.throw('IndexError', 'index out of range')
        return self.char_at(o, i)

    def char_at(self, o, i):
        i = self.ctx.facts.resolve(N(i))
        rest = i
        for p in parts_of(o):
            from .terms import plen
            ln = plen(p)
            if self.ctx_compare('>=', simp(rest), simp(ln)):
                rest = sub(rest, ln)
                continue
            rest = simp(self.ctx.facts.resolve(N(rest)))
            if isinstance(p, (bytes, str)):
                if isinstance(rest, int):
                    return p[rest]
                if len(set(p)) == 1:
                    return p[0]
                break
            if isinstance(p, PRep):
                return p.lit[0] if isinstance(p.lit, bytes) else p.lit
            if isinstance(p, PRepNum):
                return simp(p.val)
            if isinstance(p, PNum) and isinstance(rest, int):
                if p.fmt == 'B':
                    return simp(p.val)
                if p.fmt in 'HI' and p.order == '>':
                    from .terms import WIDTH
                    w = WIDTH[p.fmt]
                    sh = 1 << (8 * (w - 1 - rest))
                    return self.ctx.mod(self.ctx.floordiv(p.val, sh), 256)
            if isinstance(p, PSlice):
                pos = add(p.lo, rest)
                if kind_of(o) == 's':
                    return mk('s', [PSlice(p.var, pos, add(pos, 1))])
                v = p.var
                return self.ctx.fresh_byte(v, pos) if hasattr(self.ctx, 'fresh_byte') else self.ctx.func(
                    f'byte_of_{v.uid}', None, pos, lo=0, hi=255)
            break
        raise self.unsupported('character of unknown text')

    def setitem(self, o, i, v):
        if isinstance(o, VObj):
            f, owner = o.cls.lookup_cls('__setitem__')
            if f is not MISSING and not owner.builtin:
                self.call(f, [o, i, v])
                return
            if o.prim is None:
                raise self.throw('TypeError', f"'{o.cls.name}' object does not support item assignment")
            o = o.prim
        if isinstance(o, VDict):
            self.dict_set(o, i, v)
        elif isinstance(o, VAttrsView):
            o.obj.touch()
            o.obj.attrs[i] = v
        elif isinstance(o, VList):
            o.touch()
            if isinstance(i, slice):
                o.items[self.conc_slice(i)] = list(self.iterate(v))
                return
            i = self.as_index(i)
            if isinstance(i, Num):
                for k in range(len(o.items)):
                    if self.ctx.branch('==', sub(i, k)):
                        o.items[k] = v
                        return
                raise self.throw('IndexError', 'list assignment index out of range')
            if not -len(o.items) <= i < len(o.items):
                raise self.throw('IndexError', 'list assignment index out of range')
            o.items[i] = v
        elif isinstance(o, VBA):
            self.ba_set(o, i, v)
        elif isinstance(o, VExt) and hasattr(o, 'vsetitem'):
            o.vsetitem(self, i, v)
        elif isinstance(o, VOpaque):
            raise self.unsupported(f'item assignment on {o}')
        else:
            raise self.throw('TypeError', f"'{self.type_of(o).name}' object does not support item assignment")

    def ba_set(self, o, i, v):
        o.touch()
        n = self.length(o.seq)
        if isinstance(i, slice):
            lo, hi = self.norm_bounds(i, n)
            a, rest = self.ctx.split(o.seq, lo) if self.ctx else (o.seq[:lo], o.seq[lo:])
            _, b = self.ctx.split(rest, sub(hi, lo)) if self.ctx else (None, o.seq[hi:])
            o.seq = concat(concat(a, self.as_bytes(v)), b)
            return
        i = self.as_index(i)
        if self.ctx_compare('<', i, 0):
            i = simp(add(i, n))
        if self.ctx_compare('>=', i, n):
            raise self.throw('IndexError', 'bytearray index out of range')
        a, rest = self.ctx.split(o.seq, N(i))
        _, b = self.ctx.split(rest, N(1))
        o.seq = concat(concat(a, self.pack_byte(v)), b)

    def pack_byte(self, v):
        v = self.prim(v)
        if not isinstance(v, (int, Num)):
            raise self.throw('TypeError', 'an integer is required')
        if not (self.ctx_compare('>=', v, 0) and self.ctx_compare('<=', v, 255)):
            raise self.throw('ValueError', 'byte must be in range(0, 256)')
        return mk('b', [PNum('B', v)])

    def as_bytes(self, v):
        v = self.prim(v)
        if isinstance(v, VBA):
            return v.seq
        if isinstance(v, bytes) or isinstance(v, SSeq) and v.kind == 'b':
            return v
        if isinstance(v, VExt) and hasattr(v, 'vbytes'):
            return v.vbytes(self)
        if isinstance(v, (VList, tuple, VRange, VIter)):
            out = b''
            for x in self.iterate(v):
                out = concat(out, self.pack_byte(x))
            return out
        raise self.throw('TypeError', 'a bytes-like object is required')

    def delitem(self, o, i):
        if isinstance(o, VObj):
            f, owner = o.cls.lookup_cls('__delitem__')
            if f is not MISSING and not owner.builtin:
                self.call(f, [o, i])
                return
            o = o.prim
        if isinstance(o, VDict):
            if self.dict_del(o, i) is MISSING:
                raise self.throw('KeyError', i)
        elif isinstance(o, VAttrsView):
            if i not in o.obj.attrs:
                raise self.throw('KeyError', i)
            o.obj.touch()
            del o.obj.attrs[i]
        elif isinstance(o, VList):
            o.touch()
            if isinstance(i, slice):
                del o.items[self.conc_slice(i)]
                return
            i = self.as_index(i)
            if not -len(o.items) <= i < len(o.items):
                raise self.throw('IndexError', 'list assignment index out of range')
            del o.items[i]
        elif isinstance(o, VBA):
            n = self.length(o.seq)
            if not isinstance(i, slice):
                i = self.as_index(i)
                self.getitem(o, i)
                if isinstance(i, int) and i < 0:
                    i = self.binop(ast.Add(), n, i)
                i = slice(i, self.binop(ast.Add(), i, 1))
            lo, hi = self.norm_bounds(i, n)
            o.touch()
            a, rest = self.ctx.split(o.seq, N(lo))
            _, b = self.ctx.split(rest, sub(hi, lo))
            o.seq = concat(a, b)
        else:
            raise self.unsupported(f'del item of {o!r}')

    # ------------------------------------------------------------ operators
    BIN = {ast.Add: ('+', '__add__', '__radd__'), ast.Sub: ('-', '__sub__', '__rsub__'),
           ast.Mult: ('*', '__mul__', '__rmul__'), ast.Div: ('/', '__truediv__', '__rtruediv__'),
           ast.FloorDiv: ('//', '__floordiv__', '__rfloordiv__'), ast.Mod: ('%', '__mod__', '__rmod__'),
           ast.Pow: ('**', '__pow__', '__rpow__'), ast.LShift: ('<<', '__lshift__', '__rlshift__'),
           ast.RShift: ('>>', '__rshift__', '__rrshift__'), ast.BitOr: ('|', '__or__', '__ror__'),
           ast.BitAnd: ('&', '__and__', '__rand__'), ast.BitXor: ('^', '__xor__', '__rxor__'),
           ast.MatMult: ('@', '__matmul__', '__rmatmul__')}

    def binop(self, op, a, b):
        sym, dn, rn = self.BIN[type(op)]
        for x, nm, y in ((a, dn, b), (b, rn, a)):
            if isinstance(x, VObj):
                f, owner = x.cls.lookup_cls(nm)
                if f is not MISSING and not owner.builtin:
                    r = self.call(f, [x, y])
                    if r is not NotImplemented:
                        return r
        a, b = self.prim(a), self.prim(b)
        if isinstance(a, VExt) and hasattr(a, 'vbinop'):
            return a.vbinop(self, sym, b, False)
        if isinstance(b, VExt) and hasattr(b, 'vbinop'):
            return b.vbinop(self, sym, a, True)
        if isinstance(a, VOpaque) or isinstance(b, VOpaque):
            if sym == '|':
                return VOpaque('union')
            raise self.unsupported(f'operator on {a} and {b}')
        na, nb = isinstance(a, (int, float, Num)), isinstance(b, (int, float, Num))
        if na and nb:
            return self.arith(sym, a, b)
        ka, kb = kind_of(a), kind_of(b)
        ba, bb = isinstance(a, VBA), isinstance(b, VBA)
        if sym == '+':
            if (ka or ba) and (kb or bb):
                if (ka or 'b') != (kb or 'b'):
                    raise self.throw('TypeError', f'can\'t concat {self.type_of(b).name} to {self.type_of(a).name}')
                r = concat(a.seq if ba else a, b.seq if bb else b)
                return VBA(r) if ba else r
            if isinstance(a, VList) and isinstance(b, VList):
                return VList(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        elif sym == '*':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, (int, Num)) and not (isinstance(y, Num) and y.isfloat):
                    if kind_of(x) or isinstance(x, VBA):
                        r = self.repeat(x.seq if isinstance(x, VBA) else x, y)
                        return VBA(r) if isinstance(x, VBA) else r
                    if isinstance(x, (VList, tuple)):
                        if isinstance(y, Num):
                            y = self.concretise(y)
                        return VList(x.items * y) if isinstance(x, VList) else x * y
        elif sym == '%' and ka == 's':
            return self.percent(a, b)
        elif sym == '%' and ka == 'b':
            return self.percent(a, b)
        elif sym == '|':
            if isinstance(a, (VDict, VAttrsView)) and isinstance(b, (VDict, VAttrsView)):
                r = VDict()
                self.dict_update(r, a)
                self.dict_update(r, b)
                return r
            if isinstance(a, VClass) or isinstance(b, VClass):
                la = list(a.args) if isinstance(a, VUnionType) else [a]
                lb = list(b.args) if isinstance(b, VUnionType) else [b]
                return VUnionType(la + lb)
        if isinstance(a, VSet) and isinstance(b, VSet):
            r = VSet(a.frozen)
            if sym == '-' and a.texts and (known := self.known_chars(b)) is not None:
                r._d = {k: v for k, v in a._d.items() if k[0] == 's' and k[1] not in known}
                r.texts, r.it = tuple((t, w | known) for t, w in a.texts), self
                if all(k[0] == 's' for k in a._d):
                    return r
                r = VSet(a.frozen)
            if sym == '|':
                for x, _ in list(a.d.values()) + list(b.d.values()):
                    self.set_add(r, x)
                return r
            if sym in '&-':
                for x, _ in a.d.values():
                    if (self.find(b, x) is not None) == (sym == '&'):
                        self.set_add(r, x)
                return r
            if sym == '^':
                for x, _ in a.d.values():
                    if self.find(b, x) is None:
                        self.set_add(r, x)
                for x, _ in b.d.values():
                    if self.find(a, x) is None:
                        self.set_add(r, x)
                return r
        raise self.throw('TypeError', f'unsupported operand type(s) for {sym}: {self.type_of(a).name!r} and '
                                      f'{self.type_of(b).name!r}')

    def arith(self, sym, a, b):
        if not isinstance(a, Num) and not isinstance(b, Num):
            try:
                if sym == '+':
                    return a + b
                if sym == '-':
                    return a - b
                if sym == '*':
                    return a * b
                if sym == '/':
                    return a / b
                if sym == '//':
                    return a // b
                if sym == '%':
                    return a % b
                if sym == '**':
                    if isinstance(b, int) and abs(b) > 10000:
                        raise self.unsupported('huge power')
                    return a ** b
                if sym == '<<':
                    return a << b
                if sym == '>>':
                    return a >> b
                if sym == '|':
                    return a | b
                if sym == '&':
                    return a & b
                if sym == '^':
                    return a ^ b
            except (ZeroDivisionError, OverflowError, TypeError, ValueError) as e:
                raise self.throw(type(e).__name__, str(e))
            raise self.throw('TypeError', f'unsupported operand for {sym}')
        for x in (a, b):
            if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
                raise self.unsupported('arithmetic with a non-finite number')
        c = self.ctx
        if sym == '+':
            return simp(add(a, b))
        if sym == '-':
            return simp(sub(a, b))
        if sym == '*':
            return simp(mul(a, b))
        try:
            if sym == '/':
                return simp(c.truediv(a, b))
            fl = any(isinstance(x, float) or isinstance(x, Num) and x.isfloat for x in (a, b))
            if sym == '//' and fl:
                return self.as_float(c.floor(c.truediv(a, b)))
            if sym == '%' and fl:
                q = c.floor(c.truediv(a, b))
                return simp(sub(a, mul(q, b)))
            if sym == '//':
                return simp(c.floordiv(a, b))
            if sym == '%':
                return simp(c.mod(a, b))
        except ZeroDivisionError:
            raise self.throw('ZeroDivisionError', 'division by zero')
        if sym == '**':
            if isinstance(b, int) and 0 <= b <= 3:
                r = N(1)
                for _ in range(b):
                    r = mul(r, a)
                return simp(r)
            if a == 2 and isinstance(b, Num):
                b = self.concretise(b)
                return 2 ** b
            raise self.unsupported('power')
        if sym == '<<':
            if isinstance(b, int):
                return simp(scale(a, 1 << b))
            return self.arith('<<', a, self.concretise(b))
        if sym == '>>':
            if isinstance(b, int):
                return simp(c.floordiv(a, 1 << b))
            return self.arith('>>', a, self.concretise(b))
        if sym in '|&^':
            return c.bitop(sym, a, b)
        raise self.unsupported(f'operator {sym}')

    def as_float(self, n):
        if isinstance(n, Num):
            return Num(n.t, n.c, True)
        return float(n)

    def concretise(self, n, limit=66):
        """enumerate the values of a number with a small range"""
        n = simp(self.ctx.facts.resolve(N(n)))
        if not isinstance(n, Num):
            return n
        lo, hi = self.ctx.bounds(n)
        if lo is None or hi is None or hi - lo > limit:
            raise self.unsupported(f'value of {n} needed')
        lo, hi = int(lo), int(hi)
        for v in range(lo, hi):
            if self.ctx.branch('==', sub(n, v)):
                return v
        self.ctx.assume('==', sub(n, hi))
        return hi

    def repeat(self, s, n):
        if not isinstance(n, Num):
            if isinstance(s, SSeq):
                return mk(s.kind, list(s.parts) * max(0, n))
            if len(s) * n > 2_000_000:
                if len(s) == 1:
                    return SSeq(kind_of(s), [PRep(s, N(n))])
                raise self.unsupported('huge repetition')
            return s * n
        if not self.ctx.compare('>', n, 0):
            return b'' if kind_of(s) == 'b' else ''
        if not isinstance(s, SSeq):
            if len(s) == 0:
                return s
            if len(set(s)) == 1:
                return mk(kind_of(s), [PRep(s[:1], scale(n, len(s)))])
        else:
            s = self.ctx.norm(s)
            if isinstance(s, SSeq) and len(s.parts) == 1 and isinstance(s.parts[0], PNum) and s.parts[0].fmt == 'B':
                return mk('b', [PRepNum(s.parts[0].val, n)])
        k = self.concretise(n)
        return self.repeat(s, k)

    def percent(self, a, b):
        b = self.prim(b) if isinstance(b, VObj) and isinstance(b.prim, tuple) else b
        args = b if isinstance(b, tuple) else (b,)
        if all(self.concrete(x) for x in args) and isinstance(a, (str, bytes)):
            try:
                return a % (args if isinstance(b, tuple) else b)
            except (TypeError, ValueError) as e:
                raise self.throw(type(e).__name__, str(e))
        if not isinstance(a, (str, bytes)):
            raise self.unsupported('text formatting with an unknown format')
        import re
        isb = isinstance(a, bytes)
        out = b'' if isb else []
        pos = i = 0
        for m in re.finditer(r'%(?:\((\w+)\))?([-0 +#]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])', a.decode('latin-1') if isb else a):
            name, flags, width, prec, code = m.groups()
            lit = a[pos:m.start()]
            pos = m.end()
            if code == '%':
                lit = lit + (b'%' if isb else '%')
            if isb:
                out = concat(out, lit)
            else:
                out.append(lit)
            if code == '%':
                continue
            if name is not None:
                v = self.getitem(b, name)
            elif i >= len(args):
                raise self.throw('TypeError', 'not enough arguments for format string')
            else:
                v = args[i]
                i += 1
            if width == '*' or '+' in flags or ' ' in flags or '#' in flags:
                raise self.unsupported('text formatting')
            if isb and code in 'bs':
                if flags or width or prec:
                    raise self.unsupported('bytes formatting')
                out = concat(out, self.as_bytes(v))
                continue
            if isb and code == 'c' and not (flags or width or prec):
                v = self.prim(v)
                out = concat(out, bytes([v]) if isinstance(v, int) and 0 <= v < 256 else self.call(
                    self.builtins['bytes'], [VList([v])]) if isinstance(v, (int, Num)) else self.as_bytes(v))
                continue
            if isb or code == 'c':
                raise self.unsupported('bytes formatting')
            spec = ''
            if width:
                spec = '<' + width if '-' in flags else ('0' if '0' in flags and code not in 'sra' else '>') + width
            if prec:
                spec += '.' + prec
            if code in 'di':
                pv = self.prim(v)
                if not isinstance(pv, (int, float, Num)):
                    raise self.throw('TypeError', f'%d format: a real number is required, not {self.type_of(v).name}')
                v = self.call(self.builtins['int'], [v]) if not isinstance(pv, int) else int(pv)
                out.append((v, '', spec + ('d' if spec else '')))
            elif code in 'sr':
                if spec and code == 's':
                    v = self.force(self.call(self.builtins['str'], [v]))
                out.append((v, 'r' if code == 'r' else '', spec))
            else:
                out.append((v, '', spec + code))
        lit = a[pos:]
        if i < len(args) and not isinstance(b, VDict):
            raise self.throw('TypeError', 'not all arguments converted during string formatting')
        if isb:
            return concat(out, lit)
        out.append(lit)
        return self.lazy([x for x in out if x != ''])

    CMP = {ast.Lt: ('<', '__lt__', '__gt__'), ast.LtE: ('<=', '__le__', '__ge__'),
           ast.Gt: ('>', '__gt__', '__lt__'), ast.GtE: ('>=', '__ge__', '__le__'),
           ast.Eq: ('==', '__eq__', '__eq__'), ast.NotEq: ('!=', '__ne__', '__ne__')}

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return not self.is_(a, b)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return not self.contains(b, a)
        return self.compare_sym(t, a, b)

    def compare_sym(self, t, a, b):
        sym, dn, rn = self.CMP[t]
        pa, pb = self.prim(a), self.prim(b)
        if isinstance(pa, VExt) and hasattr(pa, 'vcompare'):
            return pa.vcompare(self, sym, pb, False)
        if isinstance(pb, VExt) and hasattr(pb, 'vcompare'):
            return pb.vcompare(self, sym, pa, True)
        if sym == '==':
            return self.eq(a, b)
        if sym == '!=':
            if isinstance(a, VObj):
                f, owner = a.cls.lookup_cls('__ne__')
                if f is not MISSING and not owner.builtin:
                    return self.call(f, [a, b])
            return not self.eq(a, b)
        for x, nm, y in ((a, dn, b), (b, rn, a)):
            if isinstance(x, VObj):
                f, owner = x.cls.lookup_cls(nm)
                if f is not MISSING and not owner.builtin:
                    return self.call(f, [x, y])
        if isinstance(pa, (int, float, Num)) and isinstance(pb, (int, float, Num)):
            return self.ctx_compare(sym, pa, pb)
        if isinstance(pa, (str, bytes)) and type(pa) is type(pb):
            return {'<': pa < pb, '<=': pa <= pb, '>': pa > pb, '>=': pa >= pb}[sym]
        if kind_of(pa) and kind_of(pa) == kind_of(pb):
            key = ('ord', sym, repr(pa), repr(pb))
            return self.ctx.pred(key, lambda m: {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y,
                                                 '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}[sym](
                m.seq(pa), m.seq(pb)), f'{pa!r} {sym} {pb!r}')
        for T in (VList, tuple):
            if isinstance(pa, T) and isinstance(pb, T):
                xa = pa.items if T is VList else pa
                xb = pb.items if T is VList else pb
                for x, y in zip(xa, xb):
                    if not self.eq(x, y):
                        return self.compare_sym(t, x, y)
                return {'<': len(xa) < len(xb), '<=': len(xa) <= len(xb), '>': len(xa) > len(xb),
                        '>=': len(xa) >= len(xb)}[sym]
        if isinstance(pa, VSet) and isinstance(pb, VSet):
            if sym in ('>=', '>') and pb.texts:
                pa, pb, sym = pb, pa, {'>=': '<=', '>': '<'}[sym]
            if sym == '<=' and pa.texts and (known := self.known_chars(pb)) is not None:
                return all(self.find(pb, x) is not None for x, _ in pa._d.values()) and all(
                    self.chars_in(t, known | w) for t, w in pa.texts)
            if sym in ('<=', '<'):
                r = all(self.find(pb, x) is not None for x, _ in pa.d.values())
                return r and (sym == '<=' or len(pa.d) < len(pb.d))
            r = all(self.find(pa, x) is not None for x, _ in pb.d.values())
            return r and (sym == '>=' or len(pb.d) < len(pa.d))
        if isinstance(pa, VOpaque) or isinstance(pb, VOpaque):
            raise self.unsupported('comparison of opaque values')
        raise self.throw('TypeError', f"'{sym}' not supported between instances of '{self.type_of(a).name}' and "
                                      f"'{self.type_of(b).name}'")

    def eq(self, a, b):
        """== as a bool"""
        if a is b:
            if isinstance(a, float) and a != a:
                return False
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VObj):
                f, owner = x.cls.lookup_cls('__eq__')
                if f is not MISSING and not owner.builtin:
                    r = self.call(f, [x, y])
                    if r is not NotImplemented:
                        return self.truth(r)
        pa, pb = self.prim(a), self.prim(b)
        if isinstance(pa, VExt) and hasattr(pa, 'vcompare'):
            return self.truth(pa.vcompare(self, '==', pb, False))
        if isinstance(pb, VExt) and hasattr(pb, 'vcompare'):
            return self.truth(pb.vcompare(self, '==', pa, True))
        if isinstance(pa, (int, float, Num)) and isinstance(pb, (int, float, Num)):
            return self.ctx_compare('==', pa, pb)
        if isinstance(pa, VBA):
            pa = pa.seq
        if isinstance(pb, VBA):
            pb = pb.seq
        ka, kb = kind_of(pa), kind_of(pb)
        if ka and kb:
            if ka != kb:
                return False
            if not isinstance(pa, SSeq) and not isinstance(pb, SSeq):
                return pa == pb
            return self.ctx.equal(pa, pb)
        if isinstance(pa, VList) and isinstance(pb, VList):
            return len(pa.items) == len(pb.items) and all(self.eq(x, y) for x, y in zip(pa.items, pb.items))
        if isinstance(pa, tuple) and isinstance(pb, tuple):
            return len(pa) == len(pb) and all(self.eq(x, y) for x, y in zip(pa, pb))
        if isinstance(pa, VDict) and isinstance(pb, VDict):
            if len(pa.d) != len(pb.d):
                return False
            for k, v in pa.d.values():
                w = self.dict_get(pb, k)
                if w is MISSING or not self.eq(v, w):
                    return False
            return True
        if isinstance(pa, VSet) and isinstance(pb, VSet):
            return len(pa.d) == len(pb.d) and all(self.find(pb, x) is not None for x, _ in pa.d.values())
        if isinstance(pa, VRange) and isinstance(pb, VRange):
            return pa.start == pb.start and pa.stop == pb.stop and pa.step == pb.step
        if isinstance(pa, VBound) and isinstance(pb, VBound):
            return pa.func is pb.func and pa.self is pb.self
        if isinstance(pa, VOpaque) and isinstance(pb, VOpaque):
            return pa.name == pb.name
        if isinstance(pa, VOpaque) or isinstance(pb, VOpaque):
            return False
        return False

    def contains(self, c, v):
        if isinstance(c, VObj):
            f, owner = c.cls.lookup_cls('__contains__')
            if f is not MISSING and not owner.builtin:
                return self.truth(self.call(f, [c, v]))
            if c.prim is not None:
                c = c.prim
        if isinstance(c, VLazyStr):
            c = self.force(c)
        if isinstance(c, VSet) and len(c._d) > 3 and not c.texts and isinstance(v, SSeq) and v.kind == 's':
            v = self.ctx.norm(v)
            known = self.known_chars(c) if isinstance(v, SSeq) else None
            if known is not None and max(map(len, known)) == 1 and simp(self.ctx.facts.resolve(v.length)) == 1:
                return self.chars_in(v, known)
        if isinstance(c, (VDict, VSet)):
            return self.find(c, v) is not None
        if isinstance(c, VAttrsView):
            return v in c.obj.attrs
        if isinstance(c, (VList, tuple)):
            for x in (c.items if isinstance(c, VList) else c):
                if x is v or self.eq(x, v):
                    return True
            return False
        if kind_of(c) == 's' or kind_of(c) == 'b' or isinstance(c, VBA):
            if isinstance(c, VBA):
                c = c.seq
            v = self.prim(v)
            if isinstance(v, VBA):
                v = v.seq
            if kind_of(c) == 'b' and isinstance(v, int):
                v = bytes([v])
            if kind_of(v) != kind_of(c):
                raise self.throw('TypeError', "'in <string>' requires string as left operand")
            if not isinstance(c, SSeq) and not isinstance(v, SSeq):
                return v in c
            c = self.ctx.norm(c)
            v = self.ctx.norm(v)
            if not isinstance(c, SSeq) and not isinstance(v, SSeq):
                return v in c
            if isinstance(c, SSeq) and not isinstance(v, SSeq):
                if any(isinstance(p, (str, bytes)) and v in p for p in c.parts):
                    return True
            key = ('in', repr(v), c.key() if isinstance(c, SSeq) else c)
            return self.ctx.pred(key, lambda m: m.seq(v) in m.seq(c), f'{v!r} in {c!r}')
        if isinstance(c, VRange):
            v = self.prim(v)
            if not any(isinstance(x, Num) for x in (c.start, c.stop, c.step, v)):
                return v in range(c.start, c.stop, c.step)
            if not isinstance(v, (int, Num)):
                return False
            if c.step == 1:
                return self.ctx_compare('>=', v, c.start) and self.ctx_compare('<', v, c.stop)
            if isinstance(c.step, int) and c.step > 0:
                return (self.ctx_compare('>=', v, c.start) and self.ctx_compare('<', v, c.stop)
                        and self.ctx_compare('==', self.ctx.mod(sub(v, c.start), c.step), 0))
            raise self.unsupported('in range')
        if isinstance(c, VClass) and c.members is not None:
            if isinstance(v, VObj) and v.cls is c:
                return True
            try:
                self.enum_lookup(c, [v])
                return True
            except PyRaise:
                return False
        if isinstance(c, VExt) and hasattr(c, 'vcontains'):
            return c.vcontains(self, v)
        for x in self.iterate(c):
            if x is v or self.eq(x, v):
                return True
        return False

    # ------------------------------------------------------------ text
    def str_(self, v):
        """str(v)"""
        if isinstance(v, (str, VLazyStr)) or isinstance(v, SSeq) and v.kind == 's':
            return v
        if isinstance(v, VObj):
            f, owner = v.cls.lookup_cls('__str__')
            if f is not MISSING and not owner.builtin:
                return self.call(f, [v])
            if v.cls.members is not None:
                if any(b.name in ('IntEnum', 'StrEnum', 'IntFlag') for b in v.cls.mro):
                    return self.str_(v.prim)
                return f'{v.cls.name}.{v.attrs["_name_"]}'
            if v.prim is not None and not isinstance(v.prim, (VDict, VList)):
                return self.str_(v.prim)
            if v.cls.issub(self.builtins['BaseException']):
                a = v.attrs.get('args', ())
                if len(a) == 1:
                    return self.str_(a[0])
                return '' if not a else VLazyStr([(a, '', '')])
            f, owner = v.cls.lookup_cls('__repr__')
            if f is not MISSING and not owner.builtin:
                return self.call(f, [v])
            return f'<{v.cls.name} object>'
        if v is None or isinstance(v, (bool, int, float, bytes)):
            return str(v)
        if isinstance(v, Num):
            if v.isfloat:
                return VLazyStr([(v, '', '')])
            return VLazyStr([(v, '', '')])
        if isinstance(v, VClass):
            return f"<class '{v.name}'>"
        if isinstance(v, VExt) and hasattr(v, 'vstr'):
            return v.vstr(self)
        return VLazyStr([(v, '', '')])

    def repr_(self, v, forced=False):
        if self.concrete(v):
            return repr(v)
        if isinstance(v, VObj):
            f, owner = v.cls.lookup_cls('__repr__')
            if f is not MISSING and not owner.builtin:
                return self.call(f, [v])
        if isinstance(v, SSeq) and v.kind == 's':
            return VLazyStr(["'", (v, '', ''), "'"])
        if isinstance(v, Num) and not v.isfloat:
            return self.str_(v)
        if isinstance(v, VObj) and 'BaseException' in [b.name for b in v.cls.mro]:
            xs = [self.repr_(x) for x in v.attrs.get('args', ())]
            if all(isinstance(x, str) for x in xs):
                return f'{v.cls.name}({", ".join(xs)})'
            return VLazyStr([(v, 'r', '')])
        if isinstance(v, VObj) and v.cls.members is None:
            return self.str_(v)
        if not forced:
            return VLazyStr([(v, 'r', '')])
        if isinstance(v, (VList, tuple)) and not isinstance(v, VDeque) or isinstance(v, VDict) and v.factory is None:
            if isinstance(v, VDict):
                xs = [[self.repr_(k, True), ': ', self.repr_(x, True)] for k, x in self.dict_items(v)]
            else:
                xs = [[self.repr_(x, True)] for x in (v.items if isinstance(v, VList) else v)]
            a, b = '[]' if isinstance(v, VList) else '()' if isinstance(v, tuple) else '{}'
            parts = [a]
            for i, x in enumerate(xs):
                parts += ([', '] if i else []) + x
            if isinstance(v, tuple) and len(v) == 1:
                parts.append(',')
            return VLazyStr(parts + [b])
        raise self.unsupported(f'text of {v!r}')

    def format_(self, v, spec=''):
        """format(v, spec) as a (possibly symbolic) string"""
        if isinstance(v, VLazyStr):
            v = self.force(v)
        if isinstance(v, VObj):
            f, owner = v.cls.lookup_cls('__format__')
            if f is not MISSING and not owner.builtin:
                return self.force(self.call(f, [v, spec]))
            if v.cls.members is not None or v.prim is None:
                if spec and v.prim is not None and not any(b.name == 'str' for b in v.cls.mro):
                    v = v.prim
                else:
                    v = self.force(self.str_(v))
            else:
                v = v.prim
        if isinstance(v, VExt) and hasattr(v, 'vprim'):
            v = v.vprim(self)
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            try:
                return format(v, spec)
            except (ValueError, TypeError) as e:
                raise self.throw(type(e).__name__, str(e))
        if isinstance(v, Num):
            v = simp(self.ctx.facts.resolve(v))
            if not isinstance(v, Num):
                return self.format_(v, spec)
            if not spec or spec == 'd':
                if v.isfloat:
                    raise self.unsupported('text of an unknown float')
                return self.ctx.dec(v)
            import re
            m = re.fullmatch(r'([<>])?(0)?(\d+)d?', spec)
            if m and not v.isfloat:
                t = self.ctx.dec(v)
                return self.pad(t, int(m.group(3)), '0' if m.group(2) else ' ', left=m.group(1) == '<')
            k = self.concretise(v)
            return format(k, spec)
        if isinstance(v, SSeq) and v.kind == 's':
            if not spec or spec == 's':
                return v
            import re
            m = re.fullmatch(r'(?:(.)?([<>^]))?(\d+)s?', spec)
            if m and m.group(2) != '^':
                return self.pad(v, int(m.group(3)), m.group(1) or ' ', left=m.group(2) != '>')
            raise self.unsupported('text formatting')
        if spec:
            raise self.unsupported('text formatting')
        if isinstance(v, VClass):
            return self.str_(v)
        if isinstance(v, VExt) and hasattr(v, 'vstr'):
            return v.vstr(self)
        if isinstance(v, (VList, tuple)):
            # text of a list of literals
            xs = v.items if isinstance(v, VList) else v
            if all(x is None or isinstance(x, (bool, int, float, str, bytes)) for x in xs):
                return str(list(xs)) if isinstance(v, VList) else str(tuple(xs))
        raise self.unsupported(f'text of {v!r}')

    def pad(self, t, width, ch, left):
        """left: text on the left, padding on the right"""
        n = self.length(t)
        if self.ctx_compare('>=', n, width):
            return t
        p = mk(kind_of(t), [PRep(ch, sub(width, n))])
        return concat(t, p) if left else concat(p, t)

    # ------------------------------------------------------------ paths
    def begin_path(self, ctx):
        self.ctx = ctx
        ctx.where = self.where
        self.steps = 0
        self.stack = []
        self.handling = []
        self.closing = False
        self.warnings = []
        self.logs = []
        self.events = []
        Cell.current = 1
        Cell.undo = {}

    def end_path(self):
        for cell, snap in Cell.undo.values():
            cell.restore(snap)
        Cell.undo = None
        Cell.current = 0
        self.ctx = None

    def new_process(self):
        """everything the analysed program keeps per process is as it was right after loading its modules"""
        for cell, snap in Cell.undo.values():
            cell.restore(snap)
        Cell.undo = {}

    handling = []


class VTypingLike:
    pass


class VUnionType:
    def __init__(self, args):
        self.args = args


class VPartialMethod:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class VGenericIter:
    def __init__(self, it):
        self.it = it


AUTO = object()
