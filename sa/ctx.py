"""One partition of the abstract exploration: facts, branch outcomes, and the operations that refine them."""
import os
import random
import struct
import time
from fractions import Fraction

from .lin import Atom, Num, N, add, sub, mul, scale, Facts, Infeasible
from .terms import (SSeq, SVar, PNum, PSlice, PRep, PRepNum, PDec, PCell, PSub, POpaque, WIDTH, RANGE, mk, parts_of, plen,
                    pkey, simp, kind_of, concat)


class Unsupported(Exception):
    """construct outside the analysed subset: this partition is undecided"""


class ProbeAbort(BaseException):
    """the outcomes of a call cannot be compared without committing to one of them"""


class Cut(Unsupported):
    """partition beyond a stated bound"""


class Model:
    """A valuation of the unknowns (used to show that an alarm is real, never to prove)."""

    def __init__(self, nums, strs, bind, seed=0):
        self.nums, self.strs, self.bind, self.seed = nums, strs, bind, seed
        self.cells = {}
        self.memo = {}

    def atom(self, a):
        if a in self.nums:
            return self.nums[a]
        if a.defn is not None:
            v = a.defn(self)
            if isinstance(v, float):
                v = Fraction(v)
            self.nums[a] = v
            return v
        lo, hi = a.lo, a.hi
        v = lo if lo is not None else hi if hi is not None else 0
        self.nums[a] = v
        return v

    def num(self, e):
        if not isinstance(e, Num):
            return e
        t = Fraction(e.c)
        for m, k in e.t:
            p = Fraction(k)
            for a in m:
                p *= Fraction(self.atom(a))
            t += p
        return t.numerator if t.denominator == 1 else t

    def var(self, v):
        if v in self.strs:
            return self.strs[v]
        if v in self.bind:
            r = self.seq(self.bind[v])
        elif v.defn is not None:
            if v.defn[0] == 'enc':
                r = self.var(v.defn[1]).encode('ascii', 'replace')
            else:
                r = v.defn[1](self)
        else:
            n = int(self.num(v.length))
            if n > 4_000_000:
                raise OverflowError('string too long for a witness')
            r = self.fill(v, n)
        self.strs[v] = r
        return r

    def fill(self, v, n):
        rnd = random.Random(self.seed * 1000 + v.uid)
        if v.kind == 'b':
            pat = bytes(rnd.randrange(256) for _ in range(min(n, 251)))
            return (pat * (n // max(1, len(pat)) + 1))[:n]
        alpha = v.hint or ('ABCDEFGHIJKLMNOPQRSTUVWXYZ-_0123456789', 'abcdefghijklmnopqrstuvwxyz/. ',
                           'ABCXYZ019-_', 'a\u00e9\u4e16\u00fcb')[(self.seed + v.uid) % 4]
        pat = ''.join(rnd.choice(alpha) for _ in range(min(n, 251)))
        return (pat * (n // max(1, len(pat)) + 1))[:n]

    def cell(self, c):
        k = c.key()
        if k not in self.cells:
            self.cells[k] = c.evaluate(self)
        return self.cells[k]

    def seq(self, s):
        if isinstance(s, (bytes, str)):
            return s
        if isinstance(s, bytearray):
            return bytes(s)
        out = []
        for p in s.parts:
            out.append(self.part(p, s.kind))
        return (b'' if s.kind == 'b' else '').join(out)

    def part(self, p, kind):
        if isinstance(p, (bytes, str)):
            return p
        if isinstance(p, PNum):
            v = self.num(p.val)
            if p.fmt in 'fd':
                return struct.pack(p.order + p.fmt, float(v))
            return struct.pack(p.order + p.fmt, int(v))
        if isinstance(p, PSlice):
            lo, hi = self.num(p.lo), self.num(p.hi)
            return self.var(p.var)[int(lo):int(hi)]
        if isinstance(p, PRep):
            return p.lit * int(self.num(p.n))
        if isinstance(p, PRepNum):
            return bytes([int(self.num(p.val))]) * int(self.num(p.n))
        if isinstance(p, PDec):
            t = str(int(self.num(p.val)))
            return t.encode() if kind == 'b' else t
        if isinstance(p, PCell):
            b = self.cell(p.cell)
            return b if p.order == '>' else b[::-1]
        if isinstance(p, PSub):
            return self.part(p.of, kind)[p.lo:p.hi]
        raise Unsupported('opaque text in a witness')

    def describe(self, limit=12):
        d = []
        for a, v in list(self.nums.items()):
            if a.defn is None and not a.name.startswith('_'):
                d.append(f'{a.name}={v}')
        for v, s in list(self.strs.items()):
            if v.defn is None and v not in self.bind:
                d.append(f'{v.name}={s[:20]!r}{"..." if len(s) > 20 else ""} ({len(s)})')
        return ', '.join(d[:limit])


class Ctx:
    def __init__(self, prefix=(), where=None):
        self.facts = Facts()
        self.prefix = list(prefix)
        self.pos = 0
        self.log = []             # (choice, n, label)
        self.sbind = {}
        self.preds = []           # (fn(model)->bool, wanted, desc)
        self.memo = {}
        self.derived = {}
        self.where = where or (lambda: '?')
        self.havocked = False     # partition went through a widened loop: not exact any more
        self.t_end = None
        self.probe = None         # outcomes of conditions tried while comparing the results of a call

    # ---------------------------------------------------------------- choices
    def choose(self, n, label=''):
        if self.probe is not None:
            raise ProbeAbort()
        if self.t_end and time.time() > self.t_end:
            raise Cut('time budget of the exploration')
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
        self.pos += 1
        self.log.append((c, n, f'{self.where()}: {label}'))
        return c

    def assume(self, op, e):
        if self.probe is not None:
            raise ProbeAbort()
        self.facts.assume(op, e)

    def branch(self, op, e, label=None):
        """truth of `e op 0`"""
        e = N(e)
        r = self.facts.decide(op, e)
        if r is not None:
            return r
        lab = label or f'{e} {op} 0'
        if op == '==':
            c = self.choose(3, lab)
            if c == 0:
                self.assume('==', e)
                return True
            self.assume('>', e if c == 1 else scale(e, -1))
            return False
        c = self.choose(2, lab)
        if c == 0:
            self.assume(op, e)
            return True
        self.assume('>' if op == '>=' else '>=', scale(e, -1))
        return False

    def compare(self, op, a, b):
        if not isinstance(a, Num) and not isinstance(b, Num):
            return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                    '==': lambda: a == b, '!=': lambda: a != b}[op]()
        for x, y, flip in ((a, b, 1), (b, a, -1)):
            if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
                if x != x:
                    return op == '!='
                s = flip if x > 0 else -flip      # sign of a - b
                return {'<': s < 0, '<=': s < 0, '>': s > 0, '>=': s > 0, '==': False, '!=': True}[op]
        lab = f'{a} {op} {b}'
        d = sub(a, b)
        if op == '==':
            return self.branch('==', d, lab)
        if op == '!=':
            return not self.branch('==', d, lab)
        if op == '<':
            return self.branch('>', scale(d, -1), lab)
        if op == '<=':
            return self.branch('>=', scale(d, -1), lab)
        if op == '>':
            return self.branch('>', d, lab)
        return self.branch('>=', d, lab)

    def pred(self, key, fn, label):
        """An uninterpreted condition on unknown text: both outcomes are partitions."""
        if key in self.memo:
            return self.memo[key]
        if self.probe is not None:
            if key not in self.probe:
                if len(self.probe) > 3:
                    raise ProbeAbort()
                self.probe[key] = True
            return self.probe[key]
        c = self.choose(2, label)
        self.memo[key] = (c == 0)
        self.preds.append((fn, c == 0, label))
        return c == 0

    def set_pred(self, key, fn, value, label=''):
        if self.probe is not None:
            raise ProbeAbort()
        self.memo[key] = value
        self.preds.append((fn, value, label))

    # ---------------------------------------------------------------- integers
    def fresh(self, name, lo=None, hi=None, isint=True, defn=None):
        return Num.of(Atom(name, isint=isint, defn=defn, lo=lo, hi=hi))

    def _rn(self, a):
        return self.facts.resolve(N(a))

    def divmod(self, a, b):
        if not isinstance(a, Num) and not isinstance(b, Num):
            return divmod(a, b)
        a, b = N(a), N(b)
        if not (a.allint() and b.allint()) and not (b.const and b.c == 1):
            raise Unsupported('division of non-integers')
        if a.isfloat or b.isfloat:
            raise Unsupported('float floor division')
        if self.branch('==', b):
            raise ZeroDivisionError
        ka = self._rn(a)
        if b.const and all(k % b.c == 0 for _, k in ka.t) and b.c > 0:
            q = Num.make({m: k // b.c for m, k in ka.t}, ka.c // b.c)
            return simp(q), ka.c % b.c
        # split off the multiples, so that all quotients of one residue share their unknowns
        if b.const and isinstance(b.c, int) and b.c > 0 and ka.allint():
            whole = Num.make({m: k // b.c for m, k in ka.t}, ka.c // b.c)
            if not (whole.const and whole.c == 0):
                q, r = self.divmod(simp(sub(ka, scale(whole, b.c))), simp(b))
                return simp(add(whole, q)), r
        key = ('div', ka.key(), b.key())
        if key in self.derived:
            return self.derived[key]
        if not self.branch('>', b):
            raise Unsupported('division by a negative unknown')
        if not b.const and ka.const and 0 <= ka.c <= 400 and not ka.isfloat:
            if self.branch('>', sub(b, ka)):
                return 0, ka.c
            if self.branch('>', sub(scale(b, 2), ka)):
                return 1, simp(self._rn(sub(ka, b)))
            for k in range(1, int(ka.c) // 2 + 1):
                if self.branch('==', sub(b, k)):
                    return divmod(int(ka.c), k)
            raise Infeasible()
        fa, fb = ka, b
        q = Num.of(Atom(f'{_short(ka)}//{b}', defn=lambda m: Fraction(m.num(fa)) // Fraction(m.num(fb))))
        r = Num.of(Atom(f'{_short(ka)}%{b}', defn=lambda m: Fraction(m.num(fa)) % Fraction(m.num(fb))))
        self.assume('==', sub(ka, add(mul(q, b), r)))
        self.assume('>=', r)
        self.assume('>', sub(b, r))
        if self.facts.entails('>=', ka):
            self.assume('>=', q)
        # nonlinear help: q >= 1 iff a >= b
        self.derived[key] = (q, r)
        return q, r

    def floordiv(self, a, b):
        q = self.divmod(a, b)[0]
        if isinstance(q, Num):
            q = simp(self._rn(q))
        return q

    def mod(self, a, b):
        r = self.divmod(a, b)[1]
        if isinstance(r, Num):
            r = simp(self._rn(r))
        return r

    def truediv(self, a, b):
        if isinstance(b, Num):
            b = simp(self._rn(b))
        if not isinstance(a, Num) and not isinstance(b, Num):
            return a / b
        if not isinstance(b, Num):
            if b == 0:
                raise ZeroDivisionError
            r = scale(a, Fraction(1) / Fraction(b))
            return Num(r.t, r.c, True)
        a, b = N(a), N(b)
        if self.branch('==', b):
            raise ZeroDivisionError
        key = ('tdiv', self._rn(a).key(), self._rn(b).key())
        if key not in self.derived:
            q = Num.of(Atom(f'({a})/({b})', isint=False,
                            defn=lambda m: Fraction(m.num(a)) / Fraction(m.num(b))))
            self.assume('==', sub(mul(q, b), a))
            self.derived[key] = q
        return self.derived[key]

    def func(self, name, fn, *args, lo=None, hi=None, isint=True):
        """uninterpreted function of numbers, with an evaluator"""
        key = (name,) + tuple(self._rn(a).key() if isinstance(a, (Num, int, float)) else a.key() for a in args)
        if key not in self.derived:
            def ev(m):
                return fn(*[m.num(a) if isinstance(a, (Num, int, float)) else m.seq(a) for a in args])
            self.derived[key] = Num.of(Atom(f'{name}({",".join(map(str, args))})', isint=isint, defn=ev, lo=lo, hi=hi))
        return self.derived[key]

    def round_(self, x):
        x = N(x)
        if x.allint():
            return simp(Num(x.t, x.c, False))
        key = ('round', self._rn(x).key())
        if key not in self.derived:
            n = Num.of(Atom(f'round({x})', defn=lambda m: round(Fraction(m.num(x)))))
            self.assume('>=', add(sub(scale(x, 2), scale(n, 2)), 1))
            self.assume('>=', add(sub(scale(n, 2), scale(x, 2)), 1))
            self.derived[key] = n
        return self.derived[key]

    def trunc(self, x):
        x = N(x)
        if x.allint():
            return simp(Num(x.t, x.c, False))
        if x.const:
            import math
            return math.trunc(x.c)
        key = ('trunc', self._rn(x).key())
        if key not in self.derived:
            import math
            n = Num.of(Atom(f'int({x})', defn=lambda m: math.trunc(Fraction(m.num(x)))))
            if self.branch('>=', x):
                self.assume('>=', sub(x, n))
                self.assume('>', add(sub(n, x), 1))
            else:
                self.assume('>=', sub(n, x))
                self.assume('>', add(sub(x, n), 1))
            self.derived[key] = n
        return self.derived[key]

    def floor(self, x, ceil=False):
        x = N(x)
        if x.allint():
            return simp(Num(x.t, x.c, False))
        key = ('ceil' if ceil else 'floor', self._rn(x).key())
        if key not in self.derived:
            import math
            n = Num.of(Atom(f'{key[0]}({x})', defn=lambda m: (math.ceil if ceil else math.floor)(Fraction(m.num(x)))))
            if ceil:
                self.assume('>=', sub(n, x))
                self.assume('>', add(sub(x, n), 1))
            else:
                self.assume('>=', sub(x, n))
                self.assume('>', add(sub(n, x), 1))
            self.derived[key] = n
        return self.derived[key]

    def is_integer(self, x):
        x = N(x)
        if x.allint():
            return True
        return self.pred(('isint', self._rn(x).key()), lambda m: Fraction(m.num(x)).denominator == 1,
                         f'{x} is integral')

    def bounds(self, x):
        return self.facts.bounds(N(x))

    def _pow2_split(self, x, y):
        """x is a multiple of 2**k and 0 <= y < 2**k"""
        x, y = self._rn(x), self._rn(y)
        if not self.facts.entails('>=', y) or not self.facts.entails('>=', x):
            return False
        hi = self.bounds(y)[1]
        if hi is None:
            return False
        k = 1 << int(hi).bit_length()
        return all(c % k == 0 for _, c in x.t) and x.c % k == 0

    def bitop(self, op, a, b):
        a, b = (simp(self._rn(v)) if isinstance(v, Num) else v for v in (a, b))
        if not isinstance(a, Num) and not isinstance(b, Num):
            return {'|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b}[op]()
        if op in '|^':
            if self._pow2_split(a, b) or self._pow2_split(b, a):
                return simp(add(a, b))
            # constant with a single high block: x | 0x8000 with x < 0x8000 handled above
        if op == '&':
            if not isinstance(b, Num):
                a, b = b, a
            if not isinstance(a, Num) and a >= 0 and (a & (a + 1)) == 0:
                return self.mod(b, a + 1)
            if not isinstance(a, Num) and a > 0:
                # contiguous mask  m = (2^h - 2^l)
                low = a & -a
                if ((a // low) & (a // low + 1)) == 0:
                    q = self.floordiv(b, low)
                    return simp(scale(self.mod(q, a // low + 1), low))
        fn = {'|': lambda x, y: int(x) | int(y), '&': lambda x, y: int(x) & int(y), '^': lambda x, y: int(x) ^ int(y)}
        return self.func(op, fn[op], N(a), N(b))

    # ---------------------------------------------------------------- strings
    def norm(self, s):
        """resolve bound variables"""
        if not isinstance(s, SSeq):
            return s
        out = []
        changed = False
        for p in s.parts:
            if isinstance(p, PSlice):
                v = p.var
                base = None
                if v in self.sbind:
                    base = self.sbind[v]
                elif v.defn and v.defn[0] == 'enc' and v.defn[1] in self.sbind:
                    base = self.encode(self.sbind[v.defn[1]])
                if base is not None:
                    changed = True
                    if self.facts.entails('==', p.lo) and self.facts.entails('==', sub(p.hi, slen_(base))):
                        r = base
                    else:
                        r = self.slice(base, p.lo, p.hi)
                    out.extend(parts_of(self.norm(r)))
                    continue
            if isinstance(p, PNum) and not p.val.const:
                v = self._rn(p.val)
                if v.const:
                    p = PNum(p.fmt, v, p.order)
                    changed = True
            elif isinstance(p, (PRep, PRepNum)) and not p.n.const:
                n = self._rn(p.n)
                if n.const:
                    p = PRep(p.lit, n) if isinstance(p, PRep) else PRepNum(p.val, n)
                    changed = True
            elif isinstance(p, PSlice):
                n = self._rn(p.length)
                if n.const and n.c == 0:
                    changed = True
                    continue
            out.append(p)
        return mk(s.kind, out) if changed else s

    def encode(self, s):
        """ascii bytes of an (ascii) text"""
        if isinstance(s, str):
            return s.encode('ascii')
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(p.encode('ascii'))
            elif isinstance(p, PSlice):
                out.append(PSlice(p.var.enc, p.lo, p.hi))
            elif isinstance(p, PRep):
                out.append(PRep(p.lit.encode('ascii'), p.n))
            elif isinstance(p, PDec):
                out.append(p)
            else:
                raise Unsupported('encoding of opaque text')
        return mk('b', out)

    def is_ascii(self, s):
        s = self.norm(s)
        if isinstance(s, str):
            return s.isascii()
        for p in s.parts:
            if isinstance(p, str):
                if not p.isascii():
                    return False
            elif isinstance(p, PSlice):
                v = p.var
                if v.defn is not None and v.defn[0] == 'ascii':
                    continue
                if self.facts.entails('==', p.length):
                    continue
                key = ('ascii', v.uid)
                if not self.pred(key, lambda m, v=v: m.var(v).isascii(), f'{v} is ASCII'):
                    if self.facts.entails('==', sub(p.hi, add(p.lo, v.length))):
                        return False
                    self.assume('>', v.length)
                    if not (p.lo == N(0) and p.hi == v.length):
                        raise Unsupported('non-ASCII text cut in pieces')
                    return False
            elif isinstance(p, POpaque):
                raise Unsupported('opaque text encoded')
        return True

    def split(self, s, n):
        """(s[:n], s[n:]) for 0 <= n <= len(s) (must be entailed or is decided by branching)"""
        n = self._rn(n)
        if not isinstance(s, SSeq) and n.const:
            k = int(n.c)
            return s[:k], s[k:]
        kind = kind_of(s)
        parts = parts_of(s)
        left = []
        rest = n
        i = 0
        while i < len(parts):
            p = parts[i]
            ln = plen(p)
            rest = self._rn(rest)
            if rest.const and rest.c == 0:
                break
            d = sub(rest, ln)
            r = self.facts.decide('>=', d)
            if r is None:
                r = self.branch('>=', d, f'cut at {rest} vs part {p}')
            if r:
                left.append(p)
                rest = d
                i += 1
                continue
            # cut inside p  (0 <= rest < ln)
            if not self.facts.entails('>', rest):
                if self.branch('==', rest):
                    break
            a, b = self._cut(p, rest, kind)
            left.extend(a)
            return mk(kind, left), mk(kind, list(b) + parts[i + 1:])
        return mk(kind, left), mk(kind, parts[i:])

    def _cut(self, p, n, kind):
        n = self._rn(n)
        if isinstance(p, (bytes, str)):
            if n.const:
                k = int(n.c)
                return [p[:k]], [p[k:]]
            if len(set(p)) == 1:
                return [PRep(p[:1], n)], [PRep(p[:1], sub(len(p), n))]
            for k in range(1, len(p)):
                if self.branch('==', sub(n, k)):
                    return [p[:k]], [p[k:]]
            raise Infeasible()
        if isinstance(p, PSlice):
            m = add(p.lo, n)
            return [PSlice(p.var, p.lo, m)], [PSlice(p.var, m, p.hi)]
        if isinstance(p, PRep):
            return [PRep(p.lit, n)], [PRep(p.lit, sub(p.n, n))]
        if isinstance(p, PRepNum):
            return [PRepNum(p.val, n)], [PRepNum(p.val, sub(p.n, n))]
        if isinstance(p, (PNum, PCell, PDec, PSub)):
            w = int(plen(p).c)
            if not n.const:
                for k in range(1, w):
                    if self.branch('==', sub(n, k)):
                        n = N(k)
                        break
                else:
                    raise Infeasible()
            k = int(n.c)
            if isinstance(p, PSub):
                return [PSub(p.of, p.lo, p.lo + k)], [PSub(p.of, p.lo + k, p.hi)]
            return [PSub(p, 0, k)], [PSub(p, k, w)]
        raise Unsupported(f'cut inside {p}')

    def slice(self, s, lo, hi):
        a, _ = self.split(s, hi)
        return self.split(a, lo)[1]

    def seq_eq(self, a, b):
        """True / False / None (None: depends on unknown content)"""
        r = self._seq_eq(a, b)
        if r is None:
            r = self._branched(a, b)
            if r is None and kind_of(a) == 'b':
                x, y = self._decoded(a), self._decoded(b)
                if x is not None and y is not None:
                    r = self._branched(x, y)
        return r

    def _branched(self, a, b):
        """the partition may already have been cut by this very question"""
        a, b = self.norm(a), self.norm(b)
        ka = a.key() if isinstance(a, SSeq) else ('lit', a)
        kb = b.key() if isinstance(b, SSeq) else ('lit', b)
        return self.memo.get(('seqeq',) + tuple(sorted((ka, kb), key=repr)))

    def _decoded(self, t):
        """the text an ASCII encoding stands for"""
        out = []
        for p in parts_of(self.norm(t)):
            if isinstance(p, (bytes, bytearray)) and bytes(p).isascii():
                out.append(bytes(p).decode())
            elif isinstance(p, PSlice) and p.var.defn is not None and p.var.defn[0] == 'enc':
                out.append(PSlice(p.var.defn[1], p.lo, p.hi))
            elif isinstance(p, PDec):
                out.append(p)
            else:
                return None
        return mk('s', out)

    def _seq_eq(self, a, b):
        if isinstance(a, bytearray):
            a = bytes(a)
        if isinstance(b, bytearray):
            b = bytes(b)
        a, b = self.norm(a), self.norm(b)
        if not isinstance(a, SSeq) and not isinstance(b, SSeq):
            return a == b
        if kind_of(a) != kind_of(b):
            return False
        if isinstance(a, SSeq) and isinstance(b, SSeq) and a.key() == b.key():
            return True
        la, lb = N(slen_(a)), N(slen_(b))
        d = sub(la, lb)
        if self.facts.entails('>', d) or self.facts.entails('>', scale(d, -1)):
            return False
        x, y = parts_of(a), parts_of(b)
        unknown = False
        x, y = x[::-1], y[::-1]          # stacks
        kind = kind_of(a)
        while x and y:
            p, q = x[-1], y[-1]
            if pkey(p) == pkey(q):
                x.pop(), y.pop()
                continue
            lp, lq = plen(p), plen(q)
            pl, ql = isinstance(p, (bytes, str)), isinstance(q, (bytes, str))
            if pl and ql:
                n = min(len(p), len(q))
                if p[:n] != q[:n]:
                    return False
                x.pop(), y.pop()
                if len(p) > n:
                    x.append(p[n:])
                if len(q) > n:
                    y.append(q[n:])
                continue
            if isinstance(p, PNum) and isinstance(q, PNum) and WIDTH[p.fmt] == WIDTH[q.fmt] \
                    and (p.fmt in 'fd') == (q.fmt in 'fd') and (p.order == q.order or WIDTH[p.fmt] == 1):
                r = self.facts.decide('==', sub(p.val, q.val))
                if r is False and (p.fmt not in 'f'):
                    return False
                if r is None or r is False:
                    unknown = True
                x.pop(), y.pop()
                continue
            if isinstance(q, PNum) and pl:
                p, q, pl, ql, x, y = q, p, ql, pl, y, x
            if isinstance(p, PNum) and ql and len(q) >= WIDTH[p.fmt]:
                w = WIDTH[p.fmt]
                v = struct.unpack(p.order + p.fmt, q[:w])[0]
                if v != v or v in (float('inf'), float('-inf')):
                    return False
                r = self.facts.decide('==', sub(p.val, v))
                if r is False:
                    return False
                if r is None:
                    unknown = True
                x.pop(), y.pop()
                if len(q) > w:
                    y.append(q[w:])
                continue
            if isinstance(q, PDec) and pl:
                p, q, pl, ql, x, y = q, p, ql, pl, y, x
            if isinstance(p, PDec) and ql and len(q) >= p.nd:
                t = q[:p.nd]
                if isinstance(t, bytes):
                    t = t.decode('latin1')
                if not (t.isdigit() and t.isascii() and str(int(t)) == t):
                    return False
                r = self.facts.decide('==', sub(p.val, int(t)))
                if r is False:
                    return False
                if r is None:
                    unknown = True
                x.pop(), y.pop()
                if len(q) > p.nd:
                    y.append(q[p.nd:])
                continue
            # length-aligned cut of slices / repetitions
            d = sub(lp, lq)
            if self.facts.entails('==', d):
                r = self._part_eq(p, q, kind)
                if r is False:
                    return False
                if r is None:
                    unknown = True
                x.pop(), y.pop()
                continue
            if self.facts.entails('>', d):
                p, q, x, y, lp, lq = q, p, y, x, lq, lp
                d = scale(d, -1)
            if self.facts.entails('>', scale(d, -1)):      # p shorter than q
                try:
                    a_, b_ = self._cut_noforks(q, lp, kind)
                except Unsupported:
                    return None
                y.pop()
                y.extend(reversed(list(b_)))
                y.extend(reversed(list(a_)))
                # avoid infinite loop: the pieces have known relation now
                r = self._part_eq(p, a_[0], kind) if len(a_) == 1 else None
                if r is False:
                    return False
                if r is None:
                    unknown = True
                x.pop(), y.pop()
                continue
            return None
        rest = x or y
        if rest:
            n = N(0)
            for p in rest:
                n = add(n, plen(p))
            if self.facts.entails('>', n):
                return False
            if not self.facts.entails('==', n):
                return None
        return None if unknown else True

    def _cut_noforks(self, p, n, kind):
        n = self._rn(n)
        if isinstance(p, (bytes, str)) and not n.const and len(set(p)) != 1:
            raise Unsupported('cut')
        if isinstance(p, (PNum, PCell, PDec, PSub)):
            raise Unsupported('cut')
        return self._cut(p, n, kind)

    def _part_eq(self, p, q, kind):
        """equality of two parts of equal length: True/False/None"""
        if pkey(p) == pkey(q):
            return True
        if isinstance(p, PSlice) and isinstance(q, PSlice) and p.var is q.var:
            if self.facts.entails('==', sub(p.lo, q.lo)):
                return True
            return None
        if isinstance(p, (bytes, str)) and isinstance(q, (bytes, str)):
            return p == q
        for p, q in ((p, q), (q, p)):
            if isinstance(p, PRep) and isinstance(q, PRep):
                if p.lit == q.lit:
                    return True
                return False if self.facts.entails('>', p.n) else None
            if isinstance(p, PRep) and isinstance(q, (bytes, str)):
                return q == p.lit * len(q)
            if isinstance(p, PRepNum) and isinstance(q, PRepNum):
                if self.facts.entails('==', sub(p.val, q.val)):
                    return True
            if isinstance(p, PRepNum) and isinstance(q, PRep):
                if self.facts.entails('==', sub(p.val, q.lit[0])):
                    return True
        return None

    def equal(self, a, b, label=None):
        """equality of two strings as a branch"""
        if isinstance(a, bytearray):
            a = bytes(a)
        if isinstance(b, bytearray):
            b = bytes(b)
        r = self.seq_eq(a, b)
        if r is not None:
            return r
        a, b = self.norm(a), self.norm(b)
        ka = a.key() if isinstance(a, SSeq) else ('lit', a)
        kb = b.key() if isinstance(b, SSeq) else ('lit', b)
        key = ('seqeq',) + tuple(sorted((ka, kb), key=repr))
        if key in self.memo:
            return self.memo[key]
        eq = self.choose(2, label or f'{a!r} == {b!r}') == 1
        self.memo[key] = eq
        self.preds.append((lambda m: m.seq(a) == m.seq(b), eq, f'{a!r} == {b!r}'))
        if eq:
            self.assume('==', sub(slen_(a), slen_(b)))
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SSeq) and len(x.parts) == 1 and isinstance(x.parts[0], PSlice):
                    p = x.parts[0]
                    if p.var.defn is None and p.var not in self.sbind and p.lo == N(0) and p.hi == p.var.length:
                        if not isinstance(y, SSeq):
                            k = ('ascii', p.var.uid)
                            if k in self.memo and isinstance(y, str) and self.memo[k] != y.isascii():
                                raise Infeasible()
                        if not (isinstance(y, SSeq) and any(isinstance(q, PSlice) and q.var is p.var
                                                            for q in y.parts)):
                            self.sbind[p.var] = y
                            for f, want, _ in self.preds:
                                if not isinstance(y, SSeq):
                                    try:
                                        m = Model({}, {p.var: y}, {})
                                        if f.__code__.co_freevars and _only(f, p.var) and f(m) != want:
                                            raise Infeasible()
                                    except Infeasible:
                                        raise
                                    except Exception:
                                        pass
                            break
        return eq

    def dec(self, n):
        """decimal text of an integer"""
        n = simp(self._rn(n))
        if not isinstance(n, Num):
            return str(n)
        if n.isfloat:
            raise Unsupported('text of an unknown float')
        if not self.branch('>=', n):
            return concat('-', self.dec(scale(n, -1)))
        nd = 1
        while nd < 20:
            if self.branch('>=', sub(10 ** nd - 1, n), f'{n} has {nd} digits'):
                return mk('s', [PDec(n, nd)])
            nd += 1
        raise Unsupported('text of an unbounded integer')

    # ---------------------------------------------------------------- witnesses
    def models(self, extra=(), tries=24, seed=1):
        """valuations satisfying every fact and predicate of this partition"""
        atoms = set()
        for _, e in self.facts.raw:
            atoms |= N(e).atoms()
        for e in extra:
            if isinstance(e, Num):
                atoms |= e.atoms()
            elif isinstance(e, SSeq):
                for p in e.parts:
                    for f in ('val', 'lo', 'hi', 'n'):
                        v = getattr(p, f, None)
                        if isinstance(v, Num):
                            atoms |= v.atoms()
                    if isinstance(p, PSlice):
                        atoms |= p.var.length.atoms()
        base = sorted(a for a in atoms if a.defn is None)
        t0 = time.time()
        for t in range(tries):
            if time.time() - t0 > 20:
                return
            rnd = random.Random(seed * 7919 + t)
            f = self.facts.copy()
            vals = {}
            ok = True
            order = list(base)
            if t % 3 == 2:
                rnd.shuffle(order)
            for a in order:
                e = f.resolve(Num.of(a))
                if e.const:
                    vals[a] = e.c
                    continue
                lo, hi = f.bounds(Num.of(a))
                cands = self._cands(a, lo, hi, rnd, t)
                for c in cands:
                    g = f.copy()
                    try:
                        g.assume('==', sub(Num.of(a), c))
                    except Infeasible:
                        continue
                    f = g
                    vals[a] = c
                    break
                else:
                    ok = False
                    break
            if not ok:
                continue
            m = Model(dict(vals), {}, self.sbind, seed=t + seed)
            try:
                if self.check_model(m):
                    yield m
            except (Unsupported, OverflowError, ZeroDivisionError, ValueError, struct.error):
                continue

    def check_model(self, m):
        for op, e in self.facts.raw:
            v = m.num(e)
            if not (v >= 0 if op == '>=' else v > 0 if op == '>' else v == 0):
                return False
        for v, s in self.sbind.items():
            if len(m.var(v)) != m.num(v.length):
                return False
        for fn, want, _ in self.preds:
            if bool(fn(m)) != want:
                return False
        return True

    @staticmethod
    def _cands(a, lo, hi, rnd, t):
        import math
        if a.isint:
            lo = None if lo is None else math.ceil(lo)
            hi = None if hi is None else math.floor(hi)
        if not a.isint:
            c = [Fraction(5, 2), Fraction(-13, 8), Fraction(101, 4), Fraction(1, 3), Fraction(0), Fraction(7)]
            rnd.shuffle(c)
            if lo is not None and hi is not None:
                c = [(Fraction(lo) + Fraction(hi)) / 2, lo + (Fraction(hi) - lo) / 7, lo, hi]
            elif lo is not None:
                c = [lo + 1, lo + Fraction(3, 2), lo + 1000, lo]
            elif hi is not None:
                c = [hi - 1, hi - Fraction(3, 2), hi - 1000, hi]
            c = [Fraction(float(x)) if x not in (lo, hi) else x for x in c]
            return c
        c = []
        if lo is not None and hi is not None:
            if hi < lo:
                return []
            span = hi - lo
            c = [lo + rnd.randrange(0, min(span, 60) + 1), lo, hi, lo + span // 2, lo + rnd.randrange(0, span + 1),
                 lo + min(span, 1), hi - min(span, 1), lo + min(span, 2), lo + min(3, span)]
            if t % 2:
                rnd.shuffle(c)
        elif lo is not None:
            c = [lo + rnd.randrange(0, 40), lo, lo + 1, lo + 2, lo + 17, lo + 1000, lo + 7, lo + 100000]
            if t % 2:
                rnd.shuffle(c)
        elif hi is not None:
            c = [hi - rnd.randrange(0, 40), hi, hi - 1, hi - 17, hi - 1000]
        else:
            c = [rnd.randrange(-50, 300), 0, 1, -1, 7, 1000, -100000]
        seen = []
        for x in c:
            if x not in seen:
                seen.append(x)
        return seen


def _only(f, var):
    vals = []
    for c in (f.__closure__ or ()):
        vals.append(c.cell_contents)
    vals.extend(f.__defaults__ or ())
    for v in vals:
        if isinstance(v, SVar) and v is not var:
            return False
        if isinstance(v, SSeq):
            for p in v.parts:
                if isinstance(p, PSlice) and p.var is not var:
                    return False
                if not isinstance(p, (PSlice, bytes, str)):
                    return False
        if isinstance(v, Num):
            return False
    return True


def slen_(v):
    if isinstance(v, SSeq):
        return v.length
    return len(v)


def _short(e):
    s = str(e)
    return s if len(s) < 40 else s[:37] + '..'


class Outcome:
    __slots__ = ('kind', 'info', 'log')

    def __init__(self, kind, info, log):
        self.kind, self.info, self.log = kind, info, log


DEBUG = bool(os.environ.get('SA_DEBUG'))


def explore(run, max_paths=400, seconds=120, where=None, setup=None):
    """Run `run(ctx)` on every partition. Yields Outcome(kind in ok|undecided|infeasible, info, log)."""
    stack = [((), 0, None)]              # (choices of a finished partition, length of the common prefix, next choice)
    t_end = time.time() + seconds
    n = 0
    while stack:
        taken, cut, alt = stack.pop()
        prefix = list(taken[:cut]) + ([] if alt is None else [alt])
        if n >= max_paths or time.time() > t_end or len(stack) > 200000:
            yield Outcome('undecided', f'exploration budget reached with {len(stack) + 1} partitions left', [])
            return
        ctx = Ctx(prefix, where)
        ctx.t_end = t_end + 15
        try:
            info = run(ctx)
            kind = 'ok'
        except Infeasible:
            kind, info = 'infeasible', None
        except Unsupported as e:
            kind, info = 'undecided', f'{type(e).__name__}: {e} at {getattr(e, "loc", "?")}'
        except RecursionError:
            kind, info = 'undecided', 'recursion limit'
        except Exception as e:          # a gap in the abstract semantics never decides anything
            if DEBUG:
                raise
            kind, info = 'undecided', f'analyser: {type(e).__name__}: {e} at {ctx.where()}'
        # schedule siblings
        taken = tuple(x[0] for x in ctx.log)
        for i in range(len(ctx.log) - 1, len(prefix) - 1, -1):
            c, k, _ = ctx.log[i]
            if c + 1 < k and i >= len(prefix):
                for alt in range(k - 1, c, -1):
                    stack.append((taken, i, alt))
        if kind != 'infeasible':
            n += 1
        yield Outcome(kind, info, list(ctx.log))
