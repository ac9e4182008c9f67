"""Linear forms over unknowns and the relational domain of facts about them.

A number is a polynomial over *atoms* (unknown inputs, or derived quantities such as a quotient), treated
linearly: every monomial is one dimension.  A fact is `e >= 0`, `e > 0` or `e == 0`.  Entailment is decided by
Fourier-Motzkin elimination with integer tightening (sound, incomplete); nothing is handed to a solver.
"""
from fractions import Fraction
from math import gcd
import itertools


class Atom:
    __slots__ = ('name', 'isint', 'defn', 'uid', 'lo', 'hi')
    _uid = itertools.count()

    def __init__(self, name, isint=True, defn=None, lo=None, hi=None):
        self.name, self.isint, self.defn, self.lo, self.hi = name, isint, defn, lo, hi
        self.uid = next(Atom._uid)

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return self.uid < o.uid


def _num(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


class Num:
    """Polynomial with rational coefficients. `isfloat`: the Python value is a float."""
    __slots__ = ('t', 'c', 'isfloat', '_h')

    def __init__(self, t, c=0, isfloat=False):
        self.t = t            # tuple of (mono, coef) sorted; mono = tuple of atoms sorted by uid
        self.c = c
        self.isfloat = isfloat
        self._h = None

    @staticmethod
    def make(d, c, isfloat=False):
        items = tuple(sorted(((m, _num(k)) for m, k in d.items() if k != 0),
                             key=lambda mk: tuple(a.uid for a in mk[0])))
        return Num(items, _num(c), isfloat)

    @staticmethod
    def of(atom, isfloat=None):
        return Num((((atom,), 1),), 0, (not atom.isint) if isfloat is None else isfloat)

    def key(self):
        return (tuple((tuple(a.uid for a in m), k) for m, k in self.t), self.c)

    def __eq__(self, o):
        return isinstance(o, Num) and self.t == o.t and self.c == o.c

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    @property
    def const(self):
        return not self.t

    def d(self):
        return dict(self.t)

    def allint(self):
        return all(a.isint for m, _ in self.t for a in m) and all(
            not isinstance(k, Fraction) for _, k in self.t) and not isinstance(self.c, Fraction)

    def atoms(self):
        return {a for m, _ in self.t for a in m}

    def __repr__(self):
        s = ' + '.join((f'{k}*' if k != 1 else '') + '*'.join(map(str, m)) for m, k in self.t)
        if self.c or not s:
            s = (s + ' + ' if s else '') + str(self.c)
        return f'({s})'


def N(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num((), int(x))
    if isinstance(x, int):
        return Num((), x)
    if isinstance(x, Fraction):
        return Num((), _num(x))
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise ValueError('non-finite')
        return Num((), _num(Fraction(x)), True)
    raise TypeError(x)


def add(a, b, sign=1):
    a, b = N(a), N(b)
    d = a.d()
    for m, k in b.t:
        d[m] = d.get(m, 0) + sign * k
    return Num.make(d, a.c + sign * b.c, a.isfloat or b.isfloat)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    a, b = N(a), N(b)
    d = {}
    for m, k in a.t:
        if b.c:
            d[m] = d.get(m, 0) + k * b.c
    for m, k in b.t:
        if a.c:
            d[m] = d.get(m, 0) + k * a.c
    for m1, k1 in a.t:
        for m2, k2 in b.t:
            m = tuple(sorted(m1 + m2, key=lambda x: x.uid))
            d[m] = d.get(m, 0) + k1 * k2
    return Num.make(d, a.c * b.c, a.isfloat or b.isfloat)


def scale(a, k):
    return mul(a, N(k))


# ----------------------------------------------------------------------------------------------- constraints

class Infeasible(Exception):
    pass


def _norm(d, c, strict):
    """constraint sum d + c >= 0 (or > 0). Returns (items, c, strict), or True / False when trivial."""
    d = {m: k for m, k in d.items() if k != 0}
    if not d:
        ok = c > 0 if strict else c >= 0
        return ok
    den = 1
    for k in d.values():
        if isinstance(k, Fraction):
            den = den * k.denominator // gcd(den, k.denominator)
    if den != 1:
        d = {m: _num(k * den) for m, k in d.items()}
        c = _num(c * den)
    g = 0
    for k in d.values():
        g = gcd(g, int(k))
    isint = all(a.isint for m in d for a in m)
    if isint:
        if isinstance(c, Fraction):
            f = c.numerator // c.denominator
            if strict and f == c:
                c, strict = f - 1, False
            else:
                c, strict = f, False
        elif strict:
            c, strict = c - 1, False
        if g > 1:
            d = {m: k // g for m, k in d.items()}
            c = c // g
    elif g > 1:
        d = {m: k // g for m, k in d.items()}
        c = _num(Fraction(c) / g)
    items = tuple(sorted(d.items(), key=lambda mk: tuple(a.uid for a in mk[0])))
    return (items, c, strict)


_cache = {}
STATS = {'fm': 0, 'giveup': 0}


def fm_infeasible(cons):
    """True if the conjunction is definitely infeasible."""
    key = frozenset(cons)
    r = _cache.get(key)
    if r is not None:
        return r
    r = _fm(list(key))
    if len(_cache) > 200000:
        _cache.clear()
    _cache[key] = r
    return r


def _tighten(cons):
    best = {}
    for items, c, strict in cons:
        o = best.get(items)
        if o is None or c < o[0] or (c == o[0] and strict):
            best[items] = (c, strict)
    return [(i, c, s) for i, (c, s) in best.items()]


def _fm(cons):
    STATS['fm'] += 1
    cons = _tighten(cons)
    while True:
        if not cons:
            return False
        pos, neg = {}, {}
        for idx, (items, c, s) in enumerate(cons):
            for m, k in items:
                (pos if k > 0 else neg).setdefault(m, []).append(idx)
        monos = set(pos) | set(neg)
        m = min(monos, key=lambda m: (len(pos.get(m, ())) * len(neg.get(m, ())), tuple(a.uid for a in m)))
        p, n = pos.get(m, []), neg.get(m, [])
        used = set(p) | set(n)
        new = [cn for i, cn in enumerate(cons) if i not in used]
        if len(p) * len(n) + len(new) > 3000:
            STATS['giveup'] += 1
            return False
        for i in p:
            for j in n:
                (i1, c1, s1), (i2, c2, s2) = cons[i], cons[j]
                k1 = dict(i1)[m]
                k2 = -dict(i2)[m]
                d = {}
                for mm, k in i1:
                    d[mm] = d.get(mm, 0) + k * k2
                for mm, k in i2:
                    d[mm] = d.get(mm, 0) + k * k1
                d.pop(m, None)
                r = _norm(d, c1 * k2 + c2 * k1, s1 or s2)
                if r is True:
                    continue
                if r is False:
                    return True
                new.append(r)
        cons = _tighten(new)


class Facts:
    """Conjunction of linear facts, with unit equalities turned into substitutions."""

    def __init__(self):
        self.cons = []        # normalised inequalities
        self.eqs = []         # list of Num == 0 that could not be solved (also present in cons as two ineqs)
        self.subs = {}        # mono -> Num
        self.raw = []         # (op, Num) as assumed, for evaluation
        self.known_atoms = set()
        self.version = 0

    def copy(self):
        f = Facts()
        f.cons, f.eqs, f.subs = list(self.cons), list(self.eqs), dict(self.subs)
        f.raw, f.known_atoms, f.version = list(self.raw), set(self.known_atoms), self.version
        return f

    def resolve(self, e):
        e = N(e)
        for _ in range(60):
            if not any(m in self.subs for m, _ in e.t):
                break
            acc = Num((), e.c, e.isfloat)
            d = {}
            for m, k in e.t:
                s = self.subs.get(m)
                if s is None:
                    d[m] = d.get(m, 0) + k
                else:
                    acc = add(acc, scale(s, k))
            e2 = add(Num.make(d, 0), acc)
            e = Num(e2.t, e2.c, e.isfloat)
        return e

    def _domain(self, e):
        for a in e.atoms():
            if a not in self.known_atoms:
                self.known_atoms.add(a)
                if a.lo is not None:
                    self._add(sub(Num.of(a), a.lo), False)
                if a.hi is not None:
                    self._add(sub(a.hi, Num.of(a)), False)

    def _add(self, e, strict):
        e = self.resolve(e)
        self._domain(e)
        r = _norm(e.d(), e.c, strict)
        if r is True:
            return
        if r is False:
            raise Infeasible()
        if r not in self.cons:
            self.cons.append(r)
            self.version += 1

    def assume(self, op, e):
        """op in '>=', '>', '==' relative to 0"""
        self.raw.append((op, e))
        self._assume(op, e)
        if fm_infeasible(self._relevant(self.resolve(e), full=True)):
            raise Infeasible()

    def _assume(self, op, e):
        e = self.resolve(e)
        self._domain(e)
        e = self.resolve(e)
        if op == '==':
            if e.const:
                if e.c != 0:
                    raise Infeasible()
                return
            # try to solve for a linear atom with unit coefficient
            if e.allint():
                g = 0
                for _, k in e.t:
                    g = gcd(g, k)
                if e.c % g:
                    raise Infeasible()
                if g > 1:
                    e = Num.make({m: k // g for m, k in e.t}, e.c // g)
            cand = None
            for m, k in e.t:
                if len(m) == 1 and not any(m[0] in mm and len(mm) > 1 for mm, _ in e.t):
                    if e.allint():
                        if k not in (1, -1):
                            continue
                    elif m[0].isint:
                        continue
                    if cand is None or m[0].uid > cand[0][0].uid:
                        cand = (m, k)
            if cand is None:
                for m, k in e.t:
                    if len(m) > 1 and k in (1, -1):
                        cand = (m, k)
            if cand is not None:
                m, k = cand
                d = e.d()
                d.pop(m)
                rhs = scale(Num.make(d, e.c), Fraction(-1, 1) / k)
                self.subs[m] = rhs
                self.version += 1
                old = self.cons
                self.cons = []
                for items, c, s in old:
                    self._add(Num.make(dict(items), c), s)
                for mm in list(self.subs):
                    if mm != m:
                        self.subs[mm] = self.resolve(self.subs[mm])
                oldeqs, self.eqs = self.eqs, []
                for q in oldeqs:
                    self._assume('==', q)
                return
            self.eqs.append(e)
            self._add(e, False)
            self._add(scale(e, -1), False)
        else:
            self._add(e, op == '>')

    def _relevant(self, e, full=False):
        atoms = set(e.atoms())
        # domains of atoms not yet known
        extra = []
        for a in atoms:
            if a not in self.known_atoms:
                if a.lo is not None:
                    extra.append(_norm({(a,): 1}, -a.lo, False))
                if a.hi is not None:
                    extra.append(_norm({(a,): -1}, a.hi, False))
        out = []
        rest = self.cons
        changed = True
        while changed:
            changed = False
            nrest = []
            for cn in rest:
                at = {a for m, _ in cn[0] for a in m}
                if at & atoms:
                    out.append(cn)
                    if not at <= atoms:
                        atoms |= at
                        changed = True
                else:
                    nrest.append(cn)
            rest = nrest
        return out + extra

    def entails(self, op, e):
        e = self.resolve(e)
        if e.const:
            return e.c >= 0 if op == '>=' else e.c > 0 if op == '>' else e.c == 0
        if op == '==':
            return self.entails('>=', e) and self.entails('>=', scale(e, -1))
        rel = self._relevant(e)
        # negation: e < 0 i.e. -e > 0 ; or e <= 0 i.e. -e >= 0
        ne = scale(e, -1)
        r = _norm(ne.d(), ne.c, op == '>=')
        if r is True:
            return False
        if r is False:
            return True
        return fm_infeasible(rel + [r])

    def decide(self, op, e):
        """True / False / None"""
        e = self.resolve(e)
        if e.const:
            return e.c >= 0 if op == '>=' else e.c > 0 if op == '>' else e.c == 0
        if self.entails(op, e):
            return True
        if op == '==':
            if e.allint():
                g = 0
                for _, k in e.t:
                    g = gcd(g, k)
                if e.c % g:
                    return False
            if self.entails('>', e) or self.entails('>', scale(e, -1)):
                return False
        elif op == '>=':
            if self.entails('>', scale(e, -1)):
                return False
        else:
            if self.entails('>=', scale(e, -1)):
                return False
        return None

    def bounds(self, e, limit=None):
        """Best constant bounds found for e by elimination: (lo, hi) possibly None."""
        e = self.resolve(e)
        if e.const:
            return e.c, e.c
        t = Atom('_b', isint=e.allint())
        eqn = sub(Num.of(t), e)
        cons = self._relevant(e)
        for s in (1, -1):
            r = _norm({m: k * s for m, k in eqn.t}, eqn.c * s, False)
            cons.append(r)
        target = (t,)
        cons = _tighten(cons)
        while True:
            pos, neg = {}, {}
            for idx, (items, c, s) in enumerate(cons):
                for m, k in items:
                    (pos if k > 0 else neg).setdefault(m, []).append(idx)
            monos = (set(pos) | set(neg)) - {target}
            if not monos:
                break
            m = min(monos, key=lambda m: (len(pos.get(m, ())) * len(neg.get(m, ())), tuple(a.uid for a in m)))
            p, n = pos.get(m, []), neg.get(m, [])
            used = set(p) | set(n)
            new = [cn for i, cn in enumerate(cons) if i not in used]
            if len(p) * len(n) + len(new) > 2000:
                return None, None
            for i in p:
                for j in n:
                    (i1, c1, s1), (i2, c2, s2) = cons[i], cons[j]
                    k1, k2 = dict(i1)[m], -dict(i2)[m]
                    d = {}
                    for mm, k in i1:
                        d[mm] = d.get(mm, 0) + k * k2
                    for mm, k in i2:
                        d[mm] = d.get(mm, 0) + k * k1
                    d.pop(m, None)
                    r = _norm(d, c1 * k2 + c2 * k1, s1 or s2)
                    if r is True or r is False:
                        continue
                    new.append(r)
            cons = _tighten(new)
        lo = hi = None
        for items, c, s in cons:
            if len(items) == 1 and items[0][0] == target:
                k = items[0][1]
                v = Fraction(-c) / k
                if t.isint:
                    v = -((-v.numerator) // v.denominator) if k > 0 else v.numerator // v.denominator
                if k > 0:
                    lo = v if lo is None or v > lo else lo
                else:
                    hi = v if hi is None or v < hi else hi
        return lo, hi
