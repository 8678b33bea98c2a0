"""Normal form for the arithmetic terms of the VC generator.

A Poly is a finite sum  sum_i c_i * 2**E_i * prod(A_i)  with rational c_i, E_i an integer linear form over
integer symbols (constants are folded into c_i) and A_i a multiset of symbols.
"""
from fractions import Fraction

_counter = [0]


class Unsupported(BaseException):
    """The code under verification uses something outside the supported subset (fail closed)."""


class Sym:
    """A symbol: a variable, floor(arg) or an application of a spec function kept opaque."""
    __slots__ = ('id', 'name', 'is_int', 'kind', 'args', 'facts', 'clauses')

    def __init__(self, name, is_int, kind='var', args=(), facts=None, clauses=None):
        _counter[0] += 1
        self.id = _counter[0]
        self.name = name
        self.is_int = is_int
        self.kind = kind
        self.args = args
        self.facts = facts
        self.clauses = clauses

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return self.id < o.id

    def __hash__(self):
        return self.id

    __eq__ = object.__eq__


_EMPTY = ((), ())


class Poly:
    __slots__ = ('d', '_h', '_deep')

    def __init__(self, d):
        self.d = d
        self._h = None
        self._deep = None

    # -- construction --------------------------------------------------------------------------
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({_EMPTY: c}) if c else Poly({})

    @staticmethod
    def var(s):
        return Poly({((), (s,)): Fraction(1)})

    @staticmethod
    def pow2(e):
        """2**e for an integer linear form e."""
        exps = []
        c = Fraction(0)
        for (ex, at), k in e.d.items():
            if ex:
                raise Unsupported("exponent is not linear: 2**(%s)" % e)
            if not at:
                c = k
            elif len(at) == 1 and at[0].is_int and k.denominator == 1:
                exps.append((at[0], int(k)))
            else:
                raise Unsupported("exponent is not an integer linear form: 2**(%s)" % e)
        if c.denominator != 1:
            raise Unsupported("non-integer exponent")
        if abs(c) > 100000:
            raise Unsupported("huge exponent constant")
        exps.sort(key=lambda t: t[0].id)
        return Poly({(tuple(exps), ()): Fraction(2) ** int(c)})

    # -- queries -------------------------------------------------------------------------------
    def is_const(self):
        return not self.d or (len(self.d) == 1 and _EMPTY in self.d)

    def const_value(self):
        return self.d.get(_EMPTY, Fraction(0))

    def key(self):
        if self._h is None:
            self._h = frozenset(self.d.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def is_linear_int(self):
        """No powers of two, only single integer symbols."""
        for (ex, at) in self.d:
            if ex or len(at) > 1 or (at and not at[0].is_int):
                return False
        return True

    def syms(self):
        r = set()
        for (ex, at) in self.d:
            for s, _ in ex:
                r.add(s)
            r.update(at)
        return r

    # -- arithmetic ----------------------------------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        r = dict(self.d)
        for k, v in o.d.items():
            n = r.get(k, 0) + v
            if n:
                r[k] = n
            else:
                r.pop(k, None)
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            c = Fraction(o)
            return Poly({k: v * c for k, v in self.d.items()}) if c else Poly({})
        if len(o.d) == 1:
            self, o = o, self
        r = {}
        for k1, v1 in self.d.items():
            for k2, v2 in o.d.items():
                k = mono_mul(k1, k2)
                n = r.get(k, 0) + v1 * v2
                if n:
                    r[k] = n
                else:
                    r.pop(k, None)
        return Poly(r)
    __rmul__ = __mul__

    def shift(self, e):
        """self * 2**e (e a Poly)."""
        return self * Poly.pow2(e)

    def inverse_monomial(self):
        """1/self when self is a single pure power of two (times a rational)."""
        if len(self.d) == 1:
            ((ex, at), c), = self.d.items()
            if not at:
                return Poly({(tuple((s, -k) for s, k in ex), ()): 1 / c})
        return None

    def subst(self, m, memo):
        """Substitute integer symbols by linear forms (also inside floor/opaque arguments)."""
        r = memo.get(self)
        if r is not None:
            return r
        if not any(_affected(s, m, memo) for s in self.syms()):
            memo[self] = self
            return self
        out = Poly({})
        for (ex, at), c in self.d.items():
            t = Poly.const(c)
            for s, k in ex:
                e = m.get(s)
                if e is None:
                    t = t * Poly({(((s, k),), ()): Fraction(1)})
                else:
                    t = t * Poly.pow2(e * k)
            for s in at:
                e = m.get(s)
                if e is None:
                    t = t * subst_sym(s, m, memo)
                else:
                    t = t * e
            out = out + t
        memo[self] = out
        return out

    def eval(self, env):
        r = Fraction(0)
        for (ex, at), c in self.d.items():
            e = sum(int(env[s]) * k for s, k in ex)
            t = c * (Fraction(2) ** e)
            for s in at:
                t *= env[s]
            r += t
        return r

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for (ex, at), c in sorted(self.d.items(), key=lambda t: (len(t[0][1]), str(t[0]))):
            f = []
            if ex:
                f.append("2^(" + "+".join(("%s" % s if k == 1 else "%d*%s" % (k, s)) for s, k in ex).replace("+-", "-") + ")")
            f += [str(s) for s in at]
            if not f:
                out.append(str(c) if abs(c) < 10**12 else "%g" % float(c))
            else:
                out.append(("" if c == 1 else "-" if c == -1 else "%s*" % c) + "*".join(f))
        return " + ".join(out)


def mono_mul(k1, k2):
    e1, a1 = k1
    e2, a2 = k2
    if not e1:
        e = e2
    elif not e2:
        e = e1
    else:
        d = dict(e1)
        for s, k in e2:
            n = d.get(s, 0) + k
            if n:
                d[s] = n
            else:
                del d[s]
        e = tuple(sorted(d.items(), key=lambda t: t[0].id))
    if not a1:
        a = a2
    elif not a2:
        a = a1
    else:
        a = tuple(sorted(a1 + a2, key=lambda s: s.id))
    return (e, a)


_interned = {}


def reset_interning():
    _interned.clear()


def floor_sym(arg):
    k = ('floor', arg)
    s = _interned.get(k)
    if s is None:
        s = _interned[k] = Sym("floor(%s)" % arg, True, 'floor', (arg,))
    return s


def opaque_sym(fn, args, is_int, facts=None, clauses=None):
    """facts: function(sym, args) -> list of (Poly, rel) facts about the application."""
    k = (fn, args)
    s = _interned.get(k)
    if s is None:
        s = _interned[k] = Sym("%s(%s)" % (fn, ", ".join(str(a) for a in args)), is_int, 'opaque', (fn, args), facts, clauses)
    return s


def _affected(s, m, memo):
    if s in m:
        return True
    if s.kind == 'floor':
        return s.args[0].subst(m, memo) is not s.args[0]
    if s.kind == 'opaque':
        return any(isinstance(a, Poly) and a.subst(m, memo) is not a for a in s.args[1])
    return False


def subst_sym(s, m, memo):
    if s.kind == 'floor':
        a = s.args[0].subst(m, memo)
        if a is not s.args[0]:
            return floor_poly(a)
    elif s.kind == 'opaque':
        fn, args = s.args
        new = tuple(a.subst(m, memo) if isinstance(a, Poly) else a for a in args)
        if new != args:
            return Poly.var(opaque_sym(fn, new, s.is_int, s.facts, s.clauses))
    return Poly.var(s)


def syntactic_int(p):
    """True when every monomial is an integer by its syntax (integer symbols, no powers, integer coefficients)."""
    for (ex, at), c in p.d.items():
        if ex or c.denominator != 1 or any(not s.is_int for s in at):
            return False
    return True


def floor_poly(t):
    """floor(t), with syntactically integer monomials pulled out."""
    inner, outer = {}, {}
    for k, c in t.d.items():
        ex, at = k
        if not ex and all(s.is_int for s in at):
            n = c.numerator // c.denominator
            if n:
                outer[k] = Fraction(n)
            if c - n:
                inner[k] = c - n
        else:
            inner[k] = c
    o = Poly(outer)
    if not inner:
        return o
    i = Poly(inner)
    if i.is_const():
        return o
    return o + Poly.var(floor_sym(i))


ZERO = Poly.const(0)
ONE = Poly.const(1)
