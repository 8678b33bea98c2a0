"""Symbolic execution core: path exploration by replay, proof obligations, scalar proxies.

The real source of /repo runs under CPython with these proxies as operands.  A branch on a symbolic condition
forks the path; every obligation met on a path is discharged by solver.prove under the path's facts.
"""
import time
from fractions import Fraction
from .poly import (Poly, Sym, Unsupported, floor_poly, floor_sym, opaque_sym, syntactic_int, ZERO, ONE, reset_interning)
from .solver import diff, LinCtx, Query, prove, neg_fact, const_truth, STATS, exp_poly

CTX = None
HALF = Fraction(1, 2)


class Abandon(BaseException):
    """The current path is infeasible or not of interest."""


class NeedWitness(BaseException):
    pass


class Restart(NeedWitness):
    """Restart the task with another loop invariant."""


class Obligation:
    __slots__ = ('task', 'label', 'ok', 'detail', 'hints', 'stage')

    def __init__(self, task, label, ok, detail='', hints=None):
        self.task, self.label, self.ok, self.detail, self.hints = task, label, ok, detail, hints


class Ctx:
    def __init__(self, name='', deadline=None, max_paths=4000):
        self.name = name
        self.skip = None
        self.deadline = deadline
        self.max_paths = max_paths
        self.syms = {}
        self.obligations = []
        self.paths = 0
        self.prefix_work = [[]]
        self.tracked = 1
        self.reach = {}
        self.fact_ids = {}          # (node, fact) -> node: interned fact sequences, shared by all paths
        self.qcache = {}
        self.loop_choice = {}       # loop -> index of the candidate invariant

    # -- exploration ---------------------------------------------------------------------------
    def explore(self, fn):
        """Runs fn() on every feasible path."""
        global CTX
        saved = CTX
        CTX = self
        try:
            work = [[]]
            while work:
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time limit in task %s" % self.name)
                prefix = work.pop()
                if self.paths >= self.max_paths:
                    raise Unsupported("too many paths in task %s" % self.name)
                self.begin(prefix)
                self.pending = []
                try:
                    fn()
                    self.paths += 1
                except Abandon:
                    pass
                except NeedWitness as e:
                    if self.tracked >= 8:
                        raise Unsupported("too many reductions")
                    if not isinstance(e, Restart):
                        self.tracked += 1
                    self.obligations = []
                    self.paths = 0
                    self.reach = {}
                    work = [[]]
                    continue
                work.extend(self.pending)
        finally:
            CTX = saved

    def begin(self, prefix):
        self.trace = list(prefix)
        self.pos = 0
        self.facts = []
        self.fnode = 0
        self.factset = set()
        self.lin = LinCtx()
        self.cond_memo = {}
        self.warned = []
        self.counter = {}
        self.next_witness = 1
        self.double_atoms = set()
        self.rewrites = []
        self.loops = []
        self.rand_range = None
        self.stub_memo = {}
        self.split_mod = False
        self.notes = []

    def sym(self, name, is_int=True):
        """Symbol with a deterministic name (shared by all replays of the task)."""
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        key = (name, n, is_int)
        s = self.syms.get(key)
        if s is None:
            s = self.syms[key] = Sym(name if n == 0 else "%s.%d" % (name, n), is_int)
        return s

    def int(self, name):
        return SInt(Poly.var(self.sym(name)))

    def add(self, fact):
        t = const_truth(fact)
        if t is True:
            return
        if t is False:
            raise Abandon()
        if fact in self.factset:
            return
        self.factset.add(fact)
        self.facts.append(fact)
        k = (self.fnode, fact)
        n = self.fact_ids.get(k)
        if n is None:
            n = self.fact_ids[k] = len(self.fact_ids) + 1
        self.fnode = n
        if fact[0].is_linear_int():
            self.lin.add(fact)

    def assume(self, cond):
        """Adds a condition (fork on disjunctions)."""
        if not as_bool(cond):
            raise Abandon()

    def choose(self, n, label=''):
        """Nondeterministic choice among n alternatives (all feasible as far as we know)."""
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
            self.pos += 1
            return v
        for k in range(n - 1, 0, -1):
            self.pending.append(self.trace[:self.pos] + [k])
        self.trace.append(0)
        self.pos += 1
        return 0

    def pick(self, alts):
        """Choose among alternatives given as fact tuples; infeasible ones are pruned."""
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
            self.pos += 1
        else:
            ok = [i for i, fs in enumerate(alts) if self.feasible(fs)]
            if not ok:
                raise Abandon()
            for k in reversed(ok[1:]):
                self.pending.append(self.trace[:self.pos] + [k])
            v = ok[0]
            self.trace.append(v)
            self.pos += 1
        for f in alts[v]:
            self.add(f)
        return v

    def feasible(self, fs):
        new = []
        for f in fs:
            t = const_truth(f)
            if t is False:
                return False
            if t is None:
                if f in self.factset:
                    continue
                for n in neg_fact(f):
                    if n in self.factset:
                        if len(neg_fact(f)) == 1:
                            return False
                new.append(f)
        if not new:
            return True
        if all(f[0].is_linear_int() for f in new):
            for f in new:
                ng = neg_fact(f)
                if len(ng) == 1 and self.lin.entails(ng[0]):
                    return False
                if len(ng) == 2 and f[1] == '=' and (self.lin.entails(ng[0]) or self.lin.entails(ng[1])):
                    return False
            return True
        k = (self.fnode, 'f', tuple(new))
        r = self.qcache.get(k)
        if r is None:
            r = self.qcache[k] = Query(self.facts + new).run(1) is not True
        return r

    def decide(self, p, rel):
        """Truth of p rel 0 on this path, forking when undetermined."""
        t = const_truth((p, rel))
        if t is not None:
            return t
        k = (p, rel)
        v = self.cond_memo.get(k)
        if v is None:
            if rel == '!=':
                v = not self.decide(p, '=')
            elif rel == '=':
                v = self.pick([[(p, '=')], [(p, '>')], [(-p, '>')]]) == 0
            else:
                v = self.pick([[(p, rel)], [neg_fact((p, rel))[0]]]) == 0
            self.cond_memo[k] = v
        return v

    def entails(self, p, rel, stage=2):
        t = const_truth((p, rel))
        if t is not None:
            return t
        if (p, rel) in self.factset:
            return True
        if p.is_linear_int():
            if rel == '=':
                return self.lin.entails((p, '>=')) and self.lin.entails((-p, '>='))
            if self.lin.entails((p, rel)):
                return True
        k = (self.fnode, p, rel, stage)
        v = self.qcache.get(k)
        if v is None:
            v = prove(self.facts, (p, rel), (), stage)[0] is True
            self.qcache[k] = v
        return v

    # -- obligations -----------------------------------------------------------------------------
    def prove(self, p, rel, label, alternatives=()):
        if self.skip is not None and self.skip(label):
            return True         # a postcondition that this property does not need and no other task assumes
        k = (self.fnode, 'p', p, rel, tuple(alternatives))
        if k in self.qcache:
            self.obligations.append(Obligation(self.name, label, True))
            return True
        r, q = prove(self.facts, (p, rel), alternatives)
        ok = r is True
        if ok:
            self.qcache[k] = True
        detail, hints = '', None
        if not ok:
            hints = self.hints(q)
            detail = "%s: goal %s %s 0 not entailed; path facts: %s" % (
                'refuted by the solver model (candidate)' if r is False else 'solver unknown', p, rel,
                '; '.join('%s %s 0' % f for f in self.facts[-14:]))
        self.obligations.append(Obligation(self.name, label, ok, detail, hints))
        return ok

    def check(self, cond, label, detail=''):
        """Structural obligation: cond holds, or the path is infeasible (then it is abandoned)."""
        if cond:
            self.obligations.append(Obligation(self.name, label, True))
            return True
        q = Query(self.facts)
        if q.run(3) is True:
            self.obligations.append(Obligation(self.name, label, True))
            raise Abandon()
        self.obligations.append(Obligation(self.name, label, False, (detail or 'structural check failed') + '; path facts: ' + '; '.join('%s %s 0' % f for f in self.facts[-14:]), self.hints(q)))
        return False

    def unreachable(self, label, detail=''):
        """Obligation: the current path is infeasible."""
        q = Query(self.facts)
        ok = q.run(3) is True
        self.obligations.append(Obligation(self.name, label, ok, '' if ok else detail, None if ok else self.hints(q)))
        return ok

    def hints(self, q):
        """Candidate values for the named symbols, from the solver's model of the failed goal."""
        try:
            if q is None:
                return None
            vals = q.model_values()
            return {s.name: (int(v) if v.denominator == 1 else float(v)) for s, v in vals.items() if s.kind == 'var'}
        except Exception:
            return None

    def witness(self):
        if self.next_witness >= self.tracked:
            raise NeedWitness()
        i = self.next_witness
        self.next_witness += 1
        return i

    # -- arithmetic helpers ---------------------------------------------------------------------
    def exp_nonneg(self, ex, j=0):
        return self.lin.entails((exp_poly(ex) - j, '>=')) if ex else j <= 0

    def is_integral(self, mono, c):
        ex, at = mono
        if any(not s.is_int for s in at):
            return False
        d = c.denominator
        j = d.bit_length() - 1
        if d != (1 << j):
            return False
        return self.exp_nonneg(ex, j)

    def floor(self, t):
        """floor(t) with monomials that are integers on this path pulled out."""
        inner, outer = {}, {}
        for k, c in t.d.items():
            (outer if self.is_integral(k, c) else inner)[k] = c
        o = Poly(outer)
        if not inner:
            return o
        i = Poly(inner)
        if i.is_const():
            c = i.const_value()
            return o + (c.numerator // c.denominator)
        return o + self.floor_norm(i)

    def floor_norm(self, i):
        """floor(i); uses floor(2t) = floor(t) + floor(t + 1/2) to normalize even coefficients."""
        v = None
        for k, c in i.d.items():
            if k != ((), ()):
                n, d = abs(c.numerator), c.denominator
                w = (n & -n).bit_length() - (d & -d).bit_length()
                v = w if v is None else min(v, w)
        if v in (1, 2):
            h = i * HALF
            return self.floor(h) + self.floor(h + HALF)
        return floor_poly(i)

    def known_int(self, p):
        return all(self.is_integral(k, c) for k, c in p.d.items())

    def grid(self, p):
        """Exponent e (a Poly) such that p is an integer multiple of 2**e on this path, or None."""
        cands = []
        for (ex, at), c in p.d.items():
            if any(not s.is_int for s in at):
                return None
            j = c.denominator.bit_length() - 1
            if c.denominator != (1 << j):
                return None
            # pull powers of two of the numerator out as well
            n = c.numerator
            z = (n & -n).bit_length() - 1
            cands.append(exp_poly(ex) - j + z)
        best = None
        for e in cands:
            if all(o is e or self.lin.entails((o - e, '>=')) for o in cands):
                return e
        # a mixed grid: use min when all comparisons are against constants
        return best

    def double_atom(self, a):
        """Is the atom's value a double?  (floor of a scaled double is one: at most 53 significant bits remain.)"""
        if a in self.double_atoms:
            return True
        if a.kind == 'floor' and len(a.args[0].d) == 1:
            ((ex, at), c), = a.args[0].d.items()
            return pow2_exponent(abs(c)) is not None and len(at) == 1 and self.double_atom(at[0])
        return False

    def representable(self, p):
        """Is p exactly representable as a double (given that exponents do not overflow)?"""
        if not p.d:
            return True
        if p.is_const():
            c = p.const_value()
            try:
                return Fraction(float(c)) == c
            except OverflowError:
                return False
        if len(p.d) == 1:
            ((ex, at), c), = p.d.items()
            n = abs(c.numerator)
            d = c.denominator
            if d & (d - 1) == 0 and n & (n - 1) == 0 and (not at or (len(at) == 1 and self.double_atom(at[0]))):
                return True
            if not at and d & (d - 1) == 0 and n < 2 ** 53:
                return True
        if len(p.d) == 2 and self.double_remainder(p):
            return True
        e = self.grid(p)
        if e is None:
            return False
        lim = Poly.pow2(e + 53)
        return self.entails(lim - p, '>=') and self.entails(lim + p, '>=')

    def double_remainder(self, p):
        """Is p = +-(x - m*floor(x/m)) with x a scaled double, m a power of two, and x >= 0 or |x| >= m?
        (All bits of the remainder are then bits of x, or lie between m and a unit in x's last place: at most 53.)"""
        for k, c in p.d.items():
            if len(k[1]) == 1 and k[1][0].kind == 'floor' and pow2_exponent(abs(c)) is not None:
                m = Poly({(k[0], ()): abs(c)})
                x = (p - Poly({k: c})) * (-1 if c > 0 else 1)
                if len(x.d) == 1 and k[1][0].args[0] == x * m.inverse_monomial():
                    ((_, at1), c1), = x.d.items()
                    if pow2_exponent(abs(c1)) is not None and len(at1) == 1 and self.double_atom(at1[0]):
                        return self.decide(x, '>=') or self.decide(-x - m, '>=')
        return False

    def merge_floors(self, p):
        """Rewrite floor(floor(t) / n) to floor(t / n) for integers n > 0."""
        r = ZERO
        for (ex, at), c in p.d.items():
            m = Poly({(ex, ()): c})
            for a in at:
                q = Poly.var(a)
                if a.kind == 'floor' and len(a.args[0].d) == 1:
                    ((ex1, at1), c1), = a.args[0].d.items()
                    if not ex1 and len(at1) == 1 and at1[0].kind == 'floor' and c1 > 0 and c1.numerator == 1:
                        q = self.floor(at1[0].args[0] * c1)
                m = m * q
            r = r + m
        return r

    def fl_pow2_sum(self, p):
        """Nearest double of 2**u +- 2**v (up to sign): exact up to 53 bits, else the larger power (ties to even)."""
        if len(p.d) != 2 or any(at or pow2_exponent(abs(c)) is None for (ex, at), c in p.d.items()):
            return None
        ts = [Poly({k: c}) for k, c in p.d.items()]
        e = [exp_poly(ex) + pow2_exponent(abs(c)) for (ex, at), c in p.d.items()]
        i = 0 if self.decide(e[0] - e[1], '>=') else 1
        d = e[i] - e[1 - i]
        cs = list(p.d.values())
        lim = 53 if (cs[0] > 0) == (cs[1] > 0) else 54
        return ts[i] if self.decide(d - lim, '>=') else p

    def fl(self, p, np=False):
        """The double nearest to p."""
        p = rewrite_real(p)
        if self.representable(p):
            return mk_flt(p, np)
        if p.is_const():
            return mk_flt(Poly.const(Fraction(float(p.const_value()))), np)
        q = self.fl_pow2_sum(p)
        if q is not None:
            return mk_flt(q, np)
        q = self.merge_floors(p)
        if q != p and self.representable(q):
            return mk_flt(q, np)
        self.notes.append("result of a floating-point operation may be inexact: %s" % p)
        s = opaque_sym('FL', (p,), False)
        self.double_atoms.add(s)
        return mk_flt(Poly.var(s), np)


def ctx():
    if CTX is None:
        raise RuntimeError("no verification context")
    return CTX


# ---------------------------------------------------------------------------------------------------
# scalars
# ---------------------------------------------------------------------------------------------------
def mk_int(p, np=None):
    if p.is_const() and np is None:
        c = p.const_value()
        assert c.denominator == 1
        return int(c)
    return SInt(p, np)


def mk_flt(p, np=False):
    return SFlt(p, np)


def P(x):
    """Poly of a numeric scalar."""
    if isinstance(x, (SInt, SFlt)):
        return x.p
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, int):
        return Poly.const(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported("non-finite float")
        return Poly.const(Fraction(x))
    if isinstance(x, SBool):
        return Poly.const(1 if as_bool(x) else 0)
    raise Unsupported("not a number: %r" % (type(x).__name__,))


def is_int(x):
    return isinstance(x, (int, SInt)) or isinstance(x, SBool)


def is_flt(x):
    return isinstance(x, (float, SFlt))


def is_num(x):
    return isinstance(x, (int, float, SInt, SFlt, SBool))


def as_bool(x):
    if isinstance(x, SBool):
        return bool(x)
    return bool(x)


def to_flt_poly(x):
    """Poly of the double obtained by converting a scalar to float (rounding when needed)."""
    if is_flt(x):
        return rewrite_real(P(x))
    p = P(x)
    return P(ctx().fl(p))


def lift(f):
    """Binary operator wrapper: defer to the other operand when it is not a plain scalar."""
    def g(self, o):
        if not is_num(o):
            return NotImplemented
        return f(self, o)
    return g


class Scalar:
    def __hash__(self):
        return hash(self.p)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def cmp(self, o, rel, swap=False):
        a, b = (self, o)
        if (is_flt(a) or is_flt(b)) and (getattr(a, 'np', None) or getattr(b, 'np', None) or (is_flt(a) and is_flt(b))):
            d = to_flt_poly(a) - to_flt_poly(b)
        else:
            d = P(a) - P(b)
        npf = getattr(self, 'np', None) or getattr(o, 'np', None)
        return mk_bool(('atom', d, rel) if not swap else ('atom', -d, rel), bool(npf))

    def __lt__(self, o):
        return self.cmp(o, '>', True) if is_num(o) else NotImplemented

    def __gt__(self, o):
        return self.cmp(o, '>') if is_num(o) else NotImplemented

    def __le__(self, o):
        return self.cmp(o, '>=', True) if is_num(o) else NotImplemented

    def __ge__(self, o):
        return self.cmp(o, '>=') if is_num(o) else NotImplemented

    def __eq__(self, o):
        return self.cmp(o, '=') if is_num(o) else NotImplemented

    def __ne__(self, o):
        return self.cmp(o, '!=') if is_num(o) else NotImplemented

    def __bool__(self):
        return ctx().decide(self.p, '!=')

    def __repr__(self):
        return "<%s>" % self.p

    def __str__(self):
        r = getattr(ctx(), 'render', None)
        return r(self) if r else repr(self)

    def __format__(self, spec):
        r = getattr(ctx(), 'render', None)
        if r:
            if spec not in ('', 'd'):
                raise Unsupported('format specification %r' % spec)
            return r(self)
        return repr(self)

    def __pos__(self):
        return self

    # numpy scalar interface
    @property
    def dtype(self):
        from .npshim import DT
        if self.np:
            return DT(self.np if isinstance(self.np, str) else 'f8')
        raise AttributeError('dtype')

    def _npattr(self, name):
        if not self.np:
            raise AttributeError(name)

    @property
    def shape(self):
        self._npattr('shape')
        return ()

    @property
    def ndim(self):
        self._npattr('ndim')
        return 0

    @property
    def size(self):
        self._npattr('size')
        return 1

    @property
    def T(self):
        self._npattr('T')
        return self

    @property
    def flat(self):
        self._npattr('flat')
        from .npshim import asarr
        return asarr(self).flat

    def copy(self):
        self._npattr('copy')
        return self

    def item(self):
        self._npattr('item')
        return SFlt(self.p) if isinstance(self, SFlt) else mk_int(self.p)

    def astype(self, dt, copy=True):
        self._npattr('astype')
        from .npshim import asarr, scalarize
        return scalarize(asarr(self).astype(dt))

    def __getitem__(self, k):
        if not self.np:
            raise TypeError("object is not subscriptable")
        from .npshim import asarr
        return asarr(self)[k]

    def _reduce(self, name, *a, **k):
        self._npattr(name)
        from . import npshim
        return getattr(npshim.NP, name)(self, *a, **k)

    def max(self, *a, **k):
        return self._reduce('max', *a, **k)

    def min(self, *a, **k):
        return self._reduce('min', *a, **k)

    def any(self, *a, **k):
        return self._reduce('any', *a, **k)

    def all(self, *a, **k):
        return self._reduce('all', *a, **k)

    def round(self, *a):
        return self._reduce('round', *a)

    def reshape(self, *a, **k):
        self._npattr('reshape')
        from .npshim import asarr
        return asarr(self).reshape(*a, **k)


def pow2_exponent(c):
    """k with c == 2**k for a positive rational c, else None."""
    c = Fraction(c)
    if c <= 0:
        return None
    n, d = c.numerator, c.denominator
    if n & (n - 1) or d & (d - 1):
        return None
    return (n.bit_length() - 1) - (d.bit_length() - 1)


def pow_poly(base, e):
    k = pow2_exponent(base)
    if k is None:
        raise Unsupported("power with base %s" % base)
    return Poly.pow2(e * k)


def np_of(a, b):
    """numpy-ness of an int result."""
    x = getattr(a, 'np', None)
    y = getattr(b, 'np', None)
    if x and y and x != y:
        raise Unsupported("mixed numpy integer types")
    return x or y


def np_range(p, dt, what='integer operation', python=False):
    """p must fit the numpy integer type dt (numpy wraps silently; a Python int operand raises OverflowError)."""
    lo, hi = (0, 2 ** 64 - 1) if dt == 'u8' else (-2 ** 63, 2 ** 63 - 1)
    c = ctx()
    if p.is_const() and python and not lo <= p.const_value() <= hi:
        raise OverflowError("Python int too large to convert to C long")
    if p.is_const() and lo <= p.const_value() <= hi:
        return
    if not (c.entails(p - lo, '>=') and c.entails(Poly.const(hi) - p, '>=')):
        c.check(False, '%s integer conversion/operation stays in range' % ('uint64' if dt == 'u8' else 'int64'), what + ': %s' % p)
        raise Abandon()


def np_int(p, k, *ops):
    """Integer result of an operation; k: numpy type or None."""
    if k:
        for o in ops:
            if not getattr(o, 'np', None) and not isinstance(o, bool):
                np_range(P(o), k, 'operand', True)
        np_range(p, k)
    return mk_int(p, k)


def div_inverse(p):
    inv = p.inverse_monomial()
    if inv is None:
        if p.is_const():
            c = p.const_value()
            if c == 0:
                raise ZeroDivisionError()
            return Poly.const(1 / c)
        raise Unsupported("division by %s" % p)
    return inv


class SInt(Scalar):
    """A Python int (np None) or numpy integer scalar (np = 'i8' / 'u8')."""
    __slots__ = ('p', 'np')

    def __init__(self, p, np=None):
        self.p = p
        self.np = np

    def _r(self, p, o):
        return np_int(p, np_of(self, o), self, o)

    def _flt(self, o):
        return is_flt(o)

    def __add__(self, o):
        if not is_num(o):
            return NotImplemented
        if is_flt(o):
            return SFlt.of(self, o).__add__(o)
        return self._r(self.p + P(o), o)
    __radd__ = __add__

    def __sub__(self, o):
        if not is_num(o):
            return NotImplemented
        if is_flt(o):
            return SFlt.of(self, o).__sub__(o)
        return self._r(self.p - P(o), o)

    def __rsub__(self, o):
        if not is_num(o):
            return NotImplemented
        if is_flt(o):
            return SFlt.of(self, o).__rsub__(o)
        return self._r(P(o) - self.p, o)

    def __mul__(self, o):
        if not is_num(o):
            return NotImplemented
        if is_flt(o):
            return SFlt.of(self, o).__mul__(o)
        return self._r(self.p * P(o), o)
    __rmul__ = __mul__

    def __neg__(self):
        return np_int(-self.p, self.np)

    def __invert__(self):
        return mk_int(-self.p + (2 ** 64 - 1 if self.np == 'u8' else -1), self.np)

    def __abs__(self):
        return self if ctx().decide(self.p, '>=') else -self

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        if is_flt(o):
            return SFlt.of(self, o).__truediv__(o)
        if self.np or getattr(o, 'np', None):
            return SFlt(to_flt_poly(self), True).__truediv__(SFlt(to_flt_poly(o), True))
        inv = div_inverse(P(o))
        return ctx().fl(self.p * inv)

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        if is_flt(o):
            return SFlt.of(self, o).__rtruediv__(o)
        if self.np or getattr(o, 'np', None):
            return SFlt(to_flt_poly(o), True).__truediv__(SFlt(to_flt_poly(self), True))
        return ctx().fl(P(o) * div_inverse(self.p))

    def _nz(self, d, o):
        if (self.np or getattr(o, 'np', None)) and P(d).is_const() and P(d).const_value() == 0:
            raise Unsupported("division of a numpy integer by zero")

    def __floordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        if is_flt(o):
            return SFlt.of(self, o).__floordiv__(o)
        self._nz(o, o)
        return self._r(ctx().floor(self.p * div_inverse(P(o))), o)

    def __rfloordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        if is_flt(o):
            return SFlt.of(self, o).__rfloordiv__(o)
        self._nz(self, o)
        return self._r(ctx().floor(P(o) * div_inverse(self.p)), o)

    def __mod__(self, o):
        if not is_num(o):
            return NotImplemented
        if is_flt(o):
            return SFlt.of(self, o).__mod__(o)
        self._nz(o, o)
        m = P(o)
        c = ctx()
        if c.split_mod and not m.is_const() and c.entails(m - 1 - self.p, '>=') and c.entails(self.p + m, '>='):
            # a dividend of at most one period around zero: case split on its sign
            return self._r(self.p if c.decide(self.p, '>=') else self.p + m, o)
        return self._r(self.p - m * c.floor(self.p * div_inverse(m)), o)

    def __rmod__(self, o):
        if not is_num(o):
            return NotImplemented
        if is_flt(o):
            return SFlt.of(self, o).__rmod__(o)
        self._nz(self, o)
        m = self.p
        p = P(o)
        return self._r(p - m * ctx().floor(p * div_inverse(m)), o)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if not is_num(o):
            return NotImplemented
        if is_flt(o):
            return SFlt.of(self, o).__pow__(o)
        q = P(o)
        if q.is_const() and 0 <= q.const_value() <= 4:
            r = ONE
            for _ in range(int(q.const_value())):
                r = r * self.p
            return self._r(r, o)
        # base must be a pure power of two
        if len(self.p.d) == 1:
            ((ex, at), c), = self.p.d.items()
            if not at and not ex:
                return int_pow(int(c), o)
        raise Unsupported("power %s ** %s" % (self.p, q))

    def __rpow__(self, o):
        if not is_num(o):
            return NotImplemented
        if is_flt(o):
            return SFlt(P(o), bool(getattr(o, 'np', False)) or bool(self.np)).__pow__(self)
        return int_pow(int(P(o).const_value()) if P(o).is_const() else None, self)

    def __rshift__(self, o):
        if not is_int(o):
            return NotImplemented
        return shift_right(self, o)

    def __rrshift__(self, o):
        if not is_int(o):
            return NotImplemented
        return shift_right(o, self)

    def __lshift__(self, o):
        if not is_int(o):
            return NotImplemented
        return shift_left(self, o)

    def __rlshift__(self, o):
        if not is_int(o):
            return NotImplemented
        return shift_left(o, self)

    def __and__(self, o):
        if not is_int(o):
            return NotImplemented
        a, b = self.p, P(o)
        for x, y in ((a, b), (b, a)):
            # x & (2**k - 1) = x mod 2**k
            m = (y + 1)
            if len(m.d) == 1:
                ((ex, at), c), = m.d.items()
                if not at and pow2_exponent(c) is not None and ctx().is_integral((ex, at), c):
                    return self._r(x - m * ctx().floor(x * m.inverse_monomial()), o)
        raise Unsupported("bitwise and")
    __rand__ = __and__

    def __or__(self, o):
        raise Unsupported("bitwise or")
    __ror__ = __or__

    def __xor__(self, o):
        raise Unsupported("bitwise xor")
    __rxor__ = __xor__

    def __index__(self):
        if self.p.is_const():
            return int(self.p.const_value())
        raise Unsupported("symbolic integer used as an index")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("float() of a symbolic integer outside the shim")

    def __round__(self, n=None):
        return mk_int(self.p) if n is None else self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    def bit_length(self):
        raise Unsupported("bit_length")


def int_pow(base, e):
    """int ** int: a float when the exponent is negative."""
    q = P(e)
    npk = getattr(e, 'np', None)
    if base is None:
        raise Unsupported("symbolic base")
    if npk and not isinstance(base, int):
        raise Unsupported("numpy integer power")
    if ctx().decide(q, '>='):
        return np_int(pow_poly(base, q), npk, base)
    if npk:
        raise ValueError("Integers to negative integer powers are not allowed.")
    return mk_flt(pow_poly(base, q))


def shift_right(a, n):
    q = P(n)
    k = np_of(a, n)
    if not ctx().decide(q, '>='):
        if k:
            raise Unsupported("negative shift count of a numpy integer")
        raise ValueError("negative shift count")
    return np_int(ctx().floor(P(a) * Poly.pow2(-q)), k, a, n)


def shift_left(a, n):
    q = P(n)
    k = np_of(a, n)
    if not ctx().decide(q, '>='):
        if k:
            raise Unsupported("negative shift count of a numpy integer")
        raise ValueError("negative shift count")
    return np_int(P(a) * Poly.pow2(q), k, a, n)


class SFlt(Scalar):
    """A double (np True: numpy.float64)."""
    __slots__ = ('p', 'np')

    def __init__(self, p, np=False):
        self.p = p
        self.np = bool(np)

    @staticmethod
    def of(x, o=None):
        return SFlt(to_flt_poly(x), bool(getattr(x, 'np', False)) or bool(getattr(o, 'np', False)))

    def _np(self, o):
        return self.np or bool(getattr(o, 'np', False))

    def _op(self, o, p):
        return ctx().fl(p, self._np(o))

    @lift
    def __add__(self, o):
        return self._op(o, self.p + to_flt_poly(o))
    __radd__ = __add__

    @lift
    def __sub__(self, o):
        return self._op(o, self.p - to_flt_poly(o))

    @lift
    def __rsub__(self, o):
        return self._op(o, to_flt_poly(o) - self.p)

    @lift
    def __mul__(self, o):
        q = to_flt_poly(o)
        return self._op(o, self.p * q) if not (is_scale(q) or is_scale(self.p)) else SFlt(self.p * q, self._np(o))
    __rmul__ = __mul__

    @lift
    def __truediv__(self, o):
        q = to_flt_poly(o)
        if q.is_const() and q.const_value() == 0:
            raise Unsupported("division by zero")
        inv = div_inverse(q)
        return SFlt(self.p * inv, self._np(o)) if is_scale(q) else self._op(o, self.p * inv)

    @lift
    def __rtruediv__(self, o):
        return SFlt(to_flt_poly(o), self._np(o)).__truediv__(self)

    @lift
    def __mod__(self, o):
        m = to_flt_poly(o)
        if not is_scale(m):
            raise Unsupported("float modulo by %s" % m)
        if (m.d and list(m.d.values())[0] < 0):
            raise Unsupported("float modulo by a negative number")
        q = ctx().floor(self.p * m.inverse_monomial())
        return self._op(o, self.p - m * q)

    @lift
    def __rmod__(self, o):
        return SFlt(to_flt_poly(o), self._np(o)).__mod__(self)

    @lift
    def __floordiv__(self, o):
        m = to_flt_poly(o)
        if not is_scale(m):
            raise Unsupported("float floor division by %s" % m)
        return self._op(o, ctx().floor(self.p * m.inverse_monomial()))

    @lift
    def __rfloordiv__(self, o):
        return SFlt(to_flt_poly(o), self._np(o)).__floordiv__(self)

    def __pow__(self, o):
        if not is_num(o):
            return NotImplemented
        if self.p.is_const() and pow2_exponent(self.p.const_value()) is not None:
            e = P(o)
            return SFlt(pow_poly(self.p.const_value(), e), self._np(o))
        q = P(o)
        if q.is_const() and q.const_value() in (1, 2):
            return self if q.const_value() == 1 else self * self
        raise Unsupported("float power")

    def __rpow__(self, o):
        if not is_num(o):
            return NotImplemented
        return SFlt(to_flt_poly(o), self._np(o)).__pow__(self)

    def __neg__(self):
        return SFlt(-self.p, self.np)

    def __abs__(self):
        return self if ctx().decide(self.p, '>=') else -self

    def __float__(self):
        raise Unsupported("float() of a symbolic float outside the shim")

    def __int__(self):
        raise Unsupported("int() of a symbolic float outside the shim")

    def is_integer(self):
        return mk_bool(('atom', self.p - flt_floor(self.p), '='), False)

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round with digits")
        return mk_int(round_even(self.p))

    def __floor__(self):
        return mk_int(flt_floor(self.p))

    def __ceil__(self):
        return mk_int(-flt_floor(-self.p))

    def __trunc__(self):
        return mk_int(flt_trunc(self.p))


def is_scale(p):
    """Signed power of two (no atoms): multiplication by it is exact."""
    if len(p.d) != 1:
        return False
    ((ex, at), c), = p.d.items()
    return not at and pow2_exponent(abs(c)) is not None


def has_real(p):
    return any(not s.is_int for (ex, at) in p.d for s in at)


def rewrite_real(p):
    """Replace double atoms already known to be (scaled) integers on this path."""
    rw = ctx().rewrites
    if not rw or not has_real(p):
        return p
    out = ZERO
    for (ex, at), c in p.d.items():
        t = None
        for (at0, ex0, c0, q) in rw:
            if at0 == at:
                t = q * (c / c0) * Poly({(diff(ex, ex0), ()): Fraction(1)})
                break
        out = out + (t if t is not None else Poly({(ex, at): c}))
    return out


def flt_floor(p):
    """floor of a double value; a double of magnitude >= 2**52 is an integer, >= 2**54 a multiple of 4."""
    c = ctx()
    p = rewrite_real(p)
    if has_real(p):
        for lim, unit in ((2 ** 54, 4), (2 ** 52, 1)):
            big = Poly.const(lim)
            if c.decide(p - big, '>=') or c.decide(-big - p, '>='):
                return int_real(p, unit)
    return c.floor(p)


def int_real(p, unit):
    """p is known to be a multiple of unit: name the quotient by an integer symbol."""
    c = ctx()
    s = opaque_sym('int', (p * Fraction(1, unit),), True, facts=lambda v, a: [(v - a[0], '=')])
    c.double_atoms.add(s)
    q = Poly.var(s) * unit
    if len(p.d) == 1:
        ((ex, at), k), = p.d.items()
        c.rewrites.append((at, ex, k, q))
    return q


def flt_trunc(p):
    if ctx().known_int(p):
        return p
    return flt_floor(p) if ctx().decide(p, '>=') else -flt_floor(-p)


def round_even(p):
    """Nearest integer, ties to even (Python round, np.round)."""
    c = ctx()
    if c.known_int(p):
        return p
    f = flt_floor(p)
    d = p - f
    half = Poly.const(Fraction(1, 2))
    if c.decide(half - d, '>'):
        return f
    if c.decide(d - half, '>'):
        return f + 1
    par = f - 2 * c.floor(f * Fraction(1, 2))
    return f if c.decide(par, '=') else f + 1


# ---------------------------------------------------------------------------------------------------
# booleans
# ---------------------------------------------------------------------------------------------------
def mk_bool(t, np):
    if t[0] == 'atom':
        v = const_truth((t[1], t[2]))
        if v is not None and not np:
            return v
    return SBool(t, np)


class SBool:
    """Boolean expression over facts; evaluated lazily (forking) when branched on."""
    __slots__ = ('t', 'np')

    def __init__(self, t, np=False):
        self.t = t
        self.np = np

    def __bool__(self):
        return eval_bool(self.t)

    def _c(self, o, op):
        if isinstance(o, SBool):
            return SBool((op, self.t, o.t), self.np or o.np)
        if isinstance(o, bool):
            return SBool((op, self.t, ('const', o)), self.np)
        if is_num(o):
            return self._b(op, o) if self._isnp(o) else (self._i() & o if op == 'and' else self._i() | o)
        return NotImplemented

    def __and__(self, o):
        return self._c(o, 'and')
    __rand__ = __and__

    def __or__(self, o):
        return self._c(o, 'or')
    __ror__ = __or__

    def __xor__(self, o):
        return SBool(('const', bool(self) != bool(o)), self.np)
    __rxor__ = __xor__

    def __invert__(self):
        if not self.np:
            raise Unsupported("~ on a Python bool")
        return SBool(('not', self.t), self.np)

    def _b(self, name, o, swap=False):
        """Operation of a numpy bool scalar (goes through the array rules)."""
        if not is_num(o):
            return NotImplemented
        from .npshim import binop
        return binop(name, o, self) if swap else binop(name, self, o)

    def _isnp(self, o):
        return bool(self.np or getattr(o, 'np', None))

    def __eq__(self, o):
        if self._isnp(o):
            return self._b('eq', o)
        if isinstance(o, (SBool, bool)):
            return bool(self) == bool(o)
        if is_num(o):
            return SInt(P(self)) == o
        return NotImplemented

    def __ne__(self, o):
        if self._isnp(o):
            return self._b('ne', o)
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return self._b('lt', o) if self._isnp(o) else SInt(P(self)) < o

    def __le__(self, o):
        return self._b('le', o) if self._isnp(o) else SInt(P(self)) <= o

    def __gt__(self, o):
        return self._b('gt', o) if self._isnp(o) else SInt(P(self)) > o

    def __ge__(self, o):
        return self._b('ge', o) if self._isnp(o) else SInt(P(self)) >= o

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return 1 if bool(self) else 0

    def __abs__(self):
        if self.np:
            return self
        return self._i()

    def __pos__(self):
        if self.np:
            raise TypeError("ufunc 'positive' not supported")
        return self._i()

    def __getitem__(self, k):
        if self.np:
            raise IndexError("invalid index to scalar variable.")
        raise TypeError("object is not subscriptable")

    def __add__(self, o):
        return self._b('add', o) if self._isnp(o) else self._i() + o

    def __radd__(self, o):
        return self._b('add', o, True) if self._isnp(o) else o + self._i()

    def __sub__(self, o):
        return self._b('sub', o) if self._isnp(o) else self._i() - o

    def __rsub__(self, o):
        return self._b('sub', o, True) if self._isnp(o) else o - self._i()

    def __mul__(self, o):
        return self._b('mul', o) if self._isnp(o) else self._i() * o

    def __rmul__(self, o):
        return self._b('mul', o, True) if self._isnp(o) else o * self._i()

    def __truediv__(self, o):
        return self._b('truediv', o) if self._isnp(o) else self._i() / o

    def __rtruediv__(self, o):
        return self._b('truediv', o, True) if self._isnp(o) else o / self._i()

    def __floordiv__(self, o):
        return self._b('floordiv', o) if self._isnp(o) else self._i() // o

    def __rfloordiv__(self, o):
        return self._b('floordiv', o, True) if self._isnp(o) else o // self._i()

    def __mod__(self, o):
        return self._b('mod', o) if self._isnp(o) else self._i() % o

    def __rmod__(self, o):
        return self._b('mod', o, True) if self._isnp(o) else o % self._i()

    def __rshift__(self, o):
        return self._b('rshift', o) if self._isnp(o) else self._i() >> o

    def __rrshift__(self, o):
        return self._b('rshift', o, True) if self._isnp(o) else o >> self._i()

    def __lshift__(self, o):
        return self._b('lshift', o) if self._isnp(o) else self._i() << o

    def __rlshift__(self, o):
        return self._b('lshift', o, True) if self._isnp(o) else o << self._i()

    def __pow__(self, o):
        return self._b('pow', o) if self._isnp(o) else self._i() ** o

    def __rpow__(self, o):
        return self._b('pow', o, True) if self._isnp(o) else o ** self._i()

    def __index__(self):
        return self._i()
    __int__ = __index__

    def __repr__(self):
        return "<bool>"

    def copy(self):
        return self

    def astype(self, dt, copy=True):
        from .npshim import asarr, scalarize
        return scalarize(asarr(self).astype(dt))

    @property
    def dtype(self):
        from .npshim import DT
        if not self.np:
            raise AttributeError('dtype')
        return DT('b')

    @property
    def shape(self):
        if not self.np:
            raise AttributeError('shape')
        return ()
    ndim = property(lambda self: len(self.shape))

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return SBool(self.t)


def eval_bool(t):
    op = t[0]
    if op == 'const':
        return t[1]
    if op == 'atom':
        return ctx().decide(t[1], t[2])
    if op == 'and':
        return eval_bool(t[1]) and eval_bool(t[2])
    if op == 'or':
        return eval_bool(t[1]) or eval_bool(t[2])
    if op == 'not':
        return not eval_bool(t[1])
    raise ValueError(op)


# ---------------------------------------------------------------------------------------------------
# symbolic enum members (modes)
# ---------------------------------------------------------------------------------------------------
class SMode:
    """A symbolic member of an Enum; comparisons split the remaining set."""

    def __init__(self, cls, name):
        self.cls, self.name_ = cls, name

    def remaining(self):
        c = ctx()
        r = c.cond_memo.get(('mode', self.name_))
        if r is None:
            r = c.cond_memo[('mode', self.name_)] = tuple(self.cls)
        return r

    def set(self, r):
        ctx().cond_memo[('mode', self.name_)] = tuple(r)

    def is_(self, m):
        if isinstance(m, SMode):
            return m is self or self.resolve() is m.resolve()
        r = self.remaining()
        if m not in r:
            return False
        if len(r) == 1:
            return True
        if ctx().choose(2) == 0:
            self.set((m,))
            return True
        self.set(x for x in r if x is not m)
        return False

    def resolve(self):
        r = self.remaining()
        if len(r) > 1:
            k = ctx().choose(len(r))
            r = (r[k],)
            self.set(r)
        return r[0]

    def __eq__(self, o):
        if isinstance(o, (self.cls, SMode)):
            return self.is_(o)
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.resolve())

    @property
    def name(self):
        return self.resolve().name

    @property
    def value(self):
        return self.resolve().value

    def __repr__(self):
        return "<mode %s>" % self.name_

    def __str__(self):
        return "<mode %s>" % self.name_

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def vc_is(a, b):
    if isinstance(a, SMode) or isinstance(b, SMode):
        if not isinstance(a, SMode):
            a, b = b, a
        if b is None or not isinstance(b, (a.cls, SMode)):
            return False
        return a.is_(b)
    if isinstance(a, (Scalar, SBool)) and isinstance(b, bool):
        if isinstance(a, SBool) and not a.np:
            return bool(a) is b
        return False
    if isinstance(b, (Scalar, SBool)) and isinstance(a, bool):
        return vc_is(b, a)
    return a is b


def vc_is_not(a, b):
    return not vc_is(a, b)
