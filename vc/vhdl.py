"""Symbolic execution of the VHDL in /repo/hdl on the same arithmetic core as the Python code.

Vectors are (width, representative): an integer congruent to the bit pattern modulo 2**width, so the operators of numeric_std are
exact integer operations.  Elements are '0'/'1' (metavalues are outside the contracts' preconditions).  Run-time errors of VHDL (bounds,
subtype ranges, length mismatches, assertion failures) are raised as VErr; the contracts require them unreachable.
"""
import glob
import os
from fractions import Fraction
from .poly import Poly, Unsupported, ZERO, ONE, opaque_sym
from . import engine as E
from .engine import SInt, SFlt, SBool, SMode, P, mk_int, mk_bool, is_int, is_flt, as_bool
from .vhdl_parse import parse

p2 = Poly.pow2
INT_MIN, INT_MAX = -2 ** 31, 2 ** 31 - 1


class VErr(Exception):
    pass


def err(line, msg):
    raise VErr('line %s: %s' % (line, msg))


# ---------------------------------------------------------------------------------------------------
# types and values
# ---------------------------------------------------------------------------------------------------
class T:
    def __init__(self, k, name='', **kw):
        self.k, self.name = k, name
        self.lo = self.hi = None
        self.__dict__.update(kw)

    def __repr__(self):
        return '<%s %s>' % (self.k, self.name)


INT = T('int', 'integer')
NATURAL = T('int', 'natural', lo=0)
POSITIVE = T('int', 'positive', lo=1)
REAL, BOOL, BIT, CHAR, STR = T('real', 'real'), T('bool', 'boolean'), T('bit', 'std_logic'), T('char', 'character'), T('str', 'string')
VEC = {k: T('vec', n, v=k) for k, n in (('slv', 'std_logic_vector'), ('u', 'unsigned'), ('s', 'signed'))}
BASE = dict(integer=INT, natural=NATURAL, positive=POSITIVE, real=REAL, boolean=BOOL, std_logic=BIT, std_ulogic=BIT, character=CHAR, string=STR,
            std_logic_vector=VEC['slv'], std_ulogic_vector=VEC['slv'], unsigned=VEC['u'], signed=VEC['s'], u_unsigned=VEC['u'], u_signed=VEC['s'],
            unresolved_unsigned=VEC['u'], unresolved_signed=VEC['s'], bit=BIT, bit_vector=VEC['slv'])


class Bit:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p if isinstance(p, Poly) else Poly.const(p)


class Meta:
    """A metavalue element ('U', 'X', ...); only carried around, never computed with."""

    def __init__(self, ch):
        self.ch = ch


class Ch:
    """Character (code: int or Poly); lit: a literal, which may also denote a std_logic value."""
    __slots__ = ('code', 'lit')

    def __init__(self, code, lit=False):
        self.code, self.lit = code, lit


class VStr:
    """String: list of character codes (int or Poly); lit: a literal, which may also denote a vector."""

    def __init__(self, codes, left=1, lit=False):
        self.codes, self.left, self.lit = list(codes), left, lit

    def text(self):
        if any(not isinstance(c, int) for c in self.codes):
            return None
        return ''.join(map(chr, self.codes))


class Vec:
    """k: 'slv', 'u', 's' or None (literal); w: width (Poly); n: representative (Poly); (l, d, r): bounds."""

    def __init__(self, k, w, n, bounds=None):
        self.k = k
        self.w = w if isinstance(w, Poly) else Poly.const(w)
        self.n = n if isinstance(n, Poly) else Poly.const(n)
        self.bounds = bounds or (self.w - 1, 'downto', ZERO)

    def with_(self, k=None, n=None, bounds=None):
        return Vec(k or self.k, self.w, self.n if n is None else n, bounds or self.bounds)


class Elem(Vec):
    """Vector in an arbitrary iteration of an element-wise loop: only element i may be written."""


def assigned(body, out):
    """Names assigned in a statement list."""
    for st in body:
        if isinstance(st, (list, tuple)):
            if st and st[0] == 'assign':
                t = st[1]
                while t[0] != 'name':
                    t = t[1]
                if t[1] not in out:
                    out.append(t[1])
            else:
                assigned(st, out)
    return out


class Rec:
    def __init__(self, t, d):
        self.t, self.d = t, d


class EnumLit:
    def __init__(self, t, name, pos):
        self.t, self.name, self.pos = t, name, pos

    def __repr__(self):
        return self.name


class Agg:
    def __init__(self, items, env, line):
        self.items, self.env, self.line = items, env, line


class SVec:
    """Vector with individually known elements (concrete width), e.g. of metavalues; not arithmetic."""


class Seg:
    pass


def bit_of_char(ch):
    c = ch.code
    if isinstance(c, Poly):
        raise Unsupported('std_logic from a computed character')
    c = chr(c)
    if c in '01':
        return Bit(int(c))
    if c in 'LH':
        return Bit('LH'.index(c))
    if c in 'UXZW-':
        return Meta(c)
    raise Unsupported('std_logic literal %r' % c)


def vec_of_str(s, k):
    t = s.text()
    if t is None or any(c not in '01' for c in t):
        raise Unsupported('vector literal %r' % t)
    return Vec(k, len(t), int(t, 2) if t else 0)


# ---------------------------------------------------------------------------------------------------
# vector interpretation
# ---------------------------------------------------------------------------------------------------
def ge(p):
    """p >= 0 on this path (forks when undetermined)."""
    return E.ctx().decide(p, '>=')


def entails(p, rel='>='):
    c = E.ctx()
    return c.entails(p, rel, 2)


def uval(v):
    """Unsigned value of a vector."""
    c = E.ctx()
    top = p2(v.w)
    if v.w.is_const() and v.w.const_value() == 0:
        return ZERO
    if entails(v.n):
        if entails(top - 1 - v.n):
            return v.n
    k = ('uval', v.n, v.w)
    r = c.cond_memo.get(k)
    if r is None:
        r = c.cond_memo[k] = v.n - top * c.floor(v.n * p2(-v.w))
    return r


def sval(v):
    """Two's complement value of a vector."""
    c = E.ctx()
    if v.w.is_const() and v.w.const_value() == 0:
        return ZERO
    half = p2(v.w - 1)
    if entails(half - 1 - v.n):
        if entails(v.n + half):
            return v.n
    return v.n - 2 * half * c.floor((v.n + half) * p2(-v.w))


def value(v):
    return sval(v) if v.k == 's' else uval(v)


def bit_at(v, pos):
    """Element at distance pos from the LSB."""
    c = E.ctx()
    if entails(pos - v.w + 1, '='):
        half = p2(v.w - 1)
        if entails(v.n + half) and entails(half - 1 - v.n):
            return Bit(0 if ge(v.n) else 1)
        if entails(v.n) and entails(2 * half - 1 - v.n):
            return Bit(1 if ge(v.n - half) else 0)
    return Bit(c.floor(v.n * p2(-pos)) - 2 * c.floor(v.n * p2(-pos - 1)))


def low_bits(n, w):
    """n mod 2**w"""
    return uval(Vec('u', w, n))


def set_slice(v, hi, lo, x):
    """v with the elements at distances hi..lo from the LSB replaced by x (same length)."""
    if hi is lo or hi == lo:
        pass
    top = hi == v.w - 1 or entails(hi - v.w + 1, '=')
    if top:
        base = low_bits(v.n, lo) if v.n.d else ZERO
        n = base + x.n * p2(lo)
    else:
        cur = uval(Vec('u', hi - lo + 1, E.ctx().floor(v.n * p2(-lo))))
        n = v.n + (uval(Vec('u', hi - lo + 1, x.n)) - cur) * p2(lo)
    return v.with_(n=n)


def ext(v, w):
    """Representative of v extended to width w >= v.w."""
    if entails(w - v.w, '='):
        return v.n
    return value(v)


class Env:
    def __init__(self, parent=None):
        self.parent = parent
        self.vars = {}
        self.types = {}
        self.funcs = {}

    def find(self, what, name):
        e = self
        while e is not None:
            d = getattr(e, what)
            if name in d:
                return e, d[name]
            e = e.parent
        return None, None


class Cell:
    __slots__ = ('v', 't', 'cons', 'kind')

    def __init__(self, v, t, cons=None, kind='constant'):
        self.v, self.t, self.cons, self.kind = v, t, cons, kind


class Func:
    def __init__(self, node, env):
        _, self.name, self.params, self.ret, self.decls, self.body, self.line = node
        self.env = env
        self.ptypes = None


class Return(BaseException):
    pass


# ---------------------------------------------------------------------------------------------------
# interpreter
# ---------------------------------------------------------------------------------------------------
class Vhdl:
    def __init__(self, root='/repo/hdl', enums=()):
        self.enums = {}
        for cls in enums:
            for m in cls:
                self.enums[(cls.__name__.lower() + '_t', m.name.lower())] = m
        self.g = Env()
        self.g.types.update(BASE)
        self.ents, self.archs = {}, {}
        self.stubs = {}
        self.depth = 0
        self.overflow = False
        self.pure_cache = {}
        packs = {}
        for f in sorted(glob.glob(os.path.join(root, '*.vhd'))):
            for u in parse(f):
                if u[0] in ('package', 'package_body'):
                    packs.setdefault(u[1], {})[u[0]] = u
                elif u[0] == 'entity':
                    self.ents[u[1]] = u
                else:
                    self.archs[u[2]] = u
        todo = []
        for u in packs.values():
            for part in ('package', 'package_body'):
                if part in u:
                    todo += [(part, d) for d in u[part][2]]
        # types first, then functions (bodies), then constants (lazily, they may call functions)
        self.lazy = {}
        for part, d in todo:
            if d[0] in ('typedef', 'subtype'):
                self.declare_type(d, self.g)
        for part, d in todo:
            if d[0] == 'function' and d[5] is not None:
                self.g.funcs.setdefault(d[1], []).append(Func(d, self.g))
        for part, d in todo:
            if d[0] == 'constant' and d[3] is not None:
                self.lazy[d[1]] = d

    # -- types ----------------------------------------------------------------------------------
    def declare_type(self, d, env):
        if d[0] == 'subtype':
            t, cons = self.type(d[2], env)
            env.types[d[1]] = t if cons is None else T(t.k, d[1], **{k: v for k, v in t.__dict__.items() if k not in ('k', 'name')}) if t.k != 'vec' else t
            return
        name, td = d[1], d[2]
        if td[0] == 'record':
            env.types[name] = T('rec', name, fields=[(n,) + self.type(ty, env) for n, ty in td[1]])
        elif td[0] == 'enum':
            t = env.types[name] = T('enum', name, lits=[])
            for i, l in enumerate(td[1]):
                v = self.enums.get((name, l)) or EnumLit(t, l, i)
                t.lits.append(v)
                env.vars[l] = Cell(v, t)
        elif td[0] == 'array':
            env.types[name] = T('arr', name, elem=td[2])
        elif td[0] == 'rangetype':
            env.types[name] = INT
        else:
            raise Unsupported('type ' + name)

    def type(self, node, env):
        """(T, constraint); constraint: bounds (l, dir, r) of an array, or None."""
        _, name, cons = node
        _, t = env.find('types', name)
        if t is None:
            raise Unsupported('unknown type %s' % name)
        if cons is None:
            return t, None
        if cons[0] == 'range':
            l, d, r = self.range(cons, env)
            lo, hi = (l, r) if d == 'to' else (r, l)
            if t.k != 'int':
                raise Unsupported('range constraint on ' + name)
            return T('int', name, lo=mk_int(lo), hi=mk_int(hi)), None
        b = self.range(('range',) + cons[1:], env)
        return t, b

    def range(self, r, env):
        """Bounds (left, dir, right) as polys."""
        _, a, d, b = r
        if d in ('range', 'reverse_range'):
            v = self.eval(b, env) if not (b[0] == 'name' and env.find('types', b[1])[1] is not None and env.find('vars', b[1])[0] is None) else None
            if isinstance(v, Vec):
                l, dd, rr = v.bounds
            elif isinstance(v, VStr):
                l, dd, rr = Poly.const(v.left), 'to', Poly.const(v.left + len(v.codes) - 1)
            else:
                raise Unsupported('range of %r' % (b,))
            return (l, dd, rr) if d == 'range' else (rr, 'to' if dd == 'downto' else 'downto', l)
        if d == 'type':
            _, t = env.find('types', b[1])
            if t is None or t.k != 'int':
                raise Unsupported('range of type')
            return P(t.lo), 'to', P(t.hi)
        return P(self.int(self.eval(a, env))), d, P(self.int(self.eval(b, env)))

    def int(self, v):
        if not is_int(v) or isinstance(v, bool):
            raise Unsupported('integer expected, got %r' % (v,))
        return v

    # -- coercion -------------------------------------------------------------------------------
    def width_of(self, b):
        l, d, r = b
        w = (l - r if d == 'downto' else r - l) + 1
        return w if ge(w) else ZERO

    def coerce(self, v, t, cons, line, what=''):
        k = t.k
        if k == 'int':
            if not is_int(v):
                raise Unsupported('line %s: integer expected for %s' % (line, what))
            if t.lo is not None and not ge(P(v) - P(t.lo)):
                err(line, 'value of %s below the range of %s' % (what, t.name))
            if t.hi is not None and not ge(P(t.hi) - P(v)):
                err(line, 'value of %s above the range of %s' % (what, t.name))
            return v
        if k == 'vec':
            if isinstance(v, VStr) and v.lit:
                v = vec_of_str(v, t.v)
            if isinstance(v, Agg):
                v = self.agg_vec(v, t, cons)
            if not isinstance(v, Vec):
                raise Unsupported('line %s: vector expected for %s' % (line, what))
            if v.k not in (t.v, None):
                raise Unsupported('line %s: vector type of %s' % (line, what))
            if cons is not None:
                w = self.width_of(cons)
                if not (v.w == w or E.ctx().decide(v.w - w, '=')):
                    err(line, 'length mismatch for %s' % what)
                return Vec(t.v, w, v.n, cons)
            return Vec(t.v, v.w, v.n, v.bounds)
        if k == 'bit':
            if isinstance(v, Ch):
                v = bit_of_char(v)
            if not isinstance(v, (Bit, Meta)):
                raise Unsupported('line %s: std_logic expected for %s' % (line, what))
            return v
        if k == 'bool':
            if not isinstance(v, (bool, SBool)):
                raise Unsupported('line %s: boolean expected for %s' % (line, what))
            return v
        if k == 'real':
            if not is_flt(v):
                raise Unsupported('line %s: real expected for %s' % (line, what))
            return v
        if k == 'char':
            if not isinstance(v, Ch):
                raise Unsupported('line %s: character expected for %s' % (line, what))
            return Ch(v.code)
        if k == 'str':
            if not isinstance(v, VStr):
                raise Unsupported('line %s: string expected for %s' % (line, what))
            if cons is not None:
                n = self.width_of(cons)
                if not n.is_const() or n.const_value() != len(v.codes):
                    if n.is_const():
                        err(line, 'length mismatch for %s' % what)
                    raise Unsupported('string of symbolic length')
                return VStr(v.codes, self.conc(cons[0] if cons[1] == 'to' else cons[2]))
            return VStr(v.codes, v.left)
        if k == 'rec':
            if isinstance(v, Agg):
                v = self.agg_rec(v, t)
            if not isinstance(v, Rec) or v.t.name != t.name:
                raise Unsupported('line %s: record expected for %s' % (line, what))
            return v
        if k == 'enum':
            if isinstance(v, (SMode, EnumLit)) or v in t.lits:
                return v
            raise Unsupported('line %s: enumeration value expected for %s' % (line, what))
        raise Unsupported('line %s: type of %s' % (line, what))

    def conc(self, p):
        p = p if isinstance(p, Poly) else P(p)
        if not p.is_const():
            raise Unsupported('symbolic index where a constant is needed')
        return int(p.const_value())

    def agg_rec(self, a, t):
        d = {}
        i = 0
        for ch, e in a.items:
            names = [t.fields[i][0]] if ch is None else [c[1] if c[0] == 'name' else None for c in ch]
            if ch is None:
                i += 1
            if ch and ch[0] == ('others',):
                names = [f[0] for f in t.fields if f[0] not in d]
            for n in names:
                f = next((f for f in t.fields if f[0] == n), None)
                if f is None:
                    raise Unsupported('record field %s' % n)
                d[n] = self.coerce(self.eval(e, a.env), f[1], f[2], a.line, '%s.%s' % (t.name, n))
        if len(d) != len(t.fields):
            raise Unsupported('incomplete record aggregate')
        return Rec(t, d)

    def agg_vec(self, a, t, cons):
        if all(ch is None for ch, e in a.items):
            bits = [self.coerce(self.eval(e, a.env), BIT, None, a.line, 'element') for ch, e in a.items]
            n = ZERO
            for b in bits:
                n = n * 2 + self.bitp(b)
            return Vec(t.v, len(bits), n)
        if cons is None:
            raise Unsupported('aggregate without a constraint')
        w = self.width_of(cons)
        last = a.items[-1]
        if last[0] != [('others',)]:
            raise Unsupported('aggregate without others')
        o = self.coerce(self.eval(last[1], a.env), BIT, None, a.line, 'others')
        if isinstance(o, Meta):
            v = Vec(t.v, w, self.fresh('undefined'), cons)
        else:
            q = o.p
            v = Vec(t.v, w, -q if q.is_const() else q * (p2(w) - 1), cons)
        for ch, e in a.items[:-1]:
            for c in ch:
                if c[0] == 'range':
                    l, d, r = self.range(c, a.env)
                    x = self.eval(e, a.env)
                    bit = self.coerce(x, BIT, None, a.line, 'element')
                    hi, lo = self.pos(v, l), self.pos(v, r)
                    if not ge(hi - lo):
                        continue
                    v = set_slice(v, hi, lo, Vec(t.v, hi - lo + 1, -bit.p))
                else:
                    i = P(self.int(self.eval(c, a.env)))
                    bit = self.coerce(self.eval(e, a.env), BIT, None, a.line, 'element')
                    v = self.set_bit(v, i, bit, a.line)
        return v

    def fresh(self, name):
        return E.ctx().int(name).p

    def bitp(self, b):
        if isinstance(b, Ch):
            b = bit_of_char(b)
        if isinstance(b, Meta):
            raise Unsupported('computation with a metavalue')
        return b.p

    def default(self, t, cons):
        if t.k == 'int':
            return t.lo if t.lo is not None else INT_MIN
        if t.k == 'vec':
            if cons is None:
                raise Unsupported('unconstrained variable')
            return Vec(t.v, self.width_of(cons), self.fresh('uninit'), cons)
        if t.k == 'bit':
            return Bit(self.fresh_bit('uninit'))
        if t.k == 'bool':
            return False
        if t.k == 'real':
            return SFlt(Poly.var(E.ctx().sym('uninit', False)))
        if t.k == 'enum':
            return t.lits[0]
        if t.k == 'rec':
            return Rec(t, {n: self.default(ft, fc) for n, ft, fc in t.fields})
        if t.k == 'str':
            return VStr([0] * self.conc(self.width_of(cons)), self.conc(cons[0]))
        if t.k == 'char':
            return Ch(0)
        raise Unsupported('default value of ' + t.name)

    def fresh_bit(self, name):
        c = E.ctx()
        b = c.int(name).p
        c.add((b, '>='))
        c.add((-b + 1, '>='))
        return b

    # -- vectors --------------------------------------------------------------------------------
    def pos(self, v, i):
        """Distance from the LSB of index i."""
        l, d, r = v.bounds
        return i - r if d == 'downto' else r - i

    def in_bounds(self, v, pos, line):
        if not ge(pos) or not ge(v.w - 1 - pos):
            err(line, 'index out of bounds')

    def set_bit(self, v, i, bit, line):
        pos = self.pos(v, i)
        self.in_bounds(v, pos, line)
        return set_slice(v, pos, pos, Vec(v.k, 1, self.bitp(bit)))

    def index(self, v, i, line):
        if isinstance(v, VStr):
            k = self.conc(P(i)) - v.left
            if not 0 <= k < len(v.codes):
                err(line, 'string index out of bounds')
            return Ch(v.codes[k])
        pos = self.pos(v, P(i))
        self.in_bounds(v, pos, line)
        return bit_at(v, pos)

    def slice_pos(self, v, rng, line):
        """(hi, lo) distances from the LSB of a slice, or None for a null slice."""
        l, d, r = rng
        if d != v.bounds[1]:
            raise Unsupported('line %s: slice direction' % line)
        hi, lo = self.pos(v, l), self.pos(v, r)
        if not ge(hi - lo):
            return None
        self.in_bounds(v, hi, line)
        self.in_bounds(v, lo, line)
        return hi, lo

    def slice(self, v, rng, line):
        l, d, r = rng
        if isinstance(v, VStr):
            a, b = self.conc(l), self.conc(r)
            if a > b:
                return VStr([], a)
            if a < v.left or b >= v.left + len(v.codes):
                err(line, 'string slice out of bounds')
            return VStr(v.codes[a - v.left:b - v.left + 1], a)
        hl = self.slice_pos(v, rng, line)
        if hl is None:
            return Vec(v.k, 0, 0, rng)
        hi, lo = hl
        return Vec(v.k, hi - lo + 1, E.ctx().floor(v.n * p2(-lo)), rng)

    # -- calls ----------------------------------------------------------------------------------
    def cat_ok(self, v, t):
        k = t.k
        if isinstance(v, Agg):
            return k in ('rec', 'vec')
        if k == 'int':
            return is_int(v) and not isinstance(v, (bool, SBool))
        if k == 'vec':
            return (isinstance(v, Vec) and v.k in (t.v, None)) or (isinstance(v, VStr) and v.lit and v.text() is not None and set(v.text()) <= set('01'))
        if k == 'bit':
            return isinstance(v, (Bit, Meta)) or (isinstance(v, Ch) and v.lit)
        if k == 'bool':
            return isinstance(v, (bool, SBool))
        if k == 'real':
            return is_flt(v)
        if k == 'char':
            return isinstance(v, Ch)
        if k == 'str':
            return isinstance(v, VStr)
        if k == 'rec':
            return isinstance(v, Rec) and v.t.name == t.name
        if k == 'enum':
            if isinstance(v, SMode):
                return v.cls.__name__.lower() + '_t' == t.name
            return any(v is l for l in t.lits)
        return False

    def ptypes(self, f):
        if f.ptypes is None:
            f.ptypes = [f.env.find('types', ty[1])[1] for n, m, ty, dflt in f.params]
        return f.ptypes

    def bind(self, f, pos, named):
        """Positional/named actuals matched to parameters: list of values or None."""
        ts = self.ptypes(f)
        vals = [None] * len(f.params)
        if len(pos) > len(vals):
            return None
        for i, v in enumerate(pos):
            vals[i] = v
        for n, v in named.items():
            i = next((i for i, p in enumerate(f.params) if p[0] == n), None)
            if i is None or vals[i] is not None:
                return None
            vals[i] = v
        for v, t, p in zip(vals, ts, f.params):
            if v is None:
                if p[3] is None:
                    return None
            elif t is None or not self.cat_ok(v, t):
                return None
        return vals

    def candidates(self, name, env):
        e = env
        while e is not None:
            for f in e.funcs.get(name, ()):
                yield f
            e = e.parent

    def call(self, name, pos, named=None, env=None, line=0):
        named = named or {}
        for f in self.candidates(name, env or self.g):
            vals = self.bind(f, pos, named)
            if vals is not None:
                return self.run(f, vals, line)
        b = getattr(self, 'bi_' + name, None)
        if b is not None and not named:
            return b(pos, line)
        raise Unsupported('line %s: no function %s for these arguments' % (line, name))

    def run(self, f, vals, line):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('VHDL recursion')
        try:
            env = Env(f.env)
            args = []
            for v, (n, m, ty, dflt) in zip(vals, f.params):
                t, cons = self.type(ty, env)
                if v is None:
                    v = self.eval(dflt, f.env)
                v = self.coerce(v, t, cons, f.line, '%s.%s' % (f.name, n))
                env.vars[n] = Cell(v, t, cons)
                args.append(v)
            s = self.stubs.get(f.name)
            if s is not None:
                r = s(f, args)
                if r is not NotImplemented:
                    return r
            if len(args) == 1 and isinstance(args[0], Ch) and isinstance(args[0].code, Poly):
                r = self.char_summary(f, args[0])
                if r is not None:
                    return r
            self.declare(f.decls, env)
            r = self.block(f.body, env)
            if r is None or r[0] != 'ret':
                err(f.line, 'function %s ends without return' % f.name)
            t, cons = self.type(f.ret, env)
            return self.coerce(r[1], t, cons, f.line, f.name + ' result')
        finally:
            self.depth -= 1

    def char_summary(self, f, ch):
        """Contract of a function of one character: tabulated over all 256 characters, applied when the digits follow a linear law."""
        c = E.ctx()
        alts = c.stub_memo.get('letters', {}).get(ch.code)
        if alts is not None:
            rs = [self.run(f, [Ch(a)], f.line) for a in alts]
            if all(isinstance(r, Ch) and isinstance(r.code, int) and r.code == rs[0].code for r in rs):
                return Ch(rs[0].code)
            return None
        lo, hi = ch.code - ord('0'), Poly.const(ord('9')) - ch.code
        if not (entails(lo) and entails(hi)):
            return None
        key = (f.name, id(f))
        tab = self.pure_cache.get(key)
        if tab is None:
            tab = []
            for code in range(ord('0'), ord('9') + 1):
                r = self.run(f, [Ch(code)], f.line)
                if isinstance(r, SBool):
                    r = bool(r)
                tab.append(r)
            self.pure_cache[key] = tab
        if all(isinstance(x, bool) for x in tab) and len(set(tab)) == 1:
            return tab[0]
        if all(type(x) is int for x in tab):
            d = tab[1] - tab[0]
            if all(x == tab[0] + d * i for i, x in enumerate(tab)):
                return mk_int(lo * d + tab[0])
        return None

    def declare(self, decls, env):
        for d in decls:
            k = d[0]
            if k in ('constant', 'variable'):
                _, n, ty, e, line = d
                t, cons = self.type(ty, env)
                v = self.eval(e, env) if e is not None else self.default(t, cons)
                v = self.coerce(v, t, cons, line, n)
                if t.k in ('vec', 'str') and cons is None and isinstance(v, Vec):
                    cons = v.bounds
                env.vars[n] = Cell(v, t, cons, k)
            elif k == 'function':
                if d[5] is not None:
                    env.funcs.setdefault(d[1], []).append(Func(d, env))
            elif k in ('typedef', 'subtype'):
                self.declare_type(d, env)
            else:
                raise Unsupported('declaration ' + k)

    # -- statements -----------------------------------------------------------------------------
    def block(self, stmts, env):
        for s in stmts:
            r = self.stmt(s, env)
            if r is not None:
                return r
        return None

    def cond(self, e, env):
        v = self.eval(e, env)
        if isinstance(v, Bit):
            raise Unsupported('std_logic condition')
        return as_bool(v)

    def stmt(self, s, env):
        k = s[0]
        if k == 'assign':
            self.assign(s[1], s[2], env, s[3])
        elif k == 'return':
            return ('ret', self.eval(s[1], env))
        elif k == 'if':
            for c, b in s[1]:
                if self.cond(c, env):
                    return self.block(b, env)
            return self.block(s[2], env)
        elif k == 'assert':
            _, c, m, sev, line = s
            v = self.eval(c, env)
            if sev in ('failure', 'error'):
                if not as_bool(v):
                    err(line, 'assertion failure')
        elif k == 'case':
            v = self.eval(s[1], env)
            for ch, b in s[2]:
                if any(c == ('others',) or self.case_match(v, c, env, s[3]) for c in ch):
                    return self.block(b, env)
            err(s[3], 'no case choice')
        elif k == 'for':
            return self.for_loop(s, env)
        elif k == 'while':
            n = 0
            while self.cond(s[1], env):
                n += 1
                if n > 2000:
                    raise Unsupported('line %s: unbounded loop' % s[3])
                r = self.block(s[2], env)
                if r is not None:
                    if r[0] == 'exit':
                        break
                    if r[0] != 'next':
                        return r
        elif k in ('exit', 'next'):
            if s[1] is None or self.cond(s[1], env):
                return (k,)
        elif k == 'null':
            pass
        elif k == 'sigassign':
            self.sigassign(s, env)
        else:
            raise Unsupported('line %s: statement %s' % (s[-1], k))
        return None

    def case_match(self, v, c, env, line):
        if c[0] == 'range':
            l, d, r = self.range(c, env)
            lo, hi = (l, r) if d == 'to' else (r, l)
            return ge(P(v) - lo) and ge(hi - P(v))
        return as_bool(self.eq(v, self.eval(c, env), line))

    def for_loop(self, s, env):
        _, n, r, body, line = s
        l, d, rr = self.range(r, env)
        if l.is_const() and rr.is_const():
            a, b = self.conc(l), self.conc(rr)
            it = range(a, b + 1) if d == 'to' else range(a, b - 1, -1)
            for i in it:
                e = Env(env)
                e.vars[n] = Cell(i, INT)
                q = self.block(body, e)
                if q is not None:
                    if q[0] == 'exit':
                        break
                    if q[0] != 'next':
                        return q
            return None
        return self.sym_loop(n, l, d, rr, body, env, line)

    def sym_loop(self, n, l, d, r, body, env, line):
        """Loop rule for element-wise definitions: y(i) := f(i).  Invariant: the elements visited so far are those of a
        vector z, one of: another vector in scope, its complement, all zeros, all ones.  One arbitrary iteration is executed;
        if it sets y(i) = z(i) and changes nothing else, y = z on exit."""
        c = E.ctx()
        for rule in getattr(self, 'rules', ()):
            q = rule(self, n, l, d, r, body, env, line)
            if q is not NotImplemented:
                return None
        names = assigned(body, [])
        names = [x for x in names if env.find('vars', x)[1] is not None]
        cell = self.cell(names[0], env) if len(names) == 1 else None
        y = cell and cell.v
        if not isinstance(y, Vec) or not ((l, r) == (y.bounds[0], y.bounds[2]) or (r, l) == (y.bounds[0], y.bounds[2])):
            raise Unsupported('line %s: loop with a symbolic bound' % line)
        ones = p2(y.w) - 1
        cand = []
        for x in (q.v for e in self.chain(env) for q in e.vars.values() if isinstance(q.v, Vec) and q is not cell and q.v.w == y.w):
            cand += [x.n, -x.n - 1]
        cand += [ZERO, ones]
        z = cand[min(c.loop_choice.get((line, n), 0), len(cand) - 1)]
        if c.choose(2) == 0:
            i = c.int(n)
            pos = self.pos(y, i.p)
            c.add((pos, '>='))
            c.add((y.w - 1 - pos, '>='))
            bit = lambda p: c.floor(p * p2(-pos)) - 2 * c.floor(p * p2(-pos - 1))
            for k in {id(x): x for x in cand}.values():
                c.add((bit(k), '>='))
                c.add((1 - bit(k), '>='))
            want = ZERO if z is cand[-2] else ONE if z is cand[-1] else bit(z)
            e = Env(env)
            e.vars[n] = Cell(i, INT)
            k = c.int(names[0]).p
            c.add((k, '>='))
            c.add((ones - k, '>='))
            cell.v = el = Elem(y.k, y.w, k, y.bounds)
            el.i, el.bit = i.p, None
            q = self.block(body, e)
            if q is not None or cell.v is not el or el.bit is None:
                raise Unsupported('line %s: loop with a symbolic bound' % line)
            diff = self.bitp(el.bit) - want
            if z is not cand[-1] and not c.entails(diff, '='):
                c.loop_choice[(line, n)] = c.loop_choice.get((line, n), 0) + 1
                raise E.Restart()
            c.prove(diff, '=', 'loop invariant (line %s): every element visited so far is that of the candidate vector' % line)
            raise E.Abandon()
        cell.v = Vec(y.k, y.w, z, y.bounds)
        return None

    def chain(self, env):
        while env is not None:
            yield env
            env = env.parent

    # -- assignment -----------------------------------------------------------------------------
    def assign(self, tgt, e, env, line):
        if tgt[0] == 'name':
            cell = self.cell(tgt[1], env)
            v = self.eval(e, env)
            cell.v = self.coerce(v, cell.t, cell.cons, line, tgt[1])
            return
        base, upd = self.target(tgt, env, line)
        cell = self.cell(base, env)
        cell.v = upd(cell.v, lambda: self.eval(e, env))

    def cell(self, name, env):
        _, cell = env.find('vars', name)
        if cell is None or cell.kind not in ('variable', 'signal'):
            raise Unsupported('assignment to %s' % name)
        return cell

    def target(self, tgt, env, line):
        """(variable name, function (old value, rhs thunk) -> new value)"""
        if tgt[0] == 'name':
            def whole(old, rhs):
                _, cell = env.find('vars', tgt[1])
                return self.coerce(rhs(), cell.t, cell.cons, line, tgt[1])
            return tgt[1], whole
        if tgt[0] == 'field':
            base, f = self.target_path(tgt[1], env)

            def field(old, rhs):
                if base is not None:
                    raise Unsupported('nested target')
                ft = next(x for x in old.t.fields if x[0] == tgt[2])
                d = dict(old.d)
                d[tgt[2]] = self.coerce(rhs(), ft[1], ft[2], line, tgt[2])
                return Rec(old.t, d)
            return f, field
        if tgt[0] == 'call':
            base, f = self.target_path(tgt[1], env)
            if base is not None:
                raise Unsupported('nested target')
            a = tgt[2][0][1]
            if len(tgt[2]) != 1:
                raise Unsupported('multidimensional target')

            def idx(old, rhs):
                rng = None
                if a[0] == 'range':
                    rng = self.range(a, env)
                elif a[0] == 'attr' and a[2] in ('range', 'reverse_range'):
                    rng = self.range(('range', None, a[2], a[1]), env)
                if isinstance(old, VStr):
                    codes = list(old.codes)
                    v = rhs()
                    if rng is None:
                        i = self.conc(P(self.int(self.eval(a, env)))) - old.left
                        if not 0 <= i < len(codes):
                            err(line, 'string index out of bounds')
                        codes[i] = v.code
                    else:
                        i, j = self.conc(rng[0]) - old.left, self.conc(rng[2]) - old.left
                        if j >= i and not (0 <= i and j < len(codes)):
                            err(line, 'string slice out of bounds')
                        if len(v.codes) != max(0, j - i + 1):
                            err(line, 'length mismatch')
                        codes[i:j + 1] = v.codes
                    return VStr(codes, old.left)
                if rng is None:
                    i = P(self.int(self.eval(a, env)))
                    b = self.coerce(rhs(), BIT, None, line, 'element')
                    if isinstance(old, Elem):
                        if old.bit is not None or not entails(i - old.i, '='):
                            raise Unsupported('line %s: loop with a symbolic bound' % line)
                        old.bit = b
                        return old
                    return self.set_bit(old, i, b, line)
                hl = self.slice_pos(old, rng, line)
                t = VEC[old.k]
                v = self.coerce(rhs(), t, rng, line, 'slice')
                if hl is None:
                    return old
                return set_slice(old, hl[0], hl[1], v)
            return f, idx
        raise Unsupported('line %s: target' % line)

    def target_path(self, t, env):
        if t[0] == 'name':
            return None, t[1]
        raise Unsupported('nested target')

    def sigassign(self, s, env):
        raise Unsupported('line %s: signal assignment in a function' % s[-1])

    # -- expressions ----------------------------------------------------------------------------
    def lookup(self, name, env, line):
        _, cell = env.find('vars', name)
        if cell is not None:
            if cell.v is None:
                raise Unsupported('line %s: %s has no value' % (line, name))
            return cell.v
        if name == 'true':
            return True
        if name == 'false':
            return False
        if name in self.lazy:
            _, n, ty, e, ln = self.lazy[name]
            t, cons = self.type(ty, self.g)
            v = self.coerce(self.eval(e, self.g), t, cons, ln, n)
            self.g.vars[n] = Cell(v, t, cons)
            return v
        for f in self.candidates(name, env):
            vals = self.bind(f, [], {})
            if vals is not None:
                return self.run(f, vals, line)
        return None

    def eval(self, e, env):
        k = e[0]
        if k == 'name':
            v = self.lookup(e[1], env, e[2] if len(e) > 2 else 0)
            if v is None:
                raise Unsupported('unknown name %s' % e[1])
            return v
        if k == 'int':
            return e[1]
        if k == 'real':
            return SFlt(Poly.const(Fraction(float(e[1]))))
        if k == 'char':
            return Ch(ord(e[1]), True)
        if k == 'str':
            return VStr([ord(c) for c in e[1]], 1, True)
        if k == 'bits':
            per = {'x': 4, 'o': 3, 'b': 1}[e[1]]
            s = e[2]
            return Vec(None, len(s) * per, int(s, 2 ** per) if s else 0)
        if k == 'paren':
            return self.eval(e[1], env)
        if k == 'agg':
            return Agg(e[1], env, e[2])
        if k == 'bin':
            return self.binary(e, env)
        if k == 'un':
            return self.unary(e[1], self.eval(e[2], env), env, e[3])
        if k == 'cond':
            return self.eval(e[2] if self.cond(e[1], env) else e[3], env)
        if k == 'field':
            v = self.eval_prefix(e[1], env)
            if v is None:           # selected name work.pkg.x
                return self.eval(('name', e[2], e[3]), env)
            if not isinstance(v, Rec):
                raise Unsupported('line %s: field of a non-record' % e[3])
            return v.d[e[2]]
        if k == 'qual':
            t, cons = self.type(('type', e[1][1], None), env)
            v = self.eval(e[2], env)
            return self.coerce(v, t, cons, e[3], 'qualified expression')
        if k == 'attr':
            return self.attr(e, env)
        if k == 'call':
            return self.eval_call(e, env)
        raise Unsupported('expression %s' % k)

    def eval_prefix(self, e, env):
        if e[0] == 'name' and env.find('vars', e[1])[1] is None and e[1] not in self.lazy and not list(self.candidates(e[1], env)):
            return None
        return self.eval(e, env)

    def eval_call(self, e, env):
        _, base, args, line = e
        if base[0] == 'field' and self.eval_prefix(base[1], env) is None:
            base = ('name', base[2], line)
        if base[0] == 'name':
            name = base[1]
            _, cell = env.find('vars', name)
            if cell is None and name not in self.lazy:
                _, t = env.find('types', name)
                if t is not None:
                    return self.convert(t, self.eval(args[0][1], env), line)
                pos = [self.eval(a, env) for n, a in args if n is None]
                named = {n: self.eval(a, env) for n, a in args if n is not None}
                # f(args) or f(index) on a parameterless function
                return self.call(name, pos, named, env, line)
        v = self.eval(base, env)
        if len(args) != 1:
            raise Unsupported('line %s: indexing' % line)
        a = args[0][1]
        if a[0] == 'range':
            return self.slice(v, self.range(a, env), line)
        if a[0] == 'attr' and a[2] in ('range', 'reverse_range'):
            return self.slice(v, self.range(('range', None, a[2], a[1]), env), line)
        return self.index(v, self.int(self.eval(a, env)), line)

    def convert(self, t, v, line):
        if isinstance(v, Agg):
            raise Unsupported('line %s: conversion of an aggregate' % line)
        if t.k == 'vec':
            if isinstance(v, VStr) and v.lit:
                v = vec_of_str(v, t.v)
            if not isinstance(v, Vec):
                raise Unsupported('line %s: conversion' % line)
            return v.with_(k=t.v)
        if t.k == 'real':
            return SFlt(E.to_flt_poly(v)) if is_int(v) else v
        if t.k == 'int':
            if is_int(v):
                return self.coerce(v, t, None, line, 'conversion')
            # real to integer: nearest, ties away from zero (only exact values have a tool-independent result)
            p = v.p
            c = E.ctx()
            f = E.flt_floor(p)
            if f == p or entails(p - f, '='):
                r = mk_int(f)
            else:
                r = mk_int(c.floor(p + Fraction(1, 2)) if ge(p) else -c.floor(-p + Fraction(1, 2)))
            self.range_check(r, line)
            return self.coerce(r, t, None, line, 'conversion')
        if t.k in ('str', 'bool', 'enum', 'char', 'bit', 'rec'):
            return self.coerce(v, t, None, line, 'conversion')
        raise Unsupported('line %s: conversion to %s' % (line, t.name))

    def range_check(self, r, line):
        if not ge(P(r) - INT_MIN) or not ge(Poly.const(INT_MAX) - P(r)):
            err(line, 'integer overflow')

    def arith(self, r, line):
        """Result of an integer operation."""
        if self.overflow:
            self.range_check(r, line)
        return r

    def attr(self, e, env):
        _, base, a, arg, line = e
        if base[0] == 'name' and env.find('vars', base[1])[1] is None and base[1] not in self.lazy:
            _, t = env.find('types', base[1])
            if t is not None:
                return self.type_attr(t, a, self.eval(arg, env) if arg is not None else None, line)
        v = self.eval(base, env)
        if isinstance(v, Vec):
            l, d, r = v.bounds
            n = {'length': v.w, 'left': l, 'right': r, 'high': l if d == 'downto' else r, 'low': r if d == 'downto' else l}.get(a)
            if n is not None:
                return mk_int(n)
            if a == 'ascending':
                return d == 'to'
        if isinstance(v, VStr):
            n = len(v.codes)
            m = {'length': n, 'left': v.left, 'low': v.left, 'right': v.left + n - 1, 'high': v.left + n - 1}.get(a)
            if m is not None:
                return m
        raise Unsupported("line %s: attribute '%s" % (line, a))

    def type_attr(self, t, a, v, line):
        if a == 'image':
            if t.k == 'int':
                self.coerce(v, t, None, line, "'image")
                return VStr(decimal(v))
            if t.k == 'enum':
                return VStr([ord(c) for c in self.enum_name(t, v)])
        if a == 'pos':
            if t.k == 'enum':
                return self.enum_pos(t, v)
            if t.k == 'char':
                k = self.char_code(v)
                return mk_int(k) if isinstance(k, Poly) else k
            if t.k == 'bit':
                b = bit_of_char(v) if isinstance(v, Ch) else v
                if isinstance(b, Meta):
                    return 'UX01ZWLH-'.index(b.ch)
                return mk_int(b.p + 2)
            if t.k == 'bool':
                return 1 if as_bool(v) else 0
            if t.k == 'int':
                return v
        if a == 'val':
            if t.k == 'char':
                if not ge(P(v)) or not ge(Poly.const(255) - P(v)):
                    err(line, "'val out of range")
                return Ch(v if isinstance(v, int) else P(v))
            if t.k == 'enum':
                i = self.conc(P(v))
                if not 0 <= i < len(t.lits):
                    err(line, "'val out of range")
                return t.lits[i]
            if t.k == 'int':
                return v
        if t.k == 'int' and a in ('high', 'right'):
            return t.hi if t.hi is not None else INT_MAX
        if t.k == 'int' and a in ('low', 'left'):
            return t.lo if t.lo is not None else INT_MIN
        raise Unsupported("line %s: attribute %s'%s" % (line, t.name, a))

    def enum_name(self, t, v):
        if isinstance(v, SMode):
            v = v.resolve()
        return v.name.lower()

    def enum_pos(self, t, v):
        if isinstance(v, SMode):
            v = v.resolve()
        return next(i for i, l in enumerate(t.lits) if l is v)

    def unary(self, op, v, env, line):
        for f in self.candidates('"%s"' % op, env):
            vals = self.bind(f, [v], {})
            if vals is not None:
                return self.run(f, vals, line)
        if op == '-':
            if is_int(v):
                return self.arith(mk_int(-P(v)), line)
            if is_flt(v):
                return -v
            if isinstance(v, Vec) and v.k == 's':
                return v.with_(n=-v.n, bounds=(v.w - 1, 'downto', ZERO))
        if op == 'not':
            if isinstance(v, bool):
                return not v
            if isinstance(v, SBool):
                return SBool(('not', v.t))
            if isinstance(v, (Bit, Ch)):
                return Bit(-self.bitp(v) + 1)
            if isinstance(v, Vec):
                return v.with_(n=-v.n - 1)
        if op == 'abs':
            if is_int(v):
                return v if ge(P(v)) else self.arith(mk_int(-P(v)), line)
            if is_flt(v):
                return abs(v)
            if isinstance(v, Vec) and v.k == 's':
                s = sval(v)
                return Vec('s', v.w, s if ge(s) else -s)
        if op in ('reduce_or', 'reduce_and', 'reduce_nor', 'reduce_nand') and isinstance(v, Vec):
            u = uval(v)
            r = (not ge(-u)) if op in ('reduce_or', 'reduce_nor') else ge(u - p2(v.w) + 1)
            return Bit(int(r) if op in ('reduce_or', 'reduce_and') else 1 - int(r))
        raise Unsupported('line %s: unary %s' % (line, op))

    def binary(self, e, env):
        _, op, l, r, line = e
        a = self.eval(l, env)
        if op in ('and', 'or') and isinstance(a, (bool, SBool)):
            # short-circuit on booleans
            if isinstance(a, bool):
                if a == (op == 'or'):
                    return a
                return self.eval(r, env)
            # both operands are needed; evaluate the right one only where VHDL does
            if as_bool(a) == (op == 'or'):
                return op == 'or'
            return self.eval(r, env)
        b = self.eval(r, env)
        return self.binop(op, a, b, env, line)

    def agg_like(self, a, b):
        """Aggregate operand typed after the other operand."""
        if isinstance(a, Agg) and isinstance(b, Rec):
            return self.agg_rec(a, b.t), b
        if isinstance(b, Agg) and isinstance(a, Rec):
            return a, self.agg_rec(b, a.t)
        return a, b

    def binop(self, op, a, b, env, line):
        a, b = self.agg_like(a, b)
        for f in self.candidates('"%s"' % op, env):
            vals = self.bind(f, [a, b], {})
            if vals is not None:
                return self.run(f, vals, line)
        if op == '=':
            return self.eq(a, b, line)
        if op == '/=':
            return self.neg(self.eq(a, b, line))
        if op in ('<', '<=', '>', '>='):
            return self.rel(op, a, b, line)
        if op == '&':
            return self.concat(a, b, line)
        if is_int(a) and is_int(b) and not isinstance(a, (bool, SBool)):
            return self.arith(self.int_op(op, a, b, line), line)
        if is_flt(a) and (is_flt(b) or (op == '**' and is_int(b))):
            return self.real_op(op, a, b, line)
        if op in ('and', 'or', 'xor', 'nand', 'nor', 'xnor'):
            return self.logic(op, a, b, line)
        if isinstance(a, (Vec, VStr, Bit, Ch)) or isinstance(b, (Vec, VStr, Bit, Ch)):
            return self.vec_op(op, a, b, line)
        raise Unsupported('line %s: operator %s' % (line, op))

    def neg(self, v):
        return (not v) if isinstance(v, bool) else SBool(('not', v.t))

    def int_op(self, op, a, b, line):
        if op == '+':
            return mk_int(P(a) + P(b))
        if op == '-':
            return mk_int(P(a) - P(b))
        if op == '*':
            return mk_int(P(a) * P(b))
        if op == 'mod':
            return a % b
        if op in ('/', 'rem'):
            pa, pb = P(a), P(b)
            if not pb.is_const() and not entails(pb, '>'):
                raise Unsupported('line %s: division' % line)
            if pb.is_const() and pb.const_value() == 0:
                err(line, 'division by zero')
            s = 1
            if pb.is_const() and pb.const_value() < 0:
                pb, s = -pb, -s
            if not ge(pa):
                pa, s = -pa, -s
            q = P(mk_int(pa) // mk_int(pb)) * s
            return mk_int(q) if op == '/' else mk_int(P(a) - q * P(b))
        if op == '**':
            if not ge(P(b)):
                err(line, 'negative exponent')
            return a ** b
        raise Unsupported('line %s: integer %s' % (line, op))

    def real_op(self, op, a, b, line):
        if op in '+-' and is_flt(a) and is_flt(b):
            a, b = self.promote(a), self.promote(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            return a / b
        if op == '**':
            return a ** b
        raise Unsupported('line %s: real %s' % (line, op))

    @staticmethod
    def promote(x):
        """A double of magnitude >= 2**52 is an integer."""
        c = E.ctx()
        p = E.rewrite_real(E.P(x))
        if len(p.d) == 1 and E.has_real(p):
            for lim, unit in ((2 ** 54, 4), (2 ** 52, 1)):
                if c.entails(p - lim, '>=') or c.entails(-p - lim, '>='):
                    return SFlt(E.int_real(p, unit))
        return SFlt(p)

    def eq(self, a, b, line):
        a, b = self.agg_like(a, b)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return as_bool(a) == as_bool(b)
        if is_int(a) and is_int(b) or is_flt(a) and is_flt(b):
            return mk_bool(('atom', P(a) - P(b), '='), False)
        if isinstance(a, Rec) and isinstance(b, Rec):
            return all(as_bool(self.eq(a.d[n], b.d[n], line)) for n in a.d)
        if isinstance(a, VStr) and isinstance(b, VStr):
            return len(a.codes) == len(b.codes) and all(self.code_eq(x, y) for x, y in zip(a.codes, b.codes))
        if isinstance(a, Ch) and isinstance(b, Ch):
            return self.code_eq(a.code, b.code)
        if isinstance(a, (Bit, Ch, Meta)) and isinstance(b, (Bit, Ch, Meta)):
            a, b = [bit_of_char(x) if isinstance(x, Ch) else x for x in (a, b)]
            if isinstance(a, Meta) or isinstance(b, Meta):
                return isinstance(a, Meta) and isinstance(b, Meta) and a.ch == b.ch
            if a.p.is_const():
                a, b = b, a
            if b.p.is_const():
                return mk_bool(('atom', a.p - 1 if b.p.const_value() == 1 else -a.p, '>='), False)
            return mk_bool(('atom', a.p - b.p, '='), False)
        if isinstance(a, (SMode, EnumLit)) or isinstance(b, (SMode, EnumLit)) or (type(a) is type(b) and hasattr(a, 'name')):
            if isinstance(a, SMode):
                return a.is_(b)
            if isinstance(b, SMode):
                return b.is_(a)
            return a is b
        if isinstance(a, (Vec, VStr)) or isinstance(b, (Vec, VStr)):
            return self.rel('=', a, b, line)
        raise Unsupported('line %s: comparison' % line)

    def char_code(self, ch):
        """Code of a character; a letter of unknown case is split into its two cases."""
        alts = E.ctx().stub_memo.get('letters', {}).get(ch.code)
        if alts is None:
            return ch.code
        for a in alts[:-1]:
            if E.ctx().decide(ch.code - a, '='):
                return a
        return alts[-1]

    def code_eq(self, x, y):
        if isinstance(x, int) and isinstance(y, int):
            return x == y
        return E.ctx().decide((x if isinstance(x, Poly) else Poly.const(x)) - y, '=')

    def rel(self, op, a, b, line):
        if isinstance(a, (Vec, VStr)) or isinstance(b, (Vec, VStr)):
            kinds = {x.k for x in (a, b) if isinstance(x, Vec)} - {None}
            if len(kinds) > 1:
                raise Unsupported('line %s: comparison of different types' % line)
            k = kinds.pop() if kinds else 'slv'
            a, b = [vec_of_str(x, k) if isinstance(x, VStr) else x for x in (a, b)]
            if k == 'slv':
                if op != '=':
                    raise Unsupported('line %s: ordering of std_logic_vector' % line)
                if not E.ctx().decide(a.w - b.w, '='):
                    return False
                k = 'u'
            else:
                for x in (a, b):
                    if isinstance(x, Vec) and not ge(x.w - 1):
                        raise Unsupported('line %s: comparison of a null vector' % line)
            pa, pb = [value(x.with_(k=k)) if isinstance(x, Vec) else P(self.int(x)) for x in (a, b)]
            for x, q in ((a, pb), (b, pa)):
                if k == 's' and isinstance(x, Vec) and not isinstance((b if x is a else a), Vec) and not (q.is_const() and q.const_value() in (0, -1)) and not ge(x.w - 2):
                    raise Unsupported('line %s: one-bit signed compared with an integer outside its range (GHDL and the standard differ)' % line)
        elif (is_int(a) and is_int(b)) or (is_flt(a) and is_flt(b)):
            pa, pb = P(a), P(b)
        elif isinstance(a, Ch) and isinstance(b, Ch):
            pa, pb = [Poly.const(x) if isinstance(x, int) else x for x in map(self.char_code, (a, b))]
        elif isinstance(a, (SMode, EnumLit)) or hasattr(a, 'name'):
            raise Unsupported('line %s: ordering of enumeration values' % line)
        else:
            raise Unsupported('line %s: comparison' % line)
        d, r = {'=': (pa - pb, '='), '<': (pb - pa, '>'), '<=': (pb - pa, '>='), '>': (pa - pb, '>'), '>=': (pa - pb, '>=')}[op]
        return mk_bool(('atom', d, r), False)

    def concat(self, a, b, line):
        if isinstance(a, Vec) or isinstance(b, Vec) or isinstance(a, Bit) or isinstance(b, Bit):
            kinds = {x.k for x in (a, b) if isinstance(x, Vec)} - {None}
            if len(kinds) > 1:
                raise Unsupported('line %s: & of different types' % line)
            k = kinds.pop() if kinds else None

            def vec(x):
                if isinstance(x, (Bit, Ch)):
                    return Vec(k, 1, self.bitp(x))
                if isinstance(x, VStr):
                    return vec_of_str(x, k)
                return x
            a, b = vec(a), vec(b)
            if a.w.is_const() and a.w.const_value() == 0:
                return Vec(k, b.w, b.n, b.bounds)
            return Vec(k, a.w + b.w, a.n * p2(b.w) + uval(Vec('u', b.w, b.n)))

        def s(x):
            if isinstance(x, VStr):
                return x.codes, x.lit
            if isinstance(x, Ch):
                return [x.code], x.lit
            raise Unsupported('line %s: &' % line)
        (x, lx), (y, ly) = s(a), s(b)
        return VStr(x + y, 1, lx and ly)

    def logic(self, op, a, b, line):
        neg = op in ('nand', 'nor', 'xnor')
        base = {'nand': 'and', 'nor': 'or', 'xnor': 'xor'}.get(op, op)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            x, y = as_bool(a), as_bool(b)
            r = {'and': x and y, 'or': x or y, 'xor': x != y}[base]
            return r != neg
        if isinstance(a, (Bit, Ch)) and isinstance(b, (Bit, Ch)):
            x, y = self.bitp(a), self.bitp(b)
            r = {'and': x * y, 'or': x + y - x * y, 'xor': x + y - 2 * x * y}[base]
            return Bit(-r + 1 if neg else r)
        if isinstance(a, Vec) and isinstance(b, Vec):
            x, y = a.n, b.n
            for u, v in ((x, y), (y, x)):
                if u.is_const() and u.const_value() in (0, -1):
                    z = u.const_value()
                    r = {'and': v if z == -1 else ZERO, 'or': Poly.const(-1) if z == -1 else v, 'xor': -v - 1 if z == -1 else v}[base]
                    return a.with_(n=-r - 1 if neg else r)
        raise Unsupported('line %s: %s of vectors' % (line, op))

    def vec_op(self, op, a, b, line):
        kinds = {x.k for x in (a, b) if isinstance(x, Vec)} - {None, 'slv'}
        if len(kinds) != 1:
            raise Unsupported('line %s: operator %s' % (line, op))
        k = kinds.pop()

        def vec(x):
            if isinstance(x, VStr):
                return vec_of_str(x, k)
            if isinstance(x, (Bit, Ch)):
                return Vec('u', 1, self.bitp(x))
            return x.with_(k=k) if isinstance(x, Vec) and x.k is None else x
        a, b = vec(a), vec(b)
        if op in ('+', '-'):
            if isinstance(a, Vec) and isinstance(b, Vec):
                w = a.w if (a.w == b.w or ge(a.w - b.w)) else b.w
                x, y = ext(a, w), ext(b, w)
            elif isinstance(a, Vec):
                w, x, y = a.w, a.n, P(b)
            else:
                w, x, y = b.w, P(a), b.n
            if k == 'u':
                for z in (a, b):
                    if is_int(z) and not ge(P(z)):
                        err(line, 'negative natural operand')
            return Vec(k, w, x + y if op == '+' else x - y)
        if op == '*':
            if isinstance(a, Vec) and isinstance(b, Vec):
                return Vec(k, a.w + b.w, value(a) * value(b))
            v, i = (a, b) if isinstance(a, Vec) else (b, a)
            return Vec(k, v.w * 2, value(v) * value(Vec(k, v.w, P(i))))
        if op in ('mod', 'rem', '/') and k == 'u':
            raise Unsupported('line %s: vector %s' % (line, op))
        if op in ('sll', 'srl', 'sla', 'sra') and is_int(b):
            return self.shift(a, P(b), op in ('sll', 'sla'), op == 'sra' and k == 's', line)
        raise Unsupported('line %s: vector operator %s' % (line, op))

    def shift(self, v, n, left, arith, line):
        if not ge(n):
            err(line, 'negative shift')
        if left:
            return Vec(v.k, v.w, v.n * p2(n))
        return Vec(v.k, v.w, E.ctx().floor((sval(v) if arith else uval(v)) * p2(-n)))

    # -- library functions ------------------------------------------------------------------------
    def bi_resize(self, a, line):
        v, n = a
        if is_int(n):
            w = P(n)
        elif isinstance(n, Vec):
            w = n.w
        else:
            raise Unsupported('line %s: resize' % line)
        if not isinstance(v, Vec) or v.k not in ('u', 's'):
            raise Unsupported('line %s: resize' % line)
        if not ge(w):
            err(line, 'negative size of resize')
        if not ge(w - 1):
            return Vec(v.k, 0, 0)
        if v.w.is_const() and v.w.const_value() == 0:
            return Vec(v.k, w, 0)
        if ge(w - v.w):
            return Vec(v.k, w, value(v) if not entails(w - v.w, '=') else v.n)
        if v.k == 'u':
            return Vec('u', w, v.n)
        # numeric_std keeps the sign bit when truncating
        s = bit_at(v, v.w - 1)
        return Vec('s', w, low_bits(v.n, w - 1) - s.p * p2(w - 1))

    def bi_to_integer(self, a, line):
        v, = a
        if not isinstance(v, Vec) or v.k not in ('u', 's'):
            raise Unsupported('line %s: to_integer' % line)
        r = mk_int(value(v))
        self.range_check(r, line)
        return r

    def size(self, n):
        return n.w if isinstance(n, Vec) else P(n)

    def bi_to_unsigned(self, a, line):
        if not ge(P(a[0])):
            err(line, 'to_unsigned of a negative number')
        return Vec('u', self.size(a[1]), P(a[0]))

    def bi_to_signed(self, a, line):
        return Vec('s', self.size(a[1]), P(a[0]))

    def bi_shift_left(self, a, line):
        return self.shift(a[0], P(a[1]), True, False, line)

    def bi_shift_right(self, a, line):
        return self.shift(a[0], P(a[1]), False, a[0].k == 's', line)

    # ieee.math_real as in the IEEE reference package body: values from integer'high on are returned unchanged
    @staticmethod
    def real_floor(p):
        c = E.ctx()
        p = E.rewrite_real(p)
        if c.known_int(p):
            return p
        big = 2 ** 31 - 1
        if c.decide(p - big, '>=') or c.decide(-p - big, '>='):
            return p
        return E.flt_floor(p)

    def bi_floor(self, a, line):
        return SFlt(self.real_floor(a[0].p))

    def bi_ceil(self, a, line):
        return SFlt(-self.real_floor(-a[0].p))

    def bi_round(self, a, line):
        x, c = a[0].p, E.ctx()
        if c.decide(x, '>'):
            return SFlt(self.real_floor(c.fl(x + Fraction(1, 2)).p))
        if c.decide(-x, '>'):
            return SFlt(-self.real_floor(c.fl(-x + Fraction(1, 2)).p))
        return SFlt(ZERO)

    def bi_trunc(self, a, line):
        x, c = a[0].p, E.ctx()
        if c.decide(x, '>'):
            return SFlt(self.real_floor(x))
        return SFlt(-self.real_floor(-x))

    def bi_sign(self, a, line):
        x = a[0].p
        return SFlt(Poly.const(0 if E.ctx().decide(x, '=') else 1 if ge(x) else -1))

    def bi_maximum(self, a, line):
        if len(a) == 2 and (is_int(a[0]) or is_flt(a[0])):
            return a[0] if ge(P(a[0]) - P(a[1])) else a[1]
        raise Unsupported('line %s: maximum' % line)

    def bi_minimum(self, a, line):
        if len(a) == 2 and (is_int(a[0]) or is_flt(a[0])):
            return a[0] if ge(P(a[1]) - P(a[0])) else a[1]
        raise Unsupported('line %s: minimum' % line)

    def bi_to_01(self, a, line):
        return a[0]

    def bi_to_x01(self, a, line):
        return a[0]

    def bi_is_x(self, a, line):
        return False

    def bi_to_string(self, a, line):
        if is_int(a[0]):
            return VStr(decimal(a[0]))
        raise Unsupported('line %s: to_string' % line)

    def bi_to_stdlogicvector(self, a, line):
        return a[0].with_(k='slv')
    bi_to_slv = bi_to_stdlogicvector


def decimal(v):
    """Character codes of the decimal image of an integer: one path per sign and number of digits (32-bit integers)."""
    if isinstance(v, int):
        return [ord(c) for c in str(v)]
    c = E.ctx()
    p = P(v)
    memo = c.stub_memo.setdefault('decimal', {})
    if p in memo:
        return list(memo[p])
    neg = not ge(p)
    m = -p if neg else p
    k = 1
    while k < 10 and not c.decide(Poly.const(10 ** k - 1) - m, '>='):
        k += 1
    if k == 10:
        c.add((Poly.const(INT_MAX) - m, '>='))
    codes = [ord('-')] if neg else []
    s = ZERO
    for i in range(k):
        d = c.int('digit').p
        c.add((d - (1 if i == 0 and k > 1 else 0), '>='))
        c.add((-d + 9, '>='))
        codes.append(d + ord('0'))
        s = s * 10 + d
    c.add((m - s, '='))
    memo[p] = codes
    return list(codes)
