"""numpy replacement used while the real source runs symbolically.

An array is represented by a few *tracked elements* at arbitrary positions (element 0 is the generic element,
further ones are designated witnesses of reductions), its dtype, whether it is 0-dimensional, and an element
buffer shared between views, so that aliasing and mutation are visible.
"""
import math
import operator
from fractions import Fraction
import numpy as _np
from .poly import Poly, Unsupported, Sym
from . import engine as E
from .engine import (SInt, SFlt, SBool, SMode, P, is_int, is_flt, is_num, mk_int, mk_flt, mk_bool, flt_floor, flt_trunc,
                     round_even, to_flt_poly, Scalar)


def ctx():
    return E.ctx()


# ---------------------------------------------------------------------------------------------------
# dtypes
# ---------------------------------------------------------------------------------------------------
class Token:
    """Stand-in for a Python/numpy type object."""

    def __init__(self, name, code, conv=None):
        self.name, self.code, self.conv = name, code, conv
        self.__name__ = name

    def __call__(self, *a, **k):
        if self.conv is None:
            raise Unsupported("call of %s" % self.name)
        return self.conv(*a, **k)

    def __repr__(self):
        return "<class '%s'>" % self.name

    def __or__(self, o):
        return (self, o)

    def __eq__(self, o):
        return self is o or (isinstance(o, DT) and o == self)

    def __hash__(self):
        return hash(self.name)


_CODES = {'float64': 'f8', 'float': 'f8', 'double': 'f8', 'f8': 'f8', 'd': 'f8', '<f8': 'f8', 'object': 'O', 'O': 'O', 'bool': 'b', '?': 'b',
          'int': 'i8', 'int64': 'i8', 'i8': 'i8', 'uint64': 'u8', 'u8': 'u8'}


class DT:
    def __init__(self, code):
        self.code = code

    def __eq__(self, o):
        try:
            return self.code == dt_of(o)
        except Unsupported:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.code)

    def __repr__(self):
        return {'f8': "float64", 'O': 'object', 'b': 'bool', 'i8': 'int64', 'u8': 'uint64'}[self.code]

    @property
    def name(self):
        return repr(self)

    @property
    def kind(self):
        return {'f8': 'f', 'O': 'O', 'b': 'b', 'i8': 'i', 'u8': 'u'}[self.code]

    @property
    def type(self):
        return {'f8': FLOAT64, 'O': OBJECT, 'b': BOOL_, 'i8': INT64, 'u8': UINT64}[self.code]

    itemsize = 8


def dt_of(x):
    if isinstance(x, DT):
        return x.code
    if isinstance(x, Token) and x.code:
        return x.code
    if x is object:
        return 'O'
    if x is int:
        return 'i8'
    if x is float:
        return 'f8'
    if x is bool:
        return 'b'
    if isinstance(x, str) and x in _CODES:
        return _CODES[x]
    raise Unsupported("dtype %r" % (x,))


_ORDER = {'b': 0, 'i8': 1, 'u8': 1, 'f8': 2, 'O': 3}


def promote(a, b):
    if a == b:
        return a
    if 'O' in (a, b):
        return 'O'
    if {a, b} == {'i8', 'u8'}:
        return 'f8'
    return a if _ORDER[a] >= _ORDER[b] else b


class Buf(list):
    """Element storage; views share it."""
    _mut = False
    parent = None
    view_mutated = False

    @property
    def mutated(self):
        return self._mut

    @mutated.setter
    def mutated(self, v):
        self._mut = v
        if v and self.parent is not None:
            self.parent.view_mutated = True
            self.parent.mutated = True


class SShape:
    """Opaque shape of an N-dimensional array (at least one axis)."""

    def __init__(self, name='shape', pre=(), size=None):
        self.name = name
        self.pre = pre
        self._size = size

    def __radd__(self, o):
        if isinstance(o, tuple):
            return MixedShape(o, self, ())
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, tuple):
            return MixedShape((), self, o) if o else self
        return NotImplemented

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)

    def __len__(self):
        raise Unsupported("number of dimensions")

    def __getitem__(self, k):
        raise Unsupported("element of a symbolic shape")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic shape")

    def __bool__(self):
        return True

    def __repr__(self):
        return self.name

    def size(self):
        if self._size is None:
            n = ctx().int('size_' + self.name)
            ctx().add((n.p - 1, '>='))
            self._size = n
        return self._size


class MixedShape:
    def __init__(self, pre, mid, post):
        self.pre, self.mid, self.post = pre, mid, post


class Idx:
    """Loop index denoting the position of tracked element k."""

    def __init__(self, k, where=None):
        self.k = k
        self.where = where

    def arithmetic(self, *a):
        """The index is used as a number: run the loop for a generic index instead."""
        c = ctx()
        if self.where is None or c.loop_choice.get((self.where, '')):
            raise Unsupported("arithmetic on a generic loop index")
        c.loop_choice[(self.where, '')] = 1
        raise E.Restart()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported("arithmetic on a generic loop index")

    __hash__ = object.__hash__


for _n in ('add radd sub rsub mul rmul lt le gt ge eq ne bool floordiv rfloordiv mod rmod pow rpow truediv rtruediv lshift rlshift rshift rrshift and rand or ror neg '
           'index int float').split():
    setattr(Idx, '__%s__' % _n, Idx.arithmetic)


class SList:
    """Python list/tuple of scalars given as data (not an ndarray)."""

    def __init__(self, buf, shape):
        self.buf = buf
        self.shape_ = shape

    def __getitem__(self, k):
        raise Unsupported("indexing a data list")

    def __iter__(self):
        raise Unsupported("iterating a data list")

    def __len__(self):
        raise Unsupported("len of a data list")


class SArr:
    __array_priority__ = 1000

    def __init__(self, dt, nd, buf, shape=None):
        self.dt = dt
        self.nd = nd
        self.buf = buf if isinstance(buf, Buf) else Buf(buf)
        self.shp = shape if nd else None

    # -- attributes
    @property
    def dtype(self):
        return DT(self.dt)

    @property
    def shape(self):
        return self.shp if self.nd else ()

    @property
    def ndim(self):
        if not self.nd:
            return 0
        d = ctx().int('ndim')
        ctx().add((d.p - 1, '>='))
        return d

    @property
    def size(self):
        return self.shp.size() if self.nd else 1

    @property
    def flat(self):
        return Flat(self)

    @property
    def T(self):
        return self if not self.nd or self.shp._size is not None else SArr(self.dt, True, self.buf, SShape('T'))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported("ndarray.%s" % n)

    def __len__(self):
        if not self.nd:
            raise TypeError("len() of unsized object")
        raise Unsupported("len of an array")

    def __repr__(self):
        return "<array %s %s>" % (self.dt, self.buf)

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, order='C'):
        return SArr(self.dt, self.nd, list(self.buf), self.shp)

    def astype(self, dt, copy=True):
        code = dt_of(dt)
        if code == self.dt and not copy:
            return self
        return SArr(code, self.nd, [cast(x, self.dt, code) for x in self.buf], self.shp)

    def item(self, *a):
        if self.nd or a:
            raise Unsupported("item() of an N-d array")
        return pyscalar(self.buf[0], self.dt)

    def tolist(self):
        if self.nd:
            raise Unsupported("tolist")
        return pyscalar(self.buf[0], self.dt)

    def view(self):
        return SArr(self.dt, self.nd, self.buf, self.shp)

    def reshape(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], (tuple, SShape)):
            shape = a[0]
            if shape == ():
                return SArr(self.dt, False, Buf(self.buf[:1]))
            if isinstance(shape, SShape):
                return SArr(self.dt, True, self.buf if self.nd else Buf(list(self.buf) * ctx().tracked), shape)
        if len(a) == 1 and isinstance(a[0], SInt):
            return SArr(self.dt, True, self.buf if self.nd else Buf(list(self.buf) * ctx().tracked), SShape('vec', size=a[0]))
        if self.nd:
            return SArr(self.dt, True, self.buf, SShape('reshaped'))
        raise Unsupported("reshape")

    def flatten(self):
        return SArr(self.dt, True, list(self.buf) if self.nd else list(self.buf) * ctx().tracked, SShape('flat'))

    def ravel(self):
        return SArr(self.dt, True, self.buf, SShape('flat')) if self.nd else self.flatten()

    def squeeze(self):
        raise Unsupported("squeeze")

    def fill(self, v):
        self[...] = v

    def max(self, *a, **k):
        return reduce_max(self, *a, **k)

    def min(self, *a, **k):
        return reduce_min(self, *a, **k)

    def any(self, *a, **k):
        return reduce_any(self, *a, **k)

    def all(self, *a, **k):
        return reduce_all(self, *a, **k)

    def round(self, *a):
        return ufunc1('round', self)

    def clip(self, lo=None, hi=None):
        return NP.clip(self, lo, hi)

    def sum(self, *a, **k):
        raise Unsupported("sum")

    # -- indexing
    def __getitem__(self, k):
        if k is Ellipsis or (isinstance(k, tuple) and k == (Ellipsis,)):
            return self.view()
        if isinstance(k, tuple) and k == ():
            return self.view() if self.nd else npscalar(self.buf[0], self.dt)
        if isinstance(k, slice) and k == slice(None):
            if not self.nd:
                raise IndexError("too many indices for array")
            return self.view()
        if isinstance(k, Idx) and self.nd:
            return npscalar(self.buf[k.k], self.dt)
        if not self.nd and isinstance(k, int):
            raise IndexError("too many indices for array")
        raise Unsupported("array indexing")

    def __setitem__(self, k, v):
        self.buf.mutated = True
        j = k[0] if isinstance(k, tuple) and len(k) == 2 and k[1] is Ellipsis else k
        if isinstance(j, SInt) and self.nd and self.shp._size is not None:
            # filled for the generic index of the running loop
            c = ctx()
            loop = c.loops[-1] if c.loops else None
            va = asarr(v)
            if loop is None or P(j) != loop.j.p or va.nd:
                raise Unsupported("array item assignment")
            c.prove(P(self.shp.size()) - P(loop.n), '=', 'every element of the array is written')
            self.shp.idx = loop.j
            self.buf[:] = [cast(va.buf[0], va.dt, self.dt)] * len(self.buf)
            return
        if isinstance(j, Idx) and j is not k:
            j.arithmetic()
        if isinstance(k, Idx) and self.nd:
            self.buf[k.k] = cast(elem(v), dtype_of_scalar(v), self.dt)
            return
        va = asarr(v)
        if isinstance(k, int) and k in (0, -1) and self.nd and self.shp._size is not None and P(self.shp._size) == Poly.const(1) and not va.nd:
            self.buf[:] = [cast(va.buf[0], va.dt, self.dt)] * len(self.buf)
            return
        if k is Ellipsis or (isinstance(k, tuple) and k in ((), (Ellipsis,))) or (isinstance(k, slice) and k == slice(None) and self.nd):
            if va.nd and not self.nd:
                raise Unsupported("broadcast error in assignment")
            for i in range(len(self.buf)):
                self.buf[i] = cast(va.buf[i if va.nd else 0], va.dt, self.dt)
            return
        if isinstance(k, (SArr, SBool, bool)):
            m = asarr(k)
            if m.dt != 'b' or va.nd:
                raise Unsupported("mask assignment")
            if m.nd != self.nd and m.nd:
                raise IndexError("too many indices")
            for i in range(len(self.buf)):
                if E.as_bool(m.buf[i if m.nd else 0]):
                    self.buf[i] = cast(va.buf[0], va.dt, self.dt)
            return
        raise Unsupported("array item assignment")

    def __bool__(self):
        if self.nd:
            raise Unsupported("truth value of an array")
        return truth(self.buf[0])

    def __index__(self):
        if self.nd or self.dt not in ('i8', 'u8', 'O'):
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self.buf[0])

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __iter__(self):
        if not self.nd:
            raise TypeError("iteration over a 0-d array")
        raise Unsupported("iteration over an array")


class Flat:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        if isinstance(k, int):
            return FlatElem(self.a)
        raise Unsupported("flat index")


class FlatElem:
    """Some element of an array (only its type may be inspected)."""

    def __init__(self, a):
        self.a = a

    def __getattr__(self, n):
        raise Unsupported("value of flat element")


def elem(x):
    if isinstance(x, SArr):
        if x.nd:
            raise Unsupported("array as element")
        return x.buf[0]
    return x


def truth(x):
    if isinstance(x, SBool):
        return bool(x)
    return bool(x)


def dtype_of_scalar(x):
    """dtype code of the 0-d array made from a scalar."""
    if isinstance(x, SArr):
        return x.dt
    if isinstance(x, (SBool, bool)):
        return 'b'
    if is_flt(x):
        return 'f8'
    if isinstance(x, SInt) and x.np:
        return x.np
    if is_int(x):
        p = P(x)
        if not ctx().decide(p + 2 ** 63, '>='):
            return 'O'
        if ctx().decide(Poly.const(2 ** 63) - p, '>'):
            return 'i8'
        return 'u8' if ctx().decide(Poly.const(2 ** 64) - p, '>') else 'O'
    if isinstance(x, SMode) or x is None or not is_num(x):
        return 'O'
    raise Unsupported("dtype of %r" % type(x))


def strip(x):
    """Python-object form of a scalar."""
    if isinstance(x, SFlt):
        return SFlt(x.p) if x.np else x
    if isinstance(x, SInt):
        return mk_int(x.p)
    if isinstance(x, SBool):
        return SBool(x.t) if x.np else x
    return x


def pyscalar(x, dt):
    return strip(x)


def npscalar(x, dt):
    """Scalar obtained by indexing / scalarizing an element."""
    if dt == 'O':
        return x
    if dt == 'f8':
        return SFlt(P(x), True)
    if dt == 'b':
        return SBool(x.t, True) if isinstance(x, SBool) else SBool(('const', bool(x)), True)
    return SInt(P(x), dt)


def scalarize(a):
    return a if a.nd else npscalar(a.buf[0], a.dt)


def check_range(p, dt, what, python=False):
    E.np_range(p, dt, what, python)


def cast(x, src, dst):
    if src == dst:
        return x
    if dst == 'O':
        return strip(x)
    if dst == 'f8':
        if isinstance(x, (SBool, bool)):
            return SFlt(P(x), True)
        if is_num(x):
            return SFlt(to_flt_poly(x), True)
        raise TypeError("float() argument must be a string or a real number")
    if dst == 'b':
        if isinstance(x, (bool, SBool)):
            return x
        return mk_bool(('atom', P(x), '!='), False)
    if dst in ('i8', 'u8'):
        if isinstance(x, (bool, SBool)):
            return 1 if x else 0
        if is_flt(x):
            p = flt_trunc(P(x))
        else:
            p = P(x)
        check_range(p, dst, 'conversion to %s' % dst, src == 'O' and not getattr(x, 'np', None))
        return mk_int(p)
    raise Unsupported("cast %s -> %s" % (src, dst))


def asarr(x, dt=None):
    """np.asarray"""
    if isinstance(x, SArr):
        r = x
    elif isinstance(x, SList):
        r = SArr(x.dt, True, list(x.buf), x.shape_)
    elif is_num(x):
        if dt is not None and dt_of(dt) == 'O':
            return SArr('O', False, [strip(x) if isinstance(x, SBool) else x])       # a numpy number stays one
        code = dtype_of_scalar(x)
        r = SArr(code, False, [x])
    elif isinstance(x, (list, tuple)):
        r = from_pylist(x, dt)
    elif isinstance(x, _np.ndarray):
        raise Unsupported("real ndarray")
    elif x is None or not callable(x):
        r = SArr('O', False, [x])
    else:
        raise Unsupported("np.array(%r)" % type(x))
    if dt is not None and dt_of(dt) != r.dt:
        r = r.astype(dt)
    return r


def from_pylist(x, dt):
    if isinstance(x, (list, tuple)) and len(x) == 1 and is_num(x[0]):
        code = dtype_of_scalar(x[0]) if dt is None else dt_of(dt)
        return one_element(code, x[0] if code == 'O' else cast(x[0], dtype_of_scalar(x[0]), code))
    raise Unsupported("np.array of a Python list")


# ---------------------------------------------------------------------------------------------------
# elementwise operations
# ---------------------------------------------------------------------------------------------------
def weak_pair(a, b):
    """Operand dtypes with Python scalars treated as weak."""
    wa = not isinstance(a, SArr) and not getattr(a, 'np', None)
    wb = not isinstance(b, SArr) and not getattr(b, 'np', None)

    def code(x):
        if isinstance(x, SArr):
            return x.dt
        return dtype_of_scalar(x)
    if wa and wb:
        ca, cb = code(a), code(b)
        if is_int(a) and ca in ('u8', 'O') or is_int(b) and cb in ('u8', 'O'):
            raise Unsupported("numpy operation on Python ints outside int64")
        return ca, cb, promote(ca, cb)
    if wa or wb:
        w, s = (a, b) if wa else (b, a)
        cs = code(s)
        if isinstance(w, (bool, SBool)):
            cw, r = 'b', promote('b', cs)
        elif is_int(w):
            if cs == 'b':
                cw = r = 'i8'
            else:
                cw, r = ('O' if cs == 'O' else cs), cs
        elif is_flt(w):
            cw = 'O' if cs == 'O' else 'f8'
            r = 'O' if cs == 'O' else 'f8'
        else:
            cw = r = 'O'
        return (cw, cs, r) if wa else (cs, cw, r)
    ca, cb = code(a), code(b)
    return ca, cb, promote(ca, cb)


def shape_of(*xs):
    r = None
    for x in xs:
        if isinstance(x, SArr) and x.nd:
            if r is None or r is x.shp:
                r = x.shp
            else:
                r = x.shp
    return r


def conv_operand(x, src, dst):
    """Element converted to the loop dtype; weak Python ints given for an int64 loop must fit."""
    if dst == 'f8':
        return SFlt(to_flt_poly(x), True)
    if dst == 'O':
        return x if src == 'O' else strip(x)
    if dst in ('i8', 'u8'):
        if isinstance(x, (bool, SBool)):
            return 1 if x else 0
        if src != dst or not isinstance(x, SInt):
            check_range(P(x), dst, 'operand', src == dst and not getattr(x, 'np', None))
        return mk_int(P(x))
    if dst == 'b' and isinstance(x, SBool):
        return SBool(x.t)
    return x


_CMP = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge, 'eq': operator.eq, 'ne': operator.ne}
_ARI = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'truediv': operator.truediv, 'floordiv': operator.floordiv,
        'mod': operator.mod, 'pow': operator.pow, 'rshift': operator.rshift, 'lshift': operator.lshift, 'and': operator.and_, 'or': operator.or_, 'xor': operator.xor}


def elem_op(name, x, y, dt):
    """One element of a binary ufunc loop with loop dtype dt."""
    if name in _CMP:
        r = _CMP[name](x, y)
        return r
    if name in ('minimum', 'maximum'):
        c = (x <= y) if name == 'minimum' else (x >= y)
        return x if truth(c) else y
    if dt in ('i8', 'u8') and name in ('floordiv', 'mod') and P(y).is_const() and P(y).const_value() == 0:
        raise Unsupported("integer array divided by zero")
    if dt in ('i8', 'u8') and name in ('rshift', 'lshift') and not ctx().decide(P(y), '>='):
        raise Unsupported("negative shift count in an integer array")
    r = _ARI[name](x, y)
    if dt in ('i8', 'u8') and name not in ('truediv',):
        if name == 'pow':
            raise Unsupported("int64 power")
        check_range(P(r), dt, 'int64 operation')
    return r


def binop(name, a, b):
    a, b = prep(a), prep(b)
    ca, cb, dt = weak_pair(a, b)
    loop = dt
    if name == 'truediv' and dt in ('i8', 'u8', 'b'):
        loop = 'f8'
    if name in ('add', 'mul', 'sub') and dt == 'b':
        raise Unsupported("boolean arithmetic")
    if name in ('and', 'or', 'xor') and dt == 'f8':
        raise TypeError("ufunc not supported for the input types")
    if name in ('rshift', 'lshift', 'floordiv', 'mod') and dt == 'b':
        raise Unsupported("shift of bools")
    if name in ('rshift', 'lshift') and 'f8' in (ca, cb, dt) and 'O' not in (ca, cb):
        raise TypeError("ufunc not supported for the input types")
    if name == 'pow' and dt in ('i8', 'u8'):
        raise Unsupported("int64 power")
    A = a if isinstance(a, SArr) else SArr(ca, False, [a])
    B = b if isinstance(b, SArr) else SArr(cb, False, [b])
    nd = A.nd or B.nd
    n = ctx().tracked if nd else 1
    out = []
    for i in range(n):
        x = A.buf[i if A.nd else 0]
        y = B.buf[i if B.nd else 0]
        if name in _CMP and {A.dt, B.dt} == {'i8', 'u8'}:
            out.append(_CMP[name](mk_int(P(x)), mk_int(P(y))))     # numpy compares mixed signedness exactly
            continue
        if name in _CMP and loop in ('i8', 'u8') and 'b' not in (A.dt, B.dt) and (not isinstance(a, SArr) or not isinstance(b, SArr)):
            out.append(_CMP[name](mk_int(P(x)), mk_int(P(y))))     # comparison with Python ints is exact
            continue
        out.append(elem_op(name, conv_operand(x, A.dt, loop), conv_operand(y, B.dt, loop), loop))
    rd = 'b' if name in _CMP else loop
    if rd == 'b':
        out = [x if isinstance(x, (SBool, bool)) else mk_bool(('atom', P(x), '!='), False) for x in out]
    return scalarize(SArr(rd, nd, out, shape_of(A, B)))


def prep(x):
    if isinstance(x, SList):
        return asarr(x)
    if isinstance(x, (SArr,)) or is_num(x):
        return x
    if isinstance(x, (list, tuple)):
        return asarr(x)
    raise Unsupported("operand %r" % type(x))


def _mk(name, swap=False):
    def f(self, o):
        if not (is_num(o) or isinstance(o, (SArr, SList))):
            return NotImplemented
        return binop(name, o, self) if swap else binop(name, self, o)
    return f


def _mki(name):
    def f(self, o):
        r = asarr(binop(name, self, o))
        if r.nd and not self.nd:
            raise ValueError("non-broadcastable output operand")
        if r.dt != self.dt:
            if _ORDER[r.dt] > _ORDER[self.dt]:
                raise TypeError("Cannot cast ufunc output")
        self.buf.mutated = True
        for i in range(len(self.buf)):
            self.buf[i] = cast(r.buf[i if r.nd else 0], r.dt, self.dt)
        return self
    return f


for _n in list(_ARI):
    _py = {'and': 'and', 'or': 'or'}.get(_n, _n)
    setattr(SArr, '__%s__' % _py, _mk(_n))
    setattr(SArr, '__r%s__' % _py, _mk(_n, True))
    setattr(SArr, '__i%s__' % _py, _mki(_n))
for _n in _CMP:
    setattr(SArr, '__%s__' % _n, _mk(_n))
SArr.__neg__ = lambda self: ufunc1('neg', self)
SArr.__abs__ = lambda self: ufunc1('abs', self)
SArr.__invert__ = lambda self: ufunc1('invert', self)
def _pos(self):
    if self.dt == 'b':
        raise TypeError("ufunc 'positive' not supported")
    return scalarize(self.copy())


SArr.__pos__ = _pos


def _u_floor(x, dt):
    if dt in ('i8', 'u8'):
        return x
    p = P(x)
    if dt == 'O':
        return mk_int(flt_floor(p)) if is_flt(x) else x
    return SFlt(flt_floor(p), True)


def _u_ceil(x, dt):
    if dt in ('i8', 'u8'):
        return x
    p = P(x)
    if dt == 'O':
        return mk_int(-flt_floor(-p)) if is_flt(x) else x
    return SFlt(-flt_floor(-p), True)


def _u_trunc(x, dt):
    if dt in ('i8', 'u8'):
        return x
    p = P(x)
    if dt == 'O':
        return mk_int(flt_trunc(p)) if is_flt(x) else x
    return SFlt(flt_trunc(p), True)


def _u_round(x, dt):
    if dt in ('i8', 'u8'):
        return x
    if dt == 'O':
        raise Unsupported("np.round of objects")
    return SFlt(round_even(P(x)), True)


def _u_rint(x, dt):
    if dt in ('i8', 'u8'):
        return SFlt(to_flt_poly(x), True)
    return _u_round(x, dt)


def _u_neg(x, dt):
    if dt == 'u8' or dt == 'b':
        raise Unsupported("negation of %s" % dt)
    r = -x
    if dt == 'i8':
        check_range(P(r), dt, 'negation')
    return r


def _u_abs(x, dt):
    r = abs(x)
    if dt == 'i8':
        check_range(P(r), dt, 'abs')
    return r


def _u_sign(x, dt):
    p = P(x)
    s = 1 if truth(x > 0) else (-1 if truth(x < 0) else 0)
    return SFlt(Poly.const(s), True) if dt == 'f8' else s


def _u_invert(x, dt):
    if dt == 'b':
        return SBool(('not', x.t)) if isinstance(x, SBool) else (not x)
    if dt == 'f8':
        raise TypeError("ufunc 'invert' not supported")
    if dt == 'u8':
        return mk_int(Poly.const(2 ** 64 - 1) - P(x))
    return ~x


_U1 = {'floor': _u_floor, 'ceil': _u_ceil, 'trunc': _u_trunc, 'round': _u_round, 'rint': _u_rint, 'neg': _u_neg, 'abs': _u_abs, 'sign': _u_sign, 'invert': _u_invert}


def ufunc1(name, x):
    a = asarr(prep(x))
    if name in ('floor', 'ceil', 'trunc', 'round', 'rint', 'abs', 'sign', 'neg') and a.dt == 'b':
        raise Unsupported("%s of bool" % name)
    out = [_U1[name](e, a.dt) for e in a.buf]
    r = scalarize(SArr('f8' if name == 'rint' and a.dt in ('i8', 'u8') else a.dt, a.nd, out, a.shp))
    return r


# ---------------------------------------------------------------------------------------------------
# reductions
# ---------------------------------------------------------------------------------------------------
def no_axis(k, a):
    if a and any(x is not None for x in a):
        raise Unsupported("reduction over an axis")
    for n, v in k.items():
        if v not in (None, False):
            raise Unsupported("reduction argument %s" % n)


def reduce_any(x, *a, **k):
    no_axis(k, a)
    a = asarr(prep(x))
    if not a.nd:
        e = cast(a.buf[0], a.dt, 'b') if a.dt != 'b' else a.buf[0]
        return npscalar(e, 'b')
    c = ctx()
    conds = [cast(e, a.dt, 'b') if a.dt != 'b' else e for e in a.buf]
    # cheap cases: constant for all elements
    if all(isinstance(e, bool) for e in conds) and len(set(conds)) == 1:
        return SBool(('const', conds[0]), True)
    if c.choose(2) == 0:
        for e in conds:
            if truth(e):
                raise E.Abandon()
        return SBool(('const', False), True)
    w = c.witness()
    if not truth(conds[w]):
        raise E.Abandon()
    return SBool(('const', True), True)


def reduce_all(x, *a, **k):
    no_axis(k, a)
    a = asarr(prep(x))
    if not a.nd:
        e = cast(a.buf[0], a.dt, 'b') if a.dt != 'b' else a.buf[0]
        return npscalar(e, 'b')
    conds = [cast(e, a.dt, 'b') if a.dt != 'b' else e for e in a.buf]
    inv = SArr('b', True, [(not e) if isinstance(e, bool) else SBool(('not', e.t)) for e in conds], a.shp)
    return SBool(('const', not bool(reduce_any(inv))), True)


def reduce_ext(x, rel, a, k):
    no_axis(k, a)
    if isinstance(x, (list, tuple)):
        raise Unsupported("reduction over a Python list")
    a = asarr(prep(x))
    if not a.nd:
        return scalarize(a)
    c = ctx()
    key = ('ext', rel, tuple(P(e) for e in a.buf))
    w = c.cond_memo.get(key)
    if w is None:
        w = c.cond_memo[key] = c.witness()
    for e in a.buf:
        d = (P(a.buf[w]) - P(e))
        c.add((d if rel == 'max' else -d, '>='))
    return npscalar(a.buf[w], a.dt)


def reduce_max(x, *a, **k):
    return reduce_ext(x, 'max', a, k)


def reduce_min(x, *a, **k):
    return reduce_ext(x, 'min', a, k)


# ---------------------------------------------------------------------------------------------------
# the numpy namespace
# ---------------------------------------------------------------------------------------------------
def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    if ndmin == 1 and dtype is None and not k and type(x).__name__ == "FixFormat":
        return [x]      # a one-element object array, as far as iterating over it goes
    if k or ndmin not in (0,):
        raise Unsupported("np.array keyword arguments")
    r = asarr(x, dtype)
    if r is x and copy:
        r = x.copy()
    return r


def np_asarray(x, dtype=None, **k):
    return asarr(x, dtype)


def np_where(c, *xy):
    if len(xy) != 2:
        raise Unsupported("np.where with one argument")
    x, y = prep(xy[0]), prep(xy[1])
    c = asarr(prep(c))
    cx, cy, dt = weak_pair(x, y)
    for v in (x, y):
        if dt in ('i8', 'u8') and not isinstance(v, SArr) and not getattr(v, 'np', None):
            check_range(P(v), dt, 'np.where operand')
    if not isinstance(x, SArr) and not isinstance(y, SArr) and dt == 'O':
        raise Unsupported("np.where with Python ints outside int64")
    X = x if isinstance(x, SArr) else SArr(cx, False, [x])
    Y = y if isinstance(y, SArr) else SArr(cy, False, [y])
    nd = c.nd or X.nd or Y.nd
    n = ctx().tracked if nd else 1
    out = []
    for i in range(n):
        e = c.buf[i if c.nd else 0]
        if truth(e):
            out.append(conv_operand(X.buf[i if X.nd else 0], X.dt, dt))
        else:
            out.append(conv_operand(Y.buf[i if Y.nd else 0], Y.dt, dt))
    return SArr(dt, nd, out, shape_of(c, X, Y))


def make(shape, dt, v):
    if isinstance(shape, SShape):
        return SArr(dt, True, [v] * ctx().tracked, shape)
    if isinstance(shape, tuple) and shape == ():
        return SArr(dt, False, [v])
    if isinstance(shape, tuple) and len(shape) == 1 and isinstance(shape[0], SInt):
        return SArr(dt, True, [v] * ctx().tracked, SShape('vec', size=shape[0]))
    if isinstance(shape, tuple) and len(shape) == 1 and isinstance(shape[0], int) and shape[0] == 1:
        # every tracked element is the single element
        return SArr(dt, True, [v] * ctx().tracked, SShape('one', size=mk_int(Poly.const(1))))
    if isinstance(shape, SInt):
        return SArr(dt, True, [v] * ctx().tracked, SShape('vec', size=shape))
    if isinstance(shape, MixedShape):
        from . import words
        return words.new_words(shape, dt)
    raise Unsupported("array creation with shape %r" % (shape,))


def one_element(dt, v):
    return SArr(dt, True, [v] * ctx().tracked, SShape('one', size=mk_int(Poly.const(1))))


class Undef:
    def __getattr__(self, n):
        raise Unsupported("use of an uninitialized element")


def _zero(dt):
    return {'f8': SFlt(Poly.const(0), True), 'b': False}.get(dt, 0)


class Vectorize:
    def __init__(self, f, otypes=None, **k):
        self.f = f
        if otypes is None:
            raise Unsupported("np.vectorize without otypes")
        self.dt = dt_of(otypes[0] if not isinstance(otypes, str) else otypes)

    def __call__(self, *args):
        arrs = [asarr(prep(a)) for a in args]
        nd = any(a.nd for a in arrs)
        n = ctx().tracked if nd else 1
        out = []
        for i in range(n):
            xs = [pyscalar(a.buf[i if a.nd else 0], a.dt) for a in arrs]
            r = self.f(*xs)
            r = elem(r)
            out.append(cast(r, dtype_of_scalar(r) if self.dt != 'O' else 'O', self.dt))
        return SArr(self.dt, nd, out, shape_of(*arrs))


def _ndim(x):
    if isinstance(x, SArr):
        return x.ndim
    if isinstance(x, SList):
        return asarr(x).ndim
    if is_num(x):
        return 0
    if isinstance(x, (list, tuple)):
        raise Unsupported("np.ndim of a list")
    return 0


def _size(x):
    if isinstance(x, SArr):
        return x.size
    if isinstance(x, SList):
        return x.shape_.size()
    return 1


def np_prod(x, *a, **k):
    if isinstance(x, SShape):
        return SInt(P(x.size()), 'i8')
    if isinstance(x, tuple) and x == ():
        return SFlt(Poly.const(1), True)
    if is_int(x):
        if not getattr(x, 'np', None) and dtype_of_scalar(x) != 'i8':
            raise Unsupported("np.prod of a Python int outside int64")
        return SInt(P(x), 'i8') if getattr(x, 'np', None) != 'u8' else x
    raise Unsupported("np.prod")


def logical(op):
    def f(a, b):
        A, B = asarr(prep(a)), asarr(prep(b))
        if 'O' in (A.dt, B.dt) or 'u8' in (A.dt, B.dt):
            raise Unsupported("logical operation on objects")
        nd = A.nd or B.nd
        n = ctx().tracked if nd else 1
        out = []
        for i in range(n):
            x = A.buf[i if A.nd else 0]
            y = B.buf[i if B.nd else 0]
            x = cast(x, A.dt, 'b')
            y = cast(y, B.dt, 'b')
            tx = x.t if isinstance(x, SBool) else ('const', x)
            ty = y.t if isinstance(y, SBool) else ('const', y)
            out.append(SBool((op, tx, ty)))
        return scalarize(SArr('b', nd, out, shape_of(A, B)))
    return f


class NumpyRandom:
    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        code = dt_of(dtype) if dtype is not None else 'i8'
        if code != 'i8':
            raise Unsupported("randint dtype")
        lo = P(cast(elem(low), dtype_of_scalar(low), 'i8'))
        # the upper bound may be one more than the largest value
        h = elem(high)
        hp = flt_trunc(P(h)) if is_flt(h) else P(h)
        c = ctx()
        c.prove(Poly.const(2 ** 63) - hp, '>=', 'randint upper bound within int64')
        c.prove(hp - lo, '>', 'randint range is not empty')
        c.rand_range = (lo, hp)

        def fresh():
            v = c.int('random')
            c.add((v.p - lo, '>='))
            c.add((hp - v.p, '>'))
            return v
        if size is None or (isinstance(size, tuple) and size == ()):
            # size () gives a 0-d result as scalar int64 / ndarray
            v = fresh()
            return SInt(v.p, 'i8') if size is None else SArr('i8', False, [v])
        if isinstance(size, (SShape, SInt)):
            shp = size if isinstance(size, SShape) else SShape('vec', size=size)
            return SArr('i8', True, [fresh() for _ in range(c.tracked)], shp)
        raise Unsupported("randint size")

    def __getattr__(self, n):
        raise Unsupported("np.random.%s" % n)


def _conv_f8(x=0.0):
    if isinstance(x, SArr):
        if x.nd:
            raise Unsupported("np.float64(array)")
        x = x.buf[0]
    return SFlt(to_flt_poly(x), True)


def _conv_i8(x=0):
    x = elem(x)
    return SInt(P(cast(x, dtype_of_scalar(x), 'i8')), 'i8')


def _conv_u8(x=0):
    x = elem(x)
    return SInt(P(cast(x, 'O' if is_int(x) else 'f8', 'u8')), 'u8')


def _conv_b(x=False):
    return npscalar(cast(elem(x), 'O', 'b'), 'b')


FLOAT64 = Token('numpy.float64', 'f8', _conv_f8)
INT64 = Token('numpy.int64', 'i8', _conv_i8)
UINT64 = Token('numpy.uint64', 'u8', _conv_u8)
BOOL_ = Token('numpy.bool', 'b', _conv_b)
OBJECT = Token('numpy.object_', 'O', lambda x: x)
NDARRAY = Token('numpy.ndarray', None)
GENERIC = Token('numpy.generic', None)
NUMBER = Token('numpy.number', None)
INTEGER = Token('numpy.integer', None)
FLOATING = Token('numpy.floating', None)


def _bin(name):
    return lambda a, b: binop(name, a, b)


def _un(name):
    return lambda a, *r: ufunc1(name, a)


class NumpyShim:
    float64 = FLOAT64
    double = FLOAT64
    int64 = INT64
    uint64 = UINT64
    bool_ = BOOL_
    bool = BOOL_
    object_ = OBJECT
    ndarray = NDARRAY
    generic = GENERIC
    number = NUMBER
    integer = INTEGER
    floating = FLOATING
    random = NumpyRandom()
    newaxis = None

    array = staticmethod(np_array)
    asarray = staticmethod(np_asarray)
    asanyarray = staticmethod(np_asarray)
    where = staticmethod(np_where)
    any = staticmethod(reduce_any)
    all = staticmethod(reduce_all)
    max = amax = staticmethod(reduce_max)
    min = amin = staticmethod(reduce_min)
    floor = staticmethod(_un('floor'))
    ceil = staticmethod(_un('ceil'))
    trunc = fix = staticmethod(_un('trunc'))
    rint = staticmethod(_un('rint'))
    abs = absolute = fabs = staticmethod(_un('abs'))
    negative = staticmethod(_un('neg'))
    sign = staticmethod(_un('sign'))
    logical_and = staticmethod(logical('and'))
    logical_or = staticmethod(logical('or'))
    invert = bitwise_not = staticmethod(_un('invert'))
    bitwise_and = staticmethod(_bin('and'))
    bitwise_or = staticmethod(_bin('or'))
    add = staticmethod(_bin('add'))
    subtract = staticmethod(_bin('sub'))
    multiply = staticmethod(_bin('mul'))
    divide = true_divide = staticmethod(_bin('truediv'))
    floor_divide = staticmethod(_bin('floordiv'))
    mod = remainder = staticmethod(_bin('mod'))
    power = staticmethod(_bin('pow'))
    right_shift = staticmethod(_bin('rshift'))
    left_shift = staticmethod(_bin('lshift'))
    less = staticmethod(_bin('lt'))
    less_equal = staticmethod(_bin('le'))
    greater = staticmethod(_bin('gt'))
    greater_equal = staticmethod(_bin('ge'))
    equal = staticmethod(_bin('eq'))
    not_equal = staticmethod(_bin('ne'))
    minimum = staticmethod(_bin('minimum'))
    maximum = staticmethod(_bin('maximum'))
    ndim = staticmethod(_ndim)
    size = staticmethod(_size)
    prod = staticmethod(np_prod)
    vectorize = Vectorize

    @staticmethod
    def round(x, decimals=0):
        if decimals != 0:
            raise Unsupported("np.round decimals")
        return ufunc1('round', x)
    around = round

    @staticmethod
    def logical_not(x):
        a = asarr(prep(x))
        if a.dt == 'O':
            raise Unsupported("logical operation on objects")
        return scalarize(SArr('b', a.nd, [_u_invert(cast(e, a.dt, 'b'), 'b') for e in a.buf], a.shp))

    @staticmethod
    def clip(x, lo, hi):
        r = x
        a = asarr(prep(x))
        if a.dt in ('i8', 'u8', 'b') or a.dt == 'O' and not a.nd:
            raise Unsupported("np.clip of integers")
        if lo is not None:
            r = binop('maximum', r, lo)
        if hi is not None:
            r = binop('minimum', r, hi)
        return r

    @staticmethod
    def ldexp(x, e):
        return binop('mul', x, binop('pow', 2.0, e))

    @staticmethod
    def exp2(e):
        return binop('pow', 2.0, e)

    @staticmethod
    def zeros(shape, dtype=FLOAT64):
        return make(shape, dt_of(dtype), _zero(dt_of(dtype)))

    @staticmethod
    def ones(shape, dtype=FLOAT64):
        return make(shape, dt_of(dtype), cast(1, 'i8', dt_of(dtype)))

    @staticmethod
    def full(shape, v, dtype=None):
        d = dt_of(dtype) if dtype is not None else dtype_of_scalar(v)
        return make(shape, d, cast(elem(v), dtype_of_scalar(v), d))

    @staticmethod
    def empty(shape, dtype=FLOAT64):
        return make(shape, dt_of(dtype), Undef())

    @staticmethod
    def zeros_like(x, dtype=None):
        a = asarr(x)
        d = dt_of(dtype) if dtype is not None else a.dt
        return SArr(d, a.nd, [_zero(d)] * len(a.buf), a.shp)

    @staticmethod
    def ones_like(x, dtype=None):
        a = asarr(x)
        d = dt_of(dtype) if dtype is not None else a.dt
        return SArr(d, a.nd, [cast(1, 'i8', d)] * len(a.buf), a.shp)

    @staticmethod
    def full_like(x, v, dtype=None):
        a = asarr(x)
        d = dt_of(dtype) if dtype is not None else a.dt
        return SArr(d, a.nd, [cast(elem(v), dtype_of_scalar(v), d)] * len(a.buf), a.shp)

    @staticmethod
    def empty_like(x, dtype=None):
        a = asarr(x)
        d = dt_of(dtype) if dtype is not None else a.dt
        return SArr(d, a.nd, [Undef()] * len(a.buf), a.shp)

    @staticmethod
    def copy(x):
        return np_array(x)

    @staticmethod
    def isscalar(x):
        return is_num(x)

    @staticmethod
    def shape(x):
        return asarr(x).shape

    @staticmethod
    def dtype(x):
        return DT(dt_of(x))

    @staticmethod
    def array_equal(a, b):
        if asarr(a).nd != asarr(b).nd:
            raise Unsupported("np.array_equal with different shapes")
        return strip(reduce_all(binop('eq', asarr(a), asarr(b))))

    @staticmethod
    def issubdtype(d, t):
        code = dt_of(d)
        if t is FLOATING or t is FLOAT64:
            return code == 'f8'
        if t is INTEGER:
            return code in ('i8', 'u8')
        raise Unsupported("issubdtype")

    @staticmethod
    def arange(*a, **k):
        from . import words
        return words.arange(*a, **k)

    @staticmethod
    def matmul(a, b):
        from . import words
        return words.matmul(a, b)
    dot = matmul

    @staticmethod
    def atleast_1d(x):
        if not isinstance(x, (SArr, SInt, SFlt, int, float)):
            raise Unsupported("np.atleast_1d")
        a = asarr(x)
        if a.nd:
            return a
        # shares memory with a 0-d array
        r = one_element(a.dt, a.buf[0])
        r.buf.parent = a.buf
        return r

    @staticmethod
    def reshape(a, shape):
        return a.reshape(shape)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported("numpy.%s" % n)


NP = NumpyShim()
