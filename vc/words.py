"""Arrays with a symbolic number of 64-bit words: generic word index, loop rule, weighted sums."""
from .poly import Poly, Unsupported
from . import engine as E
from . import npshim as N
from .engine import SInt, P, mk_int
from .npshim import SArr, SShape, Buf



def p2(e):
    return Poly.pow2(e if isinstance(e, Poly) else Poly.const(e))


class SWords:
    """uint64 array: one symbolic axis of `n` words in front of or behind the element axes.

    Either `gen(k, j)` gives word j of tracked element k, or the array was filled for the generic index `j` with `exprs`."""
    __array_priority__ = 1000

    def __init__(self, n, first, nd, shape, dt='u8', gen=None):
        self.n, self.first, self.nd, self.elem_shape, self.dt, self.gen = n, first, nd, shape, dt, gen
        self.j = None
        self.exprs = None
        self.mutated = False

    @property
    def dtype(self):
        return N.DT(self.dt)

    @property
    def shape(self):
        return WShape(self)

    @property
    def ndim(self):
        if not self.nd:
            return 1
        d = E.ctx().int('ndim')
        E.ctx().add((d.p - 2, '>='))
        return d

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported("attribute %s of a word array" % name)

    def index(self, k):
        """The word index selected by an indexing expression that keeps all element axes."""
        if not isinstance(k, tuple):
            k = (k,)
        rest = k[1:] if self.first else k[:-1]
        j = k[0] if self.first else k[-1]
        if isinstance(j, N.Idx):
            j.arithmetic()
        if not k or not E.is_int(j) or any(r is not Ellipsis for r in rest) or (self.nd and not self.first and not rest) or len(rest) > 1:
            raise Unsupported("word array indexing")
        return j

    def __setitem__(self, k, v):
        c = E.ctx()
        self.mutated = True
        j = self.index(k)
        if self.gen is not None or self.j is not None:
            raise Unsupported("second assignment to a word array")
        loop = c.loops[-1] if getattr(c, 'loops', None) else None
        if loop is None or not P(j) == loop.j.p:
            raise Unsupported("assignment to a fixed word")
        c.prove(P(self.n) - P(loop.n), '=', 'every word of the array is written')
        va = N.asarr(v)
        if va.nd and not self.nd:
            raise Unsupported("broadcast error in assignment")
        self.j = loop.j
        self.exprs = [N.cast(va.buf[i if va.nd else 0], va.dt, self.dt) for i in range(c.tracked if self.nd else 1)]

    def __getitem__(self, k):
        j = self.index(k)
        c = E.ctx()
        if self.gen is None:
            raise Unsupported("reading a computed word array")
        c.prove(P(j), '>=', 'word index in bounds')
        c.prove(P(self.n) - 1 - P(j), '>=', 'word index in bounds')
        els = [SInt(self.gen(i, P(j)), 'u8' if self.dt == 'u8' else None) for i in range(c.tracked if self.nd else 1)]
        if self.nd:
            return SArr(self.dt, True, els, self.elem_shape)
        return els[0]

    def astype(self, dt, copy=True):
        dt = N.dt_of(dt)
        if dt not in ('O', 'u8') or self.gen is None:
            raise Unsupported("conversion of a word array")
        return SWords(self.n, self.first, self.nd, self.elem_shape, dt, self.gen)

    def copy(self):
        if self.gen is None:
            raise Unsupported("copy of a computed word array")
        return SWords(self.n, self.first, self.nd, self.elem_shape, self.dt, self.gen)

    def __len__(self):
        raise Unsupported("len of a word array")


class WShape:
    def __init__(self, w):
        self.w = w

    def __getitem__(self, k):
        w = self.w
        if isinstance(k, int):
            if w.first and k == 0 or not w.first and k == -1 or not w.nd and k in (0, -1):
                return mk_int(P(w.n))
        if isinstance(k, slice):
            if w.first and k == slice(1, None) or not w.first and k == slice(None, -1):
                return w.elem_shape if w.nd else ()
        raise Unsupported("shape of a word array")

    def __len__(self):
        raise Unsupported("number of dimensions")


def new_words(shape, dt):
    if dt != 'u8':
        raise Unsupported("array of shape %r" % (shape,))
    pre, post = shape.pre, shape.post
    if len(pre) + len(post) != 1:
        raise Unsupported("array of shape %r" % (shape,))
    n = (pre or post)[0]
    return SWords(n, bool(pre), True, shape.mid)


def arange(*a, **k):
    if k or len(a) != 1 or not E.is_int(a[0]):
        raise Unsupported("np.arange")
    c = E.ctx()
    n = a[0]
    shp = SShape('arange', size=mk_int(P(n)))
    j = c.int('index')
    c.add((j.p, '>='))
    c.add((P(n) - 1 - j.p, '>='))
    shp.idx = j
    return SArr('i8', True, [SInt(j.p, 'i8')] * c.tracked, shp)


def matmul(a, b):
    """Weighted sum over the word axis: proved equal to the packed value by induction over the words."""
    c = E.ctx()
    if isinstance(b, SWords) and b.first and isinstance(a, SArr):
        w, x = a, b
    elif isinstance(a, SWords) and (not a.first or not a.nd) and isinstance(b, SArr):
        w, x = b, a
    else:
        raise Unsupported("matmul")
    idx = getattr(w.shp, 'idx', None)
    if idx is None or x.gen is None or w.dt != 'O':
        raise Unsupported("matmul")
    c.prove(P(w.shp.size()) - P(x.n), '=', 'as many weights as words')
    out = []
    for i in range(c.tracked if x.nd else 1):
        u = x.value(i)
        wt, j = P(w.buf[0]), idx.p

        def partial(m):
            return u - p2(64 * m) * c.floor(u * p2(-64 * m))
        ok = c.prove(partial(Poly.const(0)), '=', 'weighted sum of no words is zero')
        # floor(floor(u/2**64j)/2**64) = floor(u/2**64(j+1))
        nested(c.floor(u * p2(-64 * j)), u * p2(-64 * j))
        ok &= c.prove(partial(j + 1) - partial(j) - wt * x.gen(i, j), '=', 'weighted sum: next word')
        ok &= c.prove(partial(P(x.n)) - u, '=', 'weighted sum of all words is the packed value')
        if not ok:
            raise Unsupported("weighted sum of words")
        out.append(mk_int(u))
    if x.nd:
        return SArr('O', True, out, x.elem_shape)
    return out[0]


def nested(y, t, shift=64):
    """Lemma: with y = floor(t), floor(y/2**s) = floor(t/2**s).  Proved, then added to the facts of the path."""
    c = E.ctx()
    a, b = c.floor(y * p2(-shift)), c.floor(t * p2(-shift))
    if a == b:
        return
    # both are integers; a <= y/2**s <= t/2**s and b <= t/2**s, i.e. 2**s b <= t, hence 2**s b <= y
    key = ('nested', y, t, shift)
    if key in c.stub_memo:
        return
    c.stub_memo[key] = True
    ok = c.prove(a - b, '=', 'nested division')
    if ok:
        c.add((a - b, '='))


def input_words(h, n, first, kind, us, shape):
    """Symbolic word array holding the two's complement words of the non-negative integers us."""
    c = h.c

    def gen(k, j):
        u = us[k]
        return c.floor(u * p2(-64 * j)) - p2(64) * c.floor(u * p2(-64 * j - 64))
    w = SWords(n, first, kind == 'nd', shape, 'u8', gen)
    w.value = lambda k: us[k]
    return w


# ---------------------------------------------------------------------------------------------------
# loop rule for loops over range(n) that carry values between iterations
# ---------------------------------------------------------------------------------------------------
def templates(x0):
    """Candidate closed forms of a carried value after i iterations."""
    c = E.ctx()
    out = [lambda i: x0]
    for s in (64, 32, 16, 8, 1):
        out.append(lambda i, s=s: c.floor(x0 * p2(-s * i)))
        out.append(lambda i, s=s: x0 * p2(s * i))
        out.append(lambda i, s=s: x0 + s * i)
    return out


NT = 16


class Poison:
    """A name that only had a value inside a loop body."""

    def __init__(self, name):
        object.__setattr__(self, 'n', name)

    def __getattr__(self, a):
        raise Unsupported("use of %s after the loop" % object.__getattribute__(self, 'n'))


for _n in ('add radd sub rsub mul rmul lt le gt ge eq ne bool getitem setitem call len iter index floordiv mod pow rpow truediv lshift rshift and or neg').split():
    setattr(Poison, '__%s__' % _n, lambda self, *a: self.fail())
Poison.__hash__ = lambda self: id(self)


class SymLoop:
    symbolic = True

    def __init__(self, n, names, where):
        c = E.ctx()
        self.n, self.names, self.where = mk_int(P(n)), names, where
        self.saved = None
        self.j = None
        self.left = 0

    def __iter__(self):
        c = E.ctx()
        if not c.entails(P(self.n) - 1, '>=') and not c.decide(P(self.n) - 1, '>='):
            return
        if not self.names and not c.loop_choice.get((self.where, '')):
            # independent iterations: one per tracked element
            for k in range(c.tracked):
                yield N.Idx(k, self.where)
            return
        self.j = c.int('loop')
        c.add((self.j.p, '>='))
        c.add((self.n.p - 1 - self.j.p, '>='))
        c.loops.append(self)
        self.left = 0
        yield SInt(self.j.p)
        c.loops.pop()
        if self.names and not self.left:
            raise Unsupported("loop body left early")

    def choice(self, name):
        return E.ctx().loop_choice.get((self.where, name), 0)

    def form(self, name, x0, i):
        return templates(x0)[self.choice(name)](i)

    def apply(self, name, x, i):
        if isinstance(x, SArr) and x.dt in ('O', 'i8'):
            return SArr(x.dt, x.nd, Buf([mk_int(self.form(name, P(e), i)) for e in x.buf]), x.shp)
        if E.is_int(x):
            return mk_int(self.form(name, P(x), i))
        raise Unsupported("loop carries %s" % name)

    def enter(self, vals):
        if self.j is None:
            raise Unsupported("loop carries %s" % ', '.join(self.names))
        self.saved = vals
        self.inside = tuple(self.apply(n, x, self.j.p) for n, x in zip(self.names, vals))
        return self.inside

    def leave(self, vals):
        c = E.ctx()
        self.left = 1
        self.after = vals
        for n, x0, x, y in zip(self.names, self.saved, self.inside, vals):
            want = self.apply(n, x0, self.j.p + 1)
            e0 = x0.buf if isinstance(x0, SArr) else [x0]
            ew = want.buf if isinstance(want, SArr) else [want]
            ok = isinstance(y, SArr) == isinstance(want, SArr) and (not isinstance(y, SArr) or (y.dt == want.dt and y.nd == want.nd and y.shp is want.shp))
            ey = y.buf if isinstance(y, SArr) else [y]
            if ok:
                for a, q, b in zip(e0, ey, ew):
                    t = P(a) * p2(-64 * self.j.p)
                    nested(c.floor(t), t)
                    ok = ok and (P(q) == P(b) or c.entails(P(q) - P(b), '='))
            if not ok:
                k = (self.where, n)
                c.loop_choice[k] = c.loop_choice.get(k, 0) + 1
                if c.loop_choice[k] >= NT:
                    raise Unsupported("no invariant found for %s, carried by a loop" % n)
                raise E.Restart()
            c.check(True, 'loop invariant of %s holds initially and is preserved' % n)
        return vals

    def exit(self, vals):
        if self.saved is None:
            return vals
        out = []
        for n, x0, x, y in zip(self.names, self.saved, self.inside, self.after):
            v = self.apply(n, x0, self.n.p)
            if y is x and isinstance(x0, SArr):
                # updated in place
                if getattr(x.buf, 'mutated', False):
                    x0.buf.mutated = True
                    x0.buf[:] = list(v.buf)
                v = x0
            out.append(v)
        self.saved = None
        return tuple(out)

    def poison(self, names):
        return tuple(Poison(n) for n in names)


class PlainLoop:
    symbolic = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)
