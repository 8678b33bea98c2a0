"""Specification functions, symbolic inputs and contract stubs shared by all tasks."""
import re
from z3 import Z3Exception
from fractions import Fraction
from .poly import Poly, Sym, Unsupported, opaque_sym, ZERO, ONE
from . import engine as E
from . import npshim as N
from .engine import SInt, SFlt, SBool, SMode, P, mk_int, is_num
from .npshim import SArr, SList, SShape, Buf

HALF = Fraction(1, 2)
p2 = Poly.pow2


def C(x):
    return Poly.const(x)


class Fail(Exception):
    pass


# the classes that stand for values of the running code; Python names them in the text of a TypeError or AttributeError
STAND_IN = re.compile(r"'?\b(Scalar|SInt|SFlt|SBool|SMode|SRange|\w+Shim|SShape|MixedShape|WShape|Idx|SList|SArr|SWords|Flat|FlatElem|Undef|Vectorize|"
                      r"NumpyRandom|Token|DT|Buf|Poly|Sym|FileStandIn|SymLoop|PlainLoop|Poison)\b'?")


class H:
    """Harness bound to a loaded package; used inside an exploring context."""

    def __init__(self, pkg):
        self.pkg = pkg
        t = pkg.mod('en_cl_fix_types')
        self.FixFormat = t.FixFormat
        self.FixRound = t.FixRound
        self.FixSaturate = t.FixSaturate
        self.NarrowFix = pkg.mod('narrow_fix').NarrowFix
        self.WideFix = pkg.mod('wide_fix').WideFix
        self.m = pkg.mod('en_cl_fix')
        self.undo = []
        self.reveal = False
        self.track_warn = False
        self.vecshape = None

    @property
    def c(self):
        return E.ctx()

    # -- inputs ---------------------------------------------------------------------------------
    def fmt(self, name, S, width=None, null=False):
        """Symbolic valid format with sign S; width: 'narrow' (<=53), 'wide' (>=54) or None."""
        c = self.c
        I, F = c.int(name + 'I'), c.int(name + 'F')
        c.add((I.p + F.p, '>='))
        if not null:
            c.add((I.p + F.p + S - 1, '>='))
        if width == 'narrow':
            c.add((C(53 - S) - I.p - F.p, '>='))
        elif width == 'wide':
            c.add((I.p + F.p + S - 54, '>='))
        return self.FixFormat(S, I, F)

    def width(self, f):
        return P(f.S) + P(f.I) + P(f.F)

    def in_fmt_facts(self, k, f):
        """Facts: unnormalized integer k is representable in format f."""
        s = P(f.S)
        top = p2(P(f.I) + P(f.F))
        return [(k + s * top, '>='), (top - 1 - k, '>=')]

    def shape(self):
        c = self.c
        s = c.cond_memo.get('shape')
        if s is None:
            s = c.cond_memo['shape'] = SShape('shape')
        return s

    def data(self, name, f, kind, wide):
        """Symbolic valid data for format f.  Returns (python object, list of exact value polys)."""
        c = self.c
        n = c.tracked if kind in ('nd', 'list') else 1
        ks = []
        for i in range(n):
            k = c.int('%s_k%d' % (name, i))
            for fact in self.in_fmt_facts(k.p, f):
                c.add(fact)
            ks.append(k)
        vals = [k.p * p2(-P(f.F)) for k in ks]
        els = list(ks) if wide else [SFlt(v) for v in vals]
        dt = 'O' if wide else 'f8'
        return self.wrap(els, dt, kind), vals

    def wrap(self, els, dt, kind):
        if kind == 'py':
            return els[0]
        if kind == 'np':
            return SFlt(P(els[0]), True) if dt == 'f8' else SInt(P(els[0]), dt)
        if kind == '0d':
            return SArr(dt, False, Buf(els))
        if kind == 'nd':
            return SArr(dt, True, Buf(els), self.shape())
        if kind == 'list':
            l = SList(Buf(els), self.shape())
            l.dt = dt
            return l
        raise ValueError(kind)

    def narrow(self, data, f):
        return self.NarrowFix(data, f)

    def obj(self, name, f, kind, wide):
        """Symbolic NarrowFix/WideFix object (0-d or N-d)."""
        d, vals = self.data(name, f, kind, wide)
        return (self.WideFix if wide else self.NarrowFix)(d, f), vals

    def elements(self, kinds):
        return self.c.tracked if any(k in ('nd', 'list') for k in kinds) else 1

    def val(self, vals, i):
        return vals[i] if len(vals) > 1 else vals[0]

    # -- spec -----------------------------------------------------------------------------------
    def spec_round(self, v, F_from, rF, rnd):
        """Scaled integer (LSB units of rF) that rounding the exact value v must give; None F_from: real."""
        c = self.c
        x = v * p2(rF)
        if F_from is not None and c.decide(rF - F_from, '>='):
            return x
        if not self.reveal:
            return self.RND(rnd, x)
        return self.round_reveal(x, rnd)

    def RND(self, rnd, x):
        key = rnd.name_ if isinstance(rnd, SMode) else rnd.name
        s = opaque_sym('RND', (key, x), True, facts=lambda n, a: [(n - a[1] + 1, '>'), (a[1] - n + 1, '>')])
        return Poly.var(s)

    def round_reveal(self, x, rnd):
        c = self.c
        R = self.FixRound
        up = c.floor(x + HALF)
        down = -c.floor(-x + HALF)
        if isinstance(rnd, SMode):
            rnd = rnd.resolve()
        if rnd is R.Trunc_s:
            return c.floor(x)
        if rnd is R.NonSymPos_s:
            return up
        if rnd is R.NonSymNeg_s:
            return down
        if rnd is R.SymInf_s:
            return up if c.decide(x, '>=') else down
        if rnd is R.SymZero_s:
            return down if c.decide(x, '>=') else up
        even = c.decide(up - 2 * c.floor(up * HALF), '=')
        if rnd is R.ConvEven_s:
            return up if even else down
        return down if even else up

    def prove_round(self, n, x, rnd, label):
        """Obligations: integer n is x rounded by mode rnd (definition by distance and tie rule)."""
        c = self.c
        R = self.FixRound
        if isinstance(rnd, SMode):
            rnd = rnd.resolve()
        ok = c.prove(c.floor(n) - n, '=', label + ': result is a multiple of the LSB')
        d = n - x
        if rnd is R.Trunc_s:
            ok &= c.prove(-d, '>=', label + ': not above the value')
            ok &= c.prove(d + 1, '>', label + ': within one LSB')
            return ok
        ok &= c.prove(d + HALF, '>=', label + ': nearest (lower)')
        ok &= c.prove(C(HALF) - d, '>=', label + ': nearest (upper)')
        if rnd in (R.ConvEven_s, R.ConvOdd_s):
            if c.decide(d + HALF, '=') or c.decide(d - HALF, '='):
                want = 0 if rnd is R.ConvEven_s else 1
                ok &= c.prove(n - 2 * c.floor(n * HALF) - want, '=', label + ': ties to even/odd')
            return ok
        to_up = {R.NonSymPos_s: True, R.NonSymNeg_s: False}.get(rnd)
        if to_up is None:
            to_up = c.decide(x, '>=') == (rnd is R.SymInf_s)
        if to_up:
            ok &= c.prove(d + HALF, '>', label + ': ties')
        else:
            ok &= c.prove(C(HALF) - d, '>', label + ': ties')
        return ok

    def spec_resize(self, v, F_from, rf, rnd, sat):
        """Scaled integer that resizing the exact value v to rf must give."""
        c = self.c
        if self.reveal:
            return self.spec_sat(self.spec_round(v, F_from, P(rf.F), rnd), rf, sat)
        x = v * p2(P(rf.F))
        s_, e_ = int(rf.S), P(rf.I) + P(rf.F)
        if c.lin.entails((P(rf.F) - F_from, '>=')) and all(c.entails(p, r, 2 if any(len(at) > 1 for ex, at in x.d) else 1) for p, r in self.in_fmt_facts(x, rf)):
            return x
        key = tuple(m.name_ if isinstance(m, SMode) else m.name for m in (rnd, sat)) + (s_, e_)
        log = c.stub_memo.setdefault('RESIZE', {})
        for y, r in log.get(key, ()):
            if y == x or c.entails(y - x, '=', 1):
                return r
        s = opaque_sym('RESIZE', key + (x,), True,
                       facts=lambda r, a: [(r + p2(a[3]) * a[2], '>='), (p2(a[3]) - 1 - r, '>=')])
        r = Poly.var(s)
        log.setdefault(key, []).append((x, r))
        return r

    def is_wrap(self, sat):
        return sat in (self.FixSaturate.None_s, self.FixSaturate.Warn_s)

    def is_warn(self, sat):
        return sat in (self.FixSaturate.Warn_s, self.FixSaturate.SatWarn_s)

    def spec_sat(self, n, f, sat):
        """Scaled integer n saturated/wrapped to format f."""
        c = self.c
        k = ('spec_sat', n, P(f.S), P(f.I), P(f.F), sat.name_ if isinstance(sat, SMode) else sat.name)
        if not self.reveal and k in c.stub_memo:
            return c.stub_memo[k]
        if all(c.entails(p, r, 1) for p, r in self.in_fmt_facts(n, f)):
            r = n
        elif not self.reveal:
            r = self.SAT(n, f, sat)
        else:
            return self.sat_reveal(n, f, sat)
        c.stub_memo[k] = r
        return r
        return self.sat_reveal(n, f, sat)

    def SAT(self, n, f, sat):
        key = sat.name_ if isinstance(sat, SMode) else sat.name
        s_, e_ = int(f.S), P(f.I) + P(f.F)
        s = opaque_sym('SAT', (key, s_, e_, n), True,
                       facts=lambda r, a: [(r + p2(a[2]) * a[1], '>='), (p2(a[2]) - 1 - r, '>=')],
                       clauses=lambda r, a: [[(-a[3] - p2(a[2]) * a[1], '>'), (a[3] - p2(a[2]), '>='), (r - a[3], '=')]])
        return Poly.var(s)

    def sat_reveal(self, n, f, sat):
        c = self.c
        s, e = int(f.S), P(f.I) + P(f.F)
        top = p2(e)
        if isinstance(sat, SMode):
            sat = sat.resolve()
        if self.is_wrap(sat):
            if s == 0:
                return n - top * c.floor(n * p2(-e))
            return n - 2 * top * c.floor((n + top) * p2(-e - 1))
        if c.decide(n - top, '>='):
            return top - 1
        if c.decide(-n - s * top, '>'):
            return -s * top
        return n

    def prove_sat(self, r, n, f, sat, label):
        """Obligations: integer r is n saturated/wrapped to f (definition)."""
        c = self.c
        s, e = int(f.S), P(f.I) + P(f.F)
        top = p2(e)
        if isinstance(sat, SMode):
            sat = sat.resolve()
        if self.is_wrap(sat):
            ok = True
            for p, rel in self.in_fmt_facts(r, f):
                ok &= c.prove(p, rel, label + ': wrapped value in range')
            q = (r - n) * p2(-e - s)
            ok &= c.prove(q - c.floor(q), '=', label + ': wrapped value congruent')
            return ok
        if c.decide(n - top, '>='):
            return c.prove(r - top + 1, '=', label + ': clipped to maximum')
        if c.decide(-n - s * top, '>'):
            return c.prove(r + s * top, '=', label + ': clipped to minimum')
        return c.prove(r - n, '=', label + ': value in range unchanged')

    # -- results --------------------------------------------------------------------------------
    def is_wide_fmt(self, f):
        return self.c.decide(self.width(f) - 54, '>=')

    def dims(self, data):
        """(N-d?, shape) without deciding a dtype."""
        if isinstance(data, SArr):
            return data.nd, data.shp
        if isinstance(data, SList):
            return True, data.shape_
        return False, None

    def arr(self, data):
        return data if isinstance(data, SArr) else N.asarr(data)

    def check_repr(self, data, f, label, nd=None, shape=None):
        """Structural obligations on raw result data; returns scaled integer polys (units of 2**-F)."""
        c = self.c
        wide = self.is_wide_fmt(f)
        if not (isinstance(data, (SArr, SFlt)) or is_num(data)):
            c.check(False, label + ': representation', 'result is %r' % type(data).__name__)
            return None
        a = self.arr(data)
        want = 'O' if wide else 'f8'
        if not c.check(a.dt == want, label + ': stored as %s' % ('integers' if wide else 'doubles'), 'dtype is %s' % a.dt):
            return None
        if not wide:
            if not c.check(isinstance(data, SArr) or (isinstance(data, SFlt) and data.np), label + ': numpy data', 'result is %r' % type(data).__name__):
                return None
        else:
            if not c.check(isinstance(data, SArr), label + ': ndarray of objects', 'result is %r' % type(data).__name__):
                return None
            for e in a.buf:
                if not c.check(E.is_int(e) and not getattr(e, 'np', None), label + ': arbitrary-precision integers', 'element is %r' % type(e).__name__):
                    return None
        if nd is not None:
            if not c.check(a.nd == nd and (not nd or shape is None or a.shp is shape), label + ': shape of the operands', 'nd=%s' % a.nd):
                return None
        return [P(e) if wide else E.rewrite_real(P(e)) * p2(P(f.F)) for e in a.buf]

    def check_valid(self, ns, f, label):
        c = self.c
        for n in ns:
            c.prove(c.floor(n) - n, '=', label + ': multiple of the LSB')
            for p, r in self.in_fmt_facts(n, f):
                c.prove(p, r, label + ': within the range of the result format')

    def require_valid(self, ns, f, label):
        """Callee precondition at a call site."""
        c = self.c
        ok = True
        for n in ns:
            if not c.known_int(n):
                ok &= c.prove(c.floor(n) - n, '=', label)
            for p, r in self.in_fmt_facts(n, f):
                if (p, r) not in c.factset:
                    ok &= c.prove(p, r, label)
        if not ok:
            raise E.Abandon()

    # -- stubs ----------------------------------------------------------------------------------
    def patch(self, owner, name, fn):
        self.undo += self.pkg.patch(owner, name, fn)

    def unpatch(self):
        self.pkg.unpatch(self.undo)
        self.undo = []

    def fkey(self, f):
        return (P(f.S), P(f.I), P(f.F))

    def stub_formats(self, which=('for_add', 'for_sub', 'for_addsub', 'for_mult', 'for_neg', 'for_abs', 'for_shift', 'for_round')):
        """Replace format functions by their contracts (C01): a valid format of positive width whose fractional
        bits and range contain every exact result."""
        FF = self.FixFormat

        def pre(*fs):
            for f in fs:
                assert self.c.decide(self.width(f) - 1, '>='), "Data widths must be positive"

        def ext(f):
            top = p2(P(f.I))
            return -P(f.S) * top, top - p2(-P(f.F))

        def result(tag, key, lo, hi, Fs):
            """lo/hi: lists of exact minima/maxima to contain; Fs: the fractional bits are the maximum of these."""
            c = self.c
            k = (tag, key)
            r = c.stub_memo.get(k)
            if r is None:
                S = c.choose(2)
                I = c.int(tag + '_I')
                F = Fs[0]
                for q in Fs[1:]:
                    F = F if c.decide(F - q, '>=') else q
                c.add((I.p + F, '>='))
                c.add((I.p + F + S - 1, '>='))
                top = p2(I.p)
                for q in hi:
                    c.add((top - p2(-F) - q, '>='))
                for q in lo:
                    c.add((q + S * top, '>='))
                r = c.stub_memo[k] = (S, I, mk_int(F))
                if not c.feasible([]) or E.Query(c.facts).run(2) is True:
                    raise E.Abandon()
            return FF(*r)

        def for_add(a, b):
            pre(a, b)
            (la, ha), (lb, hb) = ext(a), ext(b)
            return result('add', (self.fkey(a), self.fkey(b)), [la + lb], [ha + hb], [P(a.F), P(b.F)])

        def for_sub(a, b):
            pre(a, b)
            (la, ha), (lb, hb) = ext(a), ext(b)
            return result('sub', (self.fkey(a), self.fkey(b)), [la - hb], [ha - lb], [P(a.F), P(b.F)])

        def for_addsub(a, b):
            pre(a, b)
            (la, ha), (lb, hb) = ext(a), ext(b)
            return result('addsub', (self.fkey(a), self.fkey(b)), [la + lb, la - hb], [ha + hb, ha - lb], [P(a.F), P(b.F)])

        def for_mult(a, b):
            pre(a, b)
            (la, ha), (lb, hb) = ext(a), ext(b)
            ps = [x * y for x in (la, ha) for y in (lb, hb)]
            return result('mult', (self.fkey(a), self.fkey(b)), ps, ps, [P(a.F) + P(b.F)])

        def for_neg(a):
            pre(a)
            la, ha = ext(a)
            return result('neg', (self.fkey(a),), [-ha], [-la], [P(a.F)])

        def for_abs(a):
            pre(a)
            la, ha = ext(a)
            return result('abs', (self.fkey(a),), [-ha, la], [-la, ha], [P(a.F)])

        def for_shift(a, lo, hi=None):
            pre(a)
            if hi is None:
                hi = lo
            assert self.c.decide(P(hi) - P(lo), '>='), "minShift must be <= maxShift"
            return FF(a.S, mk_int(P(a.I) + P(hi)), mk_int(P(a.F) - P(lo)))

        def for_round(a, rF, rnd):
            pre(a)
            c = self.c
            rF = N.elem(rF)
            m = rnd.name_ if isinstance(rnd, SMode) else rnd.name
            k = ('round', self.fkey(a), P(rF), m)
            r = c.stub_memo.get(k)
            if r is None:
                I = c.int('round_I')
                c.add((I.p + P(rF), '>='))
                c.add((I.p + P(rF) + P(a.S) - 1, '>='))
                r = c.stub_memo[k] = (a.S, I, mk_int(P(rF)))
            return FF(*r)

        fns = dict(for_add=for_add, for_sub=for_sub, for_addsub=for_addsub, for_mult=for_mult, for_neg=for_neg, for_abs=for_abs, for_shift=for_shift,
                   for_round=for_round)
        for n in which:
            self.patch(FF, n, fns[n])

    def _round_result(self, ns, F, r_fmt, rnd):
        """Scaled integers of rounding exact values given as scaled integers ns of fractional bits F."""
        c = self.c
        out = []
        for n in ns:
            r = self.spec_round(n * p2(-F), F, P(r_fmt.F), rnd)
            for p, rel in self.in_fmt_facts(r, r_fmt):
                c.add((p, rel))
            out.append(r)
        return out

    def _sat_result(self, ns, r_fmt, sat):
        self.warn_event('sat', ns, r_fmt, None, sat)
        return [self.spec_sat(n, r_fmt, sat) for n in ns]

    def warn_event(self, kind, xs, r_fmt, rnd, sat):
        """Contract of the warning: one is issued iff the mode warns and some element (for 'resize': after rounding)
        is out of the range of r_fmt.  Recorded, and matched against the specification by check_warn."""
        if not self.track_warn or (not isinstance(sat, SMode) and not self.is_warn(sat)):
            return
        self.c.warned.append((kind, list(xs), r_fmt, rnd, sat))

    def _out(self, cls, ns, f, like):
        nd, shp = self.dims(like)
        if cls is self.NarrowFix:
            els = [SFlt(n * p2(-P(f.F)), True) for n in ns]
            dt = 'f8'
        else:
            els = [mk_int(n) for n in ns]
            dt = 'O'
        return SArr(dt, nd, els, shp)

    def stub_methods(self, which=('round', 'saturate', 'resize')):
        """Replace NarrowFix/WideFix round, saturate and resize by their contracts (C03, C04, C05)."""
        FF = self.FixFormat

        def mk(cls):
            def ints(self_):
                a = self.arr(self_._data)
                F = P(self_._fmt.F)
                return [P(e) if cls is self.WideFix else P(e) * p2(F) for e in a.buf]

            def round(self_, r_fmt, rnd=self.FixRound.Trunc_s):
                assert r_fmt == FF.for_round(self_._fmt, r_fmt.F, rnd), "round: Invalid result format."
                ns = ints(self_)
                self.require_valid(ns, self_._fmt, '%s.round called with valid data' % cls.__name__)
                rs = self._round_result(ns, P(self_._fmt.F), r_fmt, rnd)
                return cls(self._out(cls, rs, r_fmt, self_._data), r_fmt, copy=False)

            def saturate(self_, r_fmt, sat=self.FixSaturate.None_s):
                c = self.c
                if not c.decide(P(r_fmt.F) - P(self_._fmt.F), '='):
                    raise AssertionError("saturate: Number of frac bits cannot change.")
                ns = ints(self_)
                self.require_valid(ns, self_._fmt, '%s.saturate called with valid data' % cls.__name__)
                rs = self._sat_result(ns, r_fmt, sat)
                return cls(self._out(cls, rs, r_fmt, self_._data), r_fmt, copy=False)

            def resize(self_, r_fmt, rnd=self.FixRound.Trunc_s, sat=self.FixSaturate.None_s):
                ns = ints(self_)
                F = P(self_._fmt.F)
                self.require_valid(ns, self_._fmt, '%s.resize called with valid data' % cls.__name__)
                if cls is self.NarrowFix:
                    for f in (r_fmt, FF.for_round(self_._fmt, r_fmt.F, rnd)):
                        assert not self.is_wide_fmt(f), "NarrowFix: Requested format is too wide. Use WideFix."
                self.warn_event('resize', [n * p2(P(r_fmt.F) - F) for n in ns], r_fmt, rnd, sat)
                rs = [self.spec_resize(n * p2(-F), F, r_fmt, rnd, sat) for n in ns]
                return cls(self._out(cls, rs, r_fmt, self_._data), r_fmt, copy=False)

            def mk_bin(op):
                def bin(self_, b, r_fmt=None, rnd=self.FixRound.Trunc_s, sat=self.FixSaturate.None_s):
                    ka, kb = ints(self_), ints(b)
                    self.require_valid(ka, self_._fmt, '%s.%s called with valid data' % (cls.__name__, op))
                    self.require_valid(kb, b._fmt, '%s.%s called with valid data' % (cls.__name__, op))
                    mid = getattr(FF, 'for_' + op)(self_._fmt, b._fmt)
                    if r_fmt is None:
                        r_fmt = mid
                    F = P(mid.F)
                    if cls is self.NarrowFix:
                        for f in (mid, r_fmt, FF.for_round(mid, r_fmt.F, rnd)):
                            assert not self.is_wide_fmt(f), "NarrowFix: Requested format is too wide. Use WideFix."
                    va, vb = [k * p2(-P(self_._fmt.F)) for k in ka], [k * p2(-P(b._fmt.F)) for k in kb]
                    n = max(len(va), len(vb))
                    xs = [self.val(va, i) + self.val(vb, i) if op == 'add' else self.val(va, i) - self.val(vb, i) for i in range(n)]
                    self.warn_event('resize', [x * p2(P(r_fmt.F)) for x in xs], r_fmt, rnd, sat)
                    like = self_._data if self.dims(self_._data)[0] else b._data
                    return cls(self._out(cls, [self.spec_resize(x, F, r_fmt, rnd, sat) for x in xs], r_fmt, like), r_fmt, copy=False)
                return bin
            return dict(round=round, saturate=saturate, resize=resize, add=mk_bin('add'), sub=mk_bin('sub'))
        for cls in (self.NarrowFix, self.WideFix):
            d = mk(cls)
            for n in which:
                self.patch(cls, n, d[n])

    def stub_main(self, which=('cl_fix_round', 'cl_fix_saturate', 'cl_fix_resize')):
        """Replace cl_fix_round / cl_fix_saturate / cl_fix_resize by their contracts (C03, C04, C05)."""
        FF = self.FixFormat

        def ints(a, f):
            py = E.is_int(a) and not getattr(a, 'np', None)
            wide = self.is_wide_fmt(f)
            if py and wide:
                return [P(a)]
            a = self.arr(a)
            if not self.c.check(a.dt == ('O' if wide else 'f8'), 'callee precondition: data representation matches the format', 'dtype %s' % a.dt):
                raise E.Abandon()
            return [P(e) if wide else P(e) * p2(P(f.F)) for e in a.buf]

        def out(ns, f, like):
            return self._out(self.WideFix if self.is_wide_fmt(f) else self.NarrowFix, ns, f, like)

        def cl_fix_round(a, a_fmt, r_fmt, rnd):
            assert r_fmt == FF.for_round(a_fmt, r_fmt.F, rnd), "cl_fix_round: Invalid result format."
            ns = ints(a, a_fmt)
            self.require_valid(ns, a_fmt, 'cl_fix_round called with valid data')
            return out(self._round_result(ns, P(a_fmt.F), r_fmt, rnd), r_fmt, a)

        def cl_fix_saturate(a, a_fmt, r_fmt, sat):
            assert r_fmt.F == a_fmt.F, "cl_fix_saturate: Number of frac bits cannot change."
            ns = ints(a, a_fmt)
            self.require_valid(ns, a_fmt, 'cl_fix_saturate called with valid data')
            return out(self._sat_result(ns, r_fmt, sat), r_fmt, a)

        def cl_fix_resize(a, a_fmt, r_fmt, rnd=self.FixRound.Trunc_s, sat=self.FixSaturate.None_s):
            ns = ints(a, a_fmt)
            F = P(a_fmt.F)
            self.require_valid(ns, a_fmt, 'cl_fix_resize called with valid data')
            self.warn_event('resize', [n * p2(P(r_fmt.F) - F) for n in ns], r_fmt, rnd, sat)
            return out([self.spec_resize(n * p2(-F), F, r_fmt, rnd, sat) for n in ns], r_fmt, a)
        def both(label, a, a_fmt, b, b_fmt):
            ka, kb = ints(a, a_fmt), ints(b, b_fmt)
            self.require_valid(ka, a_fmt, label + ' called with valid data')
            self.require_valid(kb, b_fmt, label + ' called with valid data')
            n = max(len(ka), len(kb))
            va, vb = [k * p2(-P(a_fmt.F)) for k in ka], [k * p2(-P(b_fmt.F)) for k in kb]
            like = a if self.dims(a)[0] else b
            return [(self.val(va, i), self.val(vb, i)) for i in range(n)], like

        def mk_bin(op):
            def cl_fix_bin(a, a_fmt, b, b_fmt, r_fmt=None, rnd=self.FixRound.Trunc_s, sat=self.FixSaturate.None_s):
                label = 'cl_fix_' + op
                ps, like = both(label, a, a_fmt, b, b_fmt)
                mid = getattr(FF, 'for_' + op)(a_fmt, b_fmt)
                if r_fmt is None:
                    r_fmt = mid
                F = P(mid.F)
                xs = [x + y if op == 'add' else x - y if op == 'sub' else x * y for x, y in ps]
                self.warn_event('resize', [x * p2(P(r_fmt.F)) for x in xs], r_fmt, rnd, sat)
                return out([self.spec_resize(x, F, r_fmt, rnd, sat) for x in xs], r_fmt, like)
            return cl_fix_bin
        fns = dict(cl_fix_round=cl_fix_round, cl_fix_saturate=cl_fix_saturate, cl_fix_resize=cl_fix_resize,
                   cl_fix_add=mk_bin('add'), cl_fix_sub=mk_bin('sub'), cl_fix_mult=mk_bin('mult'))
        for n in which:
            self.patch(self.m, n, fns[n])

    # -- guarded call ---------------------------------------------------------------------------
    def call(self, label, fn, *a, **k):
        """Runs code under verification; an exception on a feasible path is a failed obligation."""
        c = self.c
        try:
            return fn(*a, **k)
        except (E.Abandon, E.NeedWitness, Unsupported):
            raise
        except (RecursionError, MemoryError, Z3Exception):
            raise Unsupported("recursion or memory limit")
        except Exception as e:
            import traceback
            if isinstance(e, (TypeError, AttributeError)) and STAND_IN.search(str(e)):
                # an operation our stand-in for a value does not have: says nothing about the code
                raise Unsupported('%s: %s' % (type(e).__name__, e))
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f for f in reversed(tb) if 'en_cl_fix_pkg' in f.filename), tb[-1])
            c.unreachable(label + ': no exception for valid requests', '%s: %s at %s:%d (%s)' % (type(e).__name__, e, where.filename.split('/')[-1], where.lineno, where.line))
            raise E.Abandon()
