"""Proof tasks for conversion from real, generators, copies and rejections."""
import itertools
from fractions import Fraction
from .poly import Poly, Unsupported, ZERO
from . import engine as E
from . import npshim as N
from .engine import SInt, SFlt, SBool, SMode, P, mk_int
from .npshim import SArr, SList, Buf
from .harness import H, C, HALF
from .words import p2
from .tasks import task, snap, check_frame, obj_result, mkfact, fmt_class, TASKS
from .tasks2 import must_raise, narrow_only, CLASSES, OK


# ===================================================================================================
# conversion from real numbers
# ===================================================================================================
REAL_KINDS = ('py', 'np', '0d', 'nd', 'list', 'int', 'int0d')


def real_data(h, name, kind):
    """Symbolic doubles (or integers of at most 53 bits).  Returns (data, exact values)."""
    c = h.c
    n = c.tracked if kind in ('nd', 'list') else 1
    els, vals = [], []
    for i in range(n):
        if kind.startswith('int'):
            k = c.int('%s_x%d' % (name, i))
            c.add((k.p + 2 ** 53, '>='))
            c.add((2 ** 53 - k.p, '>='))
            c.double_atoms.update(at[0] for _, at in k.p.d)
            els.append(k)
            vals.append(k.p)
            continue
        s = c.sym('%s_x%d' % (name, i), False)
        c.double_atoms.add(s)
        els.append(SFlt(Poly.var(s)))
        vals.append(Poly.var(s))
    if kind == 'int':
        return els[0], vals
    if kind == 'int0d':
        return SArr('i8', False, Buf(els)), vals
    return h.wrap(els, 'f8', kind), vals


def mk_from_real(owner, s, wide, kind, sat, warn=False):
    main = owner is None
    label = 'cl_fix_from_real' if main else owner + '.from_real'

    @task('realwarn' if warn else 'real', '%s%s[S=%d,%s,%s,%s]' % (label, ' warning' if warn else '', s, fmt_class(wide) if wide is not None else 'any', kind, sat or 'default'),
          [label] + (['NarrowFix.from_real', 'WideFix.from_real'] if main else []), (),
          1 if kind == 'list' or not main and (kind == 'nd' and (warn or sat == 'SatWarn_s') or kind in ('py', 'np') and sat == 'SatWarn_s') else 0)
    def f(h):
        c = h.c
        r = h.fmt('r', s, fmt_class(wide) if wide is not None else None, null=True)
        if kind.startswith('int'):
            c.decide(P(r.F), '>=')
        d, vs = real_data(h, 'a', kind)
        sn = snap(d, r)
        mode = getattr(h.FixSaturate, sat) if sat else None
        fn = h.m.cl_fix_from_real if main else getattr(h, owner).from_real
        q = h.call(label, fn, d, r, *((mode,) if sat else ()))
        top = p2(P(r.I) + P(r.F))
        if warn:
            lab = label + ': warning iff an element leaves the range'
            want = False
            if sat != 'Sat_s':
                want = any(c.decide(x * p2(P(r.F)) - top + 1, '>') or c.decide(-x * p2(P(r.F)) - s * top, '>') for x in vs)
            if bool(c.warned) == want:
                c.check(True, lab)
            else:
                c.unreachable(lab, 'warning %s but %s' % ('issued' if c.warned else 'missing', 'expected' if want else 'no element out of range'))
            return
        check_frame(c, sn, label, [] if main else [q._fmt])
        nd, shp = h.dims(d)
        if main:
            ns = h.check_repr(q, r, label, nd, shp)
        else:
            ns = obj_result(h, q, r, label, getattr(h, owner), d)
        if ns is None:
            return
        for n, x in zip(ns, vs):
            y = E.rewrite_real(x * p2(P(r.F)))
            v = c.floor(y + HALF)
            if c.decide(v - top, '>='):
                want, what = top - 1, 'clipped to the maximum'
            elif c.decide(-v - s * top, '>'):
                want, what = -s * top, 'clipped to the minimum'
            else:
                want, what = v, 'nearest multiple of the LSB, ties up'
            c.prove(E.rewrite_real(n) - E.rewrite_real(want), '=', '%s: %s' % (label, what))
        h.check_valid(ns, r, label)


def mk_from_real_reject(owner, sat, kind):
    label = 'cl_fix_from_real' if owner is None else owner + '.from_real'

    @task('real', '%s rejects %s[%s]' % (label, sat, kind), [label])
    def f(h):
        r = h.fmt('r', h.c.choose(2), 'narrow' if owner == 'NarrowFix' else None, null=True)
        d, _ = real_data(h, 'a', kind)
        must_raise(h, label + ': saturation modes without clipping are rejected', h.m.cl_fix_from_real if owner is None else getattr(h, owner).from_real, d, r, getattr(h.FixSaturate, sat))


for _s in (0, 1):
    for _k in REAL_KINDS:
        for _o, _w in (('NarrowFix', False), ('WideFix', None)):
            if _k != 'list':
                for _sat in ('Sat_s', 'SatWarn_s'):
                    mk_from_real(_o, _s, _w, _k, _sat)
                    if _k in ('0d', 'nd', 'py'):
                        mk_from_real(_o, _s, _w, _k, _sat, True)
        for _w in (False, True):
            mk_from_real(None, _s, _w, _k, None)
            if _k in ('0d', 'nd'):
                mk_from_real(None, _s, _w, _k, 'Sat_s')
                mk_from_real(None, _s, _w, _k, 'Sat_s', True)
                mk_from_real(None, _s, _w, _k, None, True)
for _o in (None,) + CLASSES:
    for _sat in ('None_s', 'Warn_s'):
        for _k in ('py', 'nd'):
            mk_from_real_reject(_o, _sat, _k)


# ===================================================================================================
# zeros and random data
# ===================================================================================================
def gen_shape(h, kind):
    c = h.c
    if kind == '()':
        return ()
    if kind == 'n':
        n = c.int('n')
        c.add((n.p - 1, '>='))
        c.add((2 ** 60 - n.p, '>='))
        return n
    return h.shape()


def check_gen(h, r, f, label, kind, shape):
    nd = kind != '()'
    ns = h.check_repr(r, f, label, nd, shape if kind == 'shape' else None)
    if ns is None:
        raise E.Abandon()
    if kind == 'n':
        a = h.arr(r)
        h.c.prove(P(a.shp.size()) - P(shape), '=', label + ': shape of the request')
    return ns


def mk_gen(which, s, wide, kind):
    label = 'cl_fix_' + which

    @task('gen', '%s[S=%d,%s,shape %s]' % (label, s, fmt_class(wide), kind), [label])
    def f(h):
        c = h.c
        a = h.fmt('a', s, fmt_class(wide), null=True)
        shape = gen_shape(h, kind)
        sn = snap(a)
        r = h.call(label, getattr(h.m, label), shape, a)
        check_frame(c, sn, label)
        ns = check_gen(h, r, a, label, kind, shape)
        top = p2(P(a.I) + P(a.F))
        if which == 'zeros':
            for n in ns:
                c.prove(n, '=', label + ': zero')
            c.check(not c.warned, label + ': no warning')
            return
        lo, hi = c.rand_range or (None, None)
        if not c.check(lo is not None, label + ': drawn from the random source'):
            return
        c.prove(lo + s * top, '=', label + ': the smallest value can be drawn')
        c.prove(hi - top, '=', label + ': the largest value can be drawn')
        # every draw is returned unchanged, so all values of the range occur
        draws = [Poly.var(q) for k, q in c.syms.items() if k[0] == 'random']
        for n in ns:
            if not any(n == d for d in draws):
                ok = any(c.entails(n - d, '=') for d in draws)
                c.check(ok, label + ': the value drawn is returned', '%s' % n)
        h.check_valid(ns, a, label)


for _which in ('zeros', 'random'):
    for _s in (0, 1):
        for _w in (False, True):
            for _k in ('()', 'n', 'shape'):
                mk_gen(_which, _s, _w, _k)


# ===================================================================================================
# rejections (C16); acceptance of every valid request is an obligation of all other tasks
# ===================================================================================================
def reject(name, funcs=()):
    return task('reject', 'rejects ' + name, list(funcs))


@reject('formats with I+F < 0', ['FixFormat.__init__'])
def _(h):
    c = h.c
    S, I, F = c.choose(2), c.int('aI'), c.int('aF')
    c.add((-I.p - F.p - 1, '>='))
    must_raise(h, 'FixFormat: negative I+F rejected', h.FixFormat, S, I, F)


@reject('formats whose sign bits are neither 0 nor 1', ['FixFormat.__init__'])
def _(h):
    c = h.c
    S, I, F = c.int('aS'), c.int('aI'), c.int('aF')
    if c.choose(2):
        c.add((S.p - 2, '>='))
    else:
        c.add((-S.p - 1, '>='))
    must_raise(h, 'FixFormat: sign bits other than 0 and 1 rejected', h.FixFormat, S, I, F)


@reject('no valid format', ['FixFormat.__init__'])
def _(h):
    c = h.c
    S, I, F = c.choose(2), c.int('aI'), c.int('aF')
    c.add((I.p + F.p, '>='))
    f = h.call('FixFormat: valid format accepted', h.FixFormat, S, I, F)
    c.check(f.S == S, 'FixFormat: sign bits stored')
    c.prove(P(f.I) - I.p, '=', 'FixFormat: integer bits stored')
    c.prove(P(f.F) - F.p, '=', 'FixFormat: fractional bits stored')
    c.prove(P(f.width) - S - I.p - F.p, '=', 'FixFormat: width')


for _k in ('py', '0d', 'nd'):
    @reject('narrow data of more than 53 bits[%s]' % _k, ['NarrowFix.__init__'])
    def _(h, k=_k):
        f = h.fmt('a', h.c.choose(2), 'wide')
        d, _ = real_data(h, 'x', k)
        for kw in ({}, {'copy': False}):
            must_raise(h, 'NarrowFix: more than 53 bits rejected', h.NarrowFix, d, f, **kw)

    @reject('no valid narrow data[%s]' % _k, ['NarrowFix.__init__'])
    def _(h, k=_k):
        f = h.fmt('a', h.c.choose(2), 'narrow')
        d, vs = h.data('a', f, k, False)
        copy = bool(h.c.choose(2))
        o = h.call('NarrowFix: valid data accepted', h.NarrowFix, d, f, copy)
        ns = obj_result(h, o, f, 'NarrowFix', h.NarrowFix, h.arr(d) if copy else SArr('f8', k == 'nd', list(h.arr(d).buf), h.shape()))
        for n, v in zip(ns, vs):
            h.c.prove(n - v * p2(P(f.F)), '=', 'NarrowFix: data stored')

    @reject('no valid wide data[%s]' % _k, ['WideFix.__init__'])
    def _(h, k=_k):
        f = h.fmt('a', h.c.choose(2), None)
        d, vs = h.data('a', f, k, True)
        copy = bool(h.c.choose(2))
        o = h.call('WideFix: valid data accepted', h.WideFix, d, f, copy)
        ns = obj_result(h, o, f, 'WideFix', h.WideFix, h.arr(d) if copy else SArr('O', k == 'nd', list(h.arr(d).buf), h.shape()))
        for n, v in zip(ns, vs):
            h.c.prove(n - v * p2(P(f.F)), '=', 'WideFix: data stored')

for _k in ('0d', 'nd'):
    for _dt in ('i8', 'O', 'b'):
        @reject('narrow data of type %s[%s]' % (_dt, _k), ['NarrowFix.__init__'])
        def _(h, k=_k, dt=_dt):
            c = h.c
            f = h.fmt('a', c.choose(2), None)
            n = c.tracked if k == 'nd' else 1
            els = [c.int('x%d' % i) for i in range(n)]
            for e in els:
                c.add((e.p, '>='))
                c.add((1 - e.p, '>='))
            if dt == 'b':
                els = [SBool(('atom', e.p, '!=')) for e in els]
            d = SArr(dt, k == 'nd', Buf(els), h.shape() if k == 'nd' else None)
            must_raise(h, 'NarrowFix: data other than doubles rejected', h.NarrowFix, d, f)
    for _dt in ('f8', 'i8', 'b', 'Of'):
        @reject('wide data of type %s[%s]' % (_dt, _k), ['WideFix.__init__'])
        def _(h, k=_k, dt=_dt):
            c = h.c
            f = h.fmt('a', c.choose(2), None)
            n = c.tracked if k == 'nd' else 1
            els = [c.int('x%d' % i) for i in range(n)]
            for e in els:
                c.add((e.p, '>='))
                c.add((1 - e.p, '>='))
            if dt == 'b':
                els = [SBool(('atom', e.p, '!=')) for e in els]
            elif dt in ('f8', 'Of'):
                els = [SFlt(e.p) for e in els]
            d = SArr(dt[0] if dt == 'Of' else dt, k == 'nd', Buf(els), h.shape() if k == 'nd' else None)
            must_raise(h, 'WideFix: data other than integers rejected', h.WideFix, d, f)


def mk_reject_round(owner, wide, kind):
    label = owner + '.round' if owner else 'cl_fix_round'

    @reject('rounding to another format: %s[%s,%s]' % (label, 'wide' if wide else 'narrow', kind), [label])
    def f(h):
        c = h.c
        s, rs = c.choose(2), c.choose(2)
        a = h.fmt('a', s, None if owner == 'WideFix' else fmt_class(wide))
        rf = h.fmt('r', rs, 'narrow' if owner == 'NarrowFix' else None, null=True)
        rnd = SMode(h.FixRound, 'rnd')
        want = h.call('for_round', h.FixFormat.for_round, a, rf.F, rnd)
        if rs == s:
            # some component differs (the fractional bits agree by construction)
            if c.decide(P(rf.I) - P(want.I), '='):
                raise E.Abandon()
        d, _ = h.data('a', a, kind, wide)
        if owner:
            must_raise(h, label + ': another format than the rounding format is rejected', getattr(h, owner)(d, a).round, rf, rnd)
        else:
            must_raise(h, label + ': another format than the rounding format is rejected', h.m.cl_fix_round, d, a, rf, rnd)


def mk_reject_sat(owner, wide, kind):
    label = owner + '.saturate' if owner else 'cl_fix_saturate'

    @reject('saturating to other fractional bits: %s[%s,%s]' % (label, 'wide' if wide else 'narrow', kind), [label])
    def f(h):
        c = h.c
        a = h.fmt('a', c.choose(2), None if owner == 'WideFix' else fmt_class(wide))
        rf = h.fmt('r', c.choose(2), 'narrow' if owner == 'NarrowFix' else None, null=True)
        if c.decide(P(rf.F) - P(a.F), '='):
            raise E.Abandon()
        sat = SMode(h.FixSaturate, 'sat')
        d, _ = h.data('a', a, kind, wide)
        if owner:
            must_raise(h, label + ': different fractional bits are rejected', getattr(h, owner)(d, a).saturate, rf, sat)
        else:
            must_raise(h, label + ': different fractional bits are rejected', h.m.cl_fix_saturate, d, a, rf, sat)


for _o, _w in (('NarrowFix', False), ('WideFix', True), (None, False), (None, True)):
    for _k in ('0d', 'nd'):
        mk_reject_round(_o, _w, _k)
        mk_reject_sat(_o, _w, _k)


# ===================================================================================================
# copies handed out by the objects (C13)
# ===================================================================================================
def mk_alias(cname, kind):
    @task('alias', '%s accessors[%s]' % (cname, kind), [cname + '.data', cname + '.fmt', cname + '.__init__'])
    def f(h):
        c = h.c
        wide = cname == 'WideFix'
        a = h.fmt('a', c.choose(2), None if wide else 'narrow')
        d, vs = h.data('a', a, kind, wide)
        cls = getattr(h, cname)
        o = h.call(cname, cls, d, a)
        sn = snap(o, d)
        c.check(o._fmt is not a, cname + ': stored format is independent of the argument')
        c.check(o._data.buf is not d.buf, cname + ': stored data is a copy independent of the argument')
        f1, f2, d1, d2 = o.fmt, o.fmt, o.data, o.data
        c.check(f1 is not o._fmt and f1 is not f2, cname + '.fmt: a copy independent of the object')
        c.check(d1.buf is not o._data.buf and d1.buf is not d2.buf, cname + '.data: a copy independent of the object')
        for x, y in zip((f1.S, f1.I, f1.F), (a.S, a.I, a.F)):
            c.prove(P(x) - P(y), '=', cname + '.fmt: the format')
        for x, v in zip(d1.buf, vs):
            c.prove(P(x) - (v * p2(P(a.F)) if wide else v), '=', cname + '.data: the data')
        # later changes to a copy or to the argument do not reach the object
        f1.I = mk_int(P(f1.I) + 1)
        a.F = mk_int(P(a.F) + 1)
        c.prove(P(o._fmt.I) - P(f2.I), '=', cname + ': the object is independent of the copies')
        c.prove(P(o._fmt.F) - P(f2.F), '=', cname + ': the object is independent of the argument')
        o2 = h.call(cname, cls, d, f2, False)
        c.check(o2._fmt is not f2, cname + ': stored format is independent of the argument')
        f2.I = mk_int(P(f2.I) + 1)
        c.prove(P(o2._fmt.I) - P(o._fmt.I), '=', cname + ': the object is independent of the argument')
        check_frame(c, [x for x in sn if x[0] != 'fmt'], cname)


def mk_align(n, kind):
    @task('alias', 'WideFix.align_binary_points[%d,%s]' % (n, kind), ['WideFix.align_binary_points'], ('resize',))
    def f(h):
        c = h.c
        fs = [h.fmt('abc'[i], c.choose(2)) for i in range(n)]
        os_, vs = zip(*[h.obj('abc'[i], fs[i], kind, True) for i in range(n)])
        lst = list(os_)
        sn = snap(*os_)
        r = h.call('align_binary_points', h.WideFix.align_binary_points, lst)
        check_frame(c, sn, 'align_binary_points')
        c.check(len(lst) == n and all(x is y for x, y in zip(lst, os_)), 'align_binary_points: the list of the caller is not modified')
        c.check(len(r) == n, 'align_binary_points: as many results')
        for i in range(n):
            c.check(r[i] is not os_[i] and r[i]._fmt is not os_[i]._fmt, 'align_binary_points: results independent of the arguments')
            c.prove(P(r[i]._fmt.F) - P(r[0]._fmt.F), '=', 'align_binary_points: common fractional bits')
            for x, v in zip(h.arr(r[i]._data).buf, vs[i]):
                c.prove(P(x) - v * p2(P(r[i]._fmt.F)), '=', 'align_binary_points: same values')


for _c in CLASSES:
    for _k in ('0d', 'nd'):
        mk_alias(_c, _k)
for _k in ('0d', 'nd'):
    for _n in (2, 3):
        mk_align(_n, _k)


# ===================================================================================================
# packing into 64-bit words (C12)
# ===================================================================================================
from . import words as W  # noqa: E402


def unsigned(h, k, f):
    """Two's complement bit pattern, read as an unsigned integer."""
    return k if not int(f.S) or h.c.decide(k, '>=') else k + p2(h.width(f))


def word_axis(h, r, first, nd, label):
    """Word count, generic word index and word values of a packed result."""
    c = h.c
    if isinstance(r, W.SWords):
        if not c.check(r.dt == 'u8' and r.first == first and r.nd == nd and (not nd or r.elem_shape is h.shape()), label + ': words stacked along the expected axis'):
            raise E.Abandon()
        if r.exprs is None:
            c.check(False, label + ': every word is set')
            raise E.Abandon()
        return P(r.n), r.j.p, [P(x) for x in r.exprs]
    raise Unsupported("packed result %r" % type(r).__name__)


def mk_pack(owner, s, kind):
    label = 'WideFix.to_uint64_array' if owner else 'matlab_interface.to_uint64_array'

    @task('words', '%s[S=%d,%s]' % (label, s, kind), [label])
    def f(h):
        c = h.c
        c.split_mod = True
        a = h.fmt('a', s, None if owner else 'wide')
        d, vs = h.data('a', a, kind, True)
        if owner:
            o = h.call('WideFix', h.WideFix, d, a)
            sn = snap(o, a, d)
            r = h.call(label, o.to_uint64_array)
        else:
            sn = snap(a, d)
            r = h.call(label, h.pkg.mod('matlab_interface').to_uint64_array, d, a)
        check_frame(c, sn, label)
        nd = kind == 'nd' or not owner
        n, j, ws = word_axis(h, r, bool(owner), nd, label) if nd and kind == 'nd' else word_axis1(h, r, bool(owner), label)
        w = h.width(a)
        c.prove(64 * n - w, '>=', label + ': enough words')
        c.prove(w - 64 * n + 63, '>=', label + ': ceil(width/64) words')
        for x, v in zip(ws, vs):
            u = unsigned(h, v * p2(P(a.F)), a)
            t = u * p2(-64 * j)
            W.nested(c.floor(t), t)
            c.prove(x - c.floor(t) + p2(64) * c.floor(t * p2(-64)), '=', label + ': word j holds bits 64j..64j+63 of the two\'s complement pattern')


def word_axis1(h, r, first, label):
    c = h.c
    if isinstance(r, SArr) and first:
        j = getattr(r.shp, 'idx', None)
        if j is None:
            raise Unsupported("packed result")
        c.check(r.dt == 'u8', label + ': unsigned words')
        return P(r.shp.size()), j.p, [P(r.buf[0])]
    if isinstance(r, W.SWords):
        if not c.check(r.exprs is not None, label + ': every word is set'):
            raise E.Abandon()
        c.check(r.dt == 'u8' and r.first == first and r.nd and P(r.elem_shape.size()) == C(1), label + ': words stacked along the expected axis')
        return P(r.n), r.j.p, [P(r.exprs[0])]
    raise Unsupported("packed result")


def mk_unpack(owner, s, kind):
    label = 'WideFix.from_uint64_array' if owner else 'matlab_interface.from_uint64_array'

    @task('words', '%s[S=%d,%s]' % (label, s, kind), [label])
    def f(h):
        c = h.c
        a = h.fmt('a', s, None if owner else 'wide')
        _, vs = h.data('a', a, kind, True)
        us = [unsigned(h, v * p2(P(a.F)), a) for v in vs]
        n = c.int('n')
        w = h.width(a)
        c.add((64 * n.p - w, '>='))
        c.add((w - 64 * n.p + 63, '>='))
        for u in us:
            # the pattern fits the words
            c.prove(u, '>=', label + ': pattern is not negative')
            c.prove(p2(w) - 1 - u, '>=', label + ': pattern fits the width')
            c.prove(p2(64 * n.p) - 1 - u, '>=', label + ': pattern fits the words')
            c.add((p2(64 * n.p) - 1 - u, '>='))
        d = W.input_words(h, n, bool(owner), kind, us, h.shape())
        sn = snap(a)
        if owner:
            r = h.call(label, h.WideFix.from_uint64_array, d, a)
            ns = obj_result(h, r, a, label, h.WideFix, SArr('O', kind == 'nd', [0], h.shape()))
        else:
            r = h.call(label, h.pkg.mod('matlab_interface').from_uint64_array, d, a)
            x = h.arr(r)
            c.check(x.dt == 'O' and x.nd == (kind == 'nd') and (not x.nd or x.shp is h.shape()), label + ': wide data of the shape of the words')
            ns = [P(e) for e in x.buf]
        check_frame(c, sn, label)
        c.check(not d.mutated, label + ': argument data not modified')
        for m, v in zip(ns, vs):
            c.prove(m - v * p2(P(a.F)), '=', label + ': the packed value')
        h.check_valid(ns, a, label)


for _s in (0, 1):
    for _k in ('0d', 'nd', 'py'):
        mk_pack(True, _s, _k)
        mk_pack(False, _s, _k)
    for _k in ('0d', 'nd'):
        mk_unpack(True, _s, _k)
        mk_unpack(False, _s, _k)
