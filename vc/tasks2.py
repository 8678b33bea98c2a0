"""Proof tasks for the classes, comparisons, range check, conversions, generators, copies and rejections."""
from z3 import Z3Exception
import itertools
from fractions import Fraction
from .poly import Poly, Unsupported, ZERO
from . import engine as E
from . import npshim as N
from .engine import SInt, SFlt, SBool, SMode, P, mk_int
from .npshim import SArr, SList, Buf
from .harness import H, C, p2, HALF
from .tasks import (task, snap, check_frame, obj_result, check_warn, mkfact, kinds_of, fmt_class, absval, modes, result_fmt, small, UN, WK, NK, TASKS)

CLASSES = ('NarrowFix', 'WideFix')
OK = ('0d', 'nd', 'py')


def cls_of(h, cname):
    return getattr(h, cname)


def narrow_only(h, *fmts):
    for f in fmts:
        h.c.assume(mkfact(C(53) - h.width(f), '>='))


# ===================================================================================================
# class-level resize and arithmetic
# ===================================================================================================
def mk_class_resize(cname, s, kind, given, warn=False):
    wide = cname == 'WideFix'

    @task('cresizewarn' if warn else 'cresize', '%s.resize%s[S=%d,%s,%s]' % (cname, ' warning' if warn else '', s, kind, 'modes' if given else 'default modes'), [cname + '.resize'], ('round', 'saturate'))
    def f(h):
        c = h.c
        h.track_warn = warn
        a = h.fmt('a', s, None if wide else 'narrow')
        o, va = h.obj('a', a, kind, wide)
        rnd, sat = modes(h, given)
        rf = result_fmt(h, True, None)
        if not wide:
            narrow_only(h, rf, h.call('for_round', h.FixFormat.for_round, a, rf.F, rnd))
        sn = snap(o, a, rf)
        r = h.call('resize', o.resize, rf, *((rnd, sat) if given else ()))
        if warn:
            check_warn(h, va, P(a.F), rf, rnd, sat, cname + '.resize')
            return
        check_frame(c, sn, cname + '.resize', [r._fmt])
        ns = obj_result(h, r, rf, cname + '.resize', type(o), o._data)
        for n, v in zip(ns, va):
            c.prove(n - h.spec_sat(h.spec_round(v, P(a.F), P(rf.F), rnd), rf, sat), '=', cname + '.resize: rounded, then saturated')
        h.check_valid(ns, rf, cname + '.resize')


for _c in CLASSES:
    for _s in (0, 1):
        for _k in OK:
            mk_class_resize(_c, _s, _k, True)
        mk_class_resize(_c, _s, '0d', False)
        mk_class_resize(_c, _s, 'nd', False)
        mk_class_resize(_c, _s, '0d', True, True)
        mk_class_resize(_c, _s, 'nd', True, True)


def class_like(h, objs):
    """A container with the broadcast shape of the operands."""
    for o in objs:
        d = o._data if hasattr(o, '_data') else o
        if h.dims(d)[0]:
            return d
    return objs[0]._data


def finish_class(h, label, r, rf, exact, F, rnd, sat, like, given, cls):
    c = h.c
    ns = obj_result(h, r, rf, label, cls, like)
    for i, n in enumerate(ns):
        v = exact[i if len(exact) > 1 else 0]
        c.prove(n - (h.spec_resize(v, F, rf, rnd, sat) if given else v * p2(P(rf.F))), '=', label + ': exact result, rounded and saturated')
    h.check_valid(ns, rf, label)


def mk_class_un(op, cname, s, kind, given):
    wide = cname == 'WideFix'

    @task('c' + op, '%s.%s[S=%d,%s,%s]' % (cname, op, s, kind, 'r_fmt' if given else 'default'), ['%s.%s' % (cname, op)], ('round', 'saturate', 'resize'))
    def f(h):
        c = h.c
        a = h.fmt('a', s, None if wide else 'narrow')
        o, va = h.obj('a', a, kind, wide)
        rnd, sat = modes(h, given)
        mid = h.call('fmt', getattr(h.FixFormat, 'for_' + op), a)
        rf = result_fmt(h, given, mid)
        if not wide:
            narrow_only(h, mid, rf, h.call('for_round', h.FixFormat.for_round, mid, rf.F, rnd))
        sn = snap(o, a, rf)
        if given:
            r = h.call(op, getattr(o, op), rf, rnd, sat)
        elif op == 'neg':
            r = h.call(op, lambda: -o)
        else:
            r = h.call(op, getattr(o, op))
        exact = [UN[op](h, v) for v in va]
        check_frame(c, sn, '%s.%s' % (cname, op), [r._fmt])
        finish_class(h, '%s.%s' % (cname, op), r, rf, exact, P(mid.F), rnd, sat, o._data, given, type(o))


def mk_class_bin(op, cname, sa, sb, ka, kb, given, skind=None):
    wide = cname == 'WideFix'
    tier = 0 if ka == kb != 'py' and (wide or (ka == 'nd') == given) else 1

    @task('c' + op, '%s.%s[S=%d,%d,%s/%s%s,%s]' % (cname, op, sa, sb, ka, kb, ', add ' + skind if skind else '', 'r_fmt' if given else 'default'), ['%s.%s' % (cname, op)],
          ('round', 'saturate', 'resize') + (('add', 'sub') if op == 'addsub' else ()), tier)
    def f(h):
        c = h.c
        a, b = h.fmt('a', sa, None if wide else 'narrow'), h.fmt('b', sb, None if wide else 'narrow')
        x, va = h.obj('a', a, ka, wide)
        y, vb = h.obj('b', b, kb, wide)
        rnd, sat = modes(h, given)
        mid = h.call('fmt', getattr(h.FixFormat, 'for_' + op), a, b)
        rf = result_fmt(h, given, mid)
        if not wide:
            fs = [rf, mid]
            if op == 'addsub':
                fs += [h.FixFormat.for_round(g(a, b), rf.F, rnd) for g in (h.FixFormat.for_add, h.FixFormat.for_sub)]
            else:
                fs += [h.FixFormat.for_round(mid, rf.F, rnd)]
            narrow_only(h, *fs)
        nd = 'nd' in (ka, kb, skind)
        n = c.tracked if nd else 1
        sn = snap(x, y, a, b, rf)
        args, sel = [y], None
        like = class_like(h, [x, y])
        if op == 'addsub':
            sel = [c.int('add%d' % i) for i in range(n if skind == 'nd' else 1)]
            for q in sel:
                c.add((q.p, '>='))
                c.add((1 - q.p, '>='))
            if skind == 'py':
                add = SBool(('atom', sel[0].p, '!='))
            else:
                add = SArr('b', skind == 'nd', [SBool(('atom', q.p, '!=')) for q in sel], h.shape())
            args.append(add)
            sn += snap(add)
            if skind == 'nd':
                like = add
        if given:
            r = h.call(op, getattr(x, op), *args, rf, rnd, sat)
        elif op in ('add', 'sub', 'mult'):
            r = h.call(op, {'add': lambda: x + y, 'sub': lambda: x - y, 'mult': lambda: x * y}[op])
        else:
            r = h.call(op, getattr(x, op), *args)
        exact = []
        for i in range(n):
            p, q = h.val(va, i), h.val(vb, i)
            if op == 'add':
                e = p + q
            elif op == 'sub':
                e = p - q
            elif op == 'mult':
                e = p * q
            else:
                e = p + q if c.decide(sel[i if len(sel) > 1 else 0].p, '!=') else p - q
            exact.append(e)
        label = '%s.%s' % (cname, op)
        check_frame(c, sn, label, [r._fmt])
        finish_class(h, label, r, rf, exact, P(mid.F), rnd, sat, like, given, type(x))


def mk_class_shift(cname, s, kind, skind, given):
    wide = cname == 'WideFix'

    @task('cshift', '%s.shift[S=%d,%s,shift %s,%s]' % (cname, s, kind, skind, 'r_fmt' if given else 'default'), [cname + '.shift'], ('round', 'saturate', 'resize'))
    def f(h):
        c = h.c
        a = h.fmt('a', s, None if wide else 'narrow')
        small(c, a)     # the shift amounts pass through int64 scalars: formats and shifts below 2**40 keep every sum in range
        o, va = h.obj('a', a, kind, wide)
        rnd, sat = modes(h, given)
        n = c.tracked if (kind == 'nd' or skind == 'nd') else 1
        ks = []
        for i in range(c.tracked if skind == 'nd' else 1):
            k = c.int('shift%d' % i)
            c.add((k.p + 2 ** 40, '>='))
            c.add((2 ** 40 - k.p, '>='))
            ks.append(k)
        sh = ks[0] if skind == 'py' else SInt(ks[0].p, 'i8') if skind == 'np' else SArr('i8', True, Buf(ks), h.shape())
        mid = h.FixFormat.for_shift(a, N.reduce_min(sh), N.reduce_max(sh))
        rf = result_fmt(h, given, mid)
        if given:
            small(c, rf)
        if not wide:
            narrow_only(h, mid, rf, h.call('for_round', h.FixFormat.for_round, mid, rf.F, rnd))
        sn = snap(o, a, rf, sh)
        r = h.call('shift', o.shift, sh, *((rf, rnd, sat) if given else ())) if given or skind != 'py' else h.call('shift', lambda: o << sh)
        exact = [h.val(va, i) * p2(h.val(ks, i).p) for i in range(n)]
        check_frame(c, sn, cname + '.shift', [r._fmt])
        like = o._data if h.dims(o._data)[0] or skind != 'nd' else sh
        finish_class(h, cname + '.shift', r, rf, exact, P(mid.F), rnd, sat, like, given, type(o))


for _c in CLASSES:
    for _s in (0, 1):
        for _op in ('abs', 'neg'):
            for _k in OK:
                mk_class_un(_op, _c, _s, _k, True)
            for _k in ('0d', 'nd'):
                mk_class_un(_op, _c, _s, _k, False)
        for _k, _sk in (('0d', 'py'), ('nd', 'py'), ('nd', 'np'), ('nd', 'nd'), ('0d', 'nd')):
            for _g in (True, False):
                mk_class_shift(_c, _s, _k, _sk, _g)
    for _op in ('add', 'sub', 'addsub', 'mult'):
        for _sa, _sb in itertools.product((0, 1), (0, 1)):
            for _ka, _kb in (('0d', '0d'), ('nd', 'nd'), ('nd', '0d'), ('0d', 'nd'), ('py', 'py')):
                for _g in (True, False):
                    if _ka == 'py' and not _g:
                        continue
                    mk_class_bin(_op, _c, _sa, _sb, _ka, _kb, _g, None if _op != 'addsub' else {'0d': '0d', 'py': 'py', 'nd': 'nd' if _kb == 'nd' else 'py'}[_ka])


# ===================================================================================================
# comparisons
# ===================================================================================================
CMPS = {'eq': '=', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}


def truth_matches(c, got, p, rel, label):
    """Boolean `got` is true exactly when p rel 0."""
    want = {'<': lambda: c.decide(-p, '>'), '<=': lambda: c.decide(-p, '>='), '>': lambda: c.decide(p, '>'), '>=': lambda: c.decide(p, '>='),
            '=': lambda: c.decide(p, '='), '!=': lambda: not c.decide(p, '=')}[rel]()
    g = E.as_bool(got)
    if g == want:
        c.check(True, label)
    else:
        c.unreachable(label, 'result %s, expected %s' % (g, want))


def bool_result(h, r, like_nd, like_shp, label):
    """Elements of a boolean result."""
    c = h.c
    a = h.arr(r)
    c.check(a.dt == 'b', label + ': boolean result', 'dtype %s' % a.dt)
    if not c.check(a.nd == like_nd and (not a.nd or a.shp is like_shp), label + ': shape of the operands'):
        raise E.Abandon()
    return list(a.buf)


def mk_cmp(cname, op, sa, sb, ka, kb):
    import operator
    wide = cname == 'WideFix'

    @task('cmp', '%s %s[S=%d,%d,%s/%s]' % (cname, op, sa, sb, ka, kb), ['%s.__%s__' % (cname, op)] + (['WideFix.align_binary_points'] if wide else []), ('round', 'saturate', 'resize'))
    def f(h):
        c = h.c
        w = None if wide else 'narrow'
        a, b = h.fmt('a', sa, w), h.fmt('b', sb, w)
        x, va = h.obj('a', a, ka, wide)
        y, vb = h.obj('b', b, kb, wide)
        sn = snap(x, y)
        r = h.call('%s %s' % (cname, op), getattr(operator, op), x, y)
        nd = 'nd' in (ka, kb)
        label = '%s %s' % (cname, op)
        els = bool_result(h, r, nd, h.shape() if nd else None, label)
        for i, e in enumerate(els):
            d = h.val(va, i) - h.val(vb, i)
            # common grid: the sign of d is the sign of d scaled by a power of two
            F = P(a.F) if c.decide(P(a.F) - P(b.F), '>=') else P(b.F)
            truth_matches(c, e, d * p2(F), CMPS[op], label + ': compares the represented numbers')
        check_frame(c, sn, label)
        c.check(not c.warned, label + ': no warning')


for _c in CLASSES:
    for _op in CMPS:
        for _sa, _sb in itertools.product((0, 1), (0, 1)):
            for _ka, _kb in (('0d', '0d'), ('nd', 'nd'), ('nd', '0d'), ('0d', 'nd'), ('py', 'nd')):
                mk_cmp(_c, _op, _sa, _sb, _ka, _kb)


# ===================================================================================================
# range check
# ===================================================================================================
def mk_in_range(cname, s, rs, wide, kind, given=True):
    main = cname is None

    @task('inrange', '%s[S=%d->%d,%s,%s%s]' % ('cl_fix_in_range' if main else cname + '.in_range', s, rs, fmt_class(wide) if main or not wide else 'any', kind, '' if given else ',default'),
          ['cl_fix_in_range' if main else cname + '.in_range'], ('round', 'saturate', 'cl_fix_round'))
    def f(h):
        c = h.c
        a = h.fmt('a', s, fmt_class(wide) if main or not wide else None)
        rnd = SMode(h.FixRound, 'rnd') if given else h.FixRound.Trunc_s
        rf = h.fmt('r', rs, None, null=True)
        label = 'cl_fix_in_range' if main else cname + '.in_range'
        extra = (rnd,) if given else ()
        if main:
            d, va = h.data('a', a, kind, wide)
            sn = snap(d, a, rf)
            r = h.call(label, h.m.cl_fix_in_range, d, a, rf, *extra)
            nd, shp = h.dims(d)
        else:
            o, va = h.obj('a', a, kind, wide)
            if not wide:
                narrow_only(h, rf, h.call('for_round', h.FixFormat.for_round, a, rf.F, rnd))
            sn = snap(o, a, rf)
            r = h.call(label, o.in_range, rf, *extra)
            nd, shp = h.dims(o._data)
        check_frame(c, sn, label)
        els = bool_result(h, r, nd, shp, label)
        top = p2(P(rf.I) + P(rf.F))
        for e, v in zip(els, va):
            n = h.spec_round(v, P(a.F), P(rf.F), rnd)
            want = c.decide(n + rs * top, '>=') and c.decide(top - 1 - n, '>=')
            g = E.as_bool(e)
            if g == want:
                c.check(True, label + ': true iff the rounded value is within the bounds')
            else:
                c.unreachable(label + ': true iff the rounded value is within the bounds', 'result %s, expected %s' % (g, want))
        c.check(not c.warned, label + ': no warning')


for _s in (0, 1):
    for _r in (0, 1):
        for _w in (False, True):
            for _k in kinds_of(_w):
                mk_in_range(None, _s, _r, _w, _k)
            mk_in_range(None, _s, _r, _w, 'nd', False)
        for _k in OK:
            mk_in_range('NarrowFix', _s, _r, False, _k)


# ===================================================================================================
# conversions
# ===================================================================================================
def mk_to_integer(s, wide, kind):
    @task('conv', 'cl_fix_to_integer[S=%d,%s,%s]' % (s, fmt_class(wide), kind), ['cl_fix_to_integer', 'NarrowFix.to_integer'])
    def f(h):
        c = h.c
        a = h.fmt('a', s, fmt_class(wide))
        d, va = h.data('a', a, kind, wide)
        sn = snap(d, a)
        r = h.call('cl_fix_to_integer', h.m.cl_fix_to_integer, d, a)
        check_frame(c, sn, 'cl_fix_to_integer')
        x = h.arr(r)
        c.check(x.dt in (('O', 'i8', 'u8') if wide else ('i8', 'O')), 'cl_fix_to_integer: integers')
        nd, shp = h.dims(d)
        c.check(x.nd == nd and (not nd or x.shp is shp), 'cl_fix_to_integer: shape of the operand')
        for e, v in zip(x.buf, va):
            c.check(E.is_int(e), 'cl_fix_to_integer: integers')
            c.prove(P(e) - v * p2(P(a.F)), '=', 'cl_fix_to_integer: unnormalized value')


def mk_from_integer(s, wide, kind, main=True):
    @task('conv', '%s[S=%d,%s,%s]' % ('cl_fix_from_integer' if main else 'NarrowFix.from_integer', s, fmt_class(wide), kind), ['cl_fix_from_integer', 'NarrowFix.from_integer'])
    def f(h):
        c = h.c
        a = h.fmt('a', s, fmt_class(wide))
        n = c.tracked if kind == 'nd' else 1
        ks = [c.int('a_k%d' % i) for i in range(n)]
        for k in ks:
            for fact in h.in_fmt_facts(k.p, a):
                c.add(fact)
        d = ks[0] if kind == 'py' else SArr('O' if wide else 'i8', kind == 'nd', Buf(ks), h.shape())
        sn = snap(d, a)
        label = 'cl_fix_from_integer' if main else 'NarrowFix.from_integer'
        r = h.call(label, h.m.cl_fix_from_integer if main else h.NarrowFix.from_integer, d, a)
        if not main:
            r = r._data
        check_frame(c, sn, label)
        nd, shp = h.dims(d)
        ns = h.check_repr(r, a, label, nd, shp)
        for x, k in zip(ns or (), ks):
            c.prove(x - k.p, '=', label + ': value')


def mk_from_integer_bad(s, wide, kind, side):
    @task('conv', 'cl_fix_from_integer rejects[S=%d,%s,%s,%s]' % (s, fmt_class(wide), kind, side), ['cl_fix_from_integer', 'NarrowFix.from_integer'])
    def f(h):
        c = h.c
        a = h.fmt('a', s, fmt_class(wide))
        top = p2(P(a.I) + P(a.F))
        n = c.tracked if kind == 'nd' else 1
        ks = [c.int('a_k%d' % i) for i in range(n)]
        if kind == 'nd' and not wide:
            for k in ks:
                c.add((k.p + 2 ** 63, '>='))
                c.add((2 ** 63 - 1 - k.p, '>='))
        if kind == 'nd' and wide:
            pass
        # some element is out of range
        c.add((ks[-1].p - top, '>=') if side == 'above' else (-s * top - 1 - ks[-1].p, '>='))
        if not wide:
            c.add((2 ** 53 - ks[-1].p, '>='))
            c.add((2 ** 53 + ks[-1].p, '>='))
        d = ks[0] if kind == 'py' else SArr('O' if wide else 'i8', kind == 'nd', Buf(ks), h.shape())
        must_raise(h, 'cl_fix_from_integer rejects out-of-range integers', h.m.cl_fix_from_integer, d, a)


def must_raise(h, label, fn, *a, **k):
    """Obligation: the call raises an error on every feasible path."""
    try:
        fn(*a, **k)
    except (E.Abandon, E.NeedWitness, Unsupported):
        raise
    except (RecursionError, MemoryError, Z3Exception):
        raise Unsupported("recursion or memory limit")
    except Exception:
        h.c.check(True, label)
        return
    h.c.unreachable(label, 'the call returned normally')


def mk_to_real(s, wide, kind):
    @task('conv', 'cl_fix_to_real[S=%d,%s,%s]' % (s, fmt_class(wide), kind), ['cl_fix_to_real', 'WideFix.to_real'])
    def f(h):
        c = h.c
        a = h.fmt('a', s, fmt_class(wide))
        d, va = h.data('a', a, kind, wide)
        sn = snap(d, a)
        if wide:
            # exactness is required of values that fit a significand: k = q * 2**z with |q| <= 2**53
            els = d.buf if isinstance(d, SArr) else [d]
            vals = []
            new = []
            for i, _ in enumerate(els):
                q, z = c.int('q%d' % i), c.int('z%d' % i)
                c.add((z.p, '>='))
                c.add((2 ** 53 - q.p, '>='))
                c.add((q.p + 2 ** 53, '>='))
                k = q.p * p2(z.p)
                for fact in h.in_fmt_facts(k, a):
                    c.add(fact)
                new.append(mk_int(k))
                vals.append(k * p2(-P(a.F)))
            d, va = h.wrap(new, 'O', kind), vals
            sn = snap(d, a)
        r = h.call('cl_fix_to_real', h.m.cl_fix_to_real, d, a)
        check_frame(c, sn, 'cl_fix_to_real')
        x = h.arr(r)
        c.check(x.dt == 'f8', 'cl_fix_to_real: doubles')
        nd, shp = h.dims(d)
        c.check(x.nd == nd and (not nd or x.shp is shp), 'cl_fix_to_real: shape of the operand')
        for e, v in zip(x.buf, va):
            c.prove(E.rewrite_real(P(e)) - v, '=', 'cl_fix_to_real: exact value')


def mk_from_narrow(s, kind):
    @task('conv', 'WideFix.from_narrowfix[S=%d,%s]' % (s, kind), ['WideFix.from_narrowfix'])
    def f(h):
        c = h.c
        a = h.fmt('a', s, 'narrow')
        o, va = h.obj('a', a, kind, False)
        sn = snap(o, a)
        r = h.call('WideFix.from_narrowfix', h.WideFix.from_narrowfix, o)
        check_frame(c, sn, 'WideFix.from_narrowfix', [r._fmt])
        ns = obj_result(h, r, a, 'WideFix.from_narrowfix', h.WideFix, o._data)
        c.check(r._fmt is not o._fmt, 'WideFix.from_narrowfix: own format object')
        for n, v in zip(ns, va):
            c.prove(n - v * p2(P(a.F)), '=', 'WideFix.from_narrowfix: same value')


def mk_bounds(s, which):
    @task('conv', '%s_value[S=%d]' % (which, s), ['cl_fix_%s_value' % which, 'NarrowFix.%s_value' % which, 'WideFix.%s_value' % which])
    def f(h):
        c = h.c
        a = h.fmt('a', s, None, null=True)
        top = p2(P(a.I) + P(a.F))
        want = top - 1 if which == 'max' else -s * top
        sn = snap(a)
        r = h.call('cl_fix_%s_value' % which, getattr(h.m, 'cl_fix_%s_value' % which), a)
        ns = h.check_repr(r, a, 'cl_fix_%s_value' % which, False)
        c.prove(ns[0] - want, '=', 'cl_fix_%s_value: bound of the format' % which)
        for cls in (h.WideFix, h.NarrowFix):
            if cls is h.NarrowFix:
                narrow_only(h, a)
            o = h.call('%s.%s_value' % (cls.__name__, which), getattr(cls, which + '_value'), a)
            q = obj_result(h, o, a, '%s.%s_value' % (cls.__name__, which), cls, SArr('O', False, [0]))
            c.prove(q[0] - want, '=', '%s.%s_value: bound of the format' % (cls.__name__, which))
        check_frame(c, sn, which + '_value')


for _s in (0, 1):
    for _w in (False, True):
        for _k in kinds_of(_w):
            mk_to_integer(_s, _w, _k)
            mk_to_real(_s, _w, _k)
        for _k in OK:
            mk_from_integer(_s, _w, _k)
            for _side in ('above', 'below'):
                mk_from_integer_bad(_s, _w, _k, _side)
    mk_from_integer(_s, False, 'nd', False)
    for _k in OK:
        mk_from_narrow(_s, _k)
    for _x in ('max', 'min'):
        mk_bounds(_s, _x)
