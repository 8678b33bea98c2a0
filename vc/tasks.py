"""Proof tasks: each builds arbitrary valid inputs, runs the real code and states the contract as obligations."""
import itertools
from fractions import Fraction
from .poly import Poly, Unsupported, ZERO
from . import engine as E
from . import npshim as N
from .engine import SInt, SFlt, SBool, SMode, P, mk_int
from .npshim import SArr, SList, Buf
from .harness import H, C, p2, HALF

TASKS = {}          # group -> list of Task (tasks2 and tasks3 add more)


class Task:
    def __init__(self, group, name, fn, funcs, stubs=(), tier=0, max_paths=4000):
        self.group, self.name, self.fn, self.funcs, self.stubs, self.tier = group, name, fn, funcs, stubs, tier
        self.max_paths = max_paths


def task(group, name, funcs, stubs=(), tier=0):
    """tier 0: every run; tier 1: thorough runs only (further container kinds of the operands)."""
    def deco(fn):
        TASKS.setdefault(group, []).append(Task(group, name, fn, funcs, stubs, tier))
        return fn
    return deco


NK = ('py', 'np', '0d', 'nd', 'list')
WK = ('py', '0d', 'nd')


def snap(*objs):
    """Snapshot of argument buffers and formats for the no-mutation obligations."""
    out = []
    for o in objs:
        if isinstance(o, (SArr, SList)):
            o.buf.mutated = o.buf.view_mutated = False
            out.append(('buf', o.buf, list(o.buf)))
        elif hasattr(o, '_fmt') and hasattr(o, '_data'):
            out += snap(o._data, o._fmt)
            out.append(('obj', o, (o._data, o._fmt)))
        elif hasattr(o, 'S') and hasattr(o, 'F'):
            out.append(('fmt', o, (o.S, o.I, o.F)))
    return out


def check_frame(c, s, label, results=()):
    """Arguments unchanged; result formats are not the argument formats."""
    for kind, o, old in s:
        if kind == 'buf':
            same = len(o) == len(old) and all(x is y or (E.is_num(x) and E.is_num(y) and P(x) == P(y)) for x, y in zip(o, old))
            c.check(same and not o.view_mutated, label + ': argument data not modified')
        elif kind == 'obj':
            c.check(o._data is old[0] and o._fmt is old[1], label + ': argument object not modified')
        else:
            c.check(all(P(x) == P(y) for x, y in zip((o.S, o.I, o.F), old)), label + ': argument format not modified')
            for r in results:
                c.check(r is not o, label + ': result format is independent of the argument format')


# ===================================================================================================
# formats
# ===================================================================================================
def two_fmts(h, sa, sb):
    return h.fmt('a', sa), h.fmt('b', sb)


def fmt_result(h, label, names, *args):
    """Calls the format function under all its public names; they must agree."""
    c = h.c
    fs = snap(*args)
    rs = [h.call(label, f, *args) for f in names]
    r = rs[0]
    for q in rs[1:]:
        for x, y in zip((r.S, r.I, r.F), (q.S, q.I, q.F)):
            c.prove(P(x) - P(y), '=', label + ': public names agree')
    check_frame(c, fs, label, rs)
    c.check(r.S in (0, 1), label + ': sign bits')
    c.prove(P(r.I) + P(r.F), '>=', label + ': valid format')
    return r


def contains(h, r, v, label):
    n = v * p2(P(r.F))
    h.check_valid([n], r, label)


BIN = {'add': lambda a, b: [a + b], 'sub': lambda a, b: [a - b], 'addsub': lambda a, b: [a + b, a - b], 'mult': lambda a, b: [a * b]}


def mk_bin_fmt(op, sa, sb):
    @task('fmt', 'for_%s[S=%d,%d]' % (op, sa, sb), ['FixFormat.for_' + op])
    def f(h):
        a, b = two_fmts(h, sa, sb)
        _, va = h.data('a', a, 'py', True)
        _, vb = h.data('b', b, 'py', True)
        r = fmt_result(h, 'for_' + op, [getattr(h.FixFormat, 'for_' + op), getattr(h.m, 'cl_fix_%s_fmt' % op)], a, b)
        for v in BIN[op](va[0], vb[0]):
            contains(h, r, v, 'for_%s contains every result' % op)

    @task('fmtmin', 'for_%s minimal[S=%d,%d]' % (op, sa, sb), ['FixFormat.for_' + op])
    def g(h):
        c = h.c
        a, b = two_fmts(h, sa, sb)
        r = fmt_result(h, 'for_' + op, [getattr(h.FixFormat, 'for_' + op), getattr(h.m, 'cl_fix_%s_fmt' % op)], a, b)

        def ext(f):
            top = p2(P(f.I))
            return -P(f.S) * top, top - p2(-P(f.F))
        (la, ha), (lb, hb) = ext(a), ext(b)
        if op == 'mult':
            vals = [x * y for x in (la, ha) for y in (lb, hb)]
        else:
            vals = []
            if op in ('add', 'addsub'):
                vals += [la + lb, ha + hb]
            if op in ('sub', 'addsub'):
                vals += [la - hb, ha - lb]
        minimal(h, r, vals, 'for_' + op)
        if op == 'mult':
            c.prove(P(r.F) - P(a.F) - P(b.F), '=', 'for_mult: fractional bits of the finest result')
        else:
            frac_is_max(h, r, [a, b], 'for_' + op)
        if op in ('add', 'sub', 'mult') and int(r.S) == 1:
            some(h, [(-v, '>') for v in vals], 'for_%s: sign bit only if a result is negative' % op)
        if int(r.S) == 0:
            for v in vals:
                c.prove(v, '>=', 'for_%s: no sign bit only if no result is negative' % op)


def some(h, goals, label):
    h.c.prove(goals[0][0], goals[0][1], label, alternatives=goals[1:])


def minimal(h, r, vals, label):
    """With one integer bit less (same S and F) some value does not fit, or the format is not valid."""
    top = p2(P(r.I) - 1)
    goals = [(v - top + p2(-P(r.F)), '>') for v in vals] + [(-v - P(r.S) * top, '>') for v in vals]
    goals.append((-(P(r.I) - 1 + P(r.F)), '>'))
    some(h, goals, label + ': no format with fewer integer bits suffices')


def frac_is_max(h, r, fs, label):
    c = h.c
    for f in fs:
        c.prove(P(r.F) - P(f.F), '>=', label + ': fractional bits cover the finest result')
    c.prove(P(r.F) - P(fs[0].F), '=', label + ': fractional bits are those of the finest result',
            alternatives=[(P(f.F) - P(r.F), '>=') for f in fs[1:]])


for _op in BIN:
    for _sa in (0, 1):
        for _sb in (0, 1):
            mk_bin_fmt(_op, _sa, _sb)


def absval(h, v):
    return v if h.c.decide(v, '>=') else -v


for _s in (0, 1):
    def _mk(s):
        for op in ('neg', 'abs'):
            def mk1(op):
                @task('fmt', 'for_%s[S=%d]' % (op, s), ['FixFormat.for_' + op])
                def f(h):
                    a = h.fmt('a', s)
                    _, va = h.data('a', a, 'py', True)
                    r = fmt_result(h, 'for_' + op, [getattr(h.FixFormat, 'for_' + op), getattr(h.m, 'cl_fix_%s_fmt' % op)], a)
                    contains(h, r, -va[0] if op == 'neg' else absval(h, va[0]), 'for_%s contains every result' % op)
                    if op == 'abs':
                        contains(h, r, va[0], 'for_abs contains the operand and its negation')
                        contains(h, r, -va[0], 'for_abs contains the operand and its negation')

                @task('fmtmin', 'for_%s minimal[S=%d]' % (op, s), ['FixFormat.for_' + op])
                def g(h):
                    a = h.fmt('a', s)
                    r = fmt_result(h, 'for_' + op, [getattr(h.FixFormat, 'for_' + op), getattr(h.m, 'cl_fix_%s_fmt' % op)], a)
                    top = p2(P(a.I))
                    lo, hi = -s * top, top - p2(-P(a.F))
                    minimal(h, r, [-lo, -hi] if op == 'neg' else [lo, hi, -lo, -hi], 'for_' + op)
                    h.c.prove(P(r.F) - P(a.F), '=', 'for_%s: fractional bits' % op)
            mk1(op)

        @task('fmt', 'for_shift[S=%d]' % s, ['FixFormat.for_shift'])
        def f(h):
            c = h.c
            a = h.fmt('a', s)
            _, va = h.data('a', a, 'py', True)
            lo, hi, x = c.int('minShift'), c.int('maxShift'), c.int('shift')
            c.add((x.p - lo.p, '>='))
            c.add((hi.p - x.p, '>='))
            r = fmt_result(h, 'for_shift', [h.FixFormat.for_shift, h.m.cl_fix_shift_fmt], a, lo, hi)
            contains(h, r, va[0] * p2(x.p), 'for_shift contains every result')
            r1 = fmt_result(h, 'for_shift', [h.FixFormat.for_shift, h.m.cl_fix_shift_fmt], a, x)
            contains(h, r1, va[0] * p2(x.p), 'for_shift (single shift) contains every result')

        @task('fmtmin', 'for_shift minimal[S=%d]' % s, ['FixFormat.for_shift'])
        def g(h):
            c = h.c
            a = h.fmt('a', s)
            lo, hi = c.int('minShift'), c.int('maxShift')
            c.add((hi.p - lo.p, '>='))
            r = fmt_result(h, 'for_shift', [h.FixFormat.for_shift, h.m.cl_fix_shift_fmt], a, lo, hi)
            top = p2(P(a.I) + hi.p)
            minimal(h, r, [-s * top, top - p2(hi.p - P(a.F))], 'for_shift')
            c.prove(P(r.F) - P(a.F) + lo.p, '=', 'for_shift: fractional bits of the finest result')

        @task('fmt', 'for_round[S=%d]' % s, ['FixFormat.for_round'])
        def k(h):
            c = h.c
            a = h.fmt('a', s)
            _, va = h.data('a', a, 'py', True)
            rF = c.int('rF')
            rnd = SMode(h.FixRound, 'rnd')
            r = fmt_result(h, 'for_round', [h.FixFormat.for_round, h.m.cl_fix_round_fmt], a, rF, rnd)
            c.prove(P(r.F) - rF.p, '=', 'for_round: fractional bits as requested')
            c.prove(P(r.I) + P(r.F) + P(r.S) - 1, '>=', 'for_round: positive width')
            c.check(int(r.S) == s, 'for_round: sign kept')
            h.reveal = True
            n = h.spec_round(va[0], P(a.F), rF.p, rnd)
            # rounding to more fractional bits keeps the value; range of the result format
            for p, rel in h.in_fmt_facts(n, r):
                c.prove(p, rel, 'for_round contains every rounded value')
    _mk(_s)


def union_expect(c, r, fs, label):
    for att in ('S', 'I', 'F'):
        xs = [P(getattr(f, att)) for f in fs]
        x = P(getattr(r, att))
        for y in xs:
            c.prove(x - y, '>=', label + ': not below any member (%s)' % att)
        c.prove(xs[0] - x, '>=', label + ': equals some member (%s)' % att, alternatives=[(y - x, '>=') for y in xs[1:]])


for _n in (1, 2, 3):
    for _form in (('pair', 'tuple', 'list') if _n == 2 else ('tuple',)):
        def _mk(n, form):
            @task('union', 'union[%d,%s]' % (n, form), ['FixFormat.union'])
            def f(h):
                c = h.c
                fs = [h.fmt('f%d' % i, c.choose(2), null=True) for i in range(n)]
                s = snap(*fs)
                args = tuple(fs) if form == 'pair' else ((list(fs) if form == 'list' else tuple(fs)),)
                r = h.call('union', h.FixFormat.union, *args)
                r2 = h.call('union', h.m.cl_fix_union_fmt, *args)
                check_frame(c, s, 'union', [r, r2])
                union_expect(c, r, fs, 'union is the component-wise maximum')
                union_expect(c, r2, fs, 'union is the component-wise maximum')
        _mk(_n, _form)


# ===================================================================================================
# round / saturate of the classes
# ===================================================================================================
def obj_result(h, r, want_fmt, label, cls, like):
    """Obligations on an object result; returns the scaled integers of its elements."""
    c = h.c
    if not c.check(isinstance(r, cls), label + ': returns an object of the class'):
        raise E.Abandon()
    f = r._fmt
    for x, y in zip((f.S, f.I, f.F), (want_fmt.S, want_fmt.I, want_fmt.F)):
        c.prove(P(x) - P(y), '=', label + ': carries the requested format')
    c.check(f is not want_fmt, label + ': stored format is independent of the argument')
    a = h.arr(r._data)
    wide = cls is h.WideFix
    c.check(a.dt == ('O' if wide else 'f8'), label + ': data type', 'dtype is %s' % a.dt)
    la_nd, la_shp = h.dims(like)
    c.check(a.nd == la_nd and (not a.nd or a.shp is la_shp), label + ': shape of the operands')
    c.check(not isinstance(like, SArr) or a.buf is not like.buf, label + ': result does not alias the operand data')
    if wide:
        for e in a.buf:
            c.check(E.is_int(e) and not getattr(e, 'np', None), label + ': arbitrary-precision integers')
    return [P(e) if wide else E.rewrite_real(P(e)) * p2(P(want_fmt.F)) for e in a.buf]


def mk_class_round(cname, s, kind):
    wide = cname == 'WideFix'

    @task('round', '%s.round[S=%d,%s]' % (cname, s, kind), [cname + '.round', cname + '.__init__'])
    def f(h):
        c = h.c
        a = h.fmt('a', s, None if wide else 'narrow')
        o, va = h.obj('a', a, kind, wide)
        rF = c.int('rF')
        rnd = SMode(h.FixRound, 'rnd')
        rf = h.call('for_round', h.FixFormat.for_round, a, rF, rnd)
        if not wide:
            c.assume(mkfact(C(53) - h.width(rf), '>='))
        sn = snap(o, a, rf)
        r = h.call('round', o.round, rf, rnd)
        check_frame(c, sn, cname + '.round', [r._fmt])
        ns = obj_result(h, r, rf, cname + '.round', type(o), o._data)
        keep = c.decide(rF.p - P(a.F), '>=')
        for n, v in zip(ns, va):
            x = v * p2(rF.p)
            if keep:
                c.prove(n - x, '=', cname + '.round: exact when fractional bits are not reduced')
            else:
                h.prove_round(n, x, rnd, cname + '.round')
        c.check(not c.warned, cname + '.round: no warning')


def mkfact(p, rel):
    return SBool(('atom', p, rel))


for _s in (0, 1):
    for _k in NK[:-1]:
        if _k != 'np':
            mk_class_round('NarrowFix', _s, _k)
    for _k in WK:
        mk_class_round('WideFix', _s, _k)


def mk_class_sat(cname, s, rs, kind, warn=False):
    wide = cname == 'WideFix'

    @task('satwarn' if warn else 'sat', '%s.saturate%s[S=%d->%d,%s]' % (cname, ' warning' if warn else '', s, rs, kind), [cname + '.saturate'])
    def f(h):
        c = h.c
        a = h.fmt('a', s, None if wide else 'narrow')
        o, va = h.obj('a', a, kind, wide)
        rI = c.int('rI')
        c.add((rI.p + P(a.F), '>='))
        rf = h.FixFormat(rs, rI, a.F)
        if not wide:
            c.assume(mkfact(C(53) - h.width(rf), '>='))
        sat = SMode(h.FixSaturate, 'sat')
        sn = snap(o, a, rf)
        r = h.call('saturate', o.saturate, rf, sat)
        if warn:
            check_warn(h, va, None, rf, None, sat, cname + '.saturate')
            return
        check_frame(c, sn, cname + '.saturate', [r._fmt])
        ns = obj_result(h, r, rf, cname + '.saturate', type(o), o._data)
        for n, v in zip(ns, va):
            h.prove_sat(n, v * p2(P(a.F)), rf, sat, cname + '.saturate')


def check_warn(h, vs, F, rf, rnd, sat, label):
    """A warning was issued iff the mode warns and some element (exact values vs of F fractional bits, rounded by rnd)
    is outside the format rf."""
    c = h.c
    lab = label + ': warning iff an element leaves the range'
    events = [w for w in c.warned if isinstance(w, tuple)]
    if events:
        if not c.check(len(events) == len(c.warned) == 1, label + ': a single source of warnings'):
            return
        kind, xs, f, r, s = events[0]
        same = True
        for x, y in ((f.S, rf.S), (f.I, rf.I), (f.F, rf.F)):
            same &= c.prove(P(x) - P(y), '=', lab + ' (format)')
        c.check(s is sat, lab + ' (mode)')
        if kind == 'resize':
            c.check(r is rnd, lab + ' (rounding mode)')
        for i, x in enumerate(xs):
            v = h.val(vs, i)
            c.prove(x - (v * p2(P(rf.F)) if kind == 'resize' or F is None else h.spec_round(v, F, P(rf.F), rnd)), '=', lab + ' (elements)')
        return
    ns = [v * p2(P(rf.F)) if F is None else h.spec_round(v, F, P(rf.F), rnd) for v in vs]
    top = p2(P(rf.I) + P(rf.F))
    s = int(rf.S)
    warned = bool(c.warned)
    want = False
    if h.is_warn(sat):
        want = any(c.decide(n - top, '>=') or c.decide(-n - s * top, '>') for n in ns)
    if warned == want:
        c.check(True, lab)
    else:
        c.unreachable(lab, 'warning %s but %s' % ('issued' if warned else 'missing', 'expected' if want else 'no element out of range'))


for _s in (0, 1):
    for _r in (0, 1):
        for _k in ('0d', 'nd', 'py'):
            mk_class_sat('NarrowFix', _s, _r, _k)
            mk_class_sat('WideFix', _s, _r, _k)
        for _k in ('0d', 'nd'):
            mk_class_sat('NarrowFix', _s, _r, _k, True)
            mk_class_sat('WideFix', _s, _r, _k, True)


# ===================================================================================================
# main interface: round, saturate, resize, arithmetic
# ===================================================================================================
def kinds_of(wide):
    return WK if wide else NK


def fmt_class(w):
    return 'wide' if w else 'narrow'


def mk_main_round(s, wide, kind):
    @task('mround', 'cl_fix_round[S=%d,%s,%s]' % (s, fmt_class(wide), kind), ['cl_fix_round', 'cl_fix_is_wide', '_clean_input', 'WideFix.from_narrowfix', 'WideFix.to_real'], ('round', 'saturate'))
    def f(h):
        c = h.c
        a = h.fmt('a', s, fmt_class(wide))
        d, va = h.data('a', a, kind, wide)
        rF = c.int('rF')
        rnd = SMode(h.FixRound, 'rnd')
        rf = h.call('for_round', h.FixFormat.for_round, a, rF, rnd)
        sn = snap(d, a, rf)
        r = h.call('cl_fix_round', h.m.cl_fix_round, d, a, rf, rnd)
        check_frame(c, sn, 'cl_fix_round')
        la_nd, la_shp = h.dims(d)
        ns = h.check_repr(r, rf, 'cl_fix_round', la_nd, la_shp)
        for n, v in zip(ns or (), va):
            c.prove(n - h.spec_round(v, P(a.F), rF.p, rnd), '=', 'cl_fix_round: value')
        h.check_valid(ns or (), rf, 'cl_fix_round')
        c.check(not c.warned, 'cl_fix_round: no warning')


def mk_main_sat(s, rs, wide, kind, warn=False):
    @task('msatwarn' if warn else 'msat', 'cl_fix_saturate%s[S=%d->%d,%s,%s]' % (' warning' if warn else '', s, rs, fmt_class(wide), kind), ['cl_fix_saturate'], ('round', 'saturate'))
    def f(h):
        c = h.c
        h.track_warn = warn
        a = h.fmt('a', s, fmt_class(wide))
        d, va = h.data('a', a, kind, wide)
        rI = c.int('rI')
        c.add((rI.p + P(a.F), '>='))
        rf = h.FixFormat(rs, rI, a.F)
        sat = SMode(h.FixSaturate, 'sat')
        sn = snap(d, a, rf)
        r = h.call('cl_fix_saturate', h.m.cl_fix_saturate, d, a, rf, sat)
        if warn:
            check_warn(h, va, None, rf, None, sat, 'cl_fix_saturate')
            return
        check_frame(c, sn, 'cl_fix_saturate')
        la_nd, la_shp = h.dims(d)
        ns = h.check_repr(r, rf, 'cl_fix_saturate', la_nd, la_shp)
        for n, v in zip(ns or (), va):
            c.prove(n - h.spec_sat(v * p2(P(a.F)), rf, sat), '=', 'cl_fix_saturate: value')
        h.check_valid(ns or (), rf, 'cl_fix_saturate')
        c.check(not c.warned, 'cl_fix_saturate: no other warning')


for _s in (0, 1):
    for _w in (False, True):
        for _k in kinds_of(_w):
            mk_main_round(_s, _w, _k)
        for _r in (0, 1):
            for _k in kinds_of(_w):
                mk_main_sat(_s, _r, _w, _k)
            for _k in ('0d', 'nd'):
                mk_main_sat(_s, _r, _w, _k, True)


def result_fmt(h, given, mid):
    """The requested result format (symbolic) or the reported format of the operation."""
    c = h.c
    if not given:
        return mid
    rs = c.choose(2)
    r = h.fmt('r', rs, None, null=True)
    return r


def modes(h, given):
    if given:
        return SMode(h.FixRound, 'rnd'), SMode(h.FixSaturate, 'sat')
    return h.FixRound.Trunc_s, h.FixSaturate.None_s


def finish_main(h, label, r, rf, exact, Fexact, rnd, sat, nd, shp, given, composed=False):
    """Obligations on the result of a main-interface operation with exact element values `exact`."""
    c = h.c
    ns = h.check_repr(r, rf, label, nd, shp)
    if ns is None:
        return
    for i, n in enumerate(ns):
        v = exact[i if len(exact) > 1 else 0]
        if composed:
            want = h.spec_sat(h.spec_round(v, Fexact, P(rf.F), rnd), rf, sat)
        elif given:
            want = h.spec_resize(v, Fexact, rf, rnd, sat)
        else:
            want = v * p2(P(rf.F))
        c.prove(n - want, '=', label + ': exact result, rounded and saturated')
    h.check_valid(ns, rf, label)


UN = {'abs': lambda h, v: absval(h, v), 'neg': lambda h, v: -v, 'resize': lambda h, v: v}


def mk_main_un(op, s, wide, kind, given, warn=False):
    @task('m' + op + ('warn' if warn else ''), 'cl_fix_%s%s[S=%d,%s,%s,%s]' % (op, ' warning' if warn else '', s, fmt_class(wide), kind, 'r_fmt' if given else 'default'),
          ['cl_fix_' + op, 'NarrowFix.' + op, 'WideFix.' + op], ('cl_fix_round', 'cl_fix_saturate') if op == 'resize' else ('round', 'saturate', 'resize', 'cl_fix_resize'))
    def f(h):
        c = h.c
        h.track_warn = warn
        a = h.fmt('a', s, fmt_class(wide))
        d, va = h.data('a', a, kind, wide)
        rnd, sat = modes(h, given)
        if op == 'resize':
            mid = a
            rf = result_fmt(h, True, mid)
            args = (d, a, rf) + ((rnd, sat) if given else ())
        else:
            mid = h.call('fmt', getattr(h.FixFormat, 'for_' + op), a)
            rf = result_fmt(h, given, mid)
            args = (d, a) + ((rf, rnd, sat) if given else ())
        sn = snap(d, a, rf)
        r = h.call('cl_fix_' + op, getattr(h.m, 'cl_fix_' + op), *args)
        la_nd, la_shp = h.dims(d)
        exact = [UN[op](h, v) for v in va]
        if warn:
            check_warn(h, exact, P(mid.F), rf, rnd, sat, 'cl_fix_' + op)
            return
        check_frame(c, sn, 'cl_fix_' + op)
        if op == 'resize' and not given:
            rnd, sat = h.FixRound.Trunc_s, h.FixSaturate.None_s
        finish_main(h, 'cl_fix_' + op, r, rf, exact, P(mid.F), rnd, sat, la_nd, la_shp, given or op == 'resize', op == 'resize')
        if not warn and not given:
            c.check(not c.warned, 'cl_fix_%s: no warning' % op)


for _op in UN:
    for _s in (0, 1):
        for _w in (False, True):
            for _k in kinds_of(_w):
                for _g in (True, False):
                    mk_main_un(_op, _s, _w, _k, _g)
            for _k in ('0d', 'nd'):
                mk_main_un(_op, _s, _w, _k, True, True)


def pairs(wa, wb):
    """Representative kind combinations of two operands."""
    ka, kb = kinds_of(wa), kinds_of(wb)
    base = [(x, y) for x in ('py', '0d', 'nd') for y in ('py', '0d', 'nd')]
    extra = []
    if not wa:
        extra += [('np', 'nd' if wb else 'np'), ('list', 'py')]
    if not wb:
        extra += [('nd', 'np'), ('nd', 'list')]
    return base + extra


def mk_main_bin(op, sa, sb, wa, wb, ka, kb, given, warn=False, skind=None):
    tier = 0 if (ka, kb) in (('nd', 'nd'), ('0d', '0d')) and warn or not warn and op == 'addsub' and (ka, kb, skind) in (('nd', 'nd', 'nd'), ('0d', '0d', '0d')) else 1 if op == 'addsub' and not (sa == 0 and sb == 1 and skind == 'py' or sa == sb == 1 and kb == 'list') else \
        1 if warn else 0 if (ka == kb and ka in ('0d', 'nd') and (given or ka == 'nd')) or (sa == sb == 1 and given) else 1
    @task('m' + op + ('warn' if warn else ''), 'cl_fix_%s%s[S=%d,%d,%s/%s,%s/%s%s,%s]' % (op, ' warning' if warn else '', sa, sb, fmt_class(wa), fmt_class(wb), ka, kb, ', add ' + skind if skind else '', 'r_fmt' if given else 'default'),
          ['cl_fix_' + op, 'NarrowFix.' + op, 'WideFix.' + op], ('round', 'saturate', 'resize', 'cl_fix_resize') + (('cl_fix_add', 'cl_fix_sub') if op == 'addsub' else ()), tier)
    def f(h):
        c = h.c
        h.track_warn = warn
        a, b = h.fmt('a', sa, fmt_class(wa)), h.fmt('b', sb, fmt_class(wb))
        da, va = h.data('a', a, ka, wa)
        db, vb = h.data('b', b, kb, wb)
        rnd, sat = modes(h, given)
        mid = h.call('fmt', getattr(h.FixFormat, 'for_' + op), a, b)
        rf = result_fmt(h, given, mid)
        nd = ka in ('nd', 'list') or kb in ('nd', 'list') or skind == 'nd'
        n = c.tracked if nd else 1
        sn = snap(da, db, a, b, rf)
        args = (da, a, db, b)
        sel = None
        if op == 'addsub':
            sel = [c.int('add%d' % i) for i in range(n)]
            for x in sel:
                c.add((x.p, '>='))
                c.add((1 - x.p, '>='))
            if skind == 'nd':
                add = SArr('b', True, [SBool(('atom', x.p, '!=')) for x in sel], h.shape())
            else:
                sel = sel[:1]
                add = SBool(('atom', sel[0].p, '!='))
                if skind == '0d':
                    add = SArr('b', False, [add])
            args += (add,)
            sn += snap(add)
        r = h.call('cl_fix_' + op, getattr(h.m, 'cl_fix_' + op), *args, *((rf, rnd, sat) if given else ()))
        exact = []
        for i in range(n):
            x, y = h.val(va, i), h.val(vb, i)
            if op == 'add':
                e = x + y
            elif op == 'sub':
                e = x - y
            elif op == 'mult':
                e = x * y
            else:
                e = x + y if c.decide(sel[i if len(sel) > 1 else 0].p, '!=') else x - y
            exact.append(e)
        if warn:
            check_warn(h, exact, P(mid.F), rf, rnd, sat, 'cl_fix_' + op)
            return
        check_frame(c, sn, 'cl_fix_' + op)
        shp = h.shape() if nd else None
        finish_main(h, 'cl_fix_' + op, r, rf, exact, P(mid.F), rnd, sat, nd, shp, given)
        if not given:
            c.check(not c.warned, 'cl_fix_%s: no warning' % op)


for _op in ('add', 'sub', 'addsub', 'mult'):
    for _sa, _sb in itertools.product((0, 1), (0, 1)):
        for _wa, _wb in itertools.product((False, True), (False, True)):
            for _ka, _kb in pairs(_wa, _wb):
                _sk = None if _op != 'addsub' else 'nd' if 'nd' in (_ka, _kb) else '0d' if '0d' in (_ka, _kb) else 'py'
                mk_main_bin(_op, _sa, _sb, _wa, _wb, _ka, _kb, True, False, _sk)
                if (_ka, _kb) in (('nd', 'nd'), ('py', '0d')):
                    mk_main_bin(_op, _sa, _sb, _wa, _wb, _ka, _kb, False, False, _sk)
            if _op == 'addsub':
                mk_main_bin(_op, _sa, _sb, _wa, _wb, 'nd', 'nd', True, False, 'py')
                mk_main_bin(_op, _sa, _sb, _wa, _wb, '0d', '0d', True, False, 'nd')
            for _ka, _kb in (('0d', '0d'), ('nd', 'nd'), ('nd', 'py')):
                mk_main_bin(_op, _sa, _sb, _wa, _wb, _ka, _kb, True, True, None if _op != 'addsub' else 'nd' if _ka == 'nd' else '0d')


def small(c, *fs):
    B = c.int('bound').p        # symbolic, so that no power of two with a huge constant exponent arises
    c.add((2 ** 40 - B, '>='))
    for f in fs:
        for x in (f.I, f.F):
            c.add((P(x) + B, '>='))
            c.add((B - P(x), '>='))


def mk_main_shift(s, wide, kind, skind, given, warn=False):
    @task('mshift' + ('warn' if warn else ''), 'cl_fix_shift%s[S=%d,%s,%s,shift %s,%s]' % (' warning' if warn else '', s, fmt_class(wide), kind, skind, 'r_fmt' if given else 'default'),
          ['cl_fix_shift', 'NarrowFix.shift', 'WideFix.shift'], ('round', 'saturate', 'resize', 'cl_fix_resize'))
    def f(h):
        c = h.c
        h.track_warn = warn
        a = h.fmt('a', s, fmt_class(wide))
        small(c, a)     # the shift amounts pass through int64 scalars: formats and shifts below 2**40 keep every sum in range
        d, va = h.data('a', a, kind, wide)
        rnd, sat = modes(h, given)
        n = c.tracked if (kind in ('nd', 'list') or skind == 'nd') else 1
        ks = []
        for i in range(c.tracked if skind == 'nd' else 1):
            k = c.int('shift%d' % i)
            c.add((k.p + 2 ** 40, '>='))
            c.add((2 ** 40 - k.p, '>='))
            ks.append(k)
        sh = ks[0] if skind == 'py' else SInt(ks[0].p, 'i8') if skind == 'np' else SArr('i8', skind == 'nd', Buf(ks), h.shape())
        if given:
            rf = result_fmt(h, True, None)
            small(c, rf)
        else:
            rf = None
        sn = snap(d, a, rf, sh)
        r = h.call('cl_fix_shift', h.m.cl_fix_shift, d, a, sh, rf, *((rnd, sat) if given else ()))
        exact = [h.val(va, i) * p2(h.val(ks, i).p) for i in range(n)]
        Fx = None
        if rf is None:
            lo, hi = N.reduce_min(sh), N.reduce_max(sh)
            rf = h.FixFormat.for_shift(a, lo, hi)
        if given:
            lo, hi = N.reduce_min(sh), N.reduce_max(sh)
            Fx = P(h.FixFormat.for_shift(a, lo, hi).F)
        if warn:
            check_warn(h, exact, Fx, rf, rnd, sat, 'cl_fix_shift')
            return
        check_frame(c, sn, 'cl_fix_shift')
        nd = n > 1 or kind in ('nd', 'list') or skind == 'nd'
        finish_main(h, 'cl_fix_shift', r, rf, exact, Fx, rnd, sat, nd, h.shape() if nd else None, given)


for _s in (0, 1):
    for _w in (False, True):
        for _k in kinds_of(_w):
            for _sk in ('py', 'np', 'nd'):
                for _g in (True, False):
                    mk_main_shift(_s, _w, _k, _sk, _g)
        for _k, _sk in (('0d', 'py'), ('nd', 'py'), ('nd', 'nd')):
            mk_main_shift(_s, _w, _k, _sk, True, True)
