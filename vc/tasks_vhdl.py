"""Proof tasks on the VHDL code in /repo/hdl (C17..C21)."""
import os
from .poly import Poly, Unsupported, ZERO
from . import engine as E
from .engine import SMode, SFlt, P, mk_int
from .harness import H, C, p2, HALF
from .tasks import task
from .vhdl import assigned, Env, Cell, INT, VErr, Vec, Rec, Bit, VStr, Meta, uval, sval, decimal
from .vhdl_sim import VhdlSim, Design

_V = {}


def root():
    return os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'hdl')


def vhdl(h):
    v = _V.get(id(h.pkg))
    if v is None:
        v = _V[id(h.pkg)] = VhdlSim(root(), enums=(h.FixRound, h.FixSaturate))
    v.stubs, v.overflow, v.depth, v.sim, v.rules = {}, False, 0, None, ()
    return v


def vfmt(V, f):
    """FixFormat_t record of a Python format object."""
    return Rec(V.g.types['fixformat_t'], {'s': f.S, 'i': f.I, 'f': f.F})


def vcall(h, V, name, *args, **kw):
    """Call; a VHDL run-time error on a feasible path is a failed obligation."""
    c = h.c
    try:
        return V.call(name, list(args), kw)
    except VErr as e:
        c.unreachable('%s: no run-time error for valid requests' % name, str(e))
        raise E.Abandon()


BIG = 2 ** 28


def bound(c, *xs):
    """Format fields small enough that 32-bit arithmetic on a handful of them cannot be excluded a priori."""
    for x in xs:
        c.add((P(x) + BIG, '>='))
        c.add((C(BIG) - P(x), '>='))


def same_fmt(h, r, v, label):
    c = h.c
    if not c.check(isinstance(v, Rec), label + ': returns a format'):
        return
    for att in ('S', 'I', 'F'):
        c.prove(P(getattr(r, att)) - P(v.d[att.lower()]), '=', '%s: same %s as the Python format' % (label, att))


for _op in ('add', 'sub', 'addsub', 'mult'):
    for _sa in (0, 1):
        for _sb in (0, 1):
            def _mk(op, sa, sb):
                @task('vfmt', 'VHDL cl_fix_%s_fmt = FixFormat.for_%s[S=%d,%d]' % (op, op, sa, sb), ['cl_fix_%s_fmt (VHDL)' % op, 'FixFormat.for_' + op])
                def f(h):
                    V = vhdl(h)
                    V.overflow = True
                    a, b = h.fmt('a', sa), h.fmt('b', sb)
                    bound(h.c, a.I, a.F, b.I, b.F)
                    r = h.call('for_' + op, getattr(h.FixFormat, 'for_' + op), a, b)
                    v = vcall(h, V, 'cl_fix_%s_fmt' % op, vfmt(V, a), vfmt(V, b))
                    same_fmt(h, r, v, 'cl_fix_%s_fmt' % op)
            _mk(_op, _sa, _sb)

for _s in (0, 1):
    def _mk(s):
        for op in ('neg', 'abs'):
            def mk1(op):
                @task('vfmt', 'VHDL cl_fix_%s_fmt = FixFormat.for_%s[S=%d]' % (op, op, s), ['cl_fix_%s_fmt (VHDL)' % op, 'FixFormat.for_' + op])
                def f(h):
                    V = vhdl(h)
                    V.overflow = True
                    a = h.fmt('a', s)
                    bound(h.c, a.I, a.F)
                    r = h.call('for_' + op, getattr(h.FixFormat, 'for_' + op), a)
                    same_fmt(h, r, vcall(h, V, 'cl_fix_%s_fmt' % op, vfmt(V, a)), 'cl_fix_%s_fmt' % op)
            mk1(op)

        @task('vfmt', 'VHDL cl_fix_shift_fmt = FixFormat.for_shift[S=%d]' % s, ['cl_fix_shift_fmt (VHDL)', 'FixFormat.for_shift'])
        def g(h):
            c = h.c
            V = vhdl(h)
            V.overflow = True
            a = h.fmt('a', s)
            lo, hi = c.int('minShift'), c.int('maxShift')
            c.add((hi.p - lo.p, '>='))
            bound(c, a.I, a.F, lo, hi)
            r = h.call('for_shift', h.FixFormat.for_shift, a, lo, hi)
            same_fmt(h, r, vcall(h, V, 'cl_fix_shift_fmt', vfmt(V, a), lo, hi), 'cl_fix_shift_fmt (range)')
            r = h.call('for_shift', h.FixFormat.for_shift, a, hi)
            same_fmt(h, r, vcall(h, V, 'cl_fix_shift_fmt', vfmt(V, a), hi), 'cl_fix_shift_fmt (single shift)')

        @task('vfmt', 'VHDL cl_fix_round_fmt = FixFormat.for_round[S=%d]' % s, ['cl_fix_round_fmt (VHDL)', 'FixFormat.for_round'])
        def k(h):
            c = h.c
            V = vhdl(h)
            V.overflow = True
            a = h.fmt('a', s)
            rF = c.int('rF')
            bound(c, a.I, a.F, rF)
            rnd = SMode(h.FixRound, 'rnd')
            r = h.call('for_round', h.FixFormat.for_round, a, rF, rnd)
            same_fmt(h, r, vcall(h, V, 'cl_fix_round_fmt', vfmt(V, a), rF, rnd), 'cl_fix_round_fmt')

        @task('vfmt', 'VHDL cl_fix_width = width of the Python format[S=%d]' % s, ['cl_fix_width (VHDL)', 'cl_fix_width'])
        def w(h):
            V = vhdl(h)
            V.overflow = True
            a = h.fmt('a', s)
            bound(h.c, a.I, a.F)
            r = h.call('cl_fix_width', h.m.cl_fix_width, a)
            h.c.prove(P(r) - P(vcall(h, V, 'cl_fix_width', vfmt(V, a))), '=', 'cl_fix_width: same width')
    _mk(_s)


# ===================================================================================================
# C18: functions on bit vectors
# ===================================================================================================
def rfmt(h, name, S):
    return h.fmt(name, S)


def vec(h, name, f, k=None, direction=None):
    """Arbitrary 0/1 vector of format f with arbitrary bounds in either direction; returns (vector, exact integer)."""
    c = h.c
    w = h.width(f)
    if k is None:
        k = c.int(name + '_k').p
        for fact in h.in_fmt_facts(k, f):
            c.add(fact)
    if direction is None:
        direction = c.choose(2)
    o = c.int(name + '_low').p
    c.add((o, '>='))
    b = (o + w - 1, 'downto', o) if direction == 0 else (o, 'to', o + w - 1)
    return Vec('slv', w, k, b), k


def vint(v, f):
    """Integer denoted by a vector of format f (LSB units)."""
    return sval(v.with_(k='s')) if int(f.d['s'] if isinstance(f, Rec) else f.S) == 1 else uval(v.with_(k='u'))


def recfmt(h, r):
    S, I, F = r.d['s'], r.d['i'], r.d['f']
    try:
        return h.FixFormat(S, I, F)
    except AssertionError as e:
        # not a format: on a feasible path the code calls a function with (or returns) an invalid format
        raise VErr('invalid format: %s' % e)


def check_vec(h, v, f, want, label):
    """The vector has the width of f and denotes the integer want."""
    c = h.c
    if not c.check(isinstance(v, Vec) and v.k == 'slv', label + ': returns a std_logic_vector'):
        return
    if not c.prove(v.w - h.width(f), '=', label + ': width of the result format'):
        return
    c.prove(vint(v, f) - want, '=', label + ': bit pattern of the exact result')


def pre_vec(h, v, f, label):
    c = h.c
    if not c.entails(v.w - h.width(f), '=', 2) and not c.prove(v.w - h.width(f), '=', label + ': operand of the width of its format'):
        raise E.Abandon()


def stub_vhdl(h, V, which):
    """Contracts of the VHDL functions in place of their bodies."""
    c = h.c

    def out(f, n):
        return Vec('slv', h.width(f), n)

    def rnd_stub(fn, args):
        a, af, rf, rnd, chk = args
        af, rf = recfmt(h, af), recfmt(h, rf)
        pre_vec(h, a, af, 'cl_fix_round')
        if h.c.decide(h.width(rf) - 1, '>=') is False:
            return NotImplemented
        if chk is not True:
            # contract without the format check, for formats with at least the integer bits of the round format
            if chk is not False or int(rf.S) != int(af.S):
                return NotImplemented
            mid = recfmt(h, V.call('cl_fix_round_fmt', [args[1], mk_int(P(rf.F)), rnd]))
            if not c.entails(P(rf.I) - P(mid.I), '>='):
                return NotImplemented
            n = h.spec_round(vint(a, af) * p2(-P(af.F)), P(af.F), P(rf.F), rnd)
            for p, rel in h.in_fmt_facts(n, mid):
                c.add((p, rel))
            return out(rf, n)
        mid = V.call('cl_fix_round_fmt', [args[1], mk_int(P(rf.F)), rnd])
        if not E.as_bool(V.eq(args[2], mid, 0)):
            raise VErr('cl_fix_round: Invalid result format')
        n = h.spec_round(vint(a, af) * p2(-P(af.F)), P(af.F), P(rf.F), rnd)
        for p, rel in h.in_fmt_facts(n, rf):
            c.add((p, rel))
        return out(rf, n)

    def sat_stub(fn, args):
        a, af, rf, sat = args
        af, rf = recfmt(h, af), recfmt(h, rf)
        pre_vec(h, a, af, 'cl_fix_saturate')
        if not c.decide(P(rf.F) - P(af.F), '='):
            raise VErr('cl_fix_saturate: number of frac bits')
        return out(rf, h.spec_sat(vint(a, af), rf, sat))

    def resize_stub(fn, args):
        a, af, rf, rnd, sat = args
        af, rf = recfmt(h, af), recfmt(h, rf)
        pre_vec(h, a, af, 'cl_fix_resize')
        return out(rf, h.spec_resize(vint(a, af) * p2(-P(af.F)), P(af.F), rf, rnd, sat))

    def cmp_stub(fn, args):
        op, a, af, b, bf = args
        af, bf = recfmt(h, af), recfmt(h, bf)
        pre_vec(h, a, af, 'cl_fix_compare')
        pre_vec(h, b, bf, 'cl_fix_compare')
        t = op.text()
        if t not in CMP:
            return NotImplemented
        d = vint(a, af) * p2(-P(af.F)) - vint(b, bf) * p2(-P(bf.F))
        return cmp_true(h, t, d)

    def inrange_stub(fn, args):
        a, af, rf, rnd = args
        af, rf = recfmt(h, af), recfmt(h, rf)
        pre_vec(h, a, af, 'cl_fix_in_range')
        n = h.spec_round(vint(a, af) * p2(-P(af.F)), P(af.F), P(rf.F), rnd)
        return all(c.decide(p, r) for p, r in h.in_fmt_facts(n, rf))

    def to01_stub(fn, args):
        # metavalues and weak values are outside the preconditions; on 0/1 the identity (task 'to01')
        return args[0] if isinstance(args[0], Vec) else NotImplemented
    V.stubs['to01'] = to01_stub
    fns = dict(cl_fix_round=rnd_stub, cl_fix_saturate=sat_stub, cl_fix_resize=resize_stub, cl_fix_compare=cmp_stub, cl_fix_in_range=inrange_stub)
    for n in which:
        if not h.reveal or n in ('cl_fix_compare', 'cl_fix_in_range'):
            V.stubs[n] = fns[n]


CMP = ('=', '!=', '<', '<=', '>', '>=')


def cmp_true(h, op, d):
    c = h.c
    if op == '=':
        return c.decide(d, '=')
    if op == '!=':
        return not c.decide(d, '=')
    if op in ('<', '<='):
        return c.decide(-d, '>' if op == '<' else '>=')
    return c.decide(d, '>' if op == '>' else '>=')


def vtask(name, funcs, group='vfun', stubs=(), **kw):
    def deco(fn):
        def body(h):
            V = vhdl(h)
            stub_vhdl(h, V, stubs)
            fn(h, V)
        task(group, 'VHDL ' + name, [f + ' (VHDL)' for f in funcs], ['vhdl:' + s for s in stubs], **kw)(body)
        return fn
    return deco


for _sa in (0, 1):
    def _mk(sa):
        @vtask('cl_fix_round[S=%d]' % sa, ['cl_fix_round', 'convert', 'get_half', 'get_unit_bit', 'cl_fix_sign', 'resize_sensible'])
        def f(h, V):
            c = h.c
            a = h.fmt('a', sa)
            v, k = vec(h, 'a', a)
            rnd = SMode(h.FixRound, 'rnd')
            rF = c.int('rF')
            rf = vcall(h, V, 'cl_fix_round_fmt', vfmt(V, a), rF, rnd)
            r = vcall(h, V, 'cl_fix_round', v, vfmt(V, a), rf, rnd)
            f_ = recfmt(h, rf)
            if not c.check(isinstance(r, Vec) and r.k == 'slv', 'cl_fix_round: returns a std_logic_vector'):
                return
            c.prove(r.w - h.width(f_), '=', 'cl_fix_round: width of the result format')
            n = vint(r, f_)
            x = k * p2(P(f_.F) - P(a.F))
            if c.decide(P(f_.F) - P(a.F), '>='):
                c.prove(n - x, '=', 'cl_fix_round: value kept when no fractional bits are dropped')
            else:
                h.prove_round(n, x, rnd, 'cl_fix_round')

        for sr in (0, 1):
            def mk3(sr):
                @vtask('cl_fix_round without format check[S=%d,%d]' % (sa, sr), ['cl_fix_round', 'convert', 'get_half', 'get_unit_bit', 'cl_fix_sign', 'resize_sensible'])
                def f3(h, V):
                    # a result format of the designer's choice, in which the rounded value is representable
                    # (it keeps the sign bit, and its integer bits reach the LSB of the operand)
                    c = h.c
                    a, rf = h.fmt('a', sa), h.fmt('r', sr)
                    c.add((P(rf.I) + P(a.F) + sr - 1, '>='))
                    v, k = vec(h, 'a', a)
                    rnd = SMode(h.FixRound, 'rnd')
                    x = k * p2(P(rf.F) - P(a.F))
                    drop = c.decide(P(a.F) - P(rf.F), '>')
                    n = h.round_reveal(x, rnd) if drop else x
                    for p, rel in h.in_fmt_facts(n, rf):
                        c.add((p, rel))
                    r = vcall(h, V, 'cl_fix_round', v, vfmt(V, a), vfmt(V, rf), rnd, False)
                    label = 'cl_fix_round without format check'
                    if not drop:
                        return check_vec(h, r, rf, x, label)
                    if not c.check(isinstance(r, Vec) and r.k == 'slv', label + ': returns a std_logic_vector'):
                        return
                    c.prove(r.w - h.width(rf), '=', label + ': width of the result format')
                    h.prove_round(vint(r, rf), x, rnd, label)
            if sr >= sa:
                mk3(sr)

            def mk2(sr):
                @vtask('cl_fix_saturate[S=%d,%d]' % (sa, sr), ['cl_fix_saturate', 'convert', 'resize_sensible', 'cl_fix_max_value', 'cl_fix_min_value'], stubs=('cl_fix_compare', 'cl_fix_in_range'))
                def g(h, V):
                    c = h.c
                    a, rf = h.fmt('a', sa), h.fmt('r', sr)
                    c.add((P(rf.I) + P(a.F), '>='))
                    c.add((P(rf.I) + P(a.F) + sr - 1, '>='))
                    rf = h.FixFormat(rf.S, rf.I, a.F)
                    v, k = vec(h, 'a', a)
                    sat = SMode(h.FixSaturate, 'sat')
                    r = vcall(h, V, 'cl_fix_saturate', v, vfmt(V, a), vfmt(V, rf), sat)
                    if c.check(isinstance(r, Vec) and r.k == 'slv', 'cl_fix_saturate: returns a std_logic_vector') and c.prove(r.w - h.width(rf), '=', 'cl_fix_saturate: width of the result format'):
                        h.prove_sat(vint(r, rf), k, rf, sat, 'cl_fix_saturate')

                @vtask('cl_fix_resize[S=%d,%d]' % (sa, sr), ['cl_fix_resize'], stubs=('cl_fix_round', 'cl_fix_saturate', 'cl_fix_compare', 'cl_fix_in_range'))
                def k(h, V):
                    c = h.c
                    a, rf = h.fmt('a', sa), h.fmt('r', sr)
                    v, k = vec(h, 'a', a)
                    rnd, sat = SMode(h.FixRound, 'rnd'), SMode(h.FixSaturate, 'sat')
                    r = vcall(h, V, 'cl_fix_resize', v, vfmt(V, a), vfmt(V, rf), rnd, sat)
                    want = h.spec_sat(h.spec_round(k * p2(-P(a.F)), P(a.F), P(rf.F), rnd), rf, sat)
                    check_vec(h, r, rf, want, 'cl_fix_resize')
                    if not h.reveal:
                        r = vcall(h, V, 'cl_fix_resize', v, vfmt(V, a), vfmt(V, rf))
                        want = h.spec_sat(h.spec_round(k * p2(-P(a.F)), P(a.F), P(rf.F), h.FixRound.Trunc_s), rf, h.FixSaturate.Warn_s)
                        check_vec(h, r, rf, want, 'cl_fix_resize (default modes)')

                @vtask('cl_fix_in_range[S=%d,%d]' % (sa, sr), ['cl_fix_in_range', 'cl_fix_max_value', 'cl_fix_min_value'], stubs=('cl_fix_round', 'cl_fix_compare'))
                def m(h, V):
                    c = h.c
                    a, rf = h.fmt('a', sa), h.fmt('r', sr)
                    v, k = vec(h, 'a', a)
                    rnd = SMode(h.FixRound, 'rnd')
                    r = vcall(h, V, 'cl_fix_in_range', v, vfmt(V, a), vfmt(V, rf), rnd)
                    r = E.as_bool(r)
                    n = h.spec_round(k * p2(-P(a.F)), P(a.F), P(rf.F), rnd)
                    facts = h.in_fmt_facts(n, rf)
                    if r:
                        for p, rel in facts:
                            c.prove(p, rel, 'cl_fix_in_range: true only if the rounded value is representable')
                    else:
                        (p, _), (q, _) = facts
                        c.prove(-p, '>', 'cl_fix_in_range: false only if the rounded value is not representable', alternatives=[(-q, '>')])
            mk2(sr)

        for op in ('abs', 'neg'):
            def mk3(op):
                for sr in (0, 1, None):
                    def mk4(sr):
                        @vtask('cl_fix_%s[S=%d,%s]' % (op, sa, 'default' if sr is None else sr), ['cl_fix_' + op, 'convert', 'cl_fix_sign'], stubs=('cl_fix_resize',))
                        def f(h, V):
                            c = h.c
                            a = h.fmt('a', sa)
                            v, k = vec(h, 'a', a)
                            rnd, sat = SMode(h.FixRound, 'rnd'), SMode(h.FixSaturate, 'sat')
                            if sr is None:
                                rf = recfmt(h, vcall(h, V, 'cl_fix_%s_fmt' % op, vfmt(V, a)))
                                r = vcall(h, V, 'cl_fix_' + op, v, vfmt(V, a))
                                rnd, sat = h.FixRound.Trunc_s, h.FixSaturate.Warn_s
                            else:
                                rf = h.fmt('r', sr)
                                r = vcall(h, V, 'cl_fix_' + op, v, vfmt(V, a), vfmt(V, rf), rnd, sat)
                            x = -k if op == 'neg' or not c.decide(k, '>=') else k
                            check_vec(h, r, rf, h.spec_resize(x * p2(-P(a.F)), P(a.F), rf, rnd, sat), 'cl_fix_' + op)
                    mk4(sr)
            mk3(op)

        for sr in (0, 1):
            def mk5(sr):
                @vtask('cl_fix_shift[S=%d,%d]' % (sa, sr), ['cl_fix_shift'], stubs=('cl_fix_resize',))
                def f(h, V):
                    c = h.c
                    a, rf = h.fmt('a', sa), h.fmt('r', sr)
                    v, k = vec(h, 'a', a)
                    rnd, sat = SMode(h.FixRound, 'rnd'), SMode(h.FixSaturate, 'sat')
                    s = c.int('shift')
                    r = vcall(h, V, 'cl_fix_shift', v, vfmt(V, a), s, vfmt(V, rf), rnd, sat)
                    check_vec(h, r, rf, h.spec_resize(k * p2(s.p - P(a.F)), P(a.F) - s.p, rf, rnd, sat), 'cl_fix_shift')
            mk5(sr)

        @vtask('max/min value[S=%d]' % sa, ['cl_fix_max_value', 'cl_fix_min_value'])
        def ext(h, V):
            a = h.fmt('a', sa)
            top = p2(P(a.I) + P(a.F))
            check_vec(h, vcall(h, V, 'cl_fix_max_value', vfmt(V, a)), a, top - 1, 'cl_fix_max_value')
            check_vec(h, vcall(h, V, 'cl_fix_min_value', vfmt(V, a)), a, -sa * top, 'cl_fix_min_value')

        @vtask('from/to integer[S=%d]' % sa, ['cl_fix_from_integer', 'cl_fix_to_integer'])
        def integer(h, V):
            c = h.c
            a = h.fmt('a', sa)
            v, k = vec(h, 'a', a)
            # both directions are defined for values of the VHDL type integer
            c.add((k + 2 ** 31, '>='))
            c.add((C(2 ** 31 - 1) - k, '>='))
            r = vcall(h, V, 'cl_fix_to_integer', v, vfmt(V, a))
            c.prove(P(r) - k, '=', 'cl_fix_to_integer: integer of the bit pattern')
            r = vcall(h, V, 'cl_fix_from_integer', mk_int(k), vfmt(V, a))
            check_vec(h, r, a, k, 'cl_fix_from_integer')

        @vtask('cl_fix_sign[S=%d]' % sa, ['cl_fix_sign'])
        def sign(h, V):
            c = h.c
            a = h.fmt('a', sa)
            v, k = vec(h, 'a', a)
            r = vcall(h, V, 'cl_fix_sign', v, vfmt(V, a))
            if c.check(isinstance(r, Bit), 'cl_fix_sign: returns 0 or 1'):
                neg = not c.decide(k, '>=')
                c.prove(r.p - int(neg), '=', 'cl_fix_sign: 1 exactly for negative values')
    _mk(_sa)

for _op in ('add', 'sub', 'addsub', 'mult'):
    for _sa in (0, 1):
        for _sb in (0, 1):
            for _sr in (0, 1, None):
                def _mk(op, sa, sb, sr):
                    @vtask('cl_fix_%s[S=%d,%d,%s]' % (op, sa, sb, 'default' if sr is None else sr), ['cl_fix_' + op, 'convert', 'resize_sensible'], stubs=('cl_fix_resize',))
                    def f(h, V):
                        c = h.c
                        a, b = h.fmt('a', sa), h.fmt('b', sb)
                        d = c.choose(2)
                        (va, ka), (vb, kb) = vec(h, 'a', a, direction=d), vec(h, 'b', b, direction=1 - d)
                        rnd, sat = SMode(h.FixRound, 'rnd'), SMode(h.FixSaturate, 'sat')
                        fa, fb = vfmt(V, a), vfmt(V, b)
                        add = c.choose(2) if op == 'addsub' else None
                        args = [va, fa, vb, fb] + ([Bit(add)] if op == 'addsub' else [])
                        real = {'addsub': 'add' if add else 'sub'}.get(op, op)
                        mid = recfmt(h, vcall(h, V, 'cl_fix_%s_fmt' % op, fa, fb))
                        if sr is None:
                            rf, rnd, sat = mid, h.FixRound.Trunc_s, h.FixSaturate.Warn_s
                        else:
                            rf = h.fmt('r', sr)
                            args += [vfmt(V, rf), rnd, sat]
                        r = vcall(h, V, 'cl_fix_' + op, *args)
                        x, y = ka * p2(-P(a.F)), kb * p2(-P(b.F))
                        z = {'add': x + y, 'sub': x - y}[real] if real != 'mult' else x * y
                        check_vec(h, r, rf, h.spec_resize(z, P(mid.F), rf, rnd, sat), 'cl_fix_' + op)
                _mk(_op, _sa, _sb, _sr)

for _sa in (0, 1):
    for _sb in (0, 1):
        def _mk(sa, sb):
            @vtask('cl_fix_compare[S=%d,%d]' % (sa, sb), ['cl_fix_compare', 'convert', 'union', 'resize_sensible'])
            def f(h, V):
                c = h.c
                a, b = h.fmt('a', sa), h.fmt('b', sb)
                d_ = c.choose(2)
                (va, ka), (vb, kb) = vec(h, 'a', a, direction=d_), vec(h, 'b', b, direction=1 - d_)
                op = CMP[c.choose(len(CMP))]
                r = E.as_bool(vcall(h, V, 'cl_fix_compare', VStr([ord(x) for x in op], 1, True), va, vfmt(V, a), vb, vfmt(V, b)))
                d = ka * p2(-P(a.F)) - kb * p2(-P(b.F))
                lab = 'cl_fix_compare: "%s" decides the exact relation' % op
                if op in ('=', '!='):
                    if r == (op == '='):
                        c.prove(d, '=', lab)
                    else:
                        c.prove(d, '>', lab, alternatives=[(-d, '>')])
                else:
                    s = d if op[0] == '>' else -d
                    if r:
                        c.prove(s, '>' if len(op) == 1 else '>=', lab)
                    else:
                        c.prove(-s, '>=' if len(op) == 1 else '>', lab)
        _mk(_sa, _sb)


@vtask('to01 of 0/1 elements', ['to01', 'to01 (vector)'])
def _to01(h, V):
    c = h.c
    V.stubs.pop('to01', None)
    b = c.choose(2)
    r = vcall(h, V, 'to01', Bit(b))
    c.check(isinstance(r, Bit) and r.p == C(b), 'to01: identity on 0 and 1')
    a = h.fmt('a', 0)
    v, k = vec(h, 'a', a)
    r = vcall(h, V, 'to01', v)
    if c.check(isinstance(r, Vec), 'to01: returns a vector'):
        c.prove(r.w - v.w, '=', 'to01: length kept')
        c.prove(uval(r) - k, '=', 'to01: identity on vectors of 0 and 1')


# ===================================================================================================
# C19: pipeline components
# ===================================================================================================
def check_pipeline(h, V, entity, generics, f_in, f_out, L, want, label):
    """From any state: after any history, the output of cycle t is the beat of cycle t-L.  want(k): exact result of the beat value k."""
    c = h.c

    def call(fn, *a, **k):
        try:
            return fn(*a, **k)
        except VErr as e:
            c.unreachable(label + ': no run-time error for valid generics and inputs', str(e))
            raise E.Abandon()

    def bit(name):
        b = c.int(name).p
        c.add((b, '>='))
        c.add((-b + 1, '>='))
        return Bit(b)
    mw = generics['meta_width_g']

    def stimulus(tag):
        v, k = vec(h, 'data' + tag, f_in, direction=0)
        m = c.int('meta' + tag).p
        if isinstance(mw, int) and mw == 0:
            m = ZERO
        c.add((m, '>='))
        c.add((p2(P(mw)) - 1 - m, '>='))
        return dict(in_valid=bit('valid' + tag), rst=bit('rst' + tag), in_data=v, in_meta=Vec('slv', P(mw), m)), k

    d = call(Design, V, entity, generics, {'clk': Bit(0)})
    cycles = []
    for t in range(L + 1):
        if t:
            call(d.drive, **stimulus('h%d' % t)[0])         # inputs may change while the clock is high
            call(d.drive, clk=Bit(0))
            call(d.drive, **stimulus('l%d' % t)[0])         # ... and while it is low
        s, k = stimulus(str(t))
        call(d.drive, **s)
        cycles.append((s, k))
        if t < L:
            call(d.drive, clk=Bit(1))
    s, k = cycles[0]
    ov, om, od = d.get('out_valid'), d.get('out_meta'), d.get('out_data')
    exp = Poly.const(1)
    for p in [s['in_valid'].p] + [-cycles[t][0]['rst'].p + 1 for t in range(L)]:
        if c.entails(p, '='):               # the code may have branched on it
            exp = ZERO
        elif not c.entails(p - 1, '='):
            exp = exp * p
    if c.check(isinstance(ov, Bit), label + ': out_valid is 0 or 1'):
        c.prove(ov.p - exp, '=', label + ': out_valid is in_valid %d cycles earlier, cleared by reset only' % L)
    if c.decide(s['in_valid'].p - 1, '>='):
        if c.check(isinstance(om, Vec), label + ': out_meta') and c.prove(om.w - P(mw), '=', label + ': width of out_meta'):
            c.prove(uval(om) - s['in_meta'].n, '=', label + ': out_meta carries the metadata of the beat')
        check_vec(h, od, f_out, want(k), label + ': out_data')


def rec_latency(h, kind, a, r, mode):
    """Recommended number of registers, from the documentation: none where no logic is needed."""
    c = h.c
    if kind == 'round':
        if mode.is_(h.FixRound.Trunc_s) if isinstance(mode, SMode) else mode is h.FixRound.Trunc_s:
            return 0
        return 0 if c.decide(P(r.F) - P(a.F), '>=') else 1
    if any(mode == m for m in (h.FixSaturate.None_s, h.FixSaturate.Warn_s)):
        return 0
    return 0 if int(a.S) == int(r.S) and c.decide(P(r.I) - P(a.I), '>=') else 1


def regmode(h, V):
    lits = V.g.types['registermode_t'].lits
    m = lits[h.c.choose(len(lits))]
    return m, m.name.lower()


for _sa in (0, 1):
    def _mk(sa):
        @vtask('en_cl_fix_round[S=%d]' % sa, ['en_cl_fix_round', 'cl_fix_recommended_pipelining'], group='vpipe', stubs=('cl_fix_round',))
        def f(h, V, check=True):
            c = h.c
            a = h.fmt('a', sa)
            rnd = SMode(h.FixRound, 'rnd')
            rf = vcall(h, V, 'cl_fix_round_fmt', vfmt(V, a), c.int('rF'), rnd)
            if not check:
                more = c.int('more')
                c.add((more.p, '>='))
                rf = Rec(rf.t, dict(rf.d, i=mk_int(P(rf.d['i']) + more.p)))
            r = recfmt(h, rf)
            mode, mname = regmode(h, V)
            mw = c.int('meta_width')
            c.add((mw.p, '>='))
            L = 0 if mname == 'no_s' else 1 if mname == 'yes_s' else rec_latency(h, 'round', a, r, rnd)
            gens = dict(in_fmt_g=vfmt(V, a), out_fmt_g=rf, round_g=rnd, reg_mode_g=mode, meta_width_g=mw)
            if not check:
                gens['fmt_check_g'] = False
            check_pipeline(h, V, 'en_cl_fix_round', gens, a, r, L,
                           lambda k: h.spec_round(k * p2(-P(a.F)), P(a.F), P(r.F), rnd), 'en_cl_fix_round (%s)' % mname)

        @vtask('en_cl_fix_round without format check[S=%d]' % sa, ['en_cl_fix_round', 'cl_fix_recommended_pipelining'], group='vpipe', stubs=('cl_fix_round',))
        def f2(h, V):
            f(h, V, False)

        @vtask('recommended pipelining of rounding[S=%d]' % sa, ['cl_fix_recommended_pipelining'], group='vpipe')
        def g(h, V):
            c = h.c
            a = h.fmt('a', sa)
            rnd = SMode(h.FixRound, 'rnd')
            rf = vcall(h, V, 'cl_fix_round_fmt', vfmt(V, a), c.int('rF'), rnd)
            n = vcall(h, V, 'cl_fix_recommended_pipelining', vfmt(V, a), rf, rnd)
            c.prove(P(n) - rec_latency(h, 'round', a, recfmt(h, rf), rnd), '=', 'cl_fix_recommended_pipelining(round): one register exactly where rounding needs logic')

        for sr in (0, 1):
            def mk2(sr):
                @vtask('recommended pipelining[S=%d,%d]' % (sa, sr), ['cl_fix_recommended_pipelining'], group='vpipe')
                def g(h, V):
                    c = h.c
                    a, r = h.fmt('a', sa), h.fmt('r', sr)
                    rnd, sat = SMode(h.FixRound, 'rnd'), SMode(h.FixSaturate, 'sat')
                    mid = recfmt(h, vcall(h, V, 'cl_fix_round_fmt', vfmt(V, a), mk_int(P(r.F)), rnd))
                    n1 = vcall(h, V, 'cl_fix_recommended_pipelining', vfmt(V, mid), vfmt(V, r), sat)
                    l1, l2 = rec_latency(h, 'round', a, mid, rnd), rec_latency(h, 'sat', mid, r, sat)
                    c.prove(P(n1) - l2, '=', 'cl_fix_recommended_pipelining(saturate): one register exactly where saturation needs logic')
                    n = vcall(h, V, 'cl_fix_recommended_pipelining', vfmt(V, a), vfmt(V, r), rnd, sat)
                    c.prove(P(n) - l1 - l2, '=', 'cl_fix_recommended_pipelining(resize): sum of both stages')

                @vtask('en_cl_fix_saturate[S=%d,%d]' % (sa, sr), ['en_cl_fix_saturate', 'cl_fix_recommended_pipelining'], group='vpipe', stubs=('cl_fix_saturate',))
                def f(h, V):
                    c = h.c
                    a, r = h.fmt('a', sa), h.fmt('r', sr)
                    c.add((P(r.F) - P(a.F), '='))
                    sat = SMode(h.FixSaturate, 'sat')
                    mode, mname = regmode(h, V)
                    mw = c.int('meta_width')
                    c.add((mw.p, '>='))
                    L = 0 if mname == 'no_s' else 1 if mname == 'yes_s' else rec_latency(h, 'sat', a, r, sat)
                    gens = dict(in_fmt_g=vfmt(V, a), out_fmt_g=vfmt(V, r), saturate_g=sat, reg_mode_g=mode, meta_width_g=mw)
                    check_pipeline(h, V, 'en_cl_fix_saturate', gens, a, r, L, lambda k: h.spec_sat(k, r, sat), 'en_cl_fix_saturate (%s)' % mname)

                @vtask('en_cl_fix_resize[S=%d,%d]' % (sa, sr), ['en_cl_fix_resize', 'en_cl_fix_round', 'en_cl_fix_saturate', 'cl_fix_recommended_pipelining'], group='vpipe', stubs=('cl_fix_round', 'cl_fix_saturate'))
                def k(h, V):
                    c = h.c
                    a, r = h.fmt('a', sa), h.fmt('r', sr)
                    rnd, sat = SMode(h.FixRound, 'rnd'), SMode(h.FixSaturate, 'sat')
                    mid = recfmt(h, vcall(h, V, 'cl_fix_round_fmt', vfmt(V, a), mk_int(P(r.F)), rnd))
                    mode, mname = regmode(h, V)
                    mw = c.int('meta_width')
                    c.add((mw.p, '>='))
                    L = 0 if mname == 'no_s' else 2 if mname == 'yes_s' else rec_latency(h, 'round', a, mid, rnd) + rec_latency(h, 'sat', mid, r, sat)
                    gens = dict(in_fmt_g=vfmt(V, a), out_fmt_g=vfmt(V, r), round_g=rnd, saturate_g=sat, reg_mode_g=mode, meta_width_g=mw)
                    check_pipeline(h, V, 'en_cl_fix_resize', gens, a, r, L,
                                   lambda k: h.spec_sat(h.spec_round(k * p2(-P(a.F)), P(a.F), P(r.F), rnd), r, sat), 'en_cl_fix_resize (%s)' % mname)
            mk2(sr)
    _mk(_sa)


# ===================================================================================================
# C20: text exchange
# ===================================================================================================
class Text:
    """Python strings with symbolic decimal digits: each symbolic character is a private-use code point."""

    def __init__(self, c):
        self.c, self.tab = c, []

    def render(self, x):
        out = []
        for code in decimal(x):
            if isinstance(code, int):
                out.append(chr(code))
            else:
                if code not in self.tab:
                    self.tab.append(code)
                out.append(chr(0xE000 + self.tab.index(code)))
        return ''.join(out)

    def codes(self, s):
        return [self.tab[ord(ch) - 0xE000] if 0xE000 <= ord(ch) < 0xE000 + len(self.tab) else ord(ch) for ch in s]


def int32(c, *xs):
    for x in xs:
        c.add((P(x) + 2 ** 31 - 1, '>='))
        c.add((C(2 ** 31 - 1) - P(x), '>='))


def parsed(h, V, s, f, label, left=1):
    c = h.c
    v = vcall(h, V, 'cl_fix_format_from_string', VStr(s, left))
    if c.check(isinstance(v, Rec), label + ': returns a format'):
        for att in ('S', 'I', 'F'):
            c.prove(P(getattr(f, att)) - P(v.d[att.lower()]), '=', '%s: same %s' % (label, att))


def python_line(h, a):
    """The line cl_fix_write_formats (the co-simulation's file writer) writes for a format."""
    c = h.c
    lines = []

    class FileStandIn:
        def write(self, t):
            lines.append(t)
            return len(t)

        def writelines(self, ts):
            for t in ts:
                self.write(t)

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *e):
            return False
    h.m.open = lambda *a, **k: FileStandIn()
    try:
        h.call('cl_fix_write_formats', h.m.cl_fix_write_formats, a, ['a_fmt'], 'x.txt')
    finally:
        del h.m.open
    ls = ''.join(lines).split('\n')
    if not c.check(len(ls) == 3 and ls[0] == '# a_fmt' and ls[2] == '', 'cl_fix_write_formats: a header line and one line per format'):
        return None
    return ls[1]


# one task per sign bit, sign of I and number of digits of I (all of them together: every format of 32-bit integers)
for _s in (0, 1):
    for _neg in (0, 1):
        for _n in range(1, 11):
            def _mk(s, neg, n):
                @vtask('text of a format[S=%d,%sI of %d digits]' % (s, 'negative ' if neg else '', n), ['cl_fix_format_from_string', 'string_parse_int', 'string_find_next_match', 'string_int_from_char', 'string_char_is_numeric', 'to_string'], group='vtext')
                def f(h, V):
                    c = h.c
                    V.overflow = True
                    a = h.fmt('a', s, null=True)
                    int32(c, a.I, a.F)
                    m = -P(a.I) if neg else P(a.I)
                    c.add((m - (10 ** (n - 1) if n > 1 else neg), '>='))
                    if n < 10:
                        c.add((C(10 ** n - 1) - m, '>='))
                    T_ = Text(c)
                    c.render = T_.render
                    try:
                        texts = [('Python str', T_.codes(h.call('str(format)', str, a)))]
                        texts.append(('cl_fix_format_to_string', T_.codes(h.call('cl_fix_format_to_string', h.m.cl_fix_format_to_string, a))))
                        ln = python_line(h, a)
                        if ln is not None:
                            texts.append(('cl_fix_write_formats', T_.codes(ln)))
                    finally:
                        c.render = None
                    t = vcall(h, V, 'to_string', vfmt(V, a))
                    if c.check(isinstance(t, VStr), 'to_string: returns a string'):
                        texts.append(('VHDL to_string', t.codes))
                    done = []
                    for how, codes in texts:
                        label = 'cl_fix_format_from_string of the text of ' + how
                        if codes in done:
                            c.check(True, label + ': same text')
                            continue
                        done.append(codes)
                        parsed(h, V, codes, a, label, 4 if len(done) == 2 else 1)
            _mk(_s, _neg, _n)


def anycase(c, name):
    """Character codes of a name with an arbitrary case of every letter."""
    out = []
    tab = c.stub_memo.setdefault('letters', {})
    for ch in name:
        if not ch.isalpha():
            out.append(ord(ch))
            continue
        b = c.int('upper').p
        c.add((b, '>='))
        c.add((-b + 1, '>='))
        code = C(ord(ch.lower())) - b * 32
        tab[code] = (ord(ch.lower()), ord(ch.upper()))
        out.append(code)
    return out


for _kind in ('round', 'saturate'):
    def _mk(kind):
        @vtask('%s mode names' % kind, ['to_string', 'cl_fix_%s_from_string' % kind, 'toLower'], group='vtext')
        def f(h, V):
            c = h.c
            ms = list(h.FixRound if kind == 'round' else h.FixSaturate)
            m = ms[c.choose(len(ms))]
            t = vcall(h, V, 'to_string', m)
            if c.check(isinstance(t, VStr) and t.text() is not None, 'to_string(mode): returns text'):
                c.check(vcall(h, V, 'cl_fix_%s_from_string' % kind, VStr(t.codes)) is m, 'cl_fix_%s_from_string: inverse of to_string' % kind)
                c.check(vcall(h, V, 'cl_fix_%s_from_string' % kind, VStr(anycase(c, t.text()))) is m, 'cl_fix_%s_from_string: any letter case' % kind)
            c.check(vcall(h, V, 'cl_fix_%s_from_string' % kind, VStr(anycase(c, m.name))) is m, 'cl_fix_%s_from_string: name of the Python mode' % kind)
    _mk(_kind)


# ===================================================================================================
# C21: conversion from and to real
# ===================================================================================================
def loop_state(V, body, env, line):
    """(name, cell) of the one real variable and of the vectors assigned in a loop body."""
    names = assigned(body, [])
    cells = [(n, V.cell(n, env)) for n in names if env.find('vars', n)[1] is not None]
    reals = [x for x in cells if isinstance(x[1].v, SFlt)]
    vecs = [x for x in cells if isinstance(x[1].v, Vec)]
    return cells, reals, vecs


def chunk_size(W, count):
    """Constant number of bits per iteration, from the width of the vector and the number of iterations."""
    for cs in range(1, 64):
        if W == count * cs:
            return cs
    return None


def iteration(V, n, lo, hi, body, env):
    """One arbitrary iteration lo <= i <= hi of the loop body."""
    c = E.ctx()
    i = c.int(n)
    c.add((i.p - lo, '>='))
    c.add((hi - i.p, '>='))
    e = Env(env)
    e.vars[n] = Cell(i, INT)

    def run():
        q = V.block(body, e)
        if q is not None:
            raise Unsupported('exit from a loop with a symbolic bound')
    return i.p, run


def from_real_rule(V, n, l, d, r, body, env, line):
    """Loop rule: conversion of an integer-valued real to chunks of bits.
    Invariant at iteration i, N being the value of the real variable x on entry and cs the number of bits per chunk:
    N = x * 2**(cs*i) + R with the vector holding R in its low cs*i bits, 0 <= R < 2**(cs*i)."""
    c = E.ctx()
    if d != 'to' or not (l.is_const() and l.const_value() == 0):
        return NotImplemented
    cells, reals, vecs = loop_state(V, body, env, line)
    count = r + 1
    vecs = [(v, chunk_size(v[1].v.w, count)) for v in vecs]
    vecs = [v for v in vecs if v[1]]
    if len(reals) != 1 or len(vecs) != 1:
        return NotImplemented
    x, ((_, vec), cs) = reals[0][1], vecs[0]
    N0 = E.rewrite_real(x.v.p)
    if not c.known_int(N0) and not c.prove(E.flt_floor(N0) - N0, '=', 'loop (line %s): the value to convert is an integer' % line):
        raise E.Abandon()
    c.prove(count - 1, '>=', 'loop (line %s): at least one chunk' % line)
    W = vec.v.w
    for _, cell in cells:
        if cell is not x and cell is not vec:
            cell.v = V.default(cell.t, cell.cons)       # arbitrary value left by an earlier iteration
    if c.choose(2) == 0:
        i, run = iteration(V, n, ZERO, r, body, env)
        Q, R, T_ = c.int('Q').p, c.int('R').p, c.int('T').p
        s, s1 = p2(i * cs), p2(i * cs + cs)
        c.double_atoms.update(at[0] for _, at in Q.d)
        for f in (R, s - 1 - R, T_, p2(W - i * cs) - 1 - T_):
            c.add((f, '>='))
        x.v = SFlt(Q)
        vec.v = vec.v.with_(n=R + T_ * s)
        run()
        lab = 'loop invariant (line %s): ' % line
        low = vec.v.n - c.floor(T_ * p2(ZERO - cs)) * s1
        c.prove(x.v.p * s1 + low - Q * s - R, '=', lab + 'the remaining value and the chunks written so far make up the number')
        c.prove(low, '>=', lab + 'the chunks written so far are the low bits (non-negative)')
        c.prove(s1 - 1 - low, '>=', lab + 'the chunks written so far are the low bits')
        raise E.Abandon()
    x.v = SFlt(c.int('rest').p)
    vec.v = vec.v.with_(n=N0)           # the low cs*count (= all) bits of N, i.e. N modulo 2**W
    return True


def to_real_rule(scale):
    def rule(V, n, l, d, r, body, env, line):
        """Loop rule: conversion of a vector to real, most significant chunk first.
        Invariant after iteration i, N being the vector's representative and cs the bits per iteration:
        x = scale * floor(N * 2**(-cs*i))."""
        c = E.ctx()
        if d != 'downto' or not (r.is_const() and r.const_value() == 0):
            return NotImplemented
        cells, reals, vecs = loop_state(V, body, env, line)
        if len(reals) != 1:
            return NotImplemented
        x, count = reals[0][1], l + 1
        done = {id(cell) for _, cell in cells}
        src, e = [], env
        while e is not None:
            src += [cell.v for cell in e.vars.values() if isinstance(cell, Cell) and isinstance(cell.v, Vec) and id(cell) not in done]
            e = e.parent
        src = [(v, chunk_size(v.w, count)) for v in src]
        src = [(v, k) for v, k in src if k]
        if len(src) != 1:
            return NotImplemented
        N, cs = src[0][0].n, src[0][1]
        lab = 'loop invariant (line %s): ' % line
        at = lambda j: scale * c.floor(N * p2(ZERO - j * cs))
        c.prove(x.v.p - at(count), '=', lab + 'holds on entry (value of the sign extension)')
        c.prove(count, '>=', lab + 'number of chunks')
        for _, cell in cells:
            if cell is not x:
                cell.v = V.default(cell.t, cell.cons)
        if c.choose(2) == 0:
            i, run = iteration(V, n, ZERO, l, body, env)
            x.v = SFlt(at(i + 1))
            run()
            c.prove(x.v.p - at(i), '=', lab + 'the chunks converted so far make up the leading part of the number')
            raise E.Abandon()
        x.v = SFlt(scale * N)
        return True
    return rule


for _s in (0, 1):
    def _mk(s):
        @vtask('cl_fix_to_real[S=%d]' % s, ['cl_fix_to_real'], group='vreal')
        def f(h, V):
            c = h.c
            a = h.fmt('a', s)
            k = c.int('a_k').p
            for fact in h.in_fmt_facts(k, a):
                c.add(fact)
            c.double_atoms.update(at[0] for _, at in k.d)       # the value has a double: at most 53 significant bits
            v, _ = vec(h, 'a', a, k)
            scale = p2(-P(a.F))
            V.rules = [to_real_rule(scale)]
            x = vcall(h, V, 'cl_fix_to_real', v, vfmt(V, a))
            if c.check(isinstance(x, SFlt), 'cl_fix_to_real: returns a real'):
                c.prove(x.p - k * scale, '=', 'cl_fix_to_real: the value denoted by the vector')
    _mk(_s)


for _s in (0, 1):
    for _sat in ('Sat_s', 'SatWarn_s'):
        def _mk(s, sat):
            @vtask('cl_fix_from_real[S=%d,%s]' % (s, sat), ['cl_fix_from_real', 'max_real', 'min_real'], group='vreal')
            def f(h, V):
                c = h.c
                V.rules = [from_real_rule]
                r = h.fmt('r', s)
                sy = c.sym('a_x0', False)
                c.double_atoms.add(sy)
                x = Poly.var(sy)
                v = vcall(h, V, 'cl_fix_from_real', SFlt(x), vfmt(V, r), getattr(h.FixSaturate, sat))
                top = p2(P(r.I) + P(r.F))
                n = c.floor(E.rewrite_real(x * p2(P(r.F))) + HALF)
                if c.decide(n - top, '>='):
                    want = top - 1
                elif c.decide(-n - s * top, '>'):
                    want = -s * top
                else:
                    want = n
                check_vec(h, v, r, want, 'cl_fix_from_real')
        _mk(_s, _sat)
