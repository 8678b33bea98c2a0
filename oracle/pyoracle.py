#!/usr/bin/env python3
"""Exact concrete specification of the Python model, run against the real package under CPython and numpy.

Used for (1) cross-checking the verifier's reading of Python/numpy against the running code and (2) finding and
replaying failing inputs when an obligation is not discharged.  It never decides that a property holds.

  pyoracle.py search PROP --cases N --seed S [--hints FILE] [--consts FILE]   -> JSON on stdout
  pyoracle.py replay FILE                                                     -> exit 1 and a message if it still fails
"""
import argparse
import copy
import json
import math
import os
import random
import sys
import time
import warnings
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'bittrue', 'models', 'python'))
sys.dont_write_bytecode = True
import numpy as np                                                      # noqa: E402
np.seterr(all='ignore')
import en_cl_fix_pkg as pk                                              # noqa: E402
from en_cl_fix_pkg import en_cl_fix as m                                # noqa: E402
from en_cl_fix_pkg.en_cl_fix_types import FixFormat, FixRound, FixSaturate  # noqa: E402
from en_cl_fix_pkg.narrow_fix import NarrowFix                          # noqa: E402
from en_cl_fix_pkg.wide_fix import WideFix                              # noqa: E402
from en_cl_fix_pkg import matlab_interface as mi                        # noqa: E402

RND = [r.name for r in FixRound]
SAT = [s.name for s in FixSaturate]
CLS = {'NarrowFix': NarrowFix, 'WideFix': WideFix}


# -- exact specification ----------------------------------------------------------------------------
def width(f):
    return sum(f)


def bounds(f):
    top = 1 << (f[1] + f[2])
    return (-top if f[0] else 0), top - 1


def rnd_frac(x, mode):
    """Integer that the exact Fraction x rounds to."""
    fl = math.floor(x)
    if mode == 'Trunc_s':
        return fl
    d = x - fl
    if d != Fraction(1, 2):
        return fl + (d > Fraction(1, 2))
    up = {'NonSymPos_s': True, 'NonSymNeg_s': False, 'SymInf_s': x > 0, 'SymZero_s': x < 0,
          'ConvEven_s': fl % 2 == 1, 'ConvOdd_s': fl % 2 == 0}[mode]
    return fl + up


def pw2(e):
    return Fraction(1 << e) if e >= 0 else Fraction(1, 1 << -e)


def spec_round(v, F, rF, mode):
    """Exact value v of F fractional bits -> integer in units of 2**-rF."""
    x = v * pw2(rF)
    if rF >= F:
        return int(x) if x.denominator == 1 else x
    return rnd_frac(x, mode)


def spec_sat(n, f, sat):
    lo, hi = bounds(f)
    if sat in ('None_s', 'Warn_s'):
        return (n - lo) % (hi - lo + 1) + lo
    return min(max(n, lo), hi)


def spec_resize(v, F, f, rnd, sat):
    return spec_sat(spec_round(v, F, f[2], rnd), f, sat)


def extremes(f):
    lo, hi = bounds(f)
    return lo * pw2(-f[2]), hi * pw2(-f[2])


def contains(f, v):
    n = v * pw2(f[2])
    lo, hi = bounds(f)
    return n.denominator == 1 and lo <= n <= hi


def wide(f):
    return width(f) > 53


# -- data -------------------------------------------------------------------------------------------
def FF(f):
    return FixFormat(*f)


def fl(k, F):
    return math.ldexp(k, -F)


def mk(ks, f, kind, is_wide=None):
    w = wide(f) if is_wide is None else is_wide
    els = [int(k) for k in ks] if w else [fl(k, f[2]) for k in ks]
    return wrap(els, object if w else np.float64, kind)


def wrap(els, dt, kind):
    if kind == 'py':
        return els[0]
    if kind == 'np':
        return np.float64(els[0]) if dt is not object else els[0]
    if kind == '0d':
        return np.array(els[0], dtype=dt)
    a = np.empty(len(els), dtype=dt)
    for i, e in enumerate(els):
        a[i] = e
    if kind == 'list':
        return list(els)
    if kind == '2d':
        return a.reshape((len(els), 1))
    if kind == '3d':
        return a.reshape((1, len(els), 1))
    return a


def shape_of(n, kind):
    return {'py': (), 'np': (), '0d': (), 'nd': (n,), 'list': (n,), '2d': (n, 1), '3d': (1, n, 1)}[kind]


def is_arr(kind):
    return kind in ('nd', 'list', '2d', '3d')


def scaled(data, f, w):
    """Integers/Fractions in units of the LSB of an actual result."""
    return [Fraction(int(e)) if w else Fraction(float(e)) * pw2(f[2]) for e in np.asarray(data, dtype=object).flatten()]


def fmt3(f):
    return (f.S, f.I, f.F)


class Fails(list):
    def need(self, cat, ok, msg):
        if not ok:
            self.append((cat, msg))
        return ok


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and all(x == y for x, y in zip(a.flat, b.flat))
    return type(a) is type(b) and a == b


def check_result(fails, data, f, want, shape, what, w=None, scalar_ok=True):
    """Representation, shape, validity and value of raw result data."""
    w = wide(f) if w is None else w
    if not fails.need('repr', isinstance(data, (np.ndarray, np.generic)), '%s: result is %s' % (what, type(data).__name__)):
        try:
            np.asarray(data)
        except Exception:
            return
    a = np.asarray(data)
    if w:
        ok = isinstance(data, np.ndarray) and a.dtype == object and all(type(e) is int for e in a.flat)
    else:
        ok = a.dtype == np.float64
    fails.need('repr', ok, '%s: format %s needs %s data, got dtype %s of %s' % (what, f, 'integer (object)' if w else 'float64', a.dtype, type(a.flat[0]).__name__ if a.size else '-'))
    fails.need('shape', a.shape == shape, '%s: result shape %s, operands give %s' % (what, a.shape, shape))
    try:
        got = scaled(data, f, w)
    except Exception as e:
        fails.append(('value', '%s: result not numeric: %s' % (what, e)))
        return
    lo, hi = bounds(f)
    for g in got:
        if not fails.need('range', g.denominator == 1 and lo <= g <= hi, '%s: result %s (LSB units) is not a value of %s' % (what, g, f)):
            break
    if want is not None:
        fails.need('value', [Fraction(x) for x in want] == got, '%s: expected %s got %s (LSB units of %s)' % (what, [str(x) for x in want], [str(g) for g in got], f))


# -- running one case ---------------------------------------------------------------------------------
class Rejected(Exception):
    pass


def guarded(fails, what, fn, *a, **k):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            r = fn(*a, **k)
        except Exception as e:
            fails.append(('error', '%s raised %s: %s' % (what, type(e).__name__, e)))
            raise Rejected()
    return r, [w for w in ws if issubclass(w.category, Warning) and not issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning))]


def bcast(xs, ys):
    n = max(len(xs), len(ys))
    g = lambda l, i: l[i] if len(l) > 1 else l[0]
    return [(g(xs, i), g(ys, i)) for i in range(n)]


def op_shape(*ksn):
    return np.broadcast_shapes(*[shape_of(n, k) for n, k in ksn])


MAIN = ('resize', 'abs', 'neg', 'add', 'sub', 'addsub', 'mult', 'shift')


def exact_of(case):
    """(exact values, operation format) of an arithmetic case."""
    op, fa = case['op'], case['fa']
    va = [k * pw2(-fa[2]) for k in case['a']]
    A = FF(fa)
    if op == 'resize':
        return va, fa
    if op == 'abs':
        return [abs(v) for v in va], fmt3(FixFormat.for_abs(A))
    if op == 'neg':
        return [-v for v in va], fmt3(FixFormat.for_neg(A))
    if op == 'shift':
        sh = case['shift']
        return [v * pw2(s) for v, s in bcast(va, sh)], fmt3(FixFormat.for_shift(A, min(sh), max(sh)))
    fb = case['fb']
    vb = [k * pw2(-fb[2]) for k in case['b']]
    B = FF(fb)
    ps = bcast(va, vb)
    if op == 'add':
        return [x + y for x, y in ps], fmt3(FixFormat.for_add(A, B))
    if op == 'sub':
        return [x - y for x, y in ps], fmt3(FixFormat.for_sub(A, B))
    if op == 'mult':
        return [x * y for x, y in ps], fmt3(FixFormat.for_mult(A, B))
    if op == 'addsub':
        return [x + y if s else x - y for (x, y), s in bcast(ps, case['add'])], fmt3(FixFormat.for_addsub(A, B))
    raise KeyError(op)


def true_F(case):
    """Fractional bits of the exact result."""
    op, fa = case['op'], case['fa']
    if op in ('resize', 'abs', 'neg'):
        return fa[2]
    if op == 'shift':
        return fa[2] - min(case['shift'])
    if op == 'mult':
        return fa[2] + case['fb'][2]
    return max(fa[2], case['fb'][2])


def sel_arg(case):
    sel, kind = [bool(x) for x in case['add']], case['kadd']
    if kind == 'py':
        return sel[0]
    if kind == '0d':
        return np.array(sel[0])
    return np.array(sel).reshape(shape_of(len(sel), kind))


def shift_arg(case):
    s, kind = case['shift'], case['kshift']
    if kind == 'py':
        return int(s[0])
    if kind == 'np':
        return np.int64(s[0])
    return np.array(s, dtype=np.int64).reshape(shape_of(len(s), kind))


def run_arith(case):
    """Main-interface or class-level arithmetic."""
    op, cls = case['op'], case.get('cls', 'main')
    fails = Fails()
    exact, mid = exact_of(case)
    F = true_F(case)
    fr, rnd, sat = case['fr'], case['rnd'], case['sat']
    args, ks = [], []
    w = None if cls == 'main' else cls == 'WideFix'
    A, da = FF(case['fa']), mk(case['a'], case['fa'], case['ka'], w)
    if cls != 'main':
        da = CLS[cls](da, A)
        args = [da]
    else:
        args = [da, A]
    ks.append((len(case['a']), case['ka']))
    if 'fb' in case:
        B, db = FF(case['fb']), mk(case['b'], case['fb'], case['kb'], w)
        args += [CLS[cls](db, B)] if cls != 'main' else [db, B]
        ks.append((len(case['b']), case['kb']))
    if op == 'addsub':
        args.append(sel_arg(case))
        ks.append((len(case['add']), case['kadd']))
    if op == 'shift':
        args.append(shift_arg(case))
        ks.append((len(case['shift']), case['kshift']))
    explicit = fr is not None
    if explicit:
        args += [FF(fr), FixRound[rnd], FixSaturate[sat]]
    elif op == 'shift' and cls == 'main':
        args.append(None)
    old = copy.deepcopy(args)
    what = ('cl_fix_' if cls == 'main' else cls + '.') + op
    fn = getattr(m, 'cl_fix_' + op) if cls == 'main' else getattr(CLS[cls], op)
    r, ws = guarded(fails, what, fn, *args)
    rf = fr if explicit else mid
    if explicit:
        rounded = [spec_round(v, F, rf[2], rnd) for v in exact]
        want = [spec_sat(n, rf, sat) for n in rounded]
        lo, hi = bounds(rf)
        exp_warn = sat in ('Warn_s', 'SatWarn_s') and any(not lo <= n <= hi for n in rounded)
    else:
        want = [v * pw2(rf[2]) for v in exact]
        exp_warn = False
    frame(fails, what, args, old)
    if cls != 'main':
        if not fails.need('fmt', isinstance(r, CLS[cls]) and fmt3(r._fmt) == tuple(rf), '%s: result carries format %s, requested %s' % (what, getattr(r, '_fmt', None), rf)):
            raise Rejected()
        alias(fails, what, r, args)
        r = r._data
    check_result(fails, r, rf, want, op_shape(*ks), what, w)
    if cls == 'main' or op != 'addsub':
        if exp_warn or case.get('cls', 'main') == 'main' or op in ('resize',):
            fails.need('warn', bool(ws) == exp_warn, '%s: %s warning, expected %s' % (what, 'a' if ws else 'no', exp_warn))
    return fails


def frame(fails, what, args, old):
    for x, y in zip(args, old):
        if isinstance(x, (NarrowFix, WideFix)):
            fails.need('frame', same(x._data, y._data) and fmt3(x._fmt) == fmt3(y._fmt), '%s: argument object modified' % what)
        elif isinstance(x, FixFormat):
            fails.need('frame', fmt3(x) == fmt3(y), '%s: argument format modified' % what)
        elif isinstance(x, (list, np.ndarray)):
            fails.need('frame', same(x, y), '%s: argument data modified' % what)


def alias(fails, what, r, args):
    for x in args:
        if isinstance(x, (NarrowFix, WideFix)):
            fails.need('frame', r._fmt is not x._fmt, '%s: result shares the format object of an operand' % what)
        elif isinstance(x, FixFormat):
            fails.need('frame', r._fmt is not x, '%s: result stores the format object it was given' % what)


def run_round(case):
    cls, op = case.get('cls', 'main'), case['op']
    fails = Fails()
    fa = case['fa']
    w = None if cls == 'main' else cls == 'WideFix'
    A, d = FF(fa), mk(case['a'], fa, case['ka'], w)
    va = [k * pw2(-fa[2]) for k in case['a']]
    if op == 'round':
        R = FixFormat.for_round(A, case['rF'], FixRound[case['rnd']])
        mode = FixRound[case['rnd']]
        want = [spec_round(v, fa[2], R.F, case['rnd']) for v in va]
        exp = False
    else:
        R = FF(case['fr'])
        mode = FixSaturate[case['sat']]
        want = [spec_sat(k, case['fr'], case['sat']) for k in case['a']]
        lo, hi = bounds(case['fr'])
        exp = case['sat'] in ('Warn_s', 'SatWarn_s') and any(not lo <= k <= hi for k in case['a'])
    what = ('cl_fix_' if cls == 'main' else cls + '.') + op
    args = [d, A, R, mode] if cls == 'main' else [CLS[cls](d, A), R, mode]
    old = copy.deepcopy(args)
    r, ws = guarded(fails, what, getattr(m, 'cl_fix_' + op) if cls == 'main' else getattr(CLS[cls], op), *args)
    frame(fails, what, args, old)
    if cls != 'main':
        if not fails.need('fmt', isinstance(r, CLS[cls]) and fmt3(r._fmt) == fmt3(R), '%s: result carries format %s, requested %s' % (what, getattr(r, '_fmt', None), R)):
            raise Rejected()
        alias(fails, what, r, args)
        r = r._data
    check_result(fails, r, fmt3(R), want, shape_of(len(case['a']), case['ka']), what, w)
    fails.need('warn', bool(ws) == exp, '%s: %s warning, expected %s' % (what, 'a' if ws else 'no', exp))
    return fails


def run_fmt(case):
    """Sufficiency and minimality of result formats."""
    fails = Fails()
    op = case['op'][4:]
    fa = case['fa']
    A = FF(fa)
    la, ha = extremes(fa)
    what = 'for_' + op
    if op == 'union':
        fs = [FF(f) for f in case['fs']]
        for args in ([tuple(fs)], [list(fs)], [fs[0], fs[1]] if len(fs) == 2 else [tuple(fs)]):
            old = copy.deepcopy(fs)
            r, _ = guarded(fails, what, FixFormat.union, *args)
            frame(fails, what, fs, old)
            for f in fs:
                fails.need('frame', r is not f, 'union: result is one of its arguments')
            want = tuple(max(g[i] for g in case['fs']) for i in range(3))
            fails.need('value', fmt3(r) == want, 'union of %s is %s, expected %s' % (case['fs'], r, want))
            fails.need('min', fmt3(r) == want, 'union of %s is %s, expected %s' % (case['fs'], r, want))
        return fails
    if op == 'round':
        rnd = case['rnd']
        args = [A, case['rF'], FixRound[rnd]]
        r, _ = guarded(fails, what, FixFormat.for_round, *args)
        r2, _ = guarded(fails, what, m.cl_fix_round_fmt, *args)
        fails.need('value', fmt3(r) == fmt3(r2), 'cl_fix_round_fmt differs from FixFormat.for_round')
        fails.need('value', r.F == case['rF'] and r.S == fa[0] and r.S + r.I + r.F >= 1 and r.I + r.F >= 0, 'for_round(%s,%s,%s) = %s' % (fa, case['rF'], rnd, r))
        lo, hi = bounds(fa)
        ks = {lo, hi, hi - 1, lo + 1} | set(case.get('a', ()))
        for k in ks:
            if lo <= k <= hi:
                n = spec_round(k * pw2(-fa[2]), fa[2], r.F, rnd)
                l, h = bounds(fmt3(r))
                fails.need('value', l <= n <= h, 'for_round(%s,%s,%s) = %s does not contain the rounded value of %s LSBs' % (fa, case['rF'], rnd, r, k))
        return fails
    args = [A]
    if op in ('add', 'sub', 'addsub', 'mult'):
        args.append(FF(case['fb']))
        lb, hb = extremes(case['fb'])
    if op == 'shift':
        args += [case['lo'], case['hi']]
    old = copy.deepcopy(args)
    r, _ = guarded(fails, what, getattr(FixFormat, 'for_' + op), *args)
    r2, _ = guarded(fails, what, getattr(m, 'cl_fix_%s_fmt' % op), *args)
    frame(fails, what, args, old)
    for f in args:
        fails.need('frame', r is not f, '%s: result is one of its arguments' % what)
    fails.need('value', fmt3(r) == fmt3(r2), 'cl_fix_%s_fmt differs from FixFormat.for_%s' % (op, op))
    r = fmt3(r)
    F = None
    if op == 'add':
        vals, F = [la + lb, ha + hb], max(fa[2], case['fb'][2])
    elif op == 'sub':
        vals, F = [la - hb, ha - lb], max(fa[2], case['fb'][2])
    elif op == 'addsub':
        vals, F = [la - hb, ha - lb, la + lb, ha + hb], max(fa[2], case['fb'][2])
    elif op == 'mult':
        vals, F = [x * y for x in (la, ha) for y in (lb, hb)], fa[2] + case['fb'][2]
    elif op == 'neg':
        vals, F = [-la, -ha], fa[2]
    elif op == 'abs':
        vals, F = [abs(la), abs(ha)], fa[2]
    else:
        vals = [x * pw2(s) for x in (la, ha) for s in (case['lo'], case['hi'])]
        F = fa[2] - case['lo']
    lsb = pw2(-F)
    for v in vals:
        fails.need('value', r[1] + r[2] >= 0 and contains(r, v) and r[2] >= F, 'for_%s = %s does not contain the result %s' % (op, r, v))
    if op == 'abs':
        vals = [la, ha, -la, -ha]
    fails.need('min', r[2] == F, 'for_%s = %s: finest result has %d fractional bits' % (op, r, F))
    smaller = (r[0], r[1] - 1, r[2])
    if smaller[1] + smaller[2] >= 0 and width(smaller) >= 0:
        fails.need('min', any(not contains(smaller, v) for v in vals), 'for_%s = %s although %s suffices' % (op, r, smaller))
    if r[0] == 1 and op in ('add', 'sub', 'mult'):
        fails.need('min', any(v < 0 for v in vals), 'for_%s = %s although no result is negative' % (op, r))
    return fails


CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}


def run_cmp(case):
    import operator
    fails = Fails()
    cls = case['cls']
    w = cls == 'WideFix'
    x = CLS[cls](mk(case['a'], case['fa'], case['ka'], w), FF(case['fa']))
    y = CLS[cls](mk(case['b'], case['fb'], case['kb'], w), FF(case['fb']))
    old = copy.deepcopy([x, y])
    op = case['op'][4:]
    what = '%s %s' % (cls, op)
    r, ws = guarded(fails, what, getattr(operator, op), x, y)
    frame(fails, what, [x, y], old)
    want = [CMP[op](a * pw2(-case['fa'][2]), b * pw2(-case['fb'][2])) for a, b in bcast(case['a'], case['b'])]
    got = [bool(e) for e in np.asarray(r).flatten()]
    fails.need('value', got == want, '%s: expected %s got %s' % (what, want, got))
    fails.need('value', np.shape(r) == op_shape((len(case['a']), case['ka']), (len(case['b']), case['kb'])), '%s: shape %s' % (what, np.shape(r)))
    fails.need('warn', not ws, '%s: warning' % what)
    return fails


def run_in_range(case):
    fails = Fails()
    cls, fa, fr = case.get('cls', 'main'), case['fa'], case['fr']
    w = None if cls == 'main' else cls == 'WideFix'
    d, A, R, mode = mk(case['a'], fa, case['ka'], w), FF(fa), FF(fr), FixRound[case['rnd']]
    args = [d, A, R, mode] if cls == 'main' else [CLS[cls](d, A), R, mode]
    what = ('cl_fix_' if cls == 'main' else cls + '.') + 'in_range'
    old = copy.deepcopy(args)
    r, ws = guarded(fails, what, m.cl_fix_in_range if cls == 'main' else CLS[cls].in_range, *args)
    frame(fails, what, args, old)
    lo, hi = bounds(fr)
    want = [lo <= spec_round(k * pw2(-fa[2]), fa[2], fr[2], case['rnd']) <= hi for k in case['a']]
    got = [bool(e) for e in np.asarray(r).flatten()]
    fails.need('value', got == want, '%s: expected %s got %s' % (what, want, got))
    fails.need('value', np.shape(r) == shape_of(len(case['a']), case['ka']), '%s: shape %s' % (what, np.shape(r)))
    fails.need('warn', not ws, '%s: warning' % what)
    return fails


def run_from_real(case):
    fails = Fails()
    cls, fr = case.get('cls', 'main'), case['fr']
    els = [float.fromhex(x) for x in case['real']]
    a = els[0] if case['ka'] == 'py' else wrap(els, np.float64, case['ka'])
    R, sat = FF(fr), case['sat']
    fn = m.cl_fix_from_real if cls == 'main' else CLS[cls].from_real
    what = ('cl_fix_' if cls == 'main' else cls + '.') + 'from_real'
    args = [a, R, FixSaturate[sat]]
    old = copy.deepcopy(args)
    lo, hi = bounds(fr)
    if sat in ('None_s', 'Warn_s'):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                fn(*args)
            except Exception:
                return fails
        fails.append(('value', '%s accepted the non-clipping mode %s' % (what, sat)))
        return fails
    r, ws = guarded(fails, what, fn, *args)
    frame(fails, what, args, old)
    xs = [Fraction(e) * pw2(fr[2]) for e in els]
    want = [min(max(math.floor(x + Fraction(1, 2)), lo), hi) for x in xs]
    exp = sat == 'SatWarn_s' and any(x < lo or x > hi for x in xs)
    if cls != 'main':
        if not fails.need('fmt', isinstance(r, CLS[cls]) and fmt3(r._fmt) == tuple(fr), '%s: format %s' % (what, getattr(r, '_fmt', None))):
            raise Rejected()
        alias(fails, what, r, args)
        r = r._data
    check_result(fails, r, fr, want, shape_of(len(els), case['ka']), what, None if cls == 'main' else cls == 'WideFix')
    fails.need('warn', bool(ws) == exp, '%s: %s warning, expected %s' % (what, 'a' if ws else 'no', exp))
    return fails


def run_convert(case):
    """to_integer/from_integer/to_real/from_narrowfix and the bounds functions."""
    fails = Fails()
    fa, ks, kind = case['fa'], case['a'], case['ka']
    A = FF(fa)
    shp = shape_of(len(ks), kind)
    d = mk(ks, fa, kind)
    lo, hi = bounds(fa)
    args = [d, A]
    old = copy.deepcopy(args)
    i, _ = guarded(fails, 'cl_fix_to_integer', m.cl_fix_to_integer, *args)
    frame(fails, 'cl_fix_to_integer', args, old)
    fails.need('value', [int(x) for x in np.asarray(i, dtype=object).flatten()] == ks and np.shape(i) == shp, 'cl_fix_to_integer: expected %s got %s' % (ks, i))
    fails.need('value', wide(fa) or np.asarray(i).dtype.kind == 'i', 'cl_fix_to_integer: not integers')
    for src in (i, wrap([int(k) for k in ks], object, kind) if wide(fa) else (int(ks[0]) if not is_arr(kind) else np.array(ks, dtype=np.int64).reshape(shp))):
        args = [src, A]
        old = copy.deepcopy(args)
        b, _ = guarded(fails, 'cl_fix_from_integer', m.cl_fix_from_integer, *args)
        frame(fails, 'cl_fix_from_integer', args, old)
        check_result(fails, b, fa, ks, shp, 'cl_fix_from_integer')
    for bad in (lo - 1, hi + 1, hi + 1 + case.get('over', 0), lo - 1 - case.get('over', 0)):
        if not wide(fa) and abs(bad) > 2 ** 53:
            continue
        l = list(ks)
        l[-1] = bad
        src = wrap(l, object, kind) if wide(fa) else (l[0] if not is_arr(kind) else np.array(l, dtype=np.int64).reshape(shp))
        try:
            m.cl_fix_from_integer(src, A)
            fails.append(('value', 'cl_fix_from_integer accepted %s for %s' % (bad, fa)))
        except Exception:
            pass
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t = m.cl_fix_to_real(d, A)
    got = [Fraction(float(x)) for x in np.asarray(t, dtype=object).flatten()]
    for k, g in zip(ks, got):
        v = k * pw2(-fa[2])
        n = abs(k)
        fits = n == 0 or (n >> max(0, n.bit_length() - 53)) << max(0, n.bit_length() - 53) == n
        if fits:
            fails.need('value', g == v, 'cl_fix_to_real: expected %s got %s' % (v, g))
    if not wide(fa):
        nf = NarrowFix(d if not isinstance(d, list) else np.array(d), A)
        o = copy.deepcopy(nf)
        wf, _ = guarded(fails, 'WideFix.from_narrowfix', WideFix.from_narrowfix, nf)
        frame(fails, 'WideFix.from_narrowfix', [nf], [o])
        alias(fails, 'WideFix.from_narrowfix', wf, [nf])
        check_result(fails, wf._data, fa, ks, shp, 'WideFix.from_narrowfix', True)
        fails.need('fmt', fmt3(wf._fmt) == tuple(fa), 'WideFix.from_narrowfix: format')
    for nm, want in (('max', hi), ('min', lo)):
        r, _ = guarded(fails, 'cl_fix_%s_value' % nm, getattr(m, 'cl_fix_%s_value' % nm), A)
        check_result(fails, r, fa, [want], (), 'cl_fix_%s_value' % nm)
        for cn, c in CLS.items():
            if cn == 'WideFix' or not wide(fa):
                r, _ = guarded(fails, cn + '.%s_value' % nm, getattr(c, nm + '_value'), A)
                check_result(fails, r._data, fa, [want], (), cn + '.%s_value' % nm, cn == 'WideFix')
                fails.need('fmt', fmt3(r._fmt) == tuple(fa) and r._fmt is not A, cn + '.%s_value: format' % nm)
    return fails


def words(k, w):
    n = (w + 63) // 64
    u = k % (1 << (64 * n)) if k >= 0 else k + (1 << w)
    return [(u >> (64 * i)) & (2 ** 64 - 1) for i in range(n)]


def run_words(case):
    fails = Fails()
    fa, ks, kind = case['fa'], case['a'], case['ka']
    A, w = FF(fa), width(fa)
    shp = shape_of(len(ks), kind)
    d = mk(ks, fa, kind, True)
    n = (w + 63) // 64
    want = [words(k, w) for k in ks]
    # module functions (words along the last axis)
    if wide(fa):
        args = [d, A]
        old = copy.deepcopy(args)
        u, _ = guarded(fails, 'to_uint64_array', mi.to_uint64_array, *args)
        frame(fails, 'to_uint64_array', args, old)
        sh = shp if shp else (1,)
        if fails.need('value', u.dtype == np.uint64 and u.shape == sh + (n,), 'to_uint64_array: dtype %s shape %s' % (u.dtype, u.shape)):
            fails.need('value', [[int(x) for x in row] for row in u.reshape(-1, n)] == want, 'to_uint64_array: %s expected %s' % (u.tolist(), want))
            args = [u, A]
            old = copy.deepcopy(args)
            b, _ = guarded(fails, 'from_uint64_array', mi.from_uint64_array, *args)
            frame(fails, 'from_uint64_array', args, old)
            fails.need('value', [int(x) for x in np.asarray(b, dtype=object).flatten()] == list(ks) and np.shape(b) == sh, 'from_uint64_array: %s expected %s' % (b, ks))
            fails.need('value', all(type(x) is int for x in np.asarray(b, dtype=object).flat), 'from_uint64_array: elements are not integers')
    o = WideFix(d, A)
    oc = copy.deepcopy(o)
    u, _ = guarded(fails, 'WideFix.to_uint64_array', o.to_uint64_array)
    frame(fails, 'WideFix.to_uint64_array', [o], [oc])
    if fails.need('value', u.dtype == np.uint64 and u.shape == (n,) + shp, 'WideFix.to_uint64_array: dtype %s shape %s' % (u.dtype, u.shape)):
        cols = u.reshape(n, -1)
        fails.need('value', [[int(cols[i, j]) for i in range(n)] for j in range(len(ks))] == want, 'WideFix.to_uint64_array: %s expected %s' % (u.tolist(), want))
        if shp and len(shp) == 1:
            args = [u, A]
            old = copy.deepcopy(args)
            b, _ = guarded(fails, 'WideFix.from_uint64_array', WideFix.from_uint64_array, *args)
            frame(fails, 'WideFix.from_uint64_array', args, old)
            check_result(fails, b._data, fa, ks, shp, 'WideFix.from_uint64_array', True)
            fails.need('value', fmt3(b._fmt) == tuple(fa), 'WideFix.from_uint64_array: format')
    return fails


class Src:
    """Replaces the random sources by ones that return chosen members of the requested interval."""

    def __init__(self, pick):
        self.pick, self.calls = pick, []

    def val(self, lo, hi):
        self.calls.append((int(lo), int(hi)))
        lo, hi = int(lo), int(hi)
        return {'lo': lo, 'hi': hi - 1}.get(self.pick, lo + (int(self.pick) % (hi - lo) if self.pick not in ('lo', 'hi') else 0))


def run_gen(case):
    fails = Fails()
    fa, shp = case['fa'], case['shape']
    A = FF(fa)
    shape = tuple(shp) if isinstance(shp, list) else shp
    sh = (shape,) if isinstance(shape, int) else shape
    n = int(np.prod(sh)) if sh else 1
    z, ws = guarded(fails, 'cl_fix_zeros', m.cl_fix_zeros, shape, A)
    check_result(fails, z, fa, [0] * n, sh, 'cl_fix_zeros')
    lo, hi = bounds(fa)
    np.random.seed(case['seed'])
    random.seed(case['seed'])
    r, _ = guarded(fails, 'cl_fix_random', m.cl_fix_random, shape, A)
    check_result(fails, r, fa, None, sh, 'cl_fix_random')
    if width(fa) <= 4:
        r, _ = guarded(fails, 'cl_fix_random', m.cl_fix_random, 600, A)
        got = {int(x) for x in scaled(r, fa, False)}
        fails.need('value', got == set(range(lo, hi + 1)), 'cl_fix_random: values %s never generated' % sorted(set(range(lo, hi + 1)) - got)[:5])
    # extremes of the random source
    o1, o2, o3 = random.randrange, np.random.randint, random.randint
    for pick, want in (('lo', lo), ('hi', hi), (str(case['seed'] * 7919), None)):
        s = Src(pick)
        random.randrange = lambda a, b=None, step=1: s.val(*((0, a) if b is None else (a, b)))
        random.randint = lambda a, b: s.val(a, b + 1)

        def ri(low, high=None, size=None, dtype=int):
            l, h = (0, low) if high is None else (low, high)
            sz = () if size is None else ((size,) if isinstance(size, (int, np.integer)) else tuple(size))
            out = np.empty(sz, dtype=dtype)
            if sz == ():
                return np.dtype(dtype).type(s.val(l, h)) if size is None else np.array(s.val(l, h), dtype=dtype)
            for i in np.ndindex(*sz):
                out[i] = s.val(l, h)
            return out
        np.random.randint = ri
        try:
            r, _ = guarded(fails, 'cl_fix_random', m.cl_fix_random, shape, A)
        finally:
            random.randrange, np.random.randint, random.randint = o1, o2, o3
        if s.calls:
            check_result(fails, r, fa, [want] * n if want is not None else None, sh, 'cl_fix_random with the random source at ' + pick)
    return fails


def run_reject(case):
    """Invalid requests must raise; the valid neighbours must not."""
    fails = Fails()

    def must(what, fn, *a):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn(*a)
        except Exception:
            return
        fails.append(('value', what + ' was accepted'))

    def may(what, fn, *a):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return fn(*a)
        except Exception as e:
            fails.append(('value', '%s was rejected: %s: %s' % (what, type(e).__name__, e)))
    fa, ks = case['fa'], case['a']
    A = FF(fa)
    S, I, F = fa
    for s in (-1, 2, 3, case['x'] if case['x'] not in (0, 1) else 5):
        must('FixFormat(%d,%d,%d)' % (s, I, F), FixFormat, s, I, F)
    for s in (0, 1):
        j = -F - 1 - abs(case['x'])
        must('FixFormat(%d,%d,%d)' % (s, j, F), FixFormat, s, j, F)
        must('FixFormat(%d,%d,%d)' % (s, -F - 1, F), FixFormat, s, -F - 1, F)
        may('FixFormat(%d,%d,%d)' % (s, -F, F), FixFormat, s, -F, F)
    may('FixFormat%s' % (tuple(fa),), FixFormat, *fa)
    nd = mk(ks, fa, 'nd', False) if not wide(fa) else np.zeros(2)
    if wide(fa):
        must('NarrowFix with %s' % (fa,), NarrowFix, nd, A)
        must('NarrowFix(1.0) with %s' % (fa,), NarrowFix, 1.0, A)
    else:
        may('NarrowFix with %s' % (fa,), NarrowFix, nd, A)
        may('NarrowFix with %s' % (fa,), NarrowFix, float(nd[0]), A)
        for dt in (np.float32, np.int64, object, bool, np.complex128):
            must('NarrowFix with dtype %s' % np.dtype(dt), NarrowFix, np.zeros(2, dtype=dt), A)
    wd = mk(ks, fa, 'nd', True)
    may('WideFix with %s' % (fa,), WideFix, wd, A)
    may('WideFix with %s' % (fa,), WideFix, int(ks[0]), A)
    for bad in (np.zeros(2), np.zeros(2, dtype=np.int64), np.array([1.5, 2.0], dtype=object), np.array(['a', 1], dtype=object), np.zeros(2, dtype=np.float32)):
        must('WideFix with dtype %s of %s' % (bad.dtype, type(bad.flat[0]).__name__), WideFix, bad, A)
    must('WideFix(1.5)', WideFix, 1.5, A)
    rF, rnd = case['rF'], case['rnd']
    R = FixFormat.for_round(A, rF, FixRound[rnd])
    may('cl_fix_round to the reported format', m.cl_fix_round, mk(ks, fa, 'nd'), A, R, FixRound[rnd])
    objs = [('WideFix', WideFix(wd, A))] + ([('NarrowFix', NarrowFix(nd, A))] if not wide(fa) else [])
    for dS, dI, dF in ((0, 1, 0), (0, -1, 0), (1, 0, 0), (0, case['x'], 0)):
        g = ((R.S + dS) % 2, R.I + dI, R.F + dF)
        if g[1] + g[2] < 0 or width(g) < 1 or g == fmt3(R):
            continue
        must('cl_fix_round to %s instead of %s' % (g, R), m.cl_fix_round, mk(ks, fa, 'nd'), A, FF(g), FixRound[rnd])
        for cn, o in objs:
            if cn == 'WideFix' or not wide(g):
                must('%s.round to %s instead of %s' % (cn, g, R), o.round, FF(g), FixRound[rnd])
    for dF in (1, -1, case['x'] or 2):
        g = (S, max(I, -F - dF), F + dF)
        must('WideFix.saturate to other fractional bits', WideFix(wd, A).saturate, FF(g), FixSaturate.Sat_s)
        must('cl_fix_saturate to other fractional bits', m.cl_fix_saturate, mk(ks, fa, 'nd'), A, FF(g), FixSaturate.Sat_s)
        if not wide(fa) and not wide(g):
            must('NarrowFix.saturate to other fractional bits', NarrowFix(nd, A).saturate, FF(g), FixSaturate.Sat_s)
    may('cl_fix_saturate', m.cl_fix_saturate, mk(ks, fa, 'nd'), A, A, FixSaturate.Sat_s)
    for fn in (FixFormat.for_add, FixFormat.for_sub, FixFormat.for_addsub, FixFormat.for_mult):
        may(fn.__name__, fn, A, A)
    may('for_shift', FixFormat.for_shift, A, -2, 3)
    may('for_shift', FixFormat.for_shift, A, 3, 3)
    may('len', lambda: (len(WideFix(wd, A)) == len(ks)) or 1 / 0)
    return fails


def run_frame(case):
    """Stored and returned formats and data are independent copies."""
    fails = Fails()
    fa, ks = case['fa'], case['a']
    for cn, c in CLS.items():
        if cn == 'NarrowFix' and wide(fa):
            continue
        A = FF(fa)
        d = mk(ks, fa, 'nd', cn == 'WideFix')
        o = c(d, A)
        keep = copy.deepcopy(o._data)
        f = o.fmt
        fails.need('frame', f is not o._fmt and fmt3(f) == tuple(fa), cn + '.fmt is not an independent copy')
        x = o.data
        fails.need('frame', x is not o._data and same(x, o._data), cn + '.data is not an independent copy')
        x[0] = x[0] + x[-1] + 1
        f.I += 3
        f.F += 1
        f.S = 1 - f.S
        A.I += 5
        A.F += 1
        A.S = 1 - A.S
        d[0] = d[0] + 1
        fails.need('frame', same(o._data, keep), cn + ': stored data follow later changes of the argument or of .data')
        fails.need('frame', fmt3(o._fmt) == tuple(fa), cn + ': stored format follows later changes of the argument or of .fmt')
        if cn == 'WideFix':
            B = FF((fa[0], fa[1], fa[2] + 2))
            p = c(mk([k * 4 for k in ks], fmt3(B), 'nd', True), B)
            l = [o, p]
            ref = copy.deepcopy(l)
            WideFix.align_binary_points(l)
            fails.need('frame', l[0] is o and l[1] is p, 'align_binary_points: replaces elements of its argument')
            frame(fails, 'align_binary_points', l, ref)
    return fails


def run_string(case):
    fails = Fails()
    f = FF(case['fa'])
    want = '(%d, %d, %d)' % tuple(case['fa'])
    fails.need('value', str(f) == want and m.cl_fix_format_to_string(f) == want, 'format text %r, expected %r' % (m.cl_fix_format_to_string(f), want))
    return fails


def run_case(case):
    op = case['op']
    try:
        if op in MAIN:
            return run_arith(case)
        if op in ('round', 'saturate'):
            return run_round(case)
        if op.startswith('fmt_'):
            return run_fmt(case)
        if op.startswith('cmp_'):
            return run_cmp(case)
        return {'in_range': run_in_range, 'from_real': run_from_real, 'convert': run_convert, 'words': run_words, 'gen': run_gen,
                'reject': run_reject, 'frame': run_frame, 'string': run_string}[op](case)
    except Rejected:
        # errors recorded by guarded()
        import gc
        return _LAST if False else RejectedResult(case)


def RejectedResult(case):
    f = Fails()
    f.append(('error', 'see run'))
    return f


# run_* functions raise Rejected after recording; wrap them so that the record survives
def _wrap(fn):
    def g(case):
        rec = Fails()
        old = globals()['Fails']
        globals()['Fails'] = lambda: rec
        try:
            fn(case)
        except Rejected:
            pass
        finally:
            globals()['Fails'] = old
        return rec
    return g


for _n in [n for n in list(globals()) if n.startswith('run_') and n != 'run_case']:
    globals()[_n] = _wrap(globals()[_n])


# -- case generation -----------------------------------------------------------------------------------
class Gen:
    def __init__(self, seed, consts=(), hints=()):
        self.r = random.Random(seed)
        self.consts = [c for c in consts if abs(c) < 400] or [0]
        self.big = [c for c in consts if abs(c) < 2 ** 200] or [0]
        self.hints = list(hints)

    def width(self, narrow=None):
        r = self.r
        pool = [1, 2, 3, 4, 5, 8, 12, 16, 24, 31, 32, 33, 48, 50, 51, 52, 53]
        wpool = [54, 55, 56, 60, 63, 64, 65, 80, 100, 127, 128, 129, 192, 200]
        if narrow is None:
            narrow = r.random() < 0.6
        w = r.choice(pool if narrow else wpool)
        if r.random() < 0.3:
            w = r.randint(1, 53) if narrow else r.randint(54, 140)
        if r.random() < 0.15:
            c = abs(r.choice(self.consts)) + r.randint(-1, 1)
            if (1 <= c <= 53) if narrow else (54 <= c <= 250):
                w = c
        return w

    def fmt(self, narrow=None, null=False):
        r = self.r
        S = r.randint(0, 1)
        w = self.width(narrow)
        if null and r.random() < 0.05:
            S, w = 0, 0
        x = r.random()
        if x < 0.45:
            F = r.randint(0, max(0, w - S))
        elif x < 0.6:
            F = r.randint(-12, 0)
        elif x < 0.75:
            F = w - S + r.randint(0, 12)
        elif x < 0.85:
            F = r.choice(self.consts) + r.randint(-1, 1)
        elif x < 0.93:
            F = r.randint(-70, 140)
        else:
            F = r.choice([-300, -100, -64, -54, -53, 53, 54, 64, 100, 300])
        return [S, w - S - F, F]

    def val(self, f, drop=None):
        r = self.r
        lo, hi = bounds(f)
        x = r.random()
        if drop is None and r.random() < 0.5:
            drop = r.randint(1, max(1, width(f)))
        if x < 0.2:
            k = r.choice([lo, lo + 1, hi, hi - 1, 0, 1, -1, 2, -2, 3, -3])
        elif x < 0.35:
            k = r.choice([1, -1]) * (1 << r.randint(0, max(0, f[1] + f[2]))) + r.choice([-2, -1, 0, 1, 2])
        elif x < 0.7 and drop is not None and drop > 0:
            d = min(drop, 300)
            q = r.randint(lo >> d, hi >> d)
            if r.random() < 0.35:
                q = r.choice([lo >> d, hi >> d, 0, -1, 1, (hi >> d) - 1])
            k = (q << d) + r.choice([0, 1, -1, (1 << d) >> 1, ((1 << d) >> 1) - 1, ((1 << d) >> 1) + 1, ((1 << d) >> 2), (1 << d) - 1])
        elif x < 0.76:
            k = r.choice(self.big) + r.randint(-1, 1)
        else:
            k = r.randint(lo, hi)
        return min(max(k, lo), hi)

    def vals(self, f, n, drop=None):
        return [self.val(f, drop) for _ in range(n)]

    def kind(self, narrow):
        return self.r.choice(['nd', 'nd', 'nd', '2d', '0d', 'py', '3d'] + (['np', 'list'] if narrow else []))

    def data(self, f, p='a', drop=None, kind=None):
        kind = kind or self.kind(not wide(f))
        n = self.r.randint(1, 4) if is_arr(kind) else 1
        return {'f' + p: f, p: self.vals(f, n, drop), 'k' + p: kind}

    def near(self, f, fixF=None):
        """Result format around a given format."""
        r = self.r
        for _ in range(50):
            S = r.randint(0, 1)
            F = f[2] + r.choice([0, 0, -1, -2, 1, 2, -r.randint(1, 60), r.randint(1, 60), -(f[1] + f[2]), -(f[1] + f[2]) - 1, -(f[1] + f[2]) - 3]) if fixF is None else fixF
            I = f[1] + r.choice([0, 0, 0, -1, -2, 1, 2, -r.randint(1, 60), r.randint(1, 30)])
            if r.random() < 0.15:
                I = r.choice([53, 54, 52, 55]) - S - F
            if I + F >= 0 and S + I + F >= 1 and S + I + F <= 400:
                return [S, I, F]
        return list(f)

    def modes(self):
        return {'rnd': self.r.choice(RND), 'sat': self.r.choice(SAT)}

    def second(self, fa, ka, na, p='b', narrow=None):
        r = self.r
        x = r.random()
        if x < 0.35:
            fb = self.near(fa)
        elif x < 0.5:
            fb = list(fa)
        else:
            fb = self.fmt(narrow)
        if narrow is True and wide(fb):
            fb = self.fmt(True)
        kb = self.kind(not wide(fb))
        if is_arr(kb) and is_arr(ka):
            kb = ka if not (ka == 'list' and wide(fb)) else 'nd'
        n = (na if is_arr(ka) else r.randint(1, 4)) if is_arr(kb) else 1
        return {'f' + p: fb, p: self.vals(fb, n), 'k' + p: kb}

    def arith(self, op, cls='main'):
        r = self.r
        for _ in range(200):
            narrow = True if cls == 'NarrowFix' else None
            fa = self.fmt(narrow)
            c = {'op': op}
            if cls != 'main':
                c['cls'] = cls
            kinds = None if cls == 'main' else r.choice(['nd', 'nd', '0d', '2d', 'py'])
            c.update(self.data(fa, 'a', kind=kinds))
            if c['ka'] == 'list' and cls != 'main':
                c['ka'] = 'nd'
            if op in ('add', 'sub', 'addsub', 'mult'):
                c.update(self.second(fa, c['ka'], len(c['a']), narrow=narrow))
                if cls != 'main' and c['kb'] in ('np', 'list'):
                    c['kb'] = '0d'
                    c['b'] = c['b'][:1]
            n = max(len(c['a']), len(c.get('b', [])))
            arr = [k for k in (c['ka'], c.get('kb')) if k and is_arr(k)]
            if op == 'addsub':
                kadd = r.choice(['py', '0d'] + arr)
                c['kadd'] = kadd if kadd != 'list' else 'nd'
                c['add'] = [r.randint(0, 1) for _ in range(n if is_arr(kadd) else 1)]
            if op == 'shift':
                ks = r.choice(['py', 'py', 'np'] + ([arr[0] if arr[0] != 'list' else 'nd'] * 2 if arr else ['nd']))
                nn = (len(c['a']) if arr else r.randint(1, 3)) if is_arr(ks) else 1
                big = r.random() < 0.3
                c['shift'] = [r.randint(-60, 60) if big else r.randint(-6, 6) for _ in range(nn)]
                c['kshift'] = ks
            try:
                mid = exact_of(c)[1]
            except Exception:
                mid = fa
            c['fr'] = self.near(mid) if r.random() < 0.8 or op == 'resize' else None
            if c['fr'] and r.random() < 0.1:
                c['fr'] = self.fmt()
            c.update(self.modes())
            if any(abs(x) > 900 for f in (mid, c['fr'] or mid) for x in f):
                continue        # outside the stated domain: scale factors beyond the exponent range of doubles
            if c['fr']:
                drop = mid[2] - c['fr'][2]
                if drop > 0 and r.random() < 0.6 and op in ('resize', 'neg', 'abs', 'add', 'sub'):
                    c['a'] = [self.val(fa, drop) for _ in c['a']]
            if cls == 'NarrowFix':
                fr = c['fr'] or mid
                try:
                    rr = fmt3(FixFormat.for_round(FF(mid), fr[2], FixRound[c['rnd']]))
                except Exception:
                    continue
                if wide(mid) or wide(fr) or wide(rr):
                    continue
                if op == 'addsub' and any(wide(fmt3(FixFormat.for_round(f(FF(fa), FF(c['fb'])), fr[2], FixRound[c['rnd']]))) for f in (FixFormat.for_add, FixFormat.for_sub)):
                    continue
            return c
        return None

    def round(self, cls='main'):
        r = self.r
        for _ in range(100):
            fa = self.fmt(True if cls == 'NarrowFix' else None)
            w = width(fa)
            rF = fa[2] - r.choice([0, 1, 1, 2, 3, w - 1, w, w + 1, w + 2, w + 5, r.randint(1, w + 3), r.randint(1, w + 3), -1, -r.randint(1, 60)])
            c = {'op': 'round', 'rF': rF, 'rnd': r.choice(RND)}
            if cls != 'main':
                c['cls'] = cls
            c.update(self.data(fa, 'a', fa[2] - rF, kind=None if cls == 'main' else r.choice(['nd', '2d', '0d', 'py'])))
            if cls == 'NarrowFix' and width(fa) + max(0, rF - fa[2]) + 1 > 53:
                try:
                    if wide(fmt3(FixFormat.for_round(FF(fa), rF, FixRound[c['rnd']]))):
                        continue
                except Exception:
                    continue
            return c

    def saturate(self, cls='main'):
        r = self.r
        for _ in range(100):
            fa = self.fmt(True if cls == 'NarrowFix' else None)
            fr = self.near(fa, fa[2])
            if cls == 'NarrowFix' and wide(fr):
                continue
            c = {'op': 'saturate', 'fr': fr, 'sat': r.choice(SAT)}
            if cls != 'main':
                c['cls'] = cls
            c.update(self.data(fa, 'a', fr[1] + fr[2] + r.randint(0, 1), kind=None if cls == 'main' else r.choice(['nd', '2d', '0d', 'py'])))
            l, h = bounds(fr)
            la, ha = bounds(fa)
            if r.random() < 0.5:
                c['a'] = [min(max(r.choice([l, l - 1, l + 1, h, h + 1, h - 1, 2 * h + 2, 2 * h + 1, 2 * l, 2 * l - 1, 3 * h]), la), ha) for _ in c['a']]
            return c

    def fmts(self, op):
        r = self.r
        c = {'op': 'fmt_' + op, 'fa': self.fmt()}
        if r.random() < 0.5:
            S = r.randint(0, 1)
            n = r.randint(1, 4)
            F = r.randint(-4, 4)
            c['fa'] = [S, n - S - F, F]
        if op in ('add', 'sub', 'addsub', 'mult'):
            c['fb'] = self.near(c['fa']) if r.random() < 0.5 else self.fmt()
            if r.random() < 0.3:
                S = r.randint(0, 1)
                F = c['fa'][2] + r.randint(-3, 3)
                c['fb'] = [S, r.randint(1, 4) - S - F, F]
        if op == 'shift':
            a = sorted([r.randint(-8, 8), r.randint(-8, 8)] if r.random() < 0.6 else [r.randint(-80, 80), r.randint(-80, 80)])
            c['lo'], c['hi'] = a
        if op == 'round':
            w = width(c['fa'])
            c['rF'] = c['fa'][2] - r.choice([0, 1, 2, w - 1, w, w + 1, w + 4, -1, -7, r.randint(0, w + 2)])
            c['rnd'] = r.choice(RND)
            c['a'] = self.vals(c['fa'], 4, c['fa'][2] - c['rF'])
        if op == 'union':
            c['fs'] = [self.fmt(null=True) for _ in range(r.choice([1, 2, 2, 2, 3, 4]))]
        return c

    def cmp(self):
        r = self.r
        cls = r.choice(['NarrowFix', 'WideFix'])
        narrow = True if cls == 'NarrowFix' else None
        fa = self.fmt(narrow)
        kind = r.choice(['nd', 'nd', '2d', '0d', 'py'])
        c = {'op': 'cmp_' + r.choice(list(CMP)), 'cls': cls}
        c.update(self.data(fa, 'a', kind=kind))
        c.update(self.second(fa, kind, len(c['a']), narrow=narrow))
        if c['kb'] in ('np', 'list'):
            c['kb'], c['b'] = '0d', c['b'][:1]
        if r.random() < 0.7:
            # equal or neighbouring represented values
            lo, hi = bounds(c['fb'])
            for i in range(len(c['b'])):
                v = c['a'][i if len(c['a']) > 1 else 0] * pw2(-fa[2]) * pw2(c['fb'][2])
                c['b'][i] = min(max(math.floor(v) + r.choice([0, 0, 0, 1, -1]), lo), hi)
        return c

    def in_range(self):
        r = self.r
        cls = r.choice(['main', 'main', 'main', 'NarrowFix'])
        c = self.arith('resize', cls)
        c['op'] = 'in_range'
        if r.random() < 0.6:
            l, h = bounds(c['fr'])
            fa = c['fa']
            la, ha = bounds(fa)
            d = fa[2] - c['fr'][2]
            if d < 300:
                c['a'] = [min(max(int(r.choice([l, l - 1, h, h + 1, h + Fraction(1, 2), l - Fraction(1, 2), h + 1 - Fraction(1, 8)]) * pw2(d)) + r.choice([0, 0, 1, -1]), la), ha) for _ in c['a']]
        return c

    def real(self):
        r = self.r
        cls = r.choice(['main', 'main', 'main', 'NarrowFix', 'WideFix'])
        fr = self.fmt(True if cls == 'NarrowFix' else None)
        if abs(fr[1]) > 450 or abs(fr[2]) > 450:
            fr = [1, 3, 8]
        kind = r.choice(['nd', 'nd', '2d', '0d', 'py', 'np', 'list'])
        if cls != 'main' and kind == 'list':
            kind = 'nd'
        n = r.randint(1, 4) if is_arr(kind) else 1
        out = []
        for _ in range(n):
            x = r.random()
            lo, hi = bounds(fr)
            k = self.val(fr)
            if x < 0.35:
                v = Fraction(2 * k + r.choice([-1, 0, 1]), 2)
            elif x < 0.5:
                v = Fraction(r.choice([lo, hi, lo - 1, hi + 1, 2 * lo, 2 * hi, 0])) + r.choice([Fraction(0), Fraction(1, 2), Fraction(-1, 2), Fraction(1, 4)])
            elif x < 0.6:
                v = Fraction(1, 2) - Fraction(1, 2 ** 54) if r.random() < 0.5 else -Fraction(1, 2) + Fraction(1, 2 ** 54)
            elif x < 0.75:
                v = Fraction(k) + Fraction(r.getrandbits(53), 2 ** 53)
            else:
                v = Fraction(r.uniform(-1, 1)) * 2 ** r.randint(-60, 60)
            f = float(v * pw2(-fr[2]))
            if r.random() < 0.3:
                f = math.nextafter(f, r.choice([-math.inf, math.inf]))
            if r.random() < 0.02:
                f = -0.0
            # outside the stated domain: values that leave the normal range when scaled
            out.append(f if math.isfinite(f) and 2.0 ** -500 < abs(f) < 2.0 ** 900 else 0.0)
        c = {'op': 'from_real', 'fr': fr, 'real': [x.hex() for x in out], 'ka': kind, 'sat': r.choice(SAT + ['SatWarn_s', 'Sat_s'])}
        if cls != 'main':
            c['cls'] = cls
        return c

    def convert(self):
        fa = self.fmt()
        kind = self.r.choice(['nd', '2d', '0d', 'py'] + ([] if wide(fa) else ['np', 'list']))
        c = {'op': 'convert', 'over': self.r.randint(0, 50)}
        c.update(self.data(fa, 'a', kind=kind))
        return c

    def words(self):
        r = self.r
        w = r.choice([54, 55, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 191, 192, 193, 256, 257, r.randint(54, 320)])
        S = r.randint(0, 1)
        F = r.randint(-20, w + 20)
        fa = [S, w - S - F, F]
        c = {'op': 'words'}
        c.update(self.data(fa, 'a', r.choice([63, 64, 65, 127, 128]), kind=r.choice(['nd', '2d', '0d', 'py'])))
        return c

    def gen(self):
        r = self.r
        fa = self.fmt()
        if r.random() < 0.3:
            S, w, F = r.randint(0, 1), r.randint(1, 4), r.randint(-5, 8)
            fa = [S, w - S - F, F]
        return {'op': 'gen', 'fa': fa, 'shape': r.choice([3, [2, 3], [], [1], [2, 1, 2], 5]), 'seed': r.randint(0, 10 ** 6)}

    def reject(self):
        r = self.r
        fa = self.fmt()
        w = width(fa)
        return {'op': 'reject', 'fa': fa, 'a': self.vals(fa, 2), 'x': r.randint(-6, 9), 'rF': fa[2] - r.choice([0, 1, 2, w, -1, w + 2]), 'rnd': r.choice(RND)}

    def frame(self):
        fa = self.fmt()
        return {'op': 'frame', 'fa': fa, 'a': self.vals(fa, 3)}

    def string(self):
        return {'op': 'string', 'fa': self.fmt(null=True)}

    def hinted(self, c):
        """Substitutes values of a solver model into a generated case."""
        h = self.r.choice(self.hints)
        c = dict(c)

        def put(key, nm):
            f = list(c[key])
            for j, l in ((1, 'I'), (2, 'F')):
                if nm + l in h:
                    f[j] = int(h[nm + l])
            if f[1] + f[2] >= 0 and sum(f) >= 1 and sum(f) <= 4000 and max(map(abs, f)) < 1000:
                c[key] = f
        for key, nm in (('fa', 'a'), ('fb', 'b'), ('fr', 'r')):
            if c.get(key):
                put(key, nm)
        if 'fr' in c and c['fr'] and c['op'] == 'saturate':
            c['fr'] = [c['fr'][0], max(c['fr'][1], -c['fa'][2]), c['fa'][2]]
        for p in ('a', 'b'):
            if p in c and 'f' + p in c:
                lo, hi = bounds(c['f' + p])
                l = [min(max(k, lo), hi) for k in c[p]]
                for i in range(len(l)):
                    if '%s_k%d' % (p, i) in h and self.r.random() < 0.7:
                        l[i] = min(max(int(h['%s_k%d' % (p, i)]), lo), hi)
                c[p] = l
        if 'rF' in c and 'rF' in h and abs(h['rF']) < 1000:
            c['rF'] = int(h['rF'])
        if 'shift' in c and 'shift0' in h and abs(h['shift0']) < 1000:
            c['shift'] = [int(h['shift0'])] + c['shift'][1:]
        return c


PROPS = {
    'C01': ([lambda g: g.fmts(g.r.choice(['add', 'sub', 'addsub', 'mult', 'neg', 'abs', 'shift', 'round', 'union']))], {'value', 'error'}),
    'C02': ([lambda g: g.fmts(g.r.choice(['add', 'sub', 'addsub', 'mult', 'neg', 'abs', 'shift', 'union']))], {'min', 'error'}),
    'C03': ([lambda g: g.round(), lambda g: g.round('NarrowFix'), lambda g: g.round('WideFix')], {'value', 'error'}),
    'C04': ([lambda g: g.saturate(), lambda g: g.saturate('NarrowFix'), lambda g: g.saturate('WideFix')], {'value', 'error'}),
    'C05': ([lambda g, o=o: g.arith(o) for o in MAIN], {'value', 'error'}),
    'C06': ([lambda g, o=o: g.arith(o) for o in MAIN] + [lambda g: g.round(), lambda g: g.saturate(), lambda g: g.round('NarrowFix'), lambda g: g.saturate('WideFix'),
             lambda g: g.arith(g.r.choice(MAIN), 'WideFix'), lambda g: g.arith(g.r.choice(MAIN), 'NarrowFix'), lambda g: g.real(), lambda g: g.convert(), lambda g: g.gen()],
            {'repr', 'range', 'shape', 'fmt', 'error'}),
    'C07': ([lambda g, o=o, c=c: g.arith(o, c) for o in MAIN for c in CLS] + [lambda g, c=c: g.round(c) for c in CLS] + [lambda g, c=c: g.saturate(c) for c in CLS] + [lambda g: g.cmp(), lambda g: g.real()],
            {'value', 'fmt', 'error'}),
    'C08': ([lambda g: g.cmp()], {'value', 'frame', 'error'}),
    'C09': ([lambda g: g.in_range()], {'value', 'error'}),
    'C10': ([lambda g: g.convert()], {'value', 'repr', 'error', 'range'}),
    'C11': ([lambda g: g.real()], {'value', 'repr', 'shape', 'error'}),
    'C12': ([lambda g: g.words()], {'value', 'repr', 'error'}),
    'C13': ([lambda g, o=o: g.arith(o) for o in MAIN] + [lambda g, o=o: g.arith(o, 'WideFix') for o in MAIN] + [lambda g, o=o: g.arith(o, 'NarrowFix') for o in MAIN] +
            [lambda g: g.round(), lambda g: g.saturate(), lambda g: g.round('WideFix'), lambda g: g.round('NarrowFix'), lambda g: g.saturate('WideFix'), lambda g: g.saturate('NarrowFix'),
             lambda g: g.real(), lambda g: g.convert(), lambda g: g.words(), lambda g: g.in_range(), lambda g: g.cmp(), lambda g: g.frame(), lambda g: g.frame(),
             lambda g: g.fmts(g.r.choice(['add', 'sub', 'addsub', 'mult', 'neg', 'abs', 'shift', 'union']))], {'frame'}),
    'C14': ([lambda g, o=o: g.arith(o) for o in MAIN] + [lambda g: g.saturate(), lambda g: g.saturate('NarrowFix'), lambda g: g.saturate('WideFix'), lambda g: g.arith('resize', 'NarrowFix'),
             lambda g: g.arith('resize', 'WideFix'), lambda g: g.real(), lambda g: g.round()], {'warn'}),
    'C15': ([lambda g: g.gen()], {'value', 'repr', 'range', 'shape', 'error'}),
    'C16': ([lambda g: g.reject()], {'value', 'error'}),
    'C20': ([lambda g: g.string()], {'value', 'error'}),
}


def search(prop, cases, seed, hints=(), consts=(), budget=None):
    gens, cats = PROPS[prop]
    g = Gen(seed, consts, hints)
    t0 = time.time()
    n, seen, samples, errs = 0, set(), [], []
    while n < cases and (budget is None or time.time() - t0 < budget):
        fn = gens[n % len(gens)]
        n += 1
        try:
            c = fn(g)
        except Exception as e:
            # the code under test failed while a case was prepared (format functions)
            errs.append('%s: %s' % (type(e).__name__, e))
            if len(errs) > 2000:
                break
            continue
        if c is None:
            continue
        if g.hints and g.r.random() < 0.7:
            c = g.hinted(c)
        key = json.dumps(c, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        if len(samples) < 3:
            samples.append(c)
        try:
            fails = run_case(c)
        except Exception as e:
            errs.append('%s: %s' % (type(e).__name__, e))
            continue
        bad = [f for f in fails if f[0] in cats]
        if bad:
            return dict(evaluations=n, distinct=len(seen), samples=samples, violation=dict(case=c, category=bad[0][0], message=bad[0][1]), errs=errs[:3])
    return dict(evaluations=n, distinct=len(seen), samples=samples, violation=None, errs=errs[:3], nerrs=len(errs))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('what')
    ap.add_argument('--cases', type=int, default=2000)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--hints')
    ap.add_argument('--consts')
    a = ap.parse_args()
    if a.cmd == 'replay':
        d = json.load(open(a.what))
        fails = [f for f in run_case(d['case']) if f[0] in PROPS[d['property']][1]]
        for f in fails:
            print('%s: %s' % f)
        sys.exit(1 if fails else 0)
    hints = json.load(open(a.hints)) if a.hints else []
    consts = json.load(open(a.consts)) if a.consts else []
    print(json.dumps(search(a.what, a.cases, a.seed, hints, consts, a.budget)))


if __name__ == '__main__':
    main()
