"""Conformance of the trusted numpy model (npshim, and the scalar classes of engine) with the numpy that /repo uses.

Every expression below is evaluated twice on concrete operands: by the model (this interpreter) and by the real
numpy (the project's interpreter, in a subprocess).  Result class, dtype, dimensionality, value and exception class
must agree.  The model may refuse (Unsupported, or an obligation such as "int64 operation stays in range" that fails);
it must never accept and disagree.  `python3-vt -m vc.xcheck`; run by setup.py, recorded in evidence as an assumption
that was tested, not proved.
"""
import itertools
import json
import os
import subprocess
import sys
from fractions import Fraction

PY = '/opt/venv/bin/python'

INTS = [0, 1, -1, 5, -7, 2 ** 40 + 1, -2 ** 53, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 64 - 1, 2 ** 70 + 3, -2 ** 66]
FLTS = ['0.0', '0.5', '-0.5', '1.5', '2.5', '-2.5', '3.75', '-1048576.125', '2.0**53', '-2.0**60', '2.0**-30']


def operands():
    """name -> (class, dtype code, ndim, literal)"""
    out = []
    for v in INTS:
        out.append(('int', None, 0, repr(v)))
        if -2 ** 63 <= v < 2 ** 63:
            out += [('np', 'i8', 0, repr(v)), ('arr', 'i8', 0, repr(v)), ('arr', 'i8', 1, repr(v))]
        if 0 <= v < 2 ** 64:
            out += [('np', 'u8', 0, repr(v)), ('arr', 'u8', 1, repr(v))]
        out += [('arr', 'O', 0, repr(v)), ('arr', 'O', 1, repr(v))]
    for v in FLTS:
        out += [('float', None, 0, v), ('np', 'f8', 0, v), ('arr', 'f8', 0, v), ('arr', 'f8', 1, v)]
    for v in ('True', 'False'):
        out += [('bool', None, 0, v), ('np', 'b', 0, v), ('arr', 'b', 1, v)]
    return out


UNARY = ['-a', '+a', 'abs(a)', '~a', 'np.floor(a)', 'np.ceil(a)', 'np.trunc(a)', 'np.round(a)', 'np.rint(a)', 'np.abs(a)', 'np.sign(a)', 'np.any(a)',
         'np.all(a)', 'np.max(a)', 'np.min(a)', 'np.array(a)', 'np.array(a, dtype=float)', 'np.array(a, dtype=object)', 'np.array(a, float)',
         'np.asarray(a)', 'np.array(a).astype(float)', 'np.array(a).astype(object)', 'np.array(a).astype(int)', 'np.array(a).astype(np.int64)',
         'np.array(a).astype(np.uint64)', 'np.array(a).astype(bool)', 'np.logical_not(a)', 'np.ndim(a)', 'np.array(a).ndim == 0', 'int(a)', 'float(a)', 'bool(a)',
         'np.float64(a)', 'np.int64(a)', 'np.zeros_like(a)', 'np.ones_like(a)', 'a.item()', 'a.copy()', 'a[0]', 'a.astype(object)', 'a.any()', 'a.all()',
         'isinstance(a, int)', 'isinstance(a, float)', 'isinstance(a, np.ndarray)', 'isinstance(a, np.integer)', 'isinstance(a, np.floating)',
         'isinstance(a, (int, np.integer))', 'np.isscalar(a)', 'np.array(a)[()]', 'np.array([a])', 'np.array([a])[0]', 'np.atleast_1d(a)', 'a * 2.0**-3', 'a * 2**-3',
         'a * 2.0**5', 'a * 2**5', 'a * 2**40', 'a >> 2', 'a << 2', 'a % 8', 'a & 255', 'a // 4', 'a / 4', 'a + 1', 'a + 0.5', '1 - a', '0.5 - a', '2**64 - a', 'a - 2**64',
         'a % 2**64', 'a & (2**64 - 1)', 'a > 0', 'a >= 2**63', 'a < -0.5', 'a == 0', 'np.array(a) * 2**70', 'not a', 'round(a)', 'a ** 2', 'np.invert(a)', '2 ** a', '2.0 ** a',
         'np.full_like(a, 1)', 'a.dtype == object', 'a.dtype == float', 'np.array(a).dtype == float', 'np.array(a).size', 'np.where(a, 1, 0)', 'np.where(a > 0, a, -a)',
         'np.where(a > 0, a, 0)', 'np.where(a > 0, 1, 0.5)', 'np.where(a > 0, 2**70, 1)', 'np.clip(a, -1, 1)', 'np.maximum(a, 0)', 'np.minimum(a, 2**63)', 'np.bitwise_and(a, 3)',
         'np.float64(a) * 2.0**3', 'np.prod(a)', 'np.array(a, dtype=np.int64)', 'np.array(a, dtype=np.uint64)', 'type(a) == float', 'type(a) == int', 'hasattr(a, "__len__")', '(a > 0) + 0', '(a > 0) * a',
         'a + (a > 0)', '(a > 0) & (a < 5)', '(a > 0) | (a < -5)', '~(a > 0)', 'np.vectorize(int, otypes=[object])(a)', 'np.vectorize(float, otypes=[float])(a)',
         'np.floor(a).astype(object)', 'np.round(a).astype(object)', 'np.floor(a).astype(int)', 'np.array(a).flatten()', 'np.array(a).reshape(-1)', 'np.negative(a)', 'np.right_shift(a, 2)']
BINARY = ['a + b', 'a - b', 'a * b', 'a > b', 'a <= b', 'a == b', 'a != b', 'a & b', 'a | b', 'np.where(a > 0, a, b)', 'np.where(a > b, a, b)', 'np.logical_and(a, b)', 'np.logical_or(a, b)',
          'a // b', 'a % b', 'a / b', 'a >> b', 'a << b', 'max(a, b)', 'np.maximum(a, b)', 'np.minimum(a, b)', 'np.array_equal(a, b)', 'a - 2 * b', 'np.where(b, a, -a)']


def descr(r, np):
    """JSON form of a real result."""
    if isinstance(r, np.ndarray):
        e = r.reshape(-1)[0] if r.size else None
        return ['arr', {'f': 'f8', 'O': 'O', 'i': 'i8', 'u': 'u8', 'b': 'b'}[r.dtype.kind], int(r.ndim > 0), val(e, np), type(e).__name__ if r.dtype == object else '']
    return [{'ulonglong': 'uint64', 'longlong': 'int64'}.get(type(r).__name__, type(r).__name__) if not isinstance(r, np.bool_) else 'npbool', '', 0, val(r, np), '']


def val(e, np):
    if isinstance(e, (bool, np.bool_)):
        return str(int(e))
    if isinstance(e, (int, np.integer)):
        return str(int(e))
    if isinstance(e, (float, np.floating)):
        e = float(e)
        return str(Fraction(e)) if e == e and abs(e) != float('inf') else 'nonfinite'
    return repr(e)


def real_make(o, np):
    k, dt, nd, lit = o
    v = eval(lit)
    D = {'i8': np.int64, 'u8': np.uint64, 'f8': np.float64, 'b': np.bool_, 'O': object}
    if k in ('int', 'float', 'bool'):
        return v
    if k == 'np':
        return D[dt](v)
    return np.array([v] * 2 if nd else v, dtype=D[dt])


def real_main():
    import warnings
    import numpy as np
    warnings.simplefilter('error')          # overflow, invalid casts: reported as exceptions
    np.seterr(all='raise')
    ops = operands()
    for line in sys.stdin:
        e, i, j = json.loads(line)
        a = real_make(ops[i], np)
        b = real_make(ops[j], np) if j >= 0 else None
        try:
            r = descr(eval(e, {'np': np, 'a': a, 'b': b}), np)
        except Exception as x:
            r = ['exc', type(x).__name__, 0, str(x)[:60], '']
        print(json.dumps(r))


# -- model side ---------------------------------------------------------------------------------------
def model(E, N, L, e, oa, ob):
    from .poly import Poly, Unsupported
    from .engine import SInt, SFlt, SBool, P

    def num(v, dt):
        if dt == 'b':
            return bool(v)
        if dt == 'f8':
            return SFlt(Poly.const(Fraction(v)), True)
        return int(v)

    def make(o):
        k, dt, nd, lit = o
        v = eval(lit)
        if k in ('int', 'float', 'bool'):
            return SFlt(Poly.const(Fraction(v))) if k == 'float' else v
        if k == 'np':
            return {'b': lambda: SBool(('const', v), True), 'f8': lambda: SFlt(Poly.const(Fraction(v)), True)}.get(dt, lambda: SInt(Poly.const(v), dt))()
        shp = None
        if nd:
            c = E.ctx()
            shp = c.cond_memo.get('shape')
            if shp is None:
                shp = c.cond_memo['shape'] = N.SShape('shape', size=2)
        return N.SArr(dt, bool(nd), N.Buf([num(v, dt)] * (E.ctx().tracked if nd else 1)), shp)

    def value(x):
        if isinstance(x, SBool):
            x = bool(x)
        if isinstance(x, (bool, int)):
            return str(int(x))
        p = P(x)
        return str(p.const_value()) if p.is_const() else '?'

    def cls(x):
        if isinstance(x, SBool):
            return 'npbool' if x.np else 'bool'
        if isinstance(x, SFlt):
            return 'float64' if x.np else 'float'
        if isinstance(x, SInt):
            return {'i8': 'int64', 'u8': 'uint64'}.get(x.np, 'int')
        return type(x).__name__

    def d(r):
        if isinstance(r, N.SArr):
            x = r.buf[0]
            v = value(x)
            return ['arr', r.dt, int(bool(r.nd)), v, cls(x) if r.dt == 'O' else '']
        return [cls(r), '', 0, value(r), '']

    out = []
    c = E.Ctx('xcheck')

    def go():
        try:
            ns = dict(BI)
            ns.update(np=N.NP, a=make(oa), b=make(ob) if ob else None)
            r = d(eval(e, {'__builtins__': ns}, ns))
        except Unsupported as x:
            r = ['unsupported', str(x)]
        except (TypeError, ValueError, OverflowError, AttributeError, IndexError, ZeroDivisionError) as x:
            r = ['exc', type(x).__name__, 0, str(x)[:60], '']
        out.append(r)
    c.explore(go)
    if any(not o.ok for o in c.obligations):
        return ['unsupported', 'obligation']
    if len(out) != 1:
        return ['unsupported', 'paths']
    return out[0]


def main(argv):
    from . import engine as E, npshim as N, loader as L
    global BI
    pk = L.Package.__new__(L.Package)
    pk.load = lambda n: None
    pk.__init__()
    BI = pk.builtins
    ops = operands()
    cases = [(e, i, -1) for e in UNARY for i in range(len(ops))]
    import random
    rnd = random.Random(1)
    pairs = list(itertools.product(range(len(ops)), repeat=2))
    small = [abs(eval(o[3])) <= 64 for o in ops]
    cases = [c for c in cases if '** a' not in c[0] or small[c[1]]]
    n = int(argv[0]) if argv else 400
    cases += [(e, i, j) for e in BINARY for i, j in rnd.sample(pairs, n) if small[j] or ('>>' not in e and '<<' not in e)]
    p = subprocess.run([PY, os.path.abspath(__file__), '--real'], input='\n'.join(json.dumps(c) for c in cases), text=True, stdout=subprocess.PIPE, check=True)
    real = [json.loads(x) for x in p.stdout.splitlines()]
    assert len(real) == len(cases)
    refused = same = 0
    bad = {}
    for (e, i, j), r in zip(cases, real):
        m = model(E, N, L, e, ops[i], ops[j] if j >= 0 else None)
        if m[0] == 'unsupported':
            refused += 1
        elif r[1] == 'DeprecationWarning' or '?' in m:
            refused += 1
        elif (r[0] == 'exc' and m[0] == 'exc' and r[1].replace('UFuncTypeError', 'TypeError') == m[1]) or r == m:
            same += 1
        else:
            bad.setdefault(e, []).append((ops[i], ops[j] if j >= 0 else None, r, m))
    ex = []
    for e, l in bad.items():
        ex += ['%s a=%s b=%s real=%s model=%s' % ((e,) + x) for x in l[:int(os.environ.get('SHOW', '2'))]]
    print('\n'.join(ex))
    print(json.dumps(dict(what='numpy model (vc/npshim.py) against the installed numpy, expressions on concrete operands; tested, not proved', cases=len(cases), agree=same,
                          refused_by_model=refused, disagree=sum(map(len, bad.values())), examples=ex[:10])))
    return bool(bad)


if __name__ == '__main__':
    if sys.argv[1:] == ['--real']:
        real_main()
    else:
        sys.exit(main(sys.argv[1:]))
