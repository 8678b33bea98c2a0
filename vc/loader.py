"""Loads the real source of /repo for symbolic execution.

The source text is parsed on every run and instrumented mechanically: `is`/`is not` become helper calls (so that a
symbolic mode can be split), and `for` loops over a symbolic range go through the loop rule.  Nothing else is
changed; names resolve to shims of numpy, warnings, random and math and of a few builtins.
"""
import ast
import collections
import builtins as _bi
import copy as _copy
import enum as _enum
import functools
import math as _math
import operator
import os
import types
from fractions import Fraction
from .poly import Poly, Unsupported
from . import engine as E
from . import npshim as N
from .engine import SInt, SFlt, SBool, SMode, Scalar, P, is_int, is_flt, is_num, mk_int, flt_trunc
from .npshim import SArr, SList, SShape, Token, FlatElem, Idx

PKG = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'bittrue/models/python/en_cl_fix_pkg')


# ---------------------------------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------------------------------
def v_int(x=0, *a):
    if a:
        return int(x, *a)
    if isinstance(x, SArr):
        if x.nd:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.buf[0]
    if isinstance(x, FlatElem):
        raise Unsupported("value of flat element")
    if isinstance(x, (bool, SBool)):
        return 1 if x else 0
    if isinstance(x, SInt):
        return mk_int(x.p)
    if isinstance(x, SFlt):
        return mk_int(flt_trunc(x.p))
    if isinstance(x, Idx):
        return x
    return int(x)


def v_float(x=0.0):
    if isinstance(x, SArr):
        if x.nd:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.buf[0]
    if isinstance(x, (SInt, SFlt, SBool)):
        return SFlt(E.to_flt_poly(x))
    return float(x)


def v_bool(x=False):
    return bool(x)


INT = Token('int', 'i8', v_int)
FLOAT = Token('float', 'f8', v_float)
BOOL = Token('bool', 'b', v_bool)
STR = str


def v_isinstance(x, t):
    if isinstance(t, tuple):
        return any(v_isinstance(x, u) for u in t)
    if isinstance(x, FlatElem):
        if x.a.dt == 'O':
            return v_isinstance(x.a.buf[0], t)
        x = N.npscalar(x.a.buf[0], x.a.dt)
    if t is INT or t is int:
        return isinstance(x, (int,)) or (isinstance(x, SInt) and not x.np) or (isinstance(x, SBool) and not x.np)
    if t is FLOAT or t is float:
        return isinstance(x, (float, SFlt))
    if t is BOOL or t is bool:
        return isinstance(x, bool) or (isinstance(x, SBool) and not x.np)
    if t is N.FLOAT64 or t is N.FLOATING:
        return isinstance(x, SFlt) and x.np
    if t is N.INT64:
        return isinstance(x, SInt) and x.np == 'i8'
    if t is N.UINT64:
        return isinstance(x, SInt) and x.np == 'u8'
    if t is N.INTEGER:
        return isinstance(x, SInt) and bool(x.np)
    if t is N.BOOL_:
        return isinstance(x, SBool) and x.np
    if t is N.NDARRAY:
        return isinstance(x, (SArr,)) or type(x).__name__ == 'SWords'
    if t in (N.GENERIC, N.NUMBER):
        return isinstance(x, (SInt, SFlt, SBool)) and bool(x.np)
    if isinstance(t, Token):
        raise Unsupported("isinstance with %r" % t)
    if isinstance(x, SList):
        return t in (list,)
    if isinstance(x, SMode):
        return issubclass(x.cls, t)
    if isinstance(x, SShape):
        return t is tuple
    return isinstance(x, t)


def v_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SArr):
        return N.NDARRAY
    if isinstance(x, SInt):
        return N.INT64 if x.np == 'i8' else N.UINT64 if x.np else INT
    if isinstance(x, SFlt):
        return N.FLOAT64 if x.np else FLOAT
    if isinstance(x, SBool):
        return N.BOOL_ if x.np else BOOL
    if isinstance(x, bool):
        return BOOL
    if isinstance(x, int):
        return INT
    if isinstance(x, float):
        return FLOAT
    if isinstance(x, SMode):
        return x.cls
    return type(x)


def v_hasattr(x, n):
    if isinstance(x, (SInt, SFlt, SBool)) and n in ('__getitem__', '__len__', '__iter__'):
        return bool(x.np) and n == '__getitem__'
    if isinstance(x, SArr) and n in ('__len__', '__getitem__', '__iter__'):
        return True
    try:
        getattr(x, n)
        return True
    except AttributeError:
        return False


def ext(better):
    def f(*args, key=None, default=None):
        if len(args) == 1:
            a = args[0]
            if isinstance(a, SArr):
                raise Unsupported("builtin max/min of an array")
            args = list(a)
        if not args:
            if default is not None:
                return default
            raise ValueError("empty sequence")
        r = args[0]
        for x in args[1:]:
            kx, kr = (key(x), key(r)) if key else (x, r)
            if better(kx, kr):
                r = x
        return r
    return f


v_max = ext(lambda x, r: x > r)
v_min = ext(lambda x, r: x < r)


def v_round(x, n=None):
    if isinstance(x, SArr):
        raise TypeError("type numpy.ndarray doesn't define __round__ method")
    if isinstance(x, SFlt) and x.np:
        return mk_int(E.round_even(x.p))
    return round(x) if n is None else round(x, n)


class SRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


def v_range(*a):
    a = [(int(x) if isinstance(x, (int, SInt)) and P(x).is_const() else x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    return SRange(start, stop, step)


def v_pow(a, b, m=None):
    if m is not None:
        raise Unsupported("three-argument pow")
    return a ** b


def v_sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


class WarningsShim:
    def warn(self, msg, category=None, stacklevel=1, source=None):
        E.ctx().warned.append(str(category))

    def __getattr__(self, n):
        raise Unsupported("warnings.%s" % n)


class RandomShim:
    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        if step != 1:
            raise Unsupported("randrange step")
        c = E.ctx()
        lo, hi = P(start), P(stop)
        c.prove(hi - lo, '>', 'randrange range is not empty')
        c.rand_range = (lo, hi)
        v = c.int('random')
        c.add((v.p - lo, '>='))
        c.add((hi - v.p, '>'))
        return v

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def __getattr__(self, n):
        raise Unsupported("random.%s" % n)


class MathShim:
    inf = _math.inf

    def floor(self, x):
        x = N.elem(x)
        return x if is_int(x) else mk_int(E.flt_floor(P(x)))

    def ceil(self, x):
        x = N.elem(x)
        return x if is_int(x) else mk_int(-E.flt_floor(-P(x)))

    def trunc(self, x):
        return v_int(x)

    def ldexp(self, x, e):
        return v_float(x) * 2.0 ** e

    def __getattr__(self, n):
        raise Unsupported("math.%s" % n)


class FunctoolsShim:
    """functools without its caches: a cached value would survive from one symbolic run to the next."""
    partial, reduce, wraps = functools.partial, functools.reduce, functools.wraps

    @staticmethod
    def _cache(*a, **k):
        def deco(f):
            def cached(*args, **kw):
                raise Unsupported('cached function %s' % getattr(f, '__name__', f))
            return cached
        return deco(a[0]) if len(a) == 1 and callable(a[0]) and not k else deco
    lru_cache = cache = cached_property = _cache

    def __getattr__(self, n):
        raise Unsupported('functools.' + n)


class CopyShim:
    """copy.copy / deepcopy on containers, formats and arrays."""

    @staticmethod
    def copy(x):
        return _copy.copy(x)

    @staticmethod
    def deepcopy(x):
        return _copy.deepcopy(x)

    def __getattr__(self, n):
        raise Unsupported("copy.%s" % n)


def vc_loop(it, carried, where):
    """Iteration protocol of `for`: loops over a symbolic range use the loop rule (words.SymLoop)."""
    from . import words
    if isinstance(it, SRange):
        if not (isinstance(it.start, int) and it.start == 0 and isinstance(it.step, int) and it.step == 1):
            raise Unsupported("symbolic range")
        return words.SymLoop(it.stop, carried, where)
    return words.PlainLoop(it)


# ---------------------------------------------------------------------------------------------------
# instrumentation
# ---------------------------------------------------------------------------------------------------
class Instr(ast.NodeTransformer):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if any(isinstance(o, (ast.Is, ast.IsNot)) for o in node.ops):
            if len(node.ops) == 1:
                fn = 'vc__is' if isinstance(node.ops[0], ast.Is) else 'vc__is_not'
                return ast.copy_location(ast.Call(ast.Name(fn, ast.Load()), [node.left, node.comparators[0]], []), node)
        return node

    loops = 0

    def visit_For(self, node):
        carried = loop_carried(node)
        stored = sorted(stored_names([node]) - set(carried))
        self.generic_visit(node)
        Instr.loops += 1
        ln = 'vc__l%d' % Instr.loops
        src = lambda t: ast.parse(t).body
        tup = lambda ns: '(' + ''.join(n + ', ' for n in ns) + ')'
        head = src('%s = vc__loop(None, %r, %r)' % (ln, carried, '%d:%d' % (Instr.loops, node.lineno)))
        head[0].value.args[0] = node.iter
        node.iter = ast.Name(ln, ast.Load())
        tail = []
        if carried:
            node.body = src('if %s.symbolic:\n    %s = %s.enter(%s)' % (ln, tup(carried), ln, tup(carried))) + node.body
            node.body += src('if %s.symbolic:\n    %s = %s.leave(%s)' % (ln, tup(carried), ln, tup(carried)))
            tail += src('if %s.symbolic:\n    %s = %s.exit(%s)' % (ln, tup(carried), ln, tup(carried)))
        if stored:
            tail += src('if %s.symbolic:\n    %s = %s.poison(%r)' % (ln, tup(stored), ln, stored))
        for st in head + tail + node.body[:1] + node.body[-1:]:
            ast.copy_location(st, node) if not hasattr(st, 'lineno') or st in head + tail else None
        return head + [node] + tail


def stored_names(nodes):
    """Names bound by statements (comprehension variables and nested functions excluded)."""
    out = set()
    for n in nodes:
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        out |= stored_names(ast.iter_child_nodes(n))
    return out


def loop_carried(loop):
    """Names assigned in the loop body that may be read before they are assigned in the same iteration."""
    assigned = set()
    for n in ast.walk(ast.Module(loop.body, [])):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            assigned.add(n.id)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            assigned.add(n.target.id)
    carried = set()
    defined = set()

    def expr(e):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in assigned and n.id not in defined:
                carried.add(n.id)

    for st in loop.body:
        if isinstance(st, ast.Assign):
            expr(st.value)
            for t in st.targets:
                if isinstance(t, ast.Name):
                    defined.add(t.id)
                else:
                    expr(t)
        elif isinstance(st, ast.AugAssign):
            expr(st.value)
            if isinstance(st.target, ast.Name):
                if st.target.id not in defined:
                    carried.add(st.target.id)
            else:
                expr(st.target)
        else:
            expr(st)
    return sorted(carried)


# ---------------------------------------------------------------------------------------------------
# package loading
# ---------------------------------------------------------------------------------------------------
class Package:
    """One symbolic instance of en_cl_fix_pkg."""

    def __init__(self, path=PKG):
        self.path = path
        self.modules = {}
        self.np = N.NP
        self.builtins = dict(vars(_bi))
        self.builtins.update(int=INT, float=FLOAT, bool=BOOL, isinstance=v_isinstance, type=v_type, hasattr=v_hasattr, max=v_max, min=v_min,
                             range=v_range, round=v_round, pow=v_pow, sum=v_sum, vc__is=E.vc_is, vc__is_not=E.vc_is_not, vc__loop=vc_loop,
                             __import__=self.imp, open=self.forbid('open'), eval=self.forbid('eval'), exec=self.forbid('exec'))
        self.ext = {'numpy': self.np, 'warnings': WarningsShim(), 'random': RandomShim(), 'math': MathShim(), 'copy': CopyShim(), 'enum': _enum,
                    'operator': operator, '__future__': __import__('__future__'), 'typing': __import__('typing'), 'functools': FunctoolsShim(),
                    'itertools': __import__('itertools'), 'fractions': None, 'collections': __import__('collections')}
        self.load('__init__')

    def forbid(self, n):
        def f(*a, **k):
            raise Unsupported(n)
        return f

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in ('sys', 'os', 'os.path', 'pathlib'):
            return __import__(name, globals, locals, fromlist)
        if level == 0:
            m = self.ext.get(name)
            if m is None:
                raise Unsupported("import of %s" % name)
            return m
        if level == 1:
            if name:
                m = self.load(name)
                return m
            pk = types.SimpleNamespace()
            for n in fromlist:
                setattr(pk, n, self.load(n))
            return pk
        raise Unsupported("relative import")

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        fn = '%s/%s.py' % (self.path, name)
        src = open(fn).read()
        tree = ast.parse(src, fn)
        tree = ast.fix_missing_locations(Instr().visit(tree))
        m = types.ModuleType('en_cl_fix_pkg.' + name)
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__package__'] = 'en_cl_fix_pkg'
        m.__dict__['__file__'] = fn
        self.modules[name] = m
        exec(compile(tree, fn, 'exec'), m.__dict__)
        return m

    def mod(self, name):
        return self.load(name)

    def find(self, name):
        """Global name looked up across the package's modules."""
        for m in self.modules.values():
            if name in m.__dict__:
                return m.__dict__[name]
        raise Unsupported("no %s in the package" % name)

    def persistent(self):
        """Everything of the package that outlives a call: module and class attributes, default arguments, and the contents
        of the containers and arrays among them (compared by identity)."""
        out, conts, seen = {}, {}, set()

        def add(key, v):
            out[key] = v
            if isinstance(v, type) and v.__module__ and v.__module__.startswith('en_cl_fix_pkg') and id(v) not in seen:
                seen.add(id(v))
                for k, x in list(vars(v).items()):
                    if not (k.startswith('__') and k.endswith('__')) or isinstance(x, types.FunctionType):
                        add((key, k), x)
            f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
            if isinstance(f, types.FunctionType):
                for i, x in enumerate((f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values())):
                    content((key, i), x)
                for k, x in f.__dict__.items():
                    add((key, 'attr', k), x)
            content(key, v)

        def content(key, v):
            if isinstance(v, N.SArr):
                conts[key] = (v, list(v.buf))
            elif isinstance(v, dict):
                conts[key] = (v, [y for kv in v.items() for y in kv])
            elif isinstance(v, (list, set, bytearray, collections.deque)):
                conts[key] = (v, list(v))
            elif type(v).__module__.startswith('en_cl_fix_pkg') and not isinstance(v, (type, _enum.Enum)) and hasattr(v, '__dict__'):
                conts[key] = (v, [y for kv in vars(v).items() for y in kv])
        for mn, m in self.modules.items():
            for k, v in list(m.__dict__.items()):
                if k != '__builtins__':
                    add((mn, k), v)
        return out, conts

    @staticmethod
    def unchanged(old, new):
        fn = (types.FunctionType, staticmethod, classmethod, property)      # functions are replaced by contracts
        o, n = old[0], new[0]
        if any((k not in n or v is not n[k]) and not isinstance(v, fn) for k, v in o.items()) or any(k not in o and not isinstance(v, fn) for k, v in n.items()):
            return False
        o, n = old[1], new[1]
        return all(k not in n or c is not n[k][0] or len(e) == len(n[k][1]) and all(x is y for x, y in zip(e, n[k][1])) for k, (c, e) in o.items())

    def patch(self, owner, name, new):
        """Replace a function by a contract stub everywhere it is bound."""
        raw = owner.__dict__.get(name) if isinstance(owner, type) else owner.__dict__[name]
        if raw is None:
            raise Unsupported("no function %s" % name)
        old = raw.__func__ if isinstance(raw, staticmethod) else raw
        undo = []
        if isinstance(owner, type):
            undo.append((owner, name, raw))
            setattr(owner, name, staticmethod(new) if isinstance(raw, staticmethod) else new)
        for m in self.modules.values():
            for k, v in list(m.__dict__.items()):
                if v is old:
                    undo.append((m, k, v))
                    m.__dict__[k] = new
        return undo

    def unpatch(self, undo):
        for o, n, v in reversed(undo):
            if isinstance(o, type):
                setattr(o, n, v)
            else:
                o.__dict__[n] = v


import builtins  # noqa: E402
