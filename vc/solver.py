"""Arithmetic back end: decides conjunctions of polynomial/power-of-two facts by instantiating lemma schemas
(see lemmas/ for their Lean statements) and handing the resulting linear mixed integer/real problem to z3."""
import time
from fractions import Fraction
from math import gcd
import z3
from .poly import Poly, Sym, mono_mul, ZERO, ONE, syntactic_int

NEG = {'>=': '<', '>': '<=', '=': '!=', '!=': '='}


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.stage = {}
        self.max_time = 0.0
        self.z3time = 0.0
        self.lin = 0
        self.slowest = (0, '', '')


STATS = Stats()
TIMEOUT_MS = 60000
RLIMIT = (2000000, 3000000, 6000000, 16000000)      # deterministic effort limits per stage


def neg_fact(f):
    """Negation of an atomic fact as a list of alternatives (each one atomic fact)."""
    p, r = f
    if r == '>=':
        return [(-p, '>')]
    if r == '>':
        return [(-p, '>=')]
    if r == '=':
        return [(p, '>'), (-p, '>')]
    if r == '!=':
        return [(p, '=')]
    raise ValueError(r)


def const_truth(f):
    p, r = f
    if not p.is_const():
        return None
    c = p.const_value()
    return {'>=': c >= 0, '>': c > 0, '=': c == 0, '!=': c != 0}[r]


# ---------------------------------------------------------------------------------------------------
# Pure linear integer reasoning over format symbols (exponents)
# ---------------------------------------------------------------------------------------------------
class LinState:
    """Interned set of linear facts (shared by all paths and queries of a task) with an entailment memo."""
    __slots__ = ('parent', 'fact', 'kids', 'memo', 'solver', 'facts', 'bounds', 'models')

    def __init__(self, parent, fact):
        self.parent, self.fact = parent, fact
        self.kids, self.memo, self.solver = {}, {}, None
        self.facts = parent.facts | {fact} if parent is not None else frozenset()
        self.bounds = dict(parent.bounds) if parent is not None else {}
        self.models = [m for m in parent.models if lin_eval(fact, m)] if parent is not None else [{}]
        if fact is not None and fact[1] in ('>=', '>', '='):
            self.note(fact[0], fact[1] == '>')
            if fact[1] == '=':
                self.note(-fact[0], False)

    def note(self, p, strict):
        """Direct lower bounds: linear part >= k."""
        c = p.const_value()
        lin = p - c
        k = -c
        if strict:
            k = k.__floor__() + 1
        else:
            k = k.__ceil__()
        if k > self.bounds.get(lin, k - 1):
            self.bounds[lin] = k

    def child(self, fact):
        if fact in self.facts:
            return self
        r = self.kids.get(fact)
        if r is None:
            r = self.kids[fact] = LinState(self, fact)
        return r

    def get_solver(self):
        if self.solver is None:
            s = z3.Solver()
            s.set('timeout', 10000)
            for f in self.facts:
                s.add(zrel(f))
            self.solver = s
        return self.solver

    def entails(self, f):
        v = self.memo.get(f)
        if v is not None:
            return v
        v = self.entails0(f)
        self.memo[f] = v
        return v

    def entails0(self, f):
        if f in self.facts:
            return True
        q = self.parent
        while q is not None:
            m = q.memo.get(f)
            if m:
                return True
            if m is False:
                break
            q = q.parent
        p, r = f
        if r in ('>=', '>'):
            c = p.const_value()
            lin = p - c
            k = self.bounds.get(lin)
            if k is not None and (k + c > 0 or (r == '>=' and k + c == 0)):
                return True
        for m in self.models:
            if not lin_eval(f, m):
                return False
        t0 = time.time()
        s = self.get_solver()
        s.push()
        s.add(zrel(neg_lin(f)))
        r = s.check()
        v = r == z3.unsat
        if r == z3.sat and len(self.models) < 60:
            zm = s.model()
            m = {}
            for d in zm.decls():
                sym = _BYNAME.get(d.name())
                if sym is not None:
                    m[sym] = zm[d].as_long()
            self.models.append(m)
        s.pop()
        STATS.lin += 1
        STATS.time += time.time() - t0
        return v


def lin_eval(f, m):
    p, r = f
    t = 0
    for (ex, at), c in p.d.items():
        t += c * m.get(at[0], 0) if at else c
    return t >= 0 if r == '>=' else t > 0 if r == '>' else t == 0 if r == '=' else t != 0


def neg_lin(f):
    p, r = f
    return {'>=': (-p, '>'), '>': (-p, '>='), '=': (p, '!='), '!=': (p, '=')}[r]


_ZV = {}
_ZR = {}
_BYNAME = {}


def zrel(f):
    v = _ZR.get(f)
    if v is not None:
        return v
    p, r = f
    den = 1
    for c in p.d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    if den != 1:
        p = p * den
    t = 0
    for (ex, at), c in p.d.items():
        if not at:
            t = t + int(c)
        else:
            v = _ZV.get(at[0])
            if v is None:
                v = _ZV[at[0]] = z3.Int("i%d" % at[0].id)
                _BYNAME["i%d" % at[0].id] = at[0]
            t = t + v * int(c)
    if isinstance(t, int):
        v = z3.BoolVal({'>=': t >= 0, '>': t > 0, '=': t == 0, '!=': t != 0}[r])
    else:
        v = {'>=': t >= 0, '>': t > 0, '=': t == 0, '!=': t != 0}[r]
    _ZR[f] = v
    return v


LIN_ROOT = LinState(None, None)


def reset_lin():
    global LIN_ROOT
    LIN_ROOT = LinState(None, None)
    _ZV.clear()
    _ZR.clear()
    _BYNAME.clear()


class LinCtx:
    """Incremental linear-integer context; entailment of linear facts with memo."""

    def __init__(self, facts=()):
        self.state = LIN_ROOT
        for f in facts:
            self.add(f)

    def add(self, f):
        self.state = self.state.child(f)

    def entails(self, f):
        k = const_truth(f)
        if k is not None:
            return k
        return self.state.entails(f)


def lin_facts(facts):
    return [f for f in facts if f[0].is_linear_int()]


# ---------------------------------------------------------------------------------------------------
# Query
# ---------------------------------------------------------------------------------------------------
def equality_subst(facts):
    """Gaussian elimination on linear integer equalities with a unit coefficient variable."""
    m = {}
    changed = True
    todo = [f[0] for f in facts if f[1] == '=' and f[0].is_linear_int()]
    while todo:
        p = todo.pop().subst(m, {})
        cand = None
        for (ex, at), c in p.d.items():
            if at and abs(c) == 1 and at[0].kind == 'var':
                if cand is None or at[0].id > cand[0].id:
                    cand = (at[0], c)
        if cand is None or not syntactic_int(p):
            continue
        s, c = cand
        e = Poly.var(s) - p * (1 / c)      # s = e
        m = {k: v.subst({s: e}, {}) for k, v in m.items()}
        m[s] = e
    return m


def collect_syms(polys):
    seen, order, work = set(), [], list(polys)
    while work:
        p = work.pop()
        for s in p.syms():
            if s in seen:
                continue
            seen.add(s)
            order.append(s)
            if s.kind == 'floor':
                work.append(s.args[0])
            elif s.kind == 'opaque':
                for a in s.args[1]:
                    if isinstance(a, Poly):
                        work.append(a)
                for f in sym_facts(s):
                    work.append(f[0])
    return order


def sym_facts(s):
    if s.kind == 'floor':
        t = s.args[0]
        q = Poly.var(s)
        return [(t - q, '>='), (q + 1 - t, '>')]
    if s.kind == 'opaque' and s.facts is not None:
        return s.facts(Poly.var(s), s.args[1])
    return []


def exp_poly(ex):
    r = ZERO
    for s, k in ex:
        r = r + Poly.var(s) * k
    return r


class Query:
    def __init__(self, facts, hints=()):
        self.raw = list(facts)
        self.hints = hints
        self.model = None
        self.trivially_unsat = False
        self.prepare()

    def implied_equalities(self):
        """Linear inequalities that hold with equality (their opposite is entailed)."""
        lf = lin_facts(self.raw)
        inexp = {s for p, r in self.raw for (ex, at) in p.d for s, _ in ex}
        if not inexp:
            return []
        cand = [p for p, r in lf if r == '>=' and len(p.d) > 1 and any(at and at[0] in inexp for ex, at in p.d)]
        if not cand:
            return []
        lin = LinCtx(lf)
        return [(p, '=') for p in dict.fromkeys(cand) if lin.entails((-p, '>='))]

    def prepare(self):
        eqs = self.implied_equalities()
        if eqs:
            self.raw = self.raw + eqs
        m = equality_subst(self.raw)
        self.sub = m
        facts = []
        if m:
            memo = {}
            facts = [(p.subst(m, memo), r) for p, r in self.raw]
        else:
            facts = list(self.raw)
        # definitional facts
        base = {}
        for f in facts:
            t = const_truth(f)
            if t is True:
                continue
            if t is False:
                self.trivially_unsat = True
                return
            base[f] = None
        syms = collect_syms([f[0] for f in base])
        for s in syms:
            for f in sym_facts(s):
                if m:
                    f = (f[0].subst(m, {}), f[1])
                t = const_truth(f)
                if t is False:
                    self.trivially_unsat = True
                    return
                if t is None:
                    base[f] = None
        self.facts = list(base)
        self.clauses = []
        for s in syms:
            if s.kind == 'opaque' and s.clauses is not None:
                for cl in s.clauses(Poly.var(s), s.args[1]):
                    self.clauses.append([(p.subst(m, {}), r) if m else (p, r) for p, r in cl])
        self.lin = LinCtx(lin_facts(self.facts))
        self._order = {}

    # is 2**ex an integer multiple of 2**k ?
    def exp_ge(self, ex, k):
        return self.lin.entails((exp_poly(ex) - k, '>='))

    def common_exp(self, p):
        """Find monomial exponent E_i such that E_j - E_i >= 0 for all j (entailed); returns ex or None."""
        exs = []
        for (ex, at), c in p.d.items():
            if any(not s.is_int for s in at):
                return None
            if ex not in exs:
                exs.append(ex)
        if len(exs) == 1:
            return exs[0]
        for e in exs:
            pe = exp_poly(e)
            ok = True
            for o in exs:
                if o is e:
                    continue
                if not self.lin.entails((exp_poly(o) - pe, '>=')):
                    ok = False
                    break
            if ok:
                return e
        return None

    def integral_scale(self, p, strict):
        """For p (>0 or >=0) over integer symbols: scaled version that is a sum of integers, tightened."""
        e = self.common_exp(p)
        if e is None:
            return None
        neg = tuple((s, -k) for s, k in e)
        q = p * Poly({(neg, ()): Fraction(1)})
        # c*2**ex*atoms is an integer when the denominator of c is 2**j and ex >= j is entailed
        units = {}
        den = 1
        for (ex, at), c in q.d.items():
            d = c.denominator
            j = 0
            if ex:
                while d % 2 == 0 and j < 64 and self.exp_ge(ex, j + 1):
                    d //= 2
                    j += 1
            units[(ex, at)] = j
            den = den * d // gcd(den, d)
        if den != 1:
            q = q * den
        g = 0
        for k, c in q.d.items():
            g = gcd(g, int(c * 2 ** units[k]))
        if g > 1:
            q = q * Fraction(1, g)
        if strict:
            q = q - 1
        return q, (q * Poly({(e, ()): Fraction(g, den)}))

    def scaled(self, facts, targets, include_pure):
        out = []
        for (p, r) in facts:
            deltas = set()
            atoms_in = [k for k in p.d if k[1]]
            if atoms_in:
                for (ex, at) in atoms_in:
                    for e2 in targets.get(at, ()):
                        if e2 != ex:
                            deltas.add(diff(e2, ex))
            elif include_pure and len(p.d) >= 2:
                for (ex, at) in p.d:
                    for e2 in targets.get((), ()):
                        if e2 != ex:
                            deltas.add(diff(e2, ex))
            for dlt in deltas:
                out.append((p * Poly({(dlt, ()): Fraction(1)}), r))
        return out

    def run(self, max_stage=3):
        """True: unsat (proved); False: z3 found a model at the last stage; None: unknown."""
        if self.trivially_unsat:
            return True
        t0 = time.time()
        res = None
        pure_lin = all(f[0].is_linear_int() for f in self.facts)
        try:
            for stage in range(max_stage + 1):
                res = self.stage(stage)
                if res is True or pure_lin:
                    STATS.stage[stage] = STATS.stage.get(stage, 0) + 1
                    return res
            return res
        finally:
            dt = time.time() - t0
            STATS.queries += 1
            STATS.time += dt
            STATS.max_time = max(STATS.max_time, dt)

    def stage(self, stage):
        facts = dict.fromkeys(self.facts)

        def addf(f):
            t = const_truth(f)
            if t is True:
                return
            facts[f] = None

        # integral tightening of strict facts
        for (p, r) in list(facts):
            if r in ('>', '>=') and not p.is_linear_int():
                v = self.integral_scale(p, r == '>')
                if v is not None:
                    addf((v[0], '>='))
                    if r == '>' and stage >= 1:
                        addf((v[1], '>='))
        if stage >= 1:
            targets = self.targets(facts, stage)
            for f in self.scaled(list(facts), targets, stage >= 3):
                addf(f)
        if stage >= 2:
            # products
            for f in self.products(list(facts)):
                addf(f)
            targets = self.targets(facts, stage)
            for f in self.scaled(list(self.facts), targets, False):
                addf(f)
        if len(facts) > 1500:
            facts = dict.fromkeys(list(facts)[:1500])
        return self.check(list(facts), stage)

    def targets(self, facts, stage):
        t = {}
        for (p, r) in facts:
            for (ex, at) in p.d:
                t.setdefault(at, {})[ex] = None
        return {k: list(v) for k, v in t.items()}

    def products(self, facts):
        """McCormick-style products of bounds for each non-linear atom pair that occurs."""
        pairs = {}
        for (p, r) in facts:
            for (ex, at) in p.d:
                if len(at) == 2:
                    pairs[at] = None
        out = []
        if not pairs:
            return out
        by_atom = {}
        for (p, r) in self.facts:
            if r == '!=':
                continue
            ats = {at for (ex, at) in p.d if at}
            if len(ats) == 1:
                (a,) = ats
                if len(a) == 1:
                    by_atom.setdefault(a[0], []).append((p, r))
        tg = self.targets(facts, 0)
        for at in pairs:
            x, y = at
            for (p, r) in by_atom.get(x, ())[:8]:
                for (q, r2) in by_atom.get(y, ())[:8]:
                    for pp in ((p, -p) if r == '=' else (p,)):
                        for qq in ((q, -q) if r2 == '=' else (q,)):
                            pr = pp * qq
                            out.append((pr, '>='))
                            for (ex, a2) in pr.d:
                                if a2 == at:
                                    for e2 in tg.get(at, ()):
                                        if e2 != ex:
                                            out.append((pr * Poly({(diff(e2, ex), ()): Fraction(1)}), '>='))
        return out

    # -- z3 ------------------------------------------------------------------------------------
    def check(self, facts, stage):
        decl = []
        body = []
        zv = {}
        ints = {}

        def iv(sym):
            v = ints.get(sym)
            if v is None:
                v = ints[sym] = "v%d" % sym.id
                decl.append("(declare-const %s %s)" % (v, 'Int' if sym.is_int else 'Real'))
            return v

        # coefficient denominators per monomial (for integrality of halves)
        need = {}
        clauses = self.clauses
        allf = list(facts) + [f for cl in clauses for f in cl]
        for (p, r) in allf:
            for k, c in p.d.items():
                if k[0]:
                    d2 = c.denominator.bit_length() - 1
                    if d2 > need.get(k, -1):
                        need[k] = d2

        def mono(k):
            """(text, is_int, factor): the monomial is factor * text."""
            v = zv.get(k)
            if v is not None:
                return v
            ex, at = k
            if not ex and len(at) == 1:
                v = (iv(at[0]), at[0].is_int, 1)
            else:
                n = "m%d" % len(zv)
                if all(a.is_int for a in at) and (not ex or self.exp_ge(ex, 0)):
                    kk = min(need.get(k, 0), 64) if ex else 0
                    while kk > 0 and not self.exp_ge(ex, kk):
                        kk -= 1
                    decl.append("(declare-const %s Int)" % n)
                    if not at:
                        body.append("(>= %s 1)" % n)
                    v = (n, True, 2 ** kk)
                else:
                    decl.append("(declare-const %s Real)" % n)
                    if not at:
                        body.append("(> %s 0.0)" % n)
                    v = (n, False, 1)
            zv[k] = v
            return v

        def num(c, real):
            if real:
                return "%d.0" % c if c >= 0 else "(- %d.0)" % -c
            return str(c) if c >= 0 else "(- %d)" % -c

        def terms(ts):
            """Sum of (coefficient, mono or None)."""
            real = any(m is not None and not m[1] for c, m in ts)
            out = []
            for c, m in ts:
                if m is None:
                    out.append(num(c, real))
                    continue
                n, isint, f = m
                c = c * f
                if real and isint:
                    n = "(to_real %s)" % n
                out.append(n if c == 1 else "(* %s %s)" % (num(c, real), n))
            if not out:
                return "0", False
            return (out[0] if len(out) == 1 else "(+ %s)" % ' '.join(out)), real

        def rel(p, r):
            den = 1
            for c in p.d.values():
                den = den * c.denominator // gcd(den, c.denominator)
            ts = [(int(c * den), None if k == ((), ()) else mono(k)) for k, c in p.d.items()]
            t, real = terms(ts)
            z = "0.0" if real else "0"
            return "(not (= %s %s))" % (t, z) if r == '!=' else "(%s %s %s)" % (r, t, z)

        for (p, r) in facts:
            body.append(rel(p, r))
        for cl in clauses:
            body.append("(or %s)" % ' '.join(rel(p, r) for p, r in cl))
        # power lemmas
        exps = []
        for (p, r) in allf:
            for (ex, at) in p.d:
                if ex and not at and ex not in exps:
                    exps.append(ex)
        consts = self.harvest()
        allx = [()] + exps
        big = len(allx) > 14

        def le(a, b):
            """a <= b for (coefficient, mono) pairs"""
            real = (a[1] is not None and not a[1][1]) or (b[1] is not None and not b[1][1])

            def one(c, m):
                if m is None:
                    return num(c, real)
                n = "(to_real %s)" % m[0] if real and m[1] else m[0]
                c = c * m[2]
                return n if c == 1 else "(* %s %s)" % (num(c, real), n)
            return "(<= %s %s)" % (one(*a), one(*b))

        def up(k):
            return 2 ** k if k > 0 else 1

        for i in range(len(allx)):
            for j in range(i + 1, len(allx)):
                d = exp_poly(allx[j]) - exp_poly(allx[i])
                ks = {0, 1, -1}
                ks |= consts.get(d, set())
                pj = mono((allx[j], ()))
                pi = mono((allx[i], ())) if allx[i] else None
                lo = hi = None
                for k in sorted(ks):
                    if self.lin.entails((d - k, '>=')):
                        lo = k
                    elif hi is None and self.lin.entails((k - d, '>=')):
                        hi = k
                if lo is not None:
                    body.append(le((up(lo), pi), (up(-lo), pj)))
                if hi is not None:
                    body.append(le((up(-hi), pj), (up(hi), pi)))
                if lo is not None and hi is not None and lo == hi:
                    continue
                if stage >= 1 or not big:
                    zd = terms([(int(c), (iv(at[0]), True, 1) if at else None) for (ex, at), c in d.d.items()])[0]
                    for k in sorted(ks):
                        if lo is not None and k <= lo:
                            continue
                        if hi is not None and k >= hi:
                            continue
                        body.append("(=> (>= %s %s) %s)" % (zd, num(k, False), le((up(k), pi), (up(-k), pj))))
                        body.append("(=> (<= %s %s) %s)" % (zd, num(k, False), le((up(-k), pj), (up(k), pi))))
                    if lo is not None:
                        body.append("(=> (<= %s %s) %s)" % (zd, num(lo, False), le((up(-lo), pj), (up(lo), pi))))
                    if hi is not None:
                        body.append("(=> (>= %s %s) %s)" % (zd, num(hi, False), le((up(hi), pi), (up(-hi), pj))))
        text = '\n'.join(decl) + '\n' + '\n'.join("(assert %s)" % t for t in body)
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', TIMEOUT_MS)
        s.set('rlimit', RLIMIT[stage])
        s.from_string(text)
        r = s.check()
        dt = time.time() - t0
        STATS.z3time += dt
        if dt > STATS.slowest[0]:
            STATS.slowest = (dt, text, str(r))
        if r == z3.unsat:
            return True
        if r == z3.sat:
            self.model = (s.model(), {sym: (z3.Int if sym.is_int else z3.Real)(n) for sym, n in ints.items()})
            return False
        self.model = None
        return None

    def harvest(self):
        """Constants k such that some linear fact compares an exponent form with k."""
        out = {}
        for (p, r) in self.facts:
            if p.is_linear_int() and r != '!=':
                c = p.const_value()
                if c.denominator != 1 or any(k.denominator != 1 for k in p.d.values()):
                    continue
                lin = p - c
                k = -int(c)
                ks = {k, k + 1, k - 1} if r == '>' else {k, k - 1}
                if r == '=':
                    ks = {k}
                out.setdefault(lin, set()).update(ks)
                out.setdefault(-lin, set()).update({-x for x in ks})
        return out

    def model_values(self):
        """Values for base integer/real symbols from the last z3 model (a candidate only)."""
        if not self.model:
            return {}
        m, ints = self.model
        out = {}
        for s, v in ints.items():
            x = m.eval(v, model_completion=True)
            try:
                out[s] = Fraction(x.numerator_as_long(), x.denominator_as_long()) if z3.is_rational_value(x) else Fraction(x.as_long())
            except Exception:
                pass
        # substituted symbols
        for s, e in self.sub.items():
            try:
                out[s] = e.eval(out)
            except Exception:
                pass
        return out


def diff(e2, e1):
    d = dict(e2)
    for s, k in e1:
        n = d.get(s, 0) - k
        if n:
            d[s] = n
        else:
            del d[s]
    return tuple(sorted(d.items(), key=lambda t: t[0].id))


def prove(facts, goal, alternatives=(), max_stage=3):
    """facts |= goal or any of alternatives.  Returns (True|False|None, query)."""
    t = const_truth(goal)
    if t is True:
        return True, None
    extra = []
    eqs = []
    for g in alternatives:
        tt = const_truth(g)
        if tt is True:
            return True, None
        n = neg_fact(g)
        if len(n) == 1:
            extra.append(n[0])
        else:
            eqs.append(n)
    worst = (True, None)
    combos = [[]]
    for n in eqs:
        combos = [c + [x] for c in combos for x in n]
    for n in neg_fact(goal):
        for c in combos:
            q = Query(list(facts) + extra + c + [n])
            r = q.run(max_stage)
            if r is not True:
                return r, q
    return worst
