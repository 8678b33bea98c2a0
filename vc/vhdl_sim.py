"""Elaboration and event-driven execution of VHDL entities with symbolic signal values (delta cycles of the language)."""
from .poly import Poly, Unsupported, ZERO
from . import engine as E
from .engine import P, mk_int, is_int, is_flt
from .vhdl import Vhdl, VErr, Vec, Bit, Meta, Rec, Env, Cell, T, INT, err, entails


class Sig:
    """A signal: current value and event flag; cells of ports of inner instances share it."""

    def __init__(self, name, val):
        self.name, self.val, self.event, self.rising, self.driver = name, val, False, False, None


class SigCell(Cell):
    __slots__ = ('base',)

    def __init__(self, base, t, cons):
        self.base = base
        self.t, self.cons, self.kind = t, cons, 'signal'

    @property
    def v(self):
        x = self.base.val
        if isinstance(x, Vec) and self.cons is not None:
            return Vec(x.k, x.w, x.n, self.cons)
        return x

    @v.setter
    def v(self, x):
        raise Unsupported('assignment to a signal with :=')


class Design:
    """An elaborated entity."""

    def __init__(self, V, name, generics, init={}):
        self.V = V
        self.procs = []         # (sens, body, env, drives)
        self.sigs = []
        self.next = {}
        self.cur = None
        V.sim = self
        self.env = self.elaborate(name, generics, {}, name)
        for n, v in init.items():
            self.env.vars[n].base.val = v
        self.settle(set(self.sigs), first=True)

    # -- elaboration --------------------------------------------------------------------------------
    def signal(self, name, t, cons):
        s = Sig(name, self.arbitrary(t, cons))
        self.sigs.append(s)
        return SigCell(s, t, cons)

    def arbitrary(self, t, cons):
        """Any value of the type (any state the design can have reached)."""
        V = self.V
        if t.k == 'int':
            x = E.ctx().int('state')
            for b, sign in ((t.lo, 1), (t.hi, -1)):
                if b is not None:
                    E.ctx().add(((x.p - P(b)) * sign, '>='))
            return x
        if t.k == 'bool':
            return bool(E.ctx().choose(2))
        if t.k == 'enum':
            return t.lits[E.ctx().choose(len(t.lits))]
        if t.k == 'rec':
            return Rec(t, {n: self.arbitrary(ft, fc) for n, ft, fc in t.fields})
        return V.default(t, cons)

    def elaborate(self, name, generics, ports, path):
        V = self.V
        if name not in V.ents or name not in V.archs:
            raise Unsupported('entity %s' % name)
        _, _, gens, prts = V.ents[name][:4]
        _, _, _, decls, conc = V.archs[name][:5]
        env = Env(V.g)
        for n, mode, ty, d in gens:
            t, cons = V.type(ty, env)
            if n in generics:
                v = generics[n]
            elif d is not None:
                v = V.eval(d, env)
            else:
                raise Unsupported('generic %s of %s has no value' % (n, name))
            env.vars[n] = Cell(V.coerce(v, t, cons, 0, '%s.%s' % (name, n)), t, cons)
        for n, mode, ty, d in prts:
            t, cons = V.type(ty, env)
            a = ports.get(n)
            if a is None:
                if mode == 'in' and path != name and d is None:
                    raise Unsupported('input %s of %s is not connected' % (n, name))
                env.vars[n] = self.signal(path + '.' + n, t, cons)
                if mode == 'in' and path != name:
                    try:
                        v = V.coerce(V.eval(d, env), t, cons, 0, n)
                        if not isinstance(v, Meta):
                            env.vars[n].base.val = v
                    except Unsupported:
                        pass
            elif isinstance(a, SigCell):
                x = a.base.val
                if isinstance(x, Vec) and cons is not None:
                    w = V.width_of(cons)
                    if not (x.w == w or E.ctx().decide(x.w - w, '=')):
                        err(0, 'length mismatch of port %s of %s' % (n, name))
                env.vars[n] = SigCell(a.base, t, cons)
            else:
                # expression as actual: an implicit concurrent assignment
                expr, outer = a
                cell = env.vars[n] = self.signal(path + '.' + n, t, cons)
                self.procs.append((None, [('sigassign', ('name', n, 0), expr, 0)], outer, {n: cell}, True))
        self.declare(decls, env, path)
        self.concurrent(conc, env, path)
        return env

    def declare(self, decls, env, path):
        for d in decls:
            if d[0] == 'signal':
                t, cons = self.V.type(d[2], env)
                env.vars[d[1]] = self.signal(path + '.' + d[1], t, cons)
            else:
                self.V.declare([d], env)

    def concurrent(self, stmts, env, path):
        V = self.V
        for s in stmts:
            k = s[0]
            if k == 'cassign':
                self.procs.append((None, [('sigassign', s[1], s[2], s[3])], env, None, True))
            elif k == 'process':
                _, label, sens, decls, body, line = s
                if sens == []:
                    raise Unsupported('line %s: process without sensitivity list' % line)
                e = Env(env)
                V.declare(decls, e)
                for c in e.vars.values():
                    if c.kind == 'variable':
                        c.v = self.arbitrary(c.t, c.cons)
                cells = None if sens is None else [self.base_of(x, env) for x in sens]
                self.procs.append((cells, body, e, None, False))
            elif k == 'generate':
                for c, b in s[1]:
                    if V.cond(c, env):
                        self.generate(b, env, path)
                        break
                else:
                    self.generate(s[2], env, path)
            elif k == 'forgenerate':
                l, d, r = V.range(s[2], env)
                a, b = V.conc(l), V.conc(r)
                for i in (range(a, b + 1) if d == 'to' else range(a, b - 1, -1)):
                    e = Env(env)
                    e.vars[s[1]] = Cell(i, INT)
                    self.generate(s[3], e, '%s(%d)' % (path, i))
            elif k == 'instance':
                _, label, n, gm, pm, line = s
                if n not in V.ents:
                    raise Unsupported('entity %s' % n)
                names = [g[0] for g in V.ents[n][2]]
                gens = {}
                for i, (f, a) in enumerate(gm):
                    gens[f[1] if f is not None else names[i]] = V.eval(a, env)
                names = [p[0] for p in V.ents[n][3]]
                modes = {p[0]: p[1] for p in V.ents[n][3]}
                ports = {}
                for i, (f, a) in enumerate(pm):
                    if f is not None and f[0] != 'name':
                        raise Unsupported('line %s: port association' % line)
                    fn = f[1] if f is not None else names[i]
                    if a == ('open',):
                        continue
                    c = env.find('vars', a[1])[1] if a[0] == 'name' else None
                    if isinstance(c, SigCell):
                        ports[fn] = c
                    elif modes[fn] == 'in':
                        ports[fn] = (a, env)
                    else:
                        raise Unsupported('line %s: port association' % line)
                self.elaborate(n, gens, ports, path + '.' + (label or n))
            elif k == 'cassert':
                self.procs.append((None, [s[1]], env, None, True))
            else:
                raise Unsupported('concurrent statement ' + k)

    def generate(self, body, env, path):
        e = Env(env)
        for s in body:
            if s[0] == 'gendecls':
                self.declare(s[1], e, path)
        self.concurrent([s for s in body if s[0] != 'gendecls'], e, path)

    def base_of(self, x, env):
        while x[0] in ('call', 'field'):
            x = x[1]
        c = env.find('vars', x[1])[1]
        if not isinstance(c, SigCell):
            raise Unsupported('sensitivity list')
        return c.base

    # -- execution ----------------------------------------------------------------------------------
    def assign(self, s, env):
        V = self.V
        _, tgt, e, line = s
        i, (sens, body, penv, extra, comb) = self.cur
        name = tgt
        while name[0] in ('call', 'field'):
            name = name[1]
        name = name[1]
        cell = (extra or {}).get(name) or env.find('vars', name)[1]
        if not isinstance(cell, SigCell):
            raise Unsupported('line %s: signal assignment to %s' % (line, name))
        b = cell.base
        if b.driver is None:
            b.driver = i
        elif b.driver != i:
            raise Unsupported('signal %s has several drivers' % b.name)
        if tgt[0] == 'name':
            v = V.coerce(V.eval(e, env), cell.t, cell.cons, line, name)
        else:
            _, upd = V.target(tgt, env, line)
            old = self.next.get(b, b.val)
            if isinstance(old, Vec) and cell.cons is not None:
                old = Vec(old.k, old.w, old.n, cell.cons)
            v = upd(old, lambda: V.eval(e, env))
        self.next[b] = v

    def same(self, x, y):
        if isinstance(x, Vec) and isinstance(y, Vec):
            return x.n == y.n or entails(x.n - y.n, '=')
        if isinstance(x, Bit) and isinstance(y, Bit):
            return x.p == y.p or entails(x.p - y.p, '=')
        if (is_int(x) and is_int(y)) or (is_flt(x) and is_flt(y)):
            return P(x) == P(y) or entails(P(x) - P(y), '=')
        if isinstance(x, Rec) and isinstance(y, Rec):
            return all(self.same(x.d[n], y.d[n]) for n in x.d)
        return x is y

    def settle(self, changed, first=False):
        """Delta cycles until nothing changes."""
        V = self.V
        V.sim = self
        for _ in range(40):
            if not changed and not first:
                return
            self.next = {}
            for i, p in enumerate(self.procs):
                sens, body, env, extra, comb = p
                if first or sens is None or any(s in changed for s in sens):
                    self.cur = (i, p)
                    r = V.block(body, env)
                    if r is not None and r[0] not in ('ret',):
                        raise Unsupported('process body')
            for s in self.sigs:
                s.event = s.rising = False
            changed, first = set(), False
            for b, v in self.next.items():
                if not self.same(b.val, v):
                    old, b.val = b.val, v
                    b.event = True
                    b.rising = self.edge(old, v)
                    changed.add(b)
        raise Unsupported('combinational loop')

    def edge(self, old, new):
        if isinstance(old, Bit) and isinstance(new, Bit) and old.p.is_const() and new.p.is_const():
            return old.p.const_value() == 0 and new.p.const_value() == 1
        return None

    def drive(self, **vals):
        """Assign input ports of the top entity and let the design settle."""
        changed = set()
        for n, v in vals.items():
            c = self.env.vars[n]
            if isinstance(v, Vec):
                v = Vec(c.t.v, c.base.val.w, v.n)
            b = c.base
            if not self.same(b.val, v):
                old, b.val = b.val, v
                b.event = True
                b.rising = self.edge(old, v)
                changed.add(b)
        self.settle(changed)

    def get(self, name):
        return self.env.vars[name].v


class VhdlSim(Vhdl):
    sim = None

    def sigassign(self, s, env):
        if self.sim is None:
            return super().sigassign(s, env)
        self.sim.assign(s, env)

    def sig_of(self, e, env):
        c = env.find('vars', e[1])[1] if e[0] == 'name' else None
        if not isinstance(c, SigCell):
            raise Unsupported('edge of an expression')
        return c.base

    def eval_call(self, e, env):
        if e[1][0] == 'name' and e[1][1] in ('rising_edge', 'falling_edge') and len(e[2]) == 1:
            b = self.sig_of(e[2][0][1], env)
            if not b.event:
                return False
            if b.rising is None:
                raise Unsupported('edge of a data signal')
            return b.rising == (e[1][1] == 'rising_edge')
        return super().eval_call(e, env)

    def attr(self, e, env):
        if e[2] == 'event':
            return self.sig_of(e[1], env).event
        return super().attr(e, env)
