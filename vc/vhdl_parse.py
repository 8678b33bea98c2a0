"""Parser for the VHDL subset used by /repo/hdl: packages (types, constants, functions) and entities with RTL architectures.

The output is a tree of tuples, interpreted by vhdl.py.  Anything outside the subset raises Unsupported with its line.
Nothing is dropped except comments, library/use clauses and signal/port attributes of no functional meaning.
"""
import re
from .poly import Unsupported

TOK = re.compile(r"""
  (?P<ws>[ \t\r\n\f]+|--[^\n]*)
 |(?P<real>\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?)
 |(?P<based>\d+\#[0-9a-fA-F_]+\#)
 |(?P<int>\d[\d_]*(?:[eE]\+?\d+)?)
 |(?P<bits>[xXbBoO]"[^"]*")
 |(?P<id>[A-Za-z][A-Za-z0-9_]*|\\[^\\]*\\)
 |(?P<str>"(?:[^"]|"")*")
 |(?P<op>:=|<=|>=|/=|=>|\*\*|<>|[-+*/&=<>()|,;:.'\[\]])
""", re.X)


class Tok:
    __slots__ = ('k', 'v', 'line')

    def __init__(self, k, v, line):
        self.k, self.v, self.line = k, v, line

    def __repr__(self):
        return '%s:%s@%d' % (self.k, self.v, self.line)


def lex(text, fname):
    out, i, line = [], 0, 1
    n = len(text)
    while i < n:
        if text[i] == "'" and i + 2 < n and text[i + 2] == "'" and not (out and (out[-1].k == 'id' or out[-1].v in (')', ']', 'all')) and out[-1].v not in RESERVED):
            out.append(Tok('char', text[i + 1], line))
            i += 3
            continue
        m = TOK.match(text, i)
        if not m:
            raise Unsupported('%s:%d: cannot read %r' % (fname, line, text[i:i + 10]))
        k, v = m.lastgroup, m.group()
        if k == 'id' and not v.startswith('\\'):
            v = v.lower()
        if k == 'str':
            v = v[1:-1].replace('""', '"')
        if k != 'ws':
            out.append(Tok(k, v, line))
        line += m.group().count('\n')
        i = m.end()
    out.append(Tok('eof', '', line))
    return out


RESERVED = set('abs and architecture array assert begin block body buffer case component constant downto else elsif end entity exit for function generate generic '
               'if impure in inout is library loop map mod nand next nor not null of open or others out package port procedure process pure range record rem report return '
               'severity signal subtype then to type use variable wait when while with xnor xor rol ror sll srl sla sra'.split())


class Parser:
    def __init__(self, text, fname):
        self.f = fname
        self.t = lex(text, fname)
        self.i = 0

    # -- helpers
    def err(self, msg):
        t = self.t[self.i]
        raise Unsupported('%s:%d: VHDL outside the supported subset: %s near %r' % (self.f, t.line, msg, t.v))

    @property
    def cur(self):
        return self.t[self.i]

    def at(self, *vs):
        t = self.t[self.i]
        return t.k in ('id', 'op') and t.v in vs

    def peek(self, n=1):
        return self.t[min(self.i + n, len(self.t) - 1)]

    def acc(self, *vs):
        if self.at(*vs):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            self.err('expected %r' % v)

    def ident(self):
        t = self.cur
        if t.k != 'id' or t.v in RESERVED:
            self.err('expected a name')
        self.i += 1
        return t.v

    # -- design units
    def file(self):
        units = []
        while self.cur.k != 'eof':
            if self.acc('library', 'use', 'context'):
                while not self.acc(';'):
                    self.i += 1
            elif self.at('package'):
                units.append(self.package())
            elif self.at('entity'):
                units.append(self.entity())
            elif self.at('architecture'):
                units.append(self.architecture())
            else:
                self.err('design unit')
        return units

    def package(self):
        self.exp('package')
        body = self.acc('body')
        name = self.ident()
        self.exp('is')
        decls = self.decls(('end',))
        self.exp('end')
        self.acc('package')
        self.acc('body')
        if self.cur.k == 'id':
            self.i += 1
        self.exp(';')
        return ('package_body' if body else 'package', name, decls)

    def entity(self):
        self.exp('entity')
        name = self.ident()
        self.exp('is')
        gens, ports = [], []
        if self.acc('generic'):
            self.exp('(')
            gens = self.params()
            self.exp(')')
            self.exp(';')
        if self.acc('port'):
            self.exp('(')
            ports = self.params()
            self.exp(')')
            self.exp(';')
        if self.acc('begin'):
            self.err('entity statements')
        self.exp('end')
        self.acc('entity')
        if self.cur.k == 'id':
            self.i += 1
        self.exp(';')
        return ('entity', name, gens, ports)

    def architecture(self):
        self.exp('architecture')
        name = self.ident()
        self.exp('of')
        ent = self.ident()
        self.exp('is')
        decls = self.decls(('begin',))
        self.exp('begin')
        stmts = self.concurrent(('end',))
        self.exp('end')
        self.acc('architecture')
        if self.cur.k == 'id':
            self.i += 1
        self.exp(';')
        return ('architecture', name, ent, decls, stmts)

    # -- declarations
    def params(self):
        out = []
        while True:
            cls = None
            if self.at('constant', 'signal', 'variable', 'file'):
                cls = self.cur.v
                self.i += 1
            names = [self.ident()]
            while self.acc(','):
                names.append(self.ident())
            self.exp(':')
            mode = None
            if self.at('in', 'out', 'inout', 'buffer'):
                mode = self.cur.v
                self.i += 1
            ty = self.subtype()
            dflt = self.expr() if self.acc(':=') else None
            for n in names:
                out.append((n, mode, ty, dflt))
            if not self.acc(';'):
                return out
            if self.at(')'):
                return out

    def subtype(self):
        """('type', name, constraint) with constraint None, ('range', l, dir, r), ('index', l, dir, r) or ('like', expr)."""
        name = self.ident()
        while self.acc('.'):
            name = self.ident()
        if self.acc('range'):
            return ('type', name, self.range_())
        if self.acc('('):
            r = self.range_()
            self.exp(')')
            return ('type', name, ('index',) + r[1:])
        return ('type', name, None)

    def range_(self):
        e = self.expr()
        if self.at('to', 'downto'):
            d = self.cur.v
            self.i += 1
            return ('range', e, d, self.expr())
        if e[0] == 'attr' and e[2] in ('range', 'reverse_range'):
            return ('range', None, e[2], e[1])
        if e[0] == 'name':
            return ('range', None, 'type', e)
        self.err('range')

    def decls(self, stop):
        out = []
        while not self.at(*stop):
            line = self.cur.line
            if self.acc('constant', 'variable', 'signal', 'shared'):
                kind = self.t[self.i - 1].v
                names = [self.ident()]
                while self.acc(','):
                    names.append(self.ident())
                self.exp(':')
                ty = self.subtype()
                e = self.expr() if self.acc(':=') else None
                self.exp(';')
                for n in names:
                    out.append((kind, n, ty, e, line))
            elif self.acc('type'):
                n = self.ident()
                self.exp('is')
                out.append(('typedef', n, self.typedef(), line))
                self.exp(';')
            elif self.acc('subtype'):
                n = self.ident()
                self.exp('is')
                out.append(('subtype', n, self.subtype(), line))
                self.exp(';')
            elif self.at('function', 'pure', 'impure', 'procedure'):
                out.append(self.function())
            elif self.acc('attribute', 'alias', 'component', 'file', 'use'):
                if self.t[self.i - 1].v == 'use':
                    while not self.acc(';'):
                        self.i += 1
                else:
                    self.err('declaration')
            else:
                self.err('declaration')
        return out

    def typedef(self):
        if self.acc('record'):
            fs = []
            while not self.acc('end'):
                names = [self.ident()]
                while self.acc(','):
                    names.append(self.ident())
                self.exp(':')
                ty = self.subtype()
                self.exp(';')
                fs += [(n, ty) for n in names]
            self.exp('record')
            if self.cur.k == 'id':
                self.i += 1
            return ('record', fs)
        if self.acc('('):
            lits = []
            while True:
                t = self.cur
                self.i += 1
                lits.append(t.v)
                if not self.acc(','):
                    break
            self.exp(')')
            return ('enum', lits)
        if self.acc('array'):
            self.exp('(')
            idx = []
            while not self.acc(')'):
                if self.acc('<>'):
                    pass
                elif self.acc('range'):
                    pass
                else:
                    idx.append(self.range_() if not (self.cur.k == 'id' and self.peek().v == 'range') else self.ident())
            self.exp('of')
            return ('array', idx, self.subtype())
        if self.acc('range'):
            return ('rangetype', self.range_())
        self.err('type')

    def function(self):
        line = self.cur.line
        self.acc('pure') or self.acc('impure')
        kind = self.cur.v
        self.i += 1
        t = self.cur
        if t.k == 'str':
            name = '"%s"' % t.v.lower()
            self.i += 1
        else:
            name = self.ident()
        ps = []
        if self.acc('('):
            ps = self.params()
            self.exp(')')
        ret = None
        if kind == 'function':
            self.exp('return')
            ret = self.subtype()
        if self.acc(';'):
            return ('function', name, ps, ret, None, None, line)
        self.exp('is')
        decls = self.decls(('begin',))
        self.exp('begin')
        body = self.stmts(('end',))
        self.exp('end')
        self.acc('function') or self.acc('procedure')
        if self.cur.k in ('id', 'str') and not self.at(';'):
            self.i += 1
        self.exp(';')
        return ('function', name, ps, ret, decls, body, line)

    # -- sequential statements
    def stmts(self, stop):
        out = []
        while not self.at(*stop):
            out.append(self.stmt())
        return out

    def stmt(self):
        line = self.cur.line
        if self.cur.k == 'id' and self.cur.v not in RESERVED and self.peek().v == ':' and self.peek().k == 'op':
            self.i += 2         # label
        if self.acc('if'):
            arms = [(self.expr(), (self.exp('then'), self.stmts(('elsif', 'else', 'end')))[1])]
            els = []
            while True:
                if self.acc('elsif'):
                    c = self.expr()
                    self.exp('then')
                    arms.append((c, self.stmts(('elsif', 'else', 'end'))))
                elif self.acc('else'):
                    els = self.stmts(('end',))
                else:
                    break
            self.exp('end')
            self.exp('if')
            self.label_end()
            return ('if', arms, els, line)
        if self.acc('case'):
            e = self.expr()
            self.exp('is')
            arms = []
            while self.acc('when'):
                ch = []
                while True:
                    if self.acc('others'):
                        ch.append(('others',))
                    else:
                        c = self.expr()
                        if self.at('to', 'downto'):
                            d = self.cur.v
                            self.i += 1
                            c = ('range', c, d, self.expr())
                        ch.append(c)
                    if not self.acc('|'):
                        break
                self.exp('=>')
                arms.append((ch, self.stmts(('when', 'end'))))
            self.exp('end')
            self.exp('case')
            self.label_end()
            return ('case', e, arms, line)
        if self.acc('for'):
            v = self.ident()
            self.exp('in')
            r = self.range_()
            self.exp('loop')
            b = self.stmts(('end',))
            self.exp('end')
            self.exp('loop')
            self.label_end()
            return ('for', v, r, b, line)
        if self.acc('while'):
            c = self.expr()
            self.exp('loop')
            b = self.stmts(('end',))
            self.exp('end')
            self.exp('loop')
            self.label_end()
            return ('while', c, b, line)
        if self.acc('loop'):
            b = self.stmts(('end',))
            self.exp('end')
            self.exp('loop')
            self.label_end()
            return ('while', ('name', 'true'), b, line)
        if self.acc('exit', 'next'):
            k = self.t[self.i - 1].v
            c = self.expr() if self.acc('when') else None
            self.exp(';')
            return (k, c, line)
        if self.acc('return'):
            e = None if self.at(';') else self.expr()
            self.exp(';')
            return ('return', e, line)
        if self.acc('assert'):
            c = self.expr()
            m = self.expr() if self.acc('report') else None
            s = self.ident() if self.acc('severity') else 'error'
            self.exp(';')
            return ('assert', c, m, s, line)
        if self.acc('report'):
            m = self.expr()
            s = self.ident() if self.acc('severity') else 'note'
            self.exp(';')
            return ('assert', ('name', 'false'), m, s, line)
        if self.acc('null'):
            self.exp(';')
            return ('null', line)
        if self.acc('wait'):
            self.err('wait')
        tgt = self.name()
        if self.acc(':='):
            e = self.cond_expr()
            self.exp(';')
            return ('assign', tgt, e, line)
        if self.acc('<='):
            e = self.cond_expr()
            self.exp(';')
            return ('sigassign', tgt, e, line)
        self.exp(';')
        return ('call', tgt, line)

    def cond_expr(self):
        """expr [when cond else expr]*"""
        e = self.expr()
        if self.acc('when'):
            c = self.expr()
            self.exp('else')
            return ('cond', c, e, self.cond_expr())
        return e

    def label_end(self):
        if self.cur.k == 'id':
            self.i += 1
        self.exp(';')

    # -- concurrent statements
    def concurrent(self, stop):
        out = []
        while not self.at(*stop):
            line = self.cur.line
            label = None
            if self.cur.k == 'id' and self.cur.v not in RESERVED and self.peek().v == ':' and self.peek().k == 'op':
                label = self.ident()
                self.exp(':')
            if self.acc('process'):
                sens = []
                if self.acc('('):
                    if self.acc('all'):
                        sens = None
                    else:
                        while True:
                            sens.append(self.name())
                            if not self.acc(','):
                                break
                    self.exp(')')
                self.acc('is')
                ds = self.decls(('begin',))
                self.exp('begin')
                b = self.stmts(('end',))
                self.exp('end')
                self.exp('process')
                self.label_end()
                out.append(('process', label, sens, ds, b, line))
            elif self.acc('if'):
                c = self.expr()
                self.exp('generate')
                arms = [(c, self.gen_body())]
                els = []
                while self.at('elsif', 'else'):
                    if self.acc('elsif'):
                        c = self.expr()
                        self.exp('generate')
                        arms.append((c, self.gen_body()))
                    else:
                        self.exp('else')
                        self.exp('generate')
                        els = self.gen_body()
                self.exp('end')
                self.exp('generate')
                self.label_end()
                out.append(('generate', arms, els, line))
            elif self.acc('for'):
                v = self.ident()
                self.exp('in')
                r = self.range_()
                self.exp('generate')
                b = self.gen_body()
                self.exp('end')
                self.exp('generate')
                self.label_end()
                out.append(('forgenerate', v, r, b, line))
            elif self.acc('entity'):
                n = self.ident()
                while self.acc('.'):
                    n = self.ident()
                if self.acc('('):
                    self.ident()
                    self.exp(')')
                gm, pm = [], []
                if self.acc('generic'):
                    self.exp('map')
                    gm = self.assoc()
                if self.acc('port'):
                    self.exp('map')
                    pm = self.assoc()
                self.exp(';')
                out.append(('instance', label, n, gm, pm, line))
            elif self.acc('assert'):
                self.i -= 1
                out.append(('cassert', self.stmt(), line))
            else:
                t = self.name()
                self.exp('<=')
                e = self.cond_expr()
                self.exp(';')
                out.append(('cassign', t, e, line))
        return out

    def gen_body(self):
        if self.at('signal', 'constant', 'begin', 'function'):
            ds = self.decls(('begin',))
            self.exp('begin')
            b = self.concurrent(('end', 'elsif', 'else'))
            return [('gendecls', ds)] + b
        return self.concurrent(('end', 'elsif', 'else'))

    def assoc(self):
        self.exp('(')
        out = []
        while True:
            if self.acc('open'):
                out.append((None, ('open',)))
            else:
                e = self.expr()
                if self.acc('=>'):
                    out.append((e, ('open',) if self.acc('open') else self.expr()))
                else:
                    out.append((None, e))
            if not self.acc(','):
                break
        self.exp(')')
        return out

    # -- expressions
    def expr(self):
        l = self.relation()
        while self.at('and', 'or', 'xor', 'nand', 'nor', 'xnor'):
            op = self.cur.v
            line = self.cur.line
            self.i += 1
            l = ('bin', op, l, self.relation(), line)
        return l

    def relation(self):
        l = self.shift_expr()
        while self.at('=', '/=', '<', '<=', '>', '>='):
            op = self.cur.v
            line = self.cur.line
            self.i += 1
            l = ('bin', op, l, self.shift_expr(), line)
        return l

    def shift_expr(self):
        l = self.simple()
        while self.at('sll', 'srl', 'sla', 'sra', 'rol', 'ror'):
            op = self.cur.v
            line = self.cur.line
            self.i += 1
            l = ('bin', op, l, self.simple(), line)
        return l

    def simple(self):
        sign = None
        line = self.cur.line
        if self.at('+', '-'):
            sign = self.cur.v
            self.i += 1
        l = self.term()
        if sign == '-':
            l = ('un', '-', l, line)
        while self.at('+', '-', '&'):
            op = self.cur.v
            line = self.cur.line
            self.i += 1
            l = ('bin', op, l, self.term(), line)
        return l

    def term(self):
        l = self.factor()
        while self.at('*', '/', 'mod', 'rem'):
            op = self.cur.v
            line = self.cur.line
            self.i += 1
            l = ('bin', op, l, self.factor(), line)
        return l

    def factor(self):
        line = self.cur.line
        if self.acc('not'):
            return ('un', 'not', self.primary(), line)
        if self.acc('abs'):
            return ('un', 'abs', self.primary(), line)
        if self.at('and', 'or', 'xor', 'nand', 'nor', 'xnor'):
            op = self.cur.v
            self.i += 1
            return ('un', 'reduce_' + op, self.primary(), line)
        l = self.primary()
        if self.acc('**'):
            return ('bin', '**', l, self.primary(), line)
        return l

    def primary(self):
        t = self.cur
        if t.k == 'int':
            self.i += 1
            return ('int', int(float(t.v.replace('_', ''))) if 'e' in t.v.lower() else int(t.v.replace('_', '')))
        if t.k == 'based':
            self.i += 1
            b, v, _ = t.v.split('#')
            return ('int', int(v.replace('_', ''), int(b)))
        if t.k == 'real':
            self.i += 1
            return ('real', t.v.replace('_', ''))
        if t.k == 'char':
            self.i += 1
            return ('char', t.v)
        if t.k == 'str':
            # operator symbol call "+"(a, b) is not in the subset
            self.i += 1
            return ('str', t.v)
        if t.k == 'bits':
            self.i += 1
            return ('bits', t.v[0].lower(), t.v[2:-1].replace('_', ''))
        if self.at('('):
            return self.aggregate()
        return self.name()

    def aggregate(self):
        self.exp('(')
        line = self.cur.line
        items = []
        while True:
            if self.at('others'):
                self.i += 1
                ch = [('others',)]
                self.exp('=>')
                items.append((ch, self.expr()))
            else:
                e = self.expr()
                if self.at('to', 'downto'):
                    d = self.cur.v
                    self.i += 1
                    e = ('range', e, d, self.expr())
                if self.at('|', '=>'):
                    ch = [e]
                    while self.acc('|'):
                        ch.append(self.expr())
                    self.exp('=>')
                    items.append((ch, self.expr()))
                else:
                    items.append((None, e))
            if not self.acc(','):
                break
        self.exp(')')
        if len(items) == 1 and items[0][0] is None:
            return ('paren', items[0][1])
        return ('agg', items, line)

    def name(self):
        line = self.cur.line
        e = ('name', self.ident(), line)
        while True:
            if self.acc('.'):
                e = ('field', e, self.ident(), line)
            elif self.at('('):
                self.i += 1
                args = []
                if not self.at(')'):
                    while True:
                        a = self.expr()
                        if self.at('to', 'downto'):
                            d = self.cur.v
                            self.i += 1
                            args.append((None, ('range', a, d, self.expr())))
                        elif self.acc('=>'):
                            args.append((a[1], ('open',) if self.acc('open') else self.expr()))
                        else:
                            args.append((None, a))
                        if not self.acc(','):
                            break
                self.exp(')')
                e = ('call', e, args, line)
            elif self.at("'"):
                self.i += 1
                if self.at('('):
                    e = ('qual', e, self.aggregate(), line)
                    continue
                a = self.cur.v
                self.i += 1
                arg = None
                if self.at('(') and a in ('pos', 'val', 'image', 'value', 'succ', 'pred', 'leftof', 'rightof'):
                    self.exp('(')
                    arg = self.expr()
                    self.exp(')')
                e = ('attr', e, a, arg, line)
            else:
                return e


def parse(path):
    return Parser(open(path, encoding='latin-1').read(), path.rsplit('/', 1)[-1]).file()
