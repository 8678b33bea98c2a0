"""Conformance of the trusted VHDL model (vhdl.py: standard operators, numeric_std, math_real, statements) with GHDL.

A package of small functions is generated; each is evaluated on concrete operands by the model and by the simulator
that the repository's test bench uses, and the results are compared.  Functions that the model refuses (Unsupported)
or that the model says end in a run-time error are left out.  The model must never return another value than GHDL.
`python3-vt -m vc.vxcheck [scale]`; run by run.py with every VHDL check and recorded in its evidence.
"""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from fractions import Fraction

HEAD = "library ieee;\nuse ieee.std_logic_1164.all;\nuse ieee.numeric_std.all;\nuse ieee.math_real.all;\n"
TY = {'s': 'signed', 'u': 'unsigned', 'v': 'std_logic_vector', 'i': 'integer', 'r': 'real', 'b': 'boolean', 'l': 'std_logic', 't': 'string'}
INTS = [0, 1, -1, 2, 3, -5, 7, 13, -16, 100, -1000, 46340, 2 ** 20 + 1]
BIGI = [2 ** 31 - 1, -2 ** 31 + 1, 2 ** 30, -2 ** 30 - 3]
REALS = ['0.0', '0.5', '-0.5', '1.5', '2.5', '-2.5', '-3.5', '0.25', '-1048576.125', '2.0**30 + 0.5', '2.0**40 + 0.5', '-(2.0**40) - 0.25', '2.0**52 + 1.0', '2.0**31 - 1.0', '2.0**31 - 1.5', '-(2.0**31) - 0.5']
# (result type, expression); a, b: operands whose types follow
VEC2 = [('T', 'a + b'), ('T', 'a - b'), ('T', 'a * b'), ('b', 'a = b'), ('b', 'a /= b'), ('b', 'a < b'), ('b', 'a <= b'), ('b', 'a > b'), ('b', 'a >= b'), ('T', 'a & b')]
SAME = [('T', 'a and b'), ('T', 'a or b'), ('T', 'a xor b'), ('T', 'a nand b')]
VEC1 = [('T', 'not a'), ('T', 'resize(a, a\'length + 2)'), ('T', 'resize(a, 2)'), ('T', 'resize(a, 1)'), ('T', 'shift_left(a, 1)'), ('T', 'shift_right(a, 1)'), ('T', 'shift_left(a, 7)'), ('T', 'shift_right(a, 7)'),
        ('i', 'to_integer(a)'), ('v', 'std_logic_vector(a)'), ('i', "a'length"), ('i', "a'left"), ('i', "a'high"), ('i', "a'low"), ('i', "a'right"), ('l', "a(a'left)"), ('l', "a(a'right)"), ('l', "a(a'low)"), ('l', "a(a'high)"),
        ('T', 'a + 3'), ('T', 'a - 1'), ('T', '1 + a'), ('b', 'a = 2'), ('b', 'a > 1'), ('b', '3 >= a'), ('b', 'a < 5'), ('T', "a & '1'"), ('T', "'0' & a"), ('T', 'a * 2'), ('T', 'a sll 1'), ('T', 'a srl 1')]
SIGN1 = [('s', '-a'), ('s', 'abs a'), ('u', 'unsigned(a)'), ('b', 'a < 0'), ('b', 'a = -1'), ('s', 'a + (-2)'), ('s', 'a * (-3)'), ('s', 'resize(a, 3) - 1'), ('s', '-resize(a, a\'length + 1)')]
UNS1 = [('s', 'signed(a)'), ('s', "signed('0' & a)"), ('s', "signed(resize(a, a'length + 1))"), ('b', 'a = 0')]
SLV1 = [('v', 'not a'), ('s', 'signed(a)'), ('u', 'unsigned(a)'), ('v', "a & '0'"), ('v', "'1' & a"), ('i', "a'length"), ('i', 'to_integer(signed(a))'), ('i', 'to_integer(unsigned(a))'), ('l', "a(a'left)"), ('v', 'std_logic_vector(-signed(a))'),
        ('v', 'std_logic_vector(resize(signed(a), 9))'), ('v', 'std_logic_vector(unsigned(not a) + 1)')]
SLV2 = [('b', 'a = b'), ('b', 'a /= b'), ('v', 'a & b')]
SLVS = [('v', 'a and b'), ('v', 'a or b'), ('v', 'a xor b')]
INT2 = [('i', 'a + b'), ('i', 'a - b'), ('i', 'a * b'), ('i', 'a / b'), ('i', 'a mod b'), ('i', 'a rem b'), ('i', 'maximum(a, b)'), ('i', 'minimum(a, b)'), ('b', 'a < b'), ('b', 'a = b'), ('b', 'a >= b'), ('b', 'a > b and b > 0'), ('b', 'a > b or b > 0'),
        ('b', 'not (a <= b)'), ('b', 'a > b xor b > 0')]
INT1 = [('i', '-a'), ('i', 'abs a'), ('i', 'a mod 8'), ('i', '2 ** (a mod 16)'), ('i', '(-2) ** (a mod 4)'), ('i', 'a / 4'), ('i', '(a + 3) / 4 * 4'), ('r', 'real(a)'), ('t', "integer'image(a)"), ('s', 'to_signed(a, 12)'), ('u', 'to_unsigned(abs a, 12)'), ('s', 'to_signed(a, 40)'),
        ('t', 'to_string(a)'), ('s', 'to_signed(a, 3)'), ('r', '2.0 ** (a mod 40 - 20)'), ('r', 'real(a) * 2.0 ** (-3)'), ('i', 'integer(real(a) / 8.0)')]
REAL1 = [('r', 'floor(a)'), ('r', 'ceil(a)'), ('r', 'round(a)'), ('r', 'trunc(a)'), ('i', 'integer(a)'), ('r', '-a'), ('r', 'abs a'), ('r', 'a * 4.0'), ('r', 'a / 4.0'), ('r', 'a + 0.5'), ('r', 'a - 1.0'), ('i', 'integer(floor(a))'), ('b', 'a < 0.0'), ('b', 'a >= 0.5'), ('r', 'sign(a)'),
         ('r', 'a - floor(a / 16.0) * 16.0'), ('r', 'floor(a + 0.5)')]
REAL2 = [('r', 'a + b'), ('r', 'a - b'), ('b', 'a < b'), ('b', 'a = b'), ('b', 'a >= b'), ('r', 'realmax(a, b)'), ('r', 'realmin(a, b)')]
BODIES = [   # (operand types, result type, declarations, statements)
    ('v', 'v', "variable r : std_logic_vector(a'range);", "r := a; r(r'left) := '1'; return r;"),
    ('v', 'v', "variable r : std_logic_vector(a'length-1 downto 0);", "r := a; r := r(0) & r(r'high downto 1); return r;"),
    ('v', 'v', "variable r : std_logic_vector(7 downto 0) := (others => '1');", "r(a'length-1 downto 0) := a; return r;"),
    ('v', 'v', "variable r : std_logic_vector(9 downto 0);", "r := (others => '0'); r(9 downto 10-a'length) := a; r(1 downto 0) := \"10\"; return r;"),
    ('v', 'i', "variable r : integer := 0;", "for i in a'range loop r := r * 2; if a(i) = '1' then r := r + 1; end if; end loop; return r;"),
    ('v', 'i', "variable r : integer := 0;", "for i in a'reverse_range loop r := r * 2; if a(i) = '1' then r := r + 1; end if; end loop; return r;"),
    ('v', 'i', "variable r : integer := 0;", "for i in a'low to a'high loop next when a(i) = '0'; r := r + i; exit when r > 3; end loop; return r;"),
    ('v', 'v', "variable r : std_logic_vector(a'range);", "for i in r'range loop r(i) := not a(i); end loop; return r;"),
    ('v', 'v', "constant c : std_logic_vector(a'length-1 downto 0) := a; variable r : std_logic_vector(a'length-1 downto 0);", "for i in 0 to c'high loop r(i) := c(c'high - i); end loop; return r;"),
    ('i', 'i', "variable r : integer := a; variable n : natural := 0;", "while r /= 0 and n < 40 loop r := r / 2; n := n + 1; end loop; return n;"),
    ('i', 'i', "", "case a is when 0 | 1 => return 10; when 2 to 5 => return 20; when others => return a; end case;"),
    ('i', 't', "", "if a < 0 then return \"neg\" & integer'image(-a); elsif a = 0 then return \"zero\"; else return \"pos\" & integer'image(a) & \"!\"; end if;"),
    ('s', 's', "variable r : signed(a'length downto 0);", "r := resize(a, a'length + 1); if r < 0 then r := -r; end if; return r;"),
    ('s', 's', "variable r : signed(3 downto 0) := (3 => '1', others => '0');", "if a'length = 4 then r := a; end if; return r;"),
    ('u', 'u', "variable r : unsigned(a'length-1 downto 0);", "r := a; r := r + 1; return r;"),
    ('v', 'v', "variable r : std_logic_vector(11 downto 0);", "r := std_logic_vector(resize(unsigned(a), 12)); r(5) := '1'; r(4 downto 2) := r(2 downto 0); return r;"),
    ('v', 's', "variable r : signed(7 downto 0);", "r := resize(signed(a), 8); r := shift_right(r, 1); return r;"),
    ('s', 'i', "", "if a(a'left) = '1' and a'length > 2 then return to_integer(a(a'left downto a'left - 2)); end if; return to_integer(a);"),
    ('u', 'u', "", "return a(a'high downto a'high);"),
]


def bits(n, w):
    return format(n % 2 ** w, '0%db' % w) if w else ''


def operands(t, rnd):
    if t in 'suv':
        w = rnd.choice([1, 2, 3, 4, 4, 5, 8])
        lo = rnd.choice([0, 0, 0, 3])
        return '%s(%d downto %d) := "%s"' % (TY[t], w - 1 + lo, lo, bits(rnd.choice([0, 1, -1, 2 ** (w - 1), 2 ** (w - 1) - 1, rnd.getrandbits(w)]), w)), w
    if t == 'i':
        return 'integer := %d' % rnd.choice(INTS + INTS + BIGI), 0
    return 'real := %s' % rnd.choice(REALS), 0


def cases(scale, rnd):
    out = []

    def add(tys, r, expr, same=False):
        for _ in range(max(1, scale * (3 if len(tys) == 1 else 5))):
            ops = []
            for i, t in enumerate(tys):
                d, w = operands(t, rnd)
                while same and i and w != ops[0][1]:
                    d, w = operands(t, rnd)
                ops.append((d, w))
            out.append(('x', ''.join('        constant %s : %s;\n' % ('ab'[i], d) for i, (d, _) in enumerate(ops)), r, 'return %s;' % expr))
    for t in 'su':
        for r, e in VEC2:
            add(t + t, r.replace('T', t), e)
        for r, e in SAME:
            add(t + t, r.replace('T', t), e, True)
        for r, e in VEC1:
            add(t, r.replace('T', t), e)
    for l, t in ((SIGN1, 's'), (UNS1, 'u'), (SLV1, 'v'), (SLV2, 'vv'), (INT2, 'ii'), (INT1, 'i'), (REAL1, 'r'), (REAL2, 'rr')):
        for r, e in l:
            add(t, r, e)
    for r, e in SLVS:
        add('vv', r, e, True)
    for tys, r, decl, body in BODIES:
        for _ in range(scale * 3):
            d = operands(tys, rnd)[0]
            out.append(('x', '        constant a : %s;\n        %s\n' % (d, decl), r, body))
    return out


def run_model(root, cs):
    from . import engine as E
    from .vhdl_sim import VhdlSim
    from .vhdl import VErr, Vec, Bit, VStr, uval, as_bool
    from .poly import Poly, Unsupported
    V = VhdlSim(root)
    V.overflow = True

    def show(t, r):
        if isinstance(r, Vec):
            w = int(r.w.const_value())
            k = uval(r)
            return bits(int(k.const_value()), w) if k.is_const() else None
        if t == 'b':
            return 'true' if as_bool(r) else 'false'
        if isinstance(r, VStr):
            return r.text()
        if isinstance(r, Bit):
            return str(r.p.const_value()) if r.p.is_const() else None
        p = E.P(r)
        if not p.is_const():
            return None
        return str(p.const_value())
    res = []
    for n, (_, decl, t, body) in enumerate(cs):
        c = E.Ctx('vx')
        out = []

        def go():
            try:
                r = show(t, V.call('f%d' % n, [], {}))
                out.append(('value', r) if r is not None else ('unsupported', 'symbolic'))
            except VErr as e:
                out.append(('error', str(e)))
            except (Unsupported, AssertionError, ZeroDivisionError) as e:
                out.append(('unsupported', str(e)))
        c.explore(go)
        if any(not o.ok for o in c.obligations) or len(out) != 1:
            out = [('unsupported', 'obligation')]
        res.append(out[0])
    return res


def main(argv):
    scale = int(argv[0]) if argv else 1
    rnd = random.Random(7)
    cs = cases(scale, rnd)
    work = tempfile.mkdtemp(prefix='vx_')
    try:
        pk = "package vx is\n%send package;\n\npackage body vx is\n%send package body;\n" % (
            ''.join('    function f%d return %s;\n' % (n, TY[t]) for n, (_, d, t, b) in enumerate(cs)),
            ''.join('    function f%d return %s is\n%s    begin\n        %s\n    end function;\n' % (n, TY[t], d, b) for n, (_, d, t, b) in enumerate(cs)))
        os.mkdir(os.path.join(work, 'm'))
        open(os.path.join(work, 'm', 'vx.vhd'), 'w').write(HEAD + pk)
        model = run_model(os.path.join(work, 'm'), cs)
        keep = [n for n, m in enumerate(model) if m[0] == 'value']
        body = pk.replace('package vx', 'package vy')
        tb = HEAD + "use std.textio.all;\nuse work.vx.all;\nentity vxtb is end;\narchitecture a of vxtb is\n"
        for t, e in (('signed', 'to_string(std_logic_vector(x))'), ('unsigned', 'to_string(std_logic_vector(x))'), ('std_logic_vector', 'to_string(x)'), ('integer', "integer'image(x)"), ('real', 'to_string(x, "%.17g")'),
                     ('boolean', "boolean'image(x)"), ('std_logic', "std_logic'image(x)"), ('string', 'x')):
            tb += "    procedure p(n : integer; x : %s) is variable l : line;\n    begin write(l, integer'image(n) & \" \" & %s); writeline(output, l); end;\n" % (t, e)
        tb += "begin\n    process begin\n" + ''.join('        p(%d, f%d);\n' % (n, n) for n in keep) + "        wait;\n    end process;\nend;\n"
        open(os.path.join(work, 'tb.vhd'), 'w').write(tb)
        env = dict(os.environ, GHDL_BACKEND='gcc')
        g = ['ghdl']
        for cmd in (g + ['-a', '--std=08', '-frelaxed', 'm/vx.vhd', 'tb.vhd'], g + ['-e', '--std=08', '-frelaxed', 'vxtb'], g + ['-r', '--std=08', '-frelaxed', 'vxtb', '--ieee-asserts=disable']):
            p = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                print(json.dumps(dict(disagree=1, error='GHDL: ' + p.stdout[-700:])))
                return 1
        real = {}
        for l in p.stdout.splitlines():
            h, _, v = l.partition(' ')
            if h.isdigit():
                real[int(h)] = v
        bad = []
        same = 0
        for n in keep:
            t, m, r = cs[n][2], model[n][1], real.get(n)
            if t == 'l' and r is not None:
                r = r.strip("'")
            ok = r is not None and (Fraction(float(r)) == Fraction(m) if t == 'r' else r == m)
            same += ok
            if not ok:
                bad.append('%s %s model=%s ghdl=%s' % (' '.join(cs[n][1].split()), cs[n][3], m, r))
        if os.environ.get('SHOW'):
            for n, m in enumerate(model):
                if m[0] != 'value':
                    print('left out:', m, ' '.join(cs[n][1].split()), cs[n][3])
        print('\n'.join(bad[:40]))
        print(json.dumps(dict(what='VHDL model (vc/vhdl.py) against GHDL, generated functions on concrete operands; tested, not proved', cases=len(cs), agree=same,
                              refused_by_model=sum(m[0] == 'unsupported' for m in model), run_time_errors_left_out=sum(m[0] == 'error' for m in model), disagree=len(bad), examples=bad[:10])))
        return bool(bad)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
