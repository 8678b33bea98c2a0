#!/usr/bin/env python3
"""Exact concrete specification of the VHDL library, run against the real sources under GHDL.

Finds and replays failing inputs when an obligation on the VHDL code is not discharged; it never decides that a property holds.

  vhdloracle.py search PROP --cases N --seed S [--budget T] [--hints FILE] [--consts FILE]   -> JSON on stdout
  vhdloracle.py replay FILE                                                     -> exit 1 and a message if it still fails
"""
import argparse
import json
import math
import os
import random
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'bittrue', 'models', 'python'))
sys.dont_write_bytecode = True

RND = ['Trunc_s', 'NonSymPos_s', 'NonSymNeg_s', 'SymInf_s', 'SymZero_s', 'ConvEven_s', 'ConvOdd_s']
SAT = ['None_s', 'Warn_s', 'Sat_s', 'SatWarn_s']
CMP = ['=', '!=', '<', '<=', '>', '>=']
PKG = ['en_cl_fix_private_pkg.vhd', 'en_cl_fix_pkg.vhd']
ENT = ['en_cl_fix_round.vhd', 'en_cl_fix_saturate.vhd', 'en_cl_fix_resize.vhd']


# -- exact specification ----------------------------------------------------------------------------
def width(f):
    return sum(f)


def bounds(f):
    top = 1 << (f[1] + f[2])
    return (-top if f[0] else 0), top - 1


def rnd_frac(x, mode):
    fl = math.floor(x)
    if mode == 'Trunc_s':
        return fl
    d = x - fl
    if d != Fraction(1, 2):
        return fl + (d > Fraction(1, 2))
    return fl + {'NonSymPos_s': True, 'NonSymNeg_s': False, 'SymInf_s': x > 0, 'SymZero_s': x < 0,
                 'ConvEven_s': fl % 2 == 1, 'ConvOdd_s': fl % 2 == 0}[mode]


def two(n):
    return Fraction(2) ** n


def resize(x, f, rnd, sat):
    """Integer (LSB units of f) of the exact Fraction x."""
    n = rnd_frac(x * two(f[2]), rnd)
    lo, hi = bounds(f)
    if sat in ('Sat_s', 'SatWarn_s'):
        return min(max(n, lo), hi)
    n = n % (1 << width(f))
    return n - (1 << width(f)) if f[0] and n > hi else n


def bits(k, f):
    return format(k % (1 << width(f)), '0%db' % width(f))


def unbits(s, f):
    k = int(s, 2)
    return k - (1 << len(s)) if f[0] and s[0] == '1' else k


# -- the testbench ----------------------------------------------------------------------------------
FMTOP = ['add', 'sub', 'addsub', 'mult', 'neg', 'abs', 'shift', 'shift1', 'round_fmt']
OPS = ['width'] + [f + '_fmt' if f != 'round_fmt' else f for f in FMTOP] + ['round', 'saturate', 'resize', 'in_range', 'abs', 'neg', 'add', 'sub', 'addsub', 'mult', 'shift',
       'compare', 'max', 'min', 'to_integer', 'from_integer', 'sign', 'pipe_round', 'pipe_sat', 'pipe_both', 'from_real', 'to_real', 'parse', 'text', 'rnd_name', 'sat_name', 'rnd_text', 'sat_text']

BODY = {
    'width': 'int(cl_fix_width(a_f))',
    'add_fmt': 'fm(cl_fix_add_fmt(a_f, b_f))', 'sub_fmt': 'fm(cl_fix_sub_fmt(a_f, b_f))', 'addsub_fmt': 'fm(cl_fix_addsub_fmt(a_f, b_f))', 'mult_fmt': 'fm(cl_fix_mult_fmt(a_f, b_f))',
    'neg_fmt': 'fm(cl_fix_neg_fmt(a_f))', 'abs_fmt': 'fm(cl_fix_abs_fmt(a_f))', 'shift_fmt': 'fm(cl_fix_shift_fmt(a_f, x, y))', 'shift1_fmt': 'fm(cl_fix_shift_fmt(a_f, x))',
    'round_fmt': 'fm(cl_fix_round_fmt(a_f, x, rnd))',
    'round': 'to_string(cl_fix_round(a, a_f, r_f, rnd))', 'saturate': 'to_string(cl_fix_saturate(a, a_f, r_f, sat))', 'resize': 'to_string(cl_fix_resize(a, a_f, r_f, rnd, sat))',
    'in_range': 'bo(cl_fix_in_range(a, a_f, r_f, rnd))',
    'abs': 'fm(cl_fix_abs_fmt(a_f)) & " " & to_string(cl_fix_abs(a, a_f, r_f, rnd, sat))', 'neg': 'fm(cl_fix_neg_fmt(a_f)) & " " & to_string(cl_fix_neg(a, a_f, r_f, rnd, sat))',
    'add': 'fm(cl_fix_add_fmt(a_f, b_f)) & " " & to_string(cl_fix_add(a, a_f, b, b_f, r_f, rnd, sat))',
    'sub': 'fm(cl_fix_sub_fmt(a_f, b_f)) & " " & to_string(cl_fix_sub(a, a_f, b, b_f, r_f, rnd, sat))',
    'addsub': 'fm(cl_fix_addsub_fmt(a_f, b_f)) & " " & to_string(cl_fix_addsub(a, a_f, b, b_f, sl(x), r_f, rnd, sat))',
    'mult': 'fm(cl_fix_mult_fmt(a_f, b_f)) & " " & to_string(cl_fix_mult(a, a_f, b, b_f, r_f, rnd, sat))',
    'shift': 'to_string(cl_fix_shift(a, a_f, x, r_f, rnd, sat))',
    'compare': 'bo(cl_fix_compare(txt, a, a_f, b, b_f))',
    'max': 'to_string(cl_fix_max_value(a_f))', 'min': 'to_string(cl_fix_min_value(a_f))',
    'to_integer': 'int(cl_fix_to_integer(a, a_f))', 'from_integer': 'to_string(cl_fix_from_integer(x, a_f))', 'sign': 'std_logic\'image(cl_fix_sign(a, a_f))',
    'pipe_round': 'int(cl_fix_recommended_pipelining(a_f, r_f, rnd, y /= 0))', 'pipe_sat': 'int(cl_fix_recommended_pipelining(a_f, r_f, sat))', 'pipe_both': 'int(cl_fix_recommended_pipelining(a_f, r_f, rnd, sat))',
    'from_real': 'to_string(cl_fix_from_real(rl(x, y, z), r_f, sat))', 'to_real': 'to_string(cl_fix_to_real(a, a_f), "%.17e")',
    'parse': 'fm(cl_fix_format_from_string(txt))', 'text': 'to_string(a_f)', 'rnd_name': 'FixRound_t\'image(cl_fix_round_from_string(txt))',
    'sat_name': 'FixSaturate_t\'image(cl_fix_saturate_from_string(txt))', 'rnd_text': 'to_string(rnd)', 'sat_text': 'to_string(sat)',
}

TB = '''
library ieee; use ieee.std_logic_1164.all;
use std.textio.all;
library work; use work.en_cl_fix_pkg.all;
entity vtb is end entity;
architecture sim of vtb is
    function int(i : integer) return string is begin return integer'image(i); end function;
    function bo(b : boolean) return string is begin return boolean'image(b); end function;
    function sl(i : integer) return std_logic is begin if i /= 0 then return '1'; else return '0'; end if; end function;
    function rl(m1, m0, e : integer) return real is begin return (real(m1)*134217728.0 + real(m0)) * 2.0**e; end function;
    function fm(f : FixFormat_t) return string is begin return integer'image(f.S) & "," & integer'image(f.I) & "," & integer'image(f.F); end function;
    function bits(s : string; asc : integer) return std_logic_vector is
        variable d : std_logic_vector(s'length-1 downto 0);
        variable u : std_logic_vector(0 to s'length-1);
        variable w : std_logic_vector(5 to s'length+4);
        variable q : std_logic_vector(s'length+2 downto 3);
    begin
        for i in 0 to s'length-1 loop
            if s(s'left+i) = '1' then u(i) := '1'; else u(i) := '0'; end if;
        end loop;
        d := u; w := u; q := u;
        if asc = 1 then return u; elsif asc = 2 then return w; elsif asc = 3 then return q; else return d; end if;
    end function;
begin
    process
        file fi : text;
        file fo : text;
        variable l, o : line;
        variable op, asc, x, y, z, i : integer;
        impure function tok return string is
            variable s : string(1 to 8192);
            variable n : natural := 0;
            variable ch : character;
            variable ok : boolean := true;
        begin
            while l'length > 0 loop
                read(l, ch, ok);
                exit when not ok;
                if ch = ' ' then exit when n > 0; else n := n + 1; if ch = '_' then s(n) := ' '; elsif ch = '~' then s(n) := '_'; else s(n) := ch; end if; end if;
            end loop;
            return s(1 to n);
        end function;
        impure function num return integer is
        begin
            return integer'value(tok);
        end function;
        impure function fmt return FixFormat_t is
            variable f : FixFormat_t;
        begin
            i := num;
            if i = 2 then f := NullFixFormat_c; i := num; i := num; return f; end if;
            f.S := i; f.I := num; f.F := num;
            return f;
        end function;
        variable a_f, b_f, r_f : FixFormat_t;
        variable rnd : FixRound_t;
        variable sat : FixSaturate_t;
        procedure put(s : string) is
        begin
            write(o, s);
            writeline(fo, o);
            flush(fo);
        end procedure;
        procedure run(op : integer; a, b : std_logic_vector; txt : string) is
        begin
            case op is
%s
                when others => null;
            end case;
        end procedure;
    begin
        file_open(fi, "cases.txt", read_mode);
        file_open(fo, "results.txt", write_mode);
        while not endfile(fi) loop
            readline(fi, l);
            op := num; asc := num; x := num; y := num; z := num;
            a_f := fmt; b_f := fmt; r_f := fmt;
            i := num; rnd := FixRound_t'val(i);
            i := num; sat := FixSaturate_t'val(i);
            run(op, bits(tok, asc mod 4), bits(tok, asc / 4), tok);
        end loop;
        put("end");
        file_close(fo);
        wait;
    end process;
end architecture;
'''


class Bench:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vhdloracle_')
        self.err = None
        self.enum = {}
        src = [os.path.join(REPO, 'hdl', f) for f in PKG + ENT]
        with open(os.path.join(self.dir, 'vtb.vhd'), 'w') as f:
            f.write(TB % '\n'.join('                when %d => put(%s);' % (i, BODY[o]) for i, o in enumerate(OPS)))
        self.sh(['ghdl', '-a', '-frelaxed', '--std=08'] + src + ['vtb.vhd'])
        if not self.err:
            self.sh(['ghdl', '-e', '-frelaxed', '--std=08', 'vtb'])
        if not self.err:
            # enumeration order of the source
            t = open(os.path.join(REPO, 'hdl', PKG[1])).read()
            t = re.sub(r'--.*', '', t)
            for ty, names in (('FixRound_t', RND), ('FixSaturate_t', SAT)):
                mm = re.search(r'type\s+%s\s+is\s*\(([^)]*)\)' % ty, t, re.I)
                order = [x.strip().lower() for x in mm.group(1).split(',')]
                for n in names:
                    self.enum[n] = order.index(n.lower())

    def sh(self, cmd, timeout=120):
        p = subprocess.run(cmd, cwd=self.dir, env=dict(os.environ, GHDL_BACKEND='gcc'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if p.returncode:
            self.err = p.stdout.decode(errors='replace')[-600:]
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def line(self, c):
        e = self.enum
        z3 = [0, 0, 0]
        x = [OPS.index(c['op']), c.get('asc', 0), c.get('x', 0), c.get('y', 0), c.get('z', 0)] + list(c.get('fa') or z3) + list(c.get('fb') or z3) + list(c.get('fr') or [2, 0, 0])
        x += [e[c.get('rnd', 'Trunc_s')], e[c.get('sat', 'Warn_s')]]
        a = bits(c['a'], c['fa']) if 'a' in c else '0'
        b = bits(c['b'], c['fb']) if 'b' in c else '0'
        t = c.get('txt', '-').replace('_', '~').replace(' ', '_')
        return ' '.join(map(str, x)) + ' %s %s %s' % (a, b, t)

    def run(self, cases):
        """Result text per case; None from the first run-time error on (its message in .crash)."""
        with open(os.path.join(self.dir, 'cases.txt'), 'w') as f:
            f.write('\n'.join(self.line(c) for c in cases) + '\n')
        rp = os.path.join(self.dir, 'results.txt')
        if os.path.exists(rp):
            os.remove(rp)
        self.crash = None
        with open(os.path.join(self.dir, 'log.txt'), 'wb') as lg:
            try:
                subprocess.run([os.path.join(self.dir, 'vtb')], cwd=self.dir, stdout=lg, stderr=subprocess.STDOUT, timeout=60)
            except subprocess.TimeoutExpired:
                lg.write(b'time limit: simulation does not end')
        out = open(rp).read().split('\n')[:-1] if os.path.exists(rp) else []
        if out and out[-1] == 'end':
            return out[:-1]
        t = open(os.path.join(self.dir, 'log.txt'), errors='replace').read()
        t = [x for x in t.splitlines() if 'warning' not in x.lower()]
        self.crash = ' '.join(t)[-300:] or 'simulation stopped'
        return out


# -- judging one case -------------------------------------------------------------------------------
def real_of(c):
    return Fraction(c['x'] * 2 ** 27 + c['y']) * two(c['z'])


def py():
    import en_cl_fix_pkg.en_cl_fix_types as t
    return t


def py_fmt(c):
    t = py()
    F = t.FixFormat
    a = F(*c['fa'])
    o = c['op']
    if o in ('add_fmt', 'sub_fmt', 'addsub_fmt', 'mult_fmt'):
        r = getattr(F, 'for_' + o[:-4])(a, F(*c['fb']))
    elif o in ('neg_fmt', 'abs_fmt'):
        r = getattr(F, 'for_' + o[:-4])(a)
    elif o == 'shift_fmt':
        r = F.for_shift(a, c['x'], c['y'])
    elif o == 'shift1_fmt':
        r = F.for_shift(a, c['x'])
    else:
        r = F.for_round(a, c['x'], t.FixRound[c['rnd']])
    return [int(r.S), int(r.I), int(r.F)]


def value(c):
    o = c['op']
    a = Fraction(c['a']) / two(c['fa'][2])
    if 'b' in c:
        b = Fraction(c['b']) / two(c['fb'][2])
    return {'abs': lambda: abs(a), 'neg': lambda: -a, 'add': lambda: a + b, 'sub': lambda: a - b, 'addsub': lambda: a + b if c['x'] else a - b, 'mult': lambda: a * b,
            'shift': lambda: a * two(c['x']), 'resize': lambda: a, 'round': lambda: a, 'saturate': lambda: a}[o]()


def ints(s):
    return [int(x) for x in s.split(',')]


def judge(c, out):
    """Message if the result is wrong."""
    o = c['op']
    if o == 'width':
        want = str(width(c['fa']))
    elif o in BODY and o.endswith('_fmt'):
        want = ','.join(map(str, py_fmt(c)))
    elif o in ('abs', 'neg', 'add', 'sub', 'addsub', 'mult'):
        mid, got = out.split(' ')
        f = c.get('fr') or ints(mid)
        k = resize(value(c), f, c['rnd'], c['sat'])
        if not c.get('fr'):
            lo, hi = bounds(f)
            if k * 1 != value(c) * two(f[2]):
                return 'default result format %s cannot hold the exact result' % f
        want, out = bits(k, f), got
    elif o in ('round', 'saturate', 'resize', 'shift'):
        want = bits(resize(value(c), c['fr'], c.get('rnd', 'Trunc_s'), c.get('sat', 'None_s')), c['fr'])
    elif o == 'in_range':
        n = rnd_frac(Fraction(c['a']) / two(c['fa'][2]) * two(c['fr'][2]), c['rnd'])
        lo, hi = bounds(c['fr'])
        want = str(lo <= n <= hi).lower()
    elif o == 'compare':
        a, b = Fraction(c['a']) / two(c['fa'][2]), Fraction(c['b']) / two(c['fb'][2])
        want = str({'=': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[c['txt']]).lower()
    elif o in ('max', 'min'):
        want = bits(bounds(c['fa'])[o == 'max'], c['fa'])
    elif o == 'to_integer':
        want = str(c['a'])
    elif o == 'from_integer':
        want = bits(c['x'], c['fa'])
    elif o == 'sign':
        want = "'1'" if c['a'] < 0 else "'0'"
    elif o.startswith('pipe_'):
        want = str(pipe(c))
    elif o == 'from_real':
        want = bits(resize(real_of(c), c['fr'], 'NonSymPos_s', 'Sat_s'), c['fr'])
    elif o == 'to_real':
        want = Fraction(c['a']) / two(c['fa'][2])
        if Fraction(float(out)) != want:
            return 'to_real returned %s instead of %r' % (out, float(want))
        return None
    elif o == 'parse':
        want = ','.join(map(str, c['fa']))
    elif o == 'text':
        return None
    elif o in ('rnd_name', 'sat_name'):
        want, out = c['name'].lower(), out.lower()
    elif o in ('rnd_text', 'sat_text'):
        want, out = (c['rnd'] if o == 'rnd_text' else c['sat']).lower(), out.lower().strip()
    else:
        return None
    return None if want == out else '%s returned %s instead of %s' % (o, out, want)


def pipe(c):
    fa, fr = c['fa'], c['fr']

    def rl(a, r):
        return int(c['rnd'] != 'Trunc_s' and r[2] < a[2])

    def sl(a, r):
        return int(c['sat'] in ('Sat_s', 'SatWarn_s') and not (a[0] == r[0] and r[1] >= a[1]))
    if c['op'] == 'pipe_round':
        return rl(fa, fr)
    if c['op'] == 'pipe_sat':
        return sl(fa, fr)
    mid = py_fmt(dict(op='round_fmt', fa=fa, x=fr[2], rnd=c['rnd']))
    return rl(fa, mid) + sl(mid, fr)


# -- the pipeline components ------------------------------------------------------------------------
def lit(f):
    return '(S => %d, I => %d, F => %d)' % tuple(f)


def ent_tb(cs, n):
    """Testbench with one instance per configuration; every cycle's inputs and outputs go to results.txt."""
    out = ['library ieee; use ieee.std_logic_1164.all; use std.textio.all; library work; use work.en_cl_fix_pkg.all;', 'entity etb is end entity;', 'architecture sim of etb is',
           'signal clk : std_logic := \'0\'; type slots_t is array (0 to %d) of string(1 to 1);' % (n - 1), 'begin',
           'process begin for i in 0 to %d loop wait for 5 ns; clk <= \'1\'; wait for 5 ns; clk <= \'0\'; end loop; wait; end process;' % n]
    for i, c in enumerate(cs):
        k, m = c['op'][4:], c['meta']
        wa, wr = width(c['fa']), width(c['fr'])
        g = ['in_fmt_g => %s' % lit(c['fa']), 'out_fmt_g => %s' % lit(c['fr']), 'reg_mode_g => %s' % c['reg'], 'meta_width_g => %d' % m]
        if k != 'saturate':
            g.append('round_g => %s' % c['rnd'])
        if k != 'round':
            g.append('saturate_g => %s' % c['sat'])
        if c.get('nochk'):
            g.append('fmt_check_g => false')
        st = c['stim']
        out.append('b%d : block signal rst, iv, ov : std_logic := \'0\'; signal im, om : std_logic_vector(%d downto 0); signal id : std_logic_vector(%d downto 0); signal od : std_logic_vector(%d downto 0);'
                   % (i, m - 1, wa - 1, wr - 1))
        out.append('begin u : entity work.en_cl_fix_%s generic map(%s) port map(clk => clk, rst => rst, in_valid => iv, in_meta => im, in_data => id, out_valid => ov, out_meta => om, out_data => od);' % (k, ', '.join(g)))
        out.append('process file fo : text; variable o : line; begin file_open(fo, "r%d.txt", write_mode);' % i)
        for s in st:
            out.append('rst <= \'%s\'; iv <= \'%s\'; id <= "%s"; im <= "%s"; wait for 4 ns; write(o, std_logic\'image(ov)(2) & " " & to_string(od) & " " & to_string(om)); writeline(fo, o); wait for 6 ns;'
                       % (s[0], s[1], bits(s[2], c['fa']), format(s[3], '0%db' % m) if m else ''))
        out.append('file_close(fo); wait; end process; end block;')
    out.append('end architecture;')
    return '\n'.join(out)


def latency(c):
    k = c['op'][4:]
    if c['reg'] == 'No_s':
        return 0
    if c['reg'] == 'Yes_s':
        return 2 if k == 'resize' else 1
    return pipe(dict(c, op={'round': 'pipe_round', 'saturate': 'pipe_sat', 'resize': 'pipe_both'}[k]))


def judge_ent(c, lines):
    L = latency(c)
    st = c['stim']
    if len(lines) < len(st):
        return 'simulation stopped after %d cycles' % len(lines)
    k = c['op'][4:]
    rnd, sat = (c['rnd'] if k != 'saturate' else 'Trunc_s'), (c['sat'] if k != 'round' else 'None_s')
    for t in range(len(st)):
        ov, od, om = (lines[t] + '  ').split(' ')[:3]
        if t < L:
            if t >= 1 and ov == '1' and all(s[0] == '1' for s in st[:t]):
                return 'cycle %d: valid output during reset' % t
            continue
        src = st[t - L]
        want = src[1] == '1' and not any(st[t - j][0] == '1' for j in range(1, L + 1))
        if (ov == '1') != want:
            return 'cycle %d: out_valid is %s, expected %s (latency %d)' % (t, ov, int(want), L)
        if want:
            w = bits(resize(Fraction(src[2]) / two(c['fa'][2]), c['fr'], rnd, sat), c['fr'])
            if od != w:
                return 'cycle %d: out_data is %s, expected %s (latency %d)' % (t, od, w, L)
            if c['meta'] and om != format(src[3], '0%db' % c['meta']):
                return 'cycle %d: out_meta is %s, expected %s' % (t, om, format(src[3], '0%db' % c['meta']))
    return None


def run_ents(bench, cs):
    n = max(len(c['stim']) for c in cs)
    with open(os.path.join(bench.dir, 'etb.vhd'), 'w') as f:
        f.write(ent_tb(cs, n))
    err = bench.err
    bench.sh(['ghdl', '-a', '-frelaxed', '--std=08', 'etb.vhd'])
    if not bench.err:
        bench.sh(['ghdl', '-e', '-frelaxed', '--std=08', 'etb'])
    if bench.err:
        e, bench.err = bench.err, err
        raise RuntimeError('testbench: ' + e)
    for i in range(len(cs)):
        p = os.path.join(bench.dir, 'r%d.txt' % i)
        if os.path.exists(p):
            os.remove(p)
    with open(os.path.join(bench.dir, 'elog.txt'), 'wb') as lg:
        try:
            subprocess.run([os.path.join(bench.dir, 'etb')], cwd=bench.dir, stdout=lg, stderr=subprocess.STDOUT, timeout=60)
        except subprocess.TimeoutExpired:
            pass
    res = []
    for i, c in enumerate(cs):
        p = os.path.join(bench.dir, 'r%d.txt' % i)
        lines = open(p).read().split('\n')[:-1] if os.path.exists(p) else []
        res.append(lines)
    return res


# -- random cases -----------------------------------------------------------------------------------
class Gen:
    def __init__(self, seed, consts=(), hints=()):
        self.r = random.Random(seed)
        self.consts = [c for c in consts if abs(c) <= 400] or [0]
        self.hints = hints

    def small(self, hi=8):
        r = self.r
        x = r.random()
        if x < 0.6:
            return r.randint(-3, hi)
        if x < 0.8:
            return r.randint(-20, 24)
        if x < 0.93:
            return r.choice(self.consts) + r.randint(-2, 2)
        return r.randint(-90, 130)

    def fmt(self):
        r = self.r
        while True:
            s, i, f = r.randint(0, 1), self.small(), self.small()
            if i + f >= 0 and s + i + f >= 1:
                if s + i + f > 300:
                    i = min(i, 60)
                    f = 60 - i if i + f > 300 else f
                return [s, i, f]

    def near(self, f):
        """A format sharing something with f."""
        r = self.r
        for _ in range(50):
            g = [r.randint(0, 1), f[1] + r.randint(-4, 4), f[2] + r.randint(-4, 4)]
            if r.random() < 0.3:
                g[2] = f[2]
            if g[1] + g[2] >= 0 and sum(g) >= 1:
                return g
        return list(f)

    def rf(self, f):
        return self.near(f) if self.r.random() < 0.75 else self.fmt()

    def k(self, f):
        r = self.r
        lo, hi = bounds(f)
        x = r.random()
        if x < 0.35:
            v = r.choice([lo, hi, 0, -1, 1, lo + 1, hi - 1, hi // 2, hi // 2 + 1, lo // 2])
        elif x < 0.6:
            n = r.randrange(width(f) + 1)
            v = r.choice([1, -1]) * ((1 << n) + r.randint(-1, 1)) + (r.choice([1, -1]) * (1 << r.randrange(width(f) + 1)) if r.random() < 0.4 else 0)
        else:
            v = r.randint(lo, hi)
        return min(max(v, lo), hi)

    def base(self, op):
        r = self.r
        return dict(op=op, asc=r.randrange(16), rnd=r.choice(RND), sat=r.choice(SAT))

    def opcase(self, op):
        r = self.r
        c = self.base(op)
        fa = c['fa'] = self.fmt()
        if op in ('add_fmt', 'sub_fmt', 'addsub_fmt', 'mult_fmt', 'add', 'sub', 'addsub', 'mult', 'compare'):
            c['fb'] = self.near(fa) if r.random() < 0.5 else self.fmt()
        if op in ('shift_fmt', 'shift1_fmt', 'shift'):
            c['x'] = self.small()
            c['y'] = c['x'] + r.choice([0, 0, 1, 2, 5, 20])
        if op == 'round_fmt':
            c['x'] = fa[2] + r.randint(-fa[1] - fa[2] - 3, 4)
            if r.random() < 0.3:
                c['x'] = self.small()
        if op == 'round' or op == 'pipe_round':
            c['fr'] = py_fmt(dict(op='round_fmt', fa=fa, x=fa[2] + r.randint(-6, 3) if r.random() < 0.8 else self.small(), rnd=c['rnd']))
            c['y'] = 1
            if sum(c['fr']) > 2000 or sum(c['fr']) < 1:
                return None
        elif op in ('saturate', 'pipe_sat'):
            c['fr'] = self.rf(fa)
            c['fr'][2] = fa[2]
            if c['fr'][1] + fa[2] < 0 or sum(c['fr']) < 1:
                return None
        elif op in ('resize', 'in_range', 'abs', 'neg', 'shift', 'add', 'sub', 'addsub', 'mult', 'pipe_both'):
            f = fa
            if op == 'mult':
                f = [1, fa[1] + c['fb'][1], fa[2] + c['fb'][2]]
                if f[1] + f[2] < 0:
                    f = fa
            if op == 'shift':
                f = [fa[0], fa[1] + c['x'], fa[2] - c['x']]
            c['fr'] = self.rf(f)
            if op in ('abs', 'neg', 'add', 'sub', 'addsub', 'mult') and r.random() < 0.3:
                c['fr'], c['rnd'], c['sat'] = None, 'Trunc_s', 'Warn_s'
        if op in ('round', 'saturate', 'resize', 'in_range', 'abs', 'neg', 'shift', 'add', 'sub', 'addsub', 'mult', 'compare', 'to_integer', 'sign', 'to_real'):
            if op == 'to_integer' and width(fa) > 31 + fa[0]:
                c['fa'] = fa = [fa[0], 31 - fa[2], fa[2]]
            if op == 'to_real' and max(abs(fa[1]), abs(fa[2])) > 900:
                return None
            c['a'] = self.k(fa)
            if op == 'to_real' and abs(c['a']) >= 2 ** 53:
                t = abs(c['a']).bit_length() - 53
                c['a'] = (c['a'] >> t) << t
                if not bounds(fa)[0] <= c['a'] <= bounds(fa)[1]:
                    return None
        if op in ('add', 'sub', 'addsub', 'mult', 'compare'):
            c['b'] = self.k(c['fb'])
        if op == 'addsub':
            c['x'] = r.randint(0, 1)
        if op == 'compare':
            c['txt'] = r.choice(CMP)
            if r.random() < 0.5:
                # equal or nearly equal values
                v = Fraction(c['a']) / two(fa[2]) * two(c['fb'][2])
                lo, hi = bounds(c['fb'])
                c['b'] = min(max(math.floor(v) + r.randint(-1, 1), lo), hi)
        if op == 'from_integer':
            lo, hi = bounds(fa)
            c['x'] = max(min(self.k(fa), 2 ** 31 - 1), -2 ** 31 + 1)
            if not lo <= c['x'] <= hi:
                return None
        if op == 'from_real':
            fr = c['fr'] = self.fmt()
            c['sat'] = r.choice(['Sat_s', 'SatWarn_s'])
            x = r.random()
            lo, hi = bounds(fr)
            if x < 0.5:
                v = Fraction(2 * self.k(fr) + r.randint(-3, 3), 2) / two(fr[2])
                if r.random() < 0.4:
                    v += r.choice([1, -1]) * two(-fr[2] - r.randint(1, 40))
            else:
                v = Fraction(r.randint(-2 ** 20, 2 ** 20), 2 ** 18) * two(r.randint(-fr[2] - 8, fr[1] + 3))
            d = float(v)
            m, e = math.frexp(d)
            m = int(m * 2 ** 53)
            e -= 53
            while m and m % 2 == 0:
                m //= 2
                e += 1
            if abs(e) > 900:
                return None
            s = -1 if m < 0 else 1
            c['x'], c['y'], c['z'] = s * (abs(m) >> 27), s * (abs(m) & (2 ** 27 - 1)), e
        if op == 'parse':
            f = [fa[0], r.choice([fa[1], r.randint(-99, 999), 10 ** r.randrange(9), r.randint(-2 ** 31 + 1, 2 ** 31 - 1)]), 0]
            f[2] = r.choice([max(fa[2], -f[1]), min(-f[1] + r.randrange(200), 2 ** 31 - 1)])
            if abs(f[2]) >= 2 ** 31 or f[1] + f[2] < 0:
                return None
            if r.random() < 0.5:
                f = self.fmt()
            c['fa'] = f
            t = py()
            if r.random() < 0.5:
                c['txt'] = str(t.FixFormat(*f))
            else:
                import en_cl_fix_pkg.en_cl_fix as m_
                c['txt'] = m_.cl_fix_format_to_string(t.FixFormat(*f))
        if op in ('rnd_name', 'sat_name'):
            c['name'] = r.choice(RND if op == 'rnd_name' else SAT)
            c['txt'] = ''.join(r.choice([ch.lower(), ch.upper()]) for ch in c['name'])
        return c

    def ent(self):
        r = self.r
        k = r.choice(['round', 'saturate', 'resize'])
        for _ in range(100):
            c = self.opcase({'round': 'pipe_round', 'saturate': 'saturate', 'resize': 'pipe_both'}[k])
            if c and width(c['fa']) <= 90 and width(c['fr']) <= 90:
                break
        else:
            return None
        for x in ('a', 'x', 'y'):
            c.pop(x, None)
        c['op'] = 'ent_' + k
        c['reg'] = r.choice(['Auto_s', 'Yes_s', 'No_s'])
        c['meta'] = r.choice([0, 1, 3, 8]) if r.random() < 0.6 else r.choice([2, 4, 12, 16, 17, 24, 31, 32, 33, 48, 64, 65, 100])
        p, q = r.choice([(0.5, 0.1), (0.9, 0.02), (1, 0), (0.3, 0.3)])
        c['stim'] = [[ '1' if i < 3 or r.random() < q else '0', '1' if r.random() < p else '0', self.k(c['fa']), r.randrange(2 ** c['meta'])] for i in range(40)]
        return c

    def hinted(self, c):
        h = self.r.choice(self.hints)
        c = dict(c)
        for key, nm in (('fa', 'a'), ('fb', 'b'), ('fr', 'r')):
            if c.get(key):
                f = list(c[key])
                for j, l in ((1, 'I'), (2, 'F')):
                    if nm + l in h:
                        f[j] = int(h[nm + l])
                if f[1] + f[2] >= 0 and 1 <= sum(f) <= 400 and max(map(abs, f)) < 400:
                    c[key] = f
        if c['op'] in ('round', 'pipe_round'):
            c['fr'] = py_fmt(dict(op='round_fmt', fa=c['fa'], x=int(h['rF']) if abs(h.get('rF', 999)) < 400 else c['fr'][2], rnd=c['rnd']))
            if not 1 <= sum(c['fr']) <= 2000:
                return None
        if c['op'] in ('saturate', 'pipe_sat'):
            c['fr'] = [c['fr'][0], c['fr'][1], c['fa'][2]]
            if c['fr'][1] + c['fr'][2] < 0 or sum(c['fr']) < 1:
                return None
        for p in ('a', 'b'):
            if p in c:
                lo, hi = bounds(c['f' + p])
                if p + '_k0' in h or p + '_k' in h:
                    c[p] = int(h.get(p + '_k', h.get(p + '_k0')))
                c[p] = min(max(c[p], lo), hi)
        if c['op'] == 'to_real' and abs(c['a']) >= 2 ** 53 or c['op'] == 'to_integer' and not -2 ** 31 < c['a'] < 2 ** 31:
            return None
        if c['op'] == 'from_integer' and not bounds(c['fa'])[0] <= c['x'] <= bounds(c['fa'])[1]:
            return None
        if c['op'] in ('shift', 'shift1_fmt', 'shift_fmt') and abs(h.get('shift', 999)) < 400:
            c['x'] = int(h['shift'])
            c['y'] = max(c['y'], c['x'])
        if 'stim' in c:
            c['stim'] = [s[:2] + [min(max(s[2], bounds(c['fa'])[0]), bounds(c['fa'])[1])] + s[3:] for s in c['stim']]
            if c['op'] == 'ent_round':
                c['fr'] = py_fmt(dict(op='round_fmt', fa=c['fa'], x=c['fr'][2], rnd=c['rnd']))
            if c['op'] == 'ent_saturate':
                c['fr'] = [c['fr'][0], c['fr'][1], c['fa'][2]]
            if not 1 <= sum(c['fr']) <= 400 or c['fr'][1] + c['fr'][2] < 0:
                return None
        return c


PROPS = {
    'C17': ['width'] + [f + '_fmt' if f != 'round_fmt' else f for f in FMTOP],
    'C18': ['round', 'saturate', 'resize', 'in_range', 'abs', 'neg', 'add', 'sub', 'addsub', 'mult', 'shift', 'compare', 'max', 'min', 'to_integer', 'from_integer', 'sign', 'round', 'resize', 'saturate'],
    'C19': ['pipe_round', 'pipe_sat', 'pipe_both'],
    'C20': ['parse', 'parse', 'parse', 'parse', 'text', 'rnd_name', 'sat_name', 'rnd_text', 'sat_text'],
    'C21': ['from_real', 'from_real', 'to_real'],
}


def batch(bench, cs):
    """First violation among the cases, or None."""
    todo = list(cs)
    back = []
    while todo:
        out = bench.run(todo)
        for c, o in zip(todo, out):
            m = judge(c, o)
            if m:
                return c, 'value', m
            if c['op'] == 'text':
                # the VHDL text must parse back
                back.append(dict(c, op='parse', txt=o))
        if bench.crash is not None:
            if len(out) < len(todo):
                return todo[len(out)], 'error', 'the simulation fails: ' + bench.crash
        break
    return batch(bench, back) if back else None


def search(prop, cases, seed, hints=(), consts=(), budget=None):
    g = Gen(seed, consts, hints)
    t0 = time.time()
    bench = Bench()
    n, seen, samples, errs, viol = 0, 0, [], [], None
    try:
        if bench.err:
            errs.append('the VHDL sources cannot be built with the testbench: ' + bench.err)
            return dict(evaluations=0, distinct=0, samples=[], violation=None, errs=errs, nerrs=1)
        ops, i = PROPS[prop], 0
        while n < cases and (budget is None or time.time() - t0 < budget) and not viol and len(errs) < 50:
            ent = prop == 'C19' and i % 2 == 1
            i += 1
            cs, keys = [], set()
            for j in range(10 if ent else 600):
                try:
                    c = g.ent() if ent else g.opcase(ops[j % len(ops)])
                    if c and g.hints and g.r.random() < 0.6:
                        c = g.hinted(c)
                except Exception as e:
                    errs.append('%s: %s' % (type(e).__name__, e))
                    continue
                if c and (prop != 'C17' or ok_py(c)):
                    key = json.dumps(c, sort_keys=True)
                    if key not in keys:
                        keys.add(key)
                        cs.append(c)
            samples += [c for c in cs[:2] if len(samples) < 3]
            try:
                if ent:
                    for c, lines in zip(cs, run_ents(bench, cs)):
                        m = judge_ent(c, lines)
                        if m and not viol:
                            viol = (c, 'value', m)
                else:
                    viol = batch(bench, cs)
            except Exception as e:
                errs.append('%s: %s' % (type(e).__name__, e))
            n += len(cs)
            seen += len(keys)
    finally:
        bench.close()
    v = dict(case=viol[0], category=viol[1], message=viol[2]) if viol else None
    return dict(evaluations=n, distinct=seen, samples=samples, violation=v, errs=errs[:3], nerrs=len(errs))


def ok_py(c):
    try:
        if c['op'] != 'width':
            py_fmt(c)
        return True
    except Exception:
        return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('what')
    ap.add_argument('--cases', type=int, default=2000)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--hints')
    ap.add_argument('--consts')
    a = ap.parse_args()
    if a.cmd == 'replay':
        d = json.load(open(a.what))
        c = d['case']
        bench = Bench()
        try:
            if bench.err:
                print('the VHDL sources cannot be built with the testbench: ' + bench.err)
                sys.exit(2)
            if c['op'].startswith('ent_'):
                m = judge_ent(c, run_ents(bench, [c])[0])
            else:
                v = batch(bench, [c])
                m = v and v[2]
        finally:
            bench.close()
        print(m or 'no failure')
        sys.exit(1 if m else 0)
    hints = json.load(open(a.hints)) if a.hints else []
    consts = json.load(open(a.consts)) if a.consts else []
    print(json.dumps(search(a.what, a.cases, a.seed, hints, consts, a.budget)))


if __name__ == '__main__':
    main()
