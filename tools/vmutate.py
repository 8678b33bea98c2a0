#!/usr/bin/env python3
"""Mutation experiment on the VHDL sources (see mutate.py).

  vmutate.py cover OUT.json | vmutate.py run COVER.json N SEED [PROCS]
"""
import json, os, random, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
REPO = '/repo'
FILES = ['en_cl_fix_private_pkg.vhd', 'en_cl_fix_pkg.vhd', 'en_cl_fix_round.vhd', 'en_cl_fix_saturate.vhd', 'en_cl_fix_resize.vhd']
VG = ['vfmt', 'vfun', 'vpipe', 'vtext', 'vreal']
RULES = [(r'(?<![<>/:=])<(?![=>])', ['<=', '>']), (r'(?<![<>/:])<=(?= ?[a-zA-Z0-9_(]+.* (?:then|else|and|or)\b)', ['<']), (r'(?<![<>/=])>(?!=)', ['>=', '<']), (r'>=', ['>']),
         (r'(?<=[\w)\]] )=(?= [\w\'"(-])(?=.*(?:then|else|and|or|when|;))', ['/=']), (r'/=', ['=']),
         (r'(?<=[\w)] )\+(?= ?[\w(])', ['-']), (r'(?<=[\w)])\+(?=[\w(])', ['-']), (r'(?<=[\w)] )-(?= [\w(])', ['+']), (r'(?<=[\w)])-(?=[\w(])', ['+']), (r'(?<=[\w)])\*(?=[\w(])', ['+']),
         (r'\band\b', ['or']), (r'\bor\b', ['and']), (r'\bnot\b', ['']), (r"'0'", ["'1'"]), (r"'1'", ["'0'"]),
         (r'\bmax\b', ['min']), (r'\bmin\b', ['max']), (r'\bmaximum\b', ['minimum']), (r'\bminimum\b', ['maximum']),
         (r'(?<=\.)S\b', ['I']), (r'(?<=\.)I\b', ['F', 'S']), (r'(?<=\.)F\b', ['I']),
         (r'\ba_?[fF]mt\b', ['SWAPAB']), (r'\bb_?[fF]mt\b', ['SWAPAB']), (r'\bresult_fmt\b', ['a_fmt']), (r'\brFmt\b', ['aFmt']),
         (r"'high\b", ["'low"]), (r"'left\b", ["'right"]), (r"'length\b", ["'length+1"]),
         (r'(?<![\w."])\d+(?![\w."])', ['INC', 'DEC']), (r'(?<![\w"])\d+\.\d+', ['INCF']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
         (r'\bNonSym(Pos|Neg)_s\b', ['SWAPM']), (r'\bSym(Inf|Zero)_s\b', ['SWAPM']), (r'\bTrunc_s\b', ['NonSymPos_s']), (r'\bSat(Warn)?_s\b', ['Warn_s']), (r'\bWarn_s\b', ['Sat_s']), (r'\bNone_s\b', ['Warn_s']),
         (r'\bsigned\(', ['unsigned(']), (r'\bunsigned\(', ['signed(']), (r'\brising_edge\b', ['falling_edge']),
         (r'\bshift_left\b', ['shift_right']), (r'\bshift_right\b', ['shift_left']), (r'\babs\b', ['']), (r'\bdownto\b', ['to'])]


def sites(text):
    out = []
    body = text.index('package body') if 'package body' in text else text.index('architecture')
    pos, fn = 0, None
    for line in text.split('\n'):
        m = re.match(r'\s*(?:impure )?function\s+(\w+)', line)
        if m:
            fn = m.group(1).lower()
        code = line.split('--')[0]
        if pos >= body and code.strip() and not re.match(r'\s*(report|severity)', code):
            strs = [(x.start(), x.end()) for x in re.finditer(r'"[^"]*"', code)]
            for pat, reps in RULES:
                for x in re.finditer(pat, code):
                    if any(a <= x.start() < b for a, b in strs):
                        continue
                    for r in reps:
                        t = x.group(0)
                        if r == 'INC': r = str(int(t) + 1)
                        elif r == 'DEC':
                            if t == '0': continue
                            r = str(int(t) - 1)
                        elif r == 'INCF': r = str(float(t) + 1)
                        elif r == 'SWAPAB': r = ('b' if t[0] == 'a' else 'a') + t[1:]
                        elif r == 'SWAPM': r = {'NonSymPos_s': 'NonSymNeg_s', 'NonSymNeg_s': 'NonSymPos_s', 'SymInf_s': 'SymZero_s', 'SymZero_s': 'SymInf_s'}[t]
                        out.append((fn, pos + x.start(), pos + x.end(), r, line.strip()))
            if re.match(r'\s*[\w.()]+\s*(:=|<=).*;\s*$', code):
                out.append((fn, pos, pos + len(code), '', line.strip()))
        pos += len(line) + 1
    return out


def cover(outf):
    sys.path.insert(0, '/verif')
    from vc import tasks, tasks2, tasks3, tasks_vhdl, runner, vhdl
    cls = next(v for v in vars(vhdl).values() if isinstance(v, type) and 'char_summary' in vars(v))
    o_run, o_decl = cls.run, cls.declare
    seen, ids = set(), {}

    def run(self, f, vals, line):
        ids[id(f.decls)] = f.name
        return o_run(self, f, vals, line)

    def declare(self, decls, env):
        if id(decls) in ids: seen.add(ids[id(decls)])
        return o_decl(self, decls, env)
    cls.run, cls.declare = run, declare
    orig = runner.run_task

    def rt(t, inline=False, deadline=None):
        seen.clear()
        r = orig(t, inline, deadline)
        r['cov'] = sorted(x.lower() for x in seen)
        return r
    runner.run_task = rt
    ts = [t for g in VG for t in tasks.TASKS[g]]
    res = runner.run_tasks(ts, procs=int(os.environ.get('PROCS', '7')))
    json.dump({r['task']: dict(time=r['time'], cov=r['cov'], group=r['group']) for r in res}, open(outf, 'w'))
    print('tasks', len(res), 'bad', [(r['task'], (r['error'] or '')[-300:]) for r in runner.bad(res)][:3])


def run(cov, N, seed, procs):
    sys.path.insert(0, '/verif/tools')
    from mutate import ONE
    os.makedirs('/tmp/mut', exist_ok=True)
    open('/tmp/mut/one.py', 'w').write(ONE)
    C = json.load(open(cov))
    allm = []
    for f in FILES:
        t = open(f'{REPO}/hdl/{f}', newline='').read()
        allm += [(f,) + s for s in sites(t)]
    random.Random(seed).shuffle(allm)

    def one(k):
        f, fn, a, b, r, line = allm[k]
        t = open(f'{REPO}/hdl/{f}', newline='').read()
        t = t[:a] + r + t[b:]
        root = tempfile.mkdtemp(prefix='m', dir='/tmp/mut')
        try:
            shutil.copytree(REPO + '/bittrue/models/python', root + '/bittrue/models/python')
            shutil.copytree(REPO + '/hdl', root + '/hdl')
            open(f'{root}/hdl/{f}', 'w', newline='').write(t)
            os.mkdir(root + '/w')
            x = subprocess.run('for x in %s; do GHDL_BACKEND=gcc ghdl -a -frelaxed --std=08 ../hdl/$x || exit 1; done' % ' '.join(FILES), shell=True, cwd=root + '/w', capture_output=True, text=True)
            new = t[t.rfind('\n', 0, a) + 1:t.find('\n', a)].strip()
            if x.returncode:
                return None
            pipe = f in FILES[2:]
            ts = [n for n, v in C.items() if (v['group'] == 'vpipe' if pipe else fn in v['cov'])]
            ts.sort(key=lambda n: C[n]['time'])
            json.dump(ts, open(root + '/names.json', 'w'))
            if ts:
                p = subprocess.run(['python3-vt', '/tmp/mut/one.py', root + '/names.json', '600'], env=dict(os.environ, VERIF_REPO=root), capture_output=True, text=True)
                o = p.stdout.strip() or 'CRASH ' + p.stderr[-300:]
            else:
                o = 'NOT COVERED'
            print('%3d %s %s [%s]\n      - %s\n      + %s' % (k, f, fn, o, line, new), flush=True)
            return True
        finally:
            shutil.rmtree(root)
    with ThreadPoolExecutor(procs) as p:
        print('mutants', sum(bool(x) for x in p.map(one, range(N))))


if __name__ == '__main__':
    if sys.argv[1] == 'cover': cover(sys.argv[2])
    else: run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]) if len(sys.argv) > 5 else 6)
