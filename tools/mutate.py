#!/usr/bin/env python3
"""Mutation experiment on the Python package: which small changes does no proof task notice?

  mutate.py cover OUT.json            run every Python task once, record the functions each executes and its time
  mutate.py list N SEED               choose N mutants
  mutate.py run COVER.json N SEED [PROCS]   for each, run the tasks covering the mutated function until one objects
Not a check: a tool to find gaps. Undetected mutants are equivalent, break no listed property, or show a gap.
"""
import ast, json, os, random, subprocess, sys, time, tempfile, shutil, copy
REPO = '/repo'
PK = 'bittrue/models/python/en_cl_fix_pkg/'
FILES = ['en_cl_fix.py', 'en_cl_fix_types.py', 'narrow_fix.py', 'wide_fix.py', 'matlab_interface.py']
VG = {'vfmt', 'vfun', 'vpipe', 'vtext', 'vreal'}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.Div: [ast.Mult]}


def sites(tree):
    """(function, kind, node, variant) for every possible mutation."""
    out = []

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = (fn + '.' if fn else '') + n.name
        else:
            q = fn
        if isinstance(n, (ast.Assert, ast.Raise)):
            out.append((q, 'drop', n, 0))
            if isinstance(n, ast.Raise):
                return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Compare):
            for k, v in enumerate(CMP.get(type(n.ops[0]), [])):
                out.append((q, 'cmp', n, k))
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            if not isinstance(n.op, ast.Mod) or not isinstance(getattr(n, 'left', None), ast.Constant):
                for k, v in enumerate(BIN.get(type(n.op), [])):
                    out.append((q, 'bin', n, k))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and q:
            if isinstance(n.value, bool):
                out.append((q, 'const', n, 2))
            else:
                out.append((q, 'const', n, 0)); out.append((q, 'const', n, 1))
        if isinstance(n, ast.BoolOp):
            out.append((q, 'bool', n, 0))
            out.append((q, 'boolleft', n, 0))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((q, 'unary', n, 0))
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if nm in ('max', 'min', 'floor', 'ceil', 'any', 'all', 'NarrowFix', 'WideFix', 'rint', 'trunc'):
                out.append((q, 'call', n, 0))
            if nm in ('copy', 'astype', 'asarray', 'array', 'abs', 'floor') and n.args:
                out.append((q, 'peel', n, 0))
            if len(n.args) >= 2:
                out.append((q, 'swapargs', n, 0))
            if n.keywords:
                out.append((q, 'dropkw', n, 0))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and q:
            out.append((q, 'drop', n, 0))
        if isinstance(n, ast.If):
            out.append((q, 'iftrue', n, 0)); out.append((q, 'iffalse', n, 0))
        if isinstance(n, ast.Attribute) and n.attr in ('S', 'I', 'F') and isinstance(n.ctx, ast.Load):
            out.append((q, 'attr', n, 0)); out.append((q, 'attr', n, 1))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ('a_fmt', 'b_fmt', 'r_fmt', 'a', 'b', 'mid_fmt'):
            out.append((q, 'name', n, 0))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        for ch in ast.iter_child_nodes(n):
            visit(ch, q)
    visit(tree, '')
    return out


class Repl(ast.NodeTransformer):
    def __init__(s, old, new):
        s.old, s.new = old, new

    def visit(s, n):
        if n is s.old:
            return s.new
        return s.generic_visit(n)


def mutate(tree, site):
    q, kind, n, k = site
    m = copy.copy(n)
    if kind == 'drop':
        m = ast.copy_location(ast.Pass(), n)
    elif kind == 'cmp':
        m.ops = [CMP[type(n.ops[0])][k]()] + n.ops[1:]
    elif kind == 'bin':
        m.op = BIN[type(n.op)][k]()
    elif kind == 'const':
        m.value = (not n.value) if k == 2 else n.value + (1 if k == 0 else -1)
    elif kind == 'bool':
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'boolleft':
        m = n.values[0]
    elif kind == 'unary':
        m = n.operand
    elif kind == 'call':
        S = {'max': 'min', 'min': 'max', 'floor': 'ceil', 'ceil': 'floor', 'any': 'all', 'all': 'any', 'NarrowFix': 'WideFix', 'WideFix': 'NarrowFix', 'rint': 'floor', 'trunc': 'floor'}
        f = copy.copy(n.func)
        if isinstance(f, ast.Name):
            f.id = S[f.id]
        else:
            f.attr = S[f.attr]
        m.func = f
    elif kind == 'peel':
        m = n.args[0] if not (isinstance(n.func, ast.Attribute) and n.func.attr in ('astype', 'copy')) else n.func.value
    elif kind == 'swapargs':
        m.args = [n.args[1], n.args[0]] + n.args[2:]
    elif kind == 'dropkw':
        m.keywords = n.keywords[:-1]
    elif kind == 'iftrue':
        m.test = ast.Constant(True)
    elif kind == 'iffalse':
        m.test = ast.Constant(False)
    elif kind == 'attr':
        m.attr = [x for x in 'SIF' if x != n.attr][k]
    elif kind == 'name':
        m.id = {'a_fmt': 'b_fmt', 'b_fmt': 'a_fmt', 'r_fmt': 'a_fmt', 'a': 'b', 'b': 'a', 'mid_fmt': 'r_fmt'}[n.id]
    return Repl(n, m).visit(tree)


def choose(N, seed):
    allm = []
    for f in FILES:
        src = open(f'{REPO}/{PK}{f}').read()
        n = len(sites(ast.parse(src)))
        allm += [(f, i) for i in range(n)]
    random.Random(seed).shuffle(allm)
    out = []
    for f, i in allm:
        src = open(f'{REPO}/{PK}{f}').read()
        t = ast.parse(src)
        s = sites(t)[i]
        if not s[0] or s[0].endswith('__str__') or s[0].endswith('__repr__'):
            continue
        line = getattr(s[2], 'lineno', 0)
        old = ast.unparse(s[2])[:100]
        base = ast.unparse(ast.parse(src))
        t = mutate(t, s)
        new = ast.unparse(ast.fix_missing_locations(t))
        if new == base:
            continue
        import difflib
        d = [x for x in difflib.unified_diff(base.split('\n'), new.split('\n'), n=0, lineterm='') if x[:1] in '+-' and x[:3] not in ('+++', '---')]
        out.append((f, i, s[0], s[1], line, d, new))
        if len(out) == N:
            break
    return out


def cover(outf):
    sys.path.insert(0, '/verif')
    from vc import tasks, tasks2, tasks3, tasks_vhdl, runner
    ts = [t for g in tasks.TASKS if g not in VG for t in tasks.TASKS[g]]
    mon = sys.monitoring
    orig = runner.run_task

    def run(t, inline=False, deadline=None):
        seen = set()
        mon.use_tool_id(3, 'cov') if mon.get_tool(3) is None else None

        def start(code, off):
            if 'en_cl_fix_pkg' in code.co_filename:
                seen.add(code.co_filename.split('/')[-1] + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
        mon.restart_events()
        r = orig(t, inline, deadline)
        mon.set_events(3, 0)
        r['cov'] = sorted(seen)
        return r
    runner.run_task = run
    res = runner.run_tasks(ts, procs=int(os.environ.get('PROCS', '7')))
    json.dump({r['task']: dict(time=r['time'], cov=r['cov'], bad=bool(r['error'] or any(not o[1] for o in r['obl']) or not r['obl']), err=(r['error'] or '')[-200:]) for r in res}, open(outf, 'w'))
    b = runner.bad(res)
    print('tasks', len(res), 'bad', len(b))
    for r in b:
        print('BAD', r['task'], '%.1f' % r['time'], (r['error'] or '')[-300:], [(o[0][:100], str(o[2])[:200]) for o in r['obl'] if not o[1]][:2])


ONE = r'''
import sys, json, os, time
sys.path.insert(0, '/verif')
from vc import tasks, tasks2, tasks3, tasks_vhdl, runner
names = json.load(open(sys.argv[1]))
by = {t.name: t for g in tasks.TASKS for t in tasks.TASKS[g]}
t0 = time.time()
und = 0
for i, n in enumerate(names):
    if time.time() - t0 > float(sys.argv[2]): print('TIMEOUT after %d of %d tasks' % (i, len(names))); break
    r = runner.run_task(by[n], deadline=120)
    bad = [o for o in r['obl'] if not o[1]]
    if bad: print('CAUGHT by %s: %s (%d tasks, %d undecided)' % (n, bad[0][0][:90], i + 1, und)); break
    if r['error']: und += 1; last = n + ': ' + r['error'][-150:].replace('\n', ' ')
    if r['error'] and und >= 25: print('UNDECIDED 25 of %d tasks, e.g. %s' % (i + 1, last)); break
else: print('MISSED by all %d tasks (%d undecided%s) %.0fs' % (len(names), und, ', e.g. ' + last if und else '', time.time() - t0))
'''


def run(cov, N, seed, procs):
    from concurrent.futures import ThreadPoolExecutor
    C = json.load(open(cov))
    ms = choose(N, seed)
    open('/tmp/mut/one.py', 'w').write(ONE)

    def one(k):
        f, i, q, kind, line, d, new = ms[k]
        want = {x for x in [q]}
        ts = [t for t, r in C.items() if any(c.split(':')[0] == f and (c.split(':')[1].startswith(q)) for c in r['cov'])]
        ts.sort(key=lambda t: C[t]['time'])
        # a spread: every tenth task first, so that cheap but irrelevant ones do not dominate
        rnd = random.Random(1)
        head = rnd.sample(ts, min(12, len(ts)))
        head.sort(key=lambda t: C[t]['time'])
        ts = head + [t for t in ts if t not in head]
        root = tempfile.mkdtemp(prefix='m', dir='/tmp/mut')
        os.makedirs(root + '/' + os.path.dirname(PK))
        os.rmdir(root + '/' + os.path.dirname(PK))
        shutil.copytree(REPO + '/' + PK, root + '/' + PK)
        shutil.copytree(REPO + '/hdl', root + '/hdl')
        open(root + '/' + PK + f, 'w').write(new)
        json.dump(ts, open(root + '/names.json', 'w'))
        if ts:
            r = subprocess.run(['python3-vt', '/tmp/mut/one.py', root + '/names.json', '1500'], env=dict(os.environ, VERIF_REPO=root), capture_output=True, text=True)
            o = r.stdout.strip() or 'CRASH ' + r.stderr[-300:]
        else:
            o = 'NOT COVERED'
        shutil.rmtree(root)
        print('%3d %s:%d %s [%s] %s\n      %s' % (k, f, line, q, kind, o, ' | '.join(x.strip() for x in d)[:400]), flush=True)
    with ThreadPoolExecutor(procs) as p:
        list(p.map(one, range(len(ms))))


if __name__ == '__main__':
    os.makedirs('/tmp/mut', exist_ok=True)
    if sys.argv[1] == 'cover':
        cover(sys.argv[2])
    elif sys.argv[1] == 'list':
        for m in choose(int(sys.argv[2]), int(sys.argv[3])):
            print(m[0], m[4], m[2], m[3], m[5])
    else:
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]) if len(sys.argv) > 5 else 6)
