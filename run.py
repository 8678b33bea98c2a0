#!/usr/bin/env python3-vt
"""Decides one property of en_cl_fix:  python3-vt run.py Cxx [--tier quick|thorough]

Discharges every proof obligation of the property's contracts, generated from /repo's current source; replays counterexamples
against the real code.  Exit 0: holds.  Exit 1 with a VIOLATION line: broken.
"""
import argparse
import ast
import glob
import json
import os
import re
import subprocess
import sys
import tempfile
import time

if os.environ.get('PYTHONHASHSEED') != '0':
    # every run meets the same obligations in the same order
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
EVID = os.path.join(HERE, 'evidence')
T0 = time.time()

from vc.closures import CLOSURE, category, unneeded, ASSUMPTIONS, TRUSTED  # noqa: E402


def log(*a):
    print('[%5.1fs]' % (time.time() - T0), *a, flush=True)


def consts():
    """Integer constants of the source, to steer the search for a failing input."""
    out = set()
    for f in glob.glob(REPO + '/bittrue/models/python/en_cl_fix_pkg/*.py'):
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                try:
                    out.add(int(n.value))
                except (OverflowError, ValueError):
                    pass
    for f in glob.glob(REPO + '/hdl/*.vhd'):
        out |= {int(x) for x in re.findall(r'(?<![\w.#])\d{1,9}(?![\w.#])', re.sub(r'--.*', '', open(f, errors='replace').read()))}
    return sorted(out)


class Oracle:
    """Concrete executions of the real package, checked with exact rational arithmetic (separate interpreter)."""

    def __init__(self, prop, seed, work):
        self.prop, self.seed, self.work = prop, seed, work
        self.evals = self.distinct = 0
        self.samples, self.errs = [], []
        self.nerrs = 0
        self.violation = None
        self.procs = []
        self.module = CLOSURE[prop].get('oracle', 'pyoracle')

    def start(self, n, cases, budget, hints=(), salt=0):
        hf, cf = os.path.join(self.work, 'hints.json'), os.path.join(self.work, 'consts.json')
        json.dump(list(hints), open(hf, 'w'))
        json.dump(consts(), open(cf, 'w'))
        for i in range(n):
            cmd = [PY, os.path.join(HERE, 'oracle', self.module + '.py'), 'search', self.prop, '--cases', str(cases), '--seed', str(self.seed * 1000 + salt + i), '--consts', cf]
            if budget:
                cmd += ['--budget', str(budget)]
            if hints and i % 4 != 3:
                cmd += ['--hints', hf]
            of = open(os.path.join(self.work, 'oracle%d_%d.out' % (salt, i)), 'w+')
            self.procs.append((subprocess.Popen(cmd, stdout=of, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')), of))

    def wait(self, limit):
        end = time.time() + limit
        pending, self.procs = self.procs, []
        while pending and not self.violation and time.time() < end:
            for p in list(pending):
                if p[0].poll() is not None:
                    pending.remove(p)
                    self.collect(*p)
            if self.violation:
                break
            time.sleep(0.1)
        for p, of in pending + self.procs:
            p.kill()
            p.wait()
        return self.violation

    def poll(self):
        for p in [p for p in self.procs if p[0].poll() is not None]:
            self.procs.remove(p)
            self.collect(*p)
        return self.violation

    def collect(self, p, of):
        of.seek(0)
        txt = of.read()
        try:
            d = json.loads(txt.strip().splitlines()[-1])
        except (ValueError, IndexError):
            self.errs.append('oracle failed: ' + txt[-400:])
            return
        self.evals += d['evaluations']
        self.distinct += d['distinct']
        self.samples += d['samples']
        self.errs += d['errs']
        self.nerrs += d.get('nerrs', len(d['errs']))
        if d['violation'] and not self.violation:
            self.violation = d['violation']


def conformance(module, quick):
    """Starts the differential test of the trusted language model (numpy or VHDL) against the real implementation."""
    mod, n = ('vc.xcheck', '100' if quick else '5000') if module == 'pyoracle' else ('vc.vxcheck', '1' if quick else '10')
    p = subprocess.Popen([sys.executable, '-m', mod, n], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))

    def result():
        try:
            out = p.communicate(timeout=300)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            out = 'timed out'
        try:
            return json.loads(out.strip().splitlines()[-1])
        except (ValueError, IndexError):
            return dict(disagree=1, error=out[-500:])
    return result


def load_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix='verif_') as work:
        sys.exit(check(prop, tier, seed, work))


def failing(prop, res):
    """(relevant failed obligations, undecided reasons) of task results."""
    cl = CLOSURE[prop]
    failed, undecided = [], []
    for r in res:
        if r['error']:
            undecided.append((r, r['error']))
        elif not r['obl'] or not r['paths']:
            undecided.append((r, 'no obligations generated'))
        for o in r['obl']:
            if not o[1]:
                (failed if category(prop, r, o[0]) else undecided).append((r, o))
    return failed, undecided


def hints_of(res):
    out = []
    for r in res:
        for o in r['obl']:
            if not o[1] and o[3]:
                out += [o[3]] if isinstance(o[3], dict) else list(o[3])
    seen, uniq = set(), []
    for h in out:
        k = json.dumps(h, sort_keys=True, default=str)
        if k not in seen:
            seen.add(k)
            uniq.append(h)
    return uniq[:200]


def check(prop, tier, seed, work):
    from vc import runner
    cl = CLOSURE[prop]
    quick = tier == 'quick'
    if quick:
        runner.SKIP = unneeded(prop)
    orc = Oracle(prop, seed, work)
    if orc.module:
        orc.start(1, cl.get('cases', 4000) * (1 if quick else 50), 60 if quick else 600)
    conf = conformance(orc.module, quick)
    ts = cl['tasks'](0 if quick else 1)
    log('%s %s: %d proof tasks' % (prop, tier, len(ts)))
    limit = 520 if quick else 7200
    first = []

    def stop(out):
        """Interrupt the proofs once an obligation has failed and the search has a failing input, or a little later without one."""
        orc.poll()
        if not first and out and any(not o[1] and category(prop, r, o[0]) for r in out[-8:] for o in r['obl']):
            first.append(time.time())
        return first and (orc.violation or time.time() - first[0] > 20 or sum(any(not o[1] for o in r['obl']) for r in out) > 40)

    res = runner.run_tasks(ts, deadline=limit, until=T0 + limit, stop=stop)
    viol = orc.violation
    if len(res) < len(ts) and not viol:
        log('%d of %d tasks done, obligations failed: searching for a failing input' % (len(res), len(ts)))
        orc.start(8, 10 ** 9, 30, hints_of(res), 2)
        viol = orc.wait(80)
        if not viol:
            done = {r['task'] for r in res}
            res += runner.run_tasks([t for t in ts if t.name not in done], deadline=limit, until=T0 + limit)
    skipped = len(ts) - len(res)
    names = {t.name: t for t in ts}
    nobl = sum(len(r['obl']) for r in res)
    log('%d of %d tasks: %d obligations on %d paths, %d discharged' % (len(res), len(ts), nobl, sum(r['paths'] for r in res), sum(o[1] for r in res for o in r['obl'])))
    failed, undecided = failing(prop, res)
    viol = orc.wait(0 if viol else 90 if quick else 700)
    retried = []
    if (failed or undecided) and not viol:
        log('%d failed obligations, %d undecided: searching for a failing input' % (len(failed), len(undecided)))
        for r, o in failed[:5]:
            log('   failed:', r['task'], '|', o[0], '|', str(o[2])[:200])
        for r, o in undecided[:5]:
            log('   undecided:', r['task'], '|', str(o[0] if isinstance(o, tuple) else o)[:300])
        if orc.module:
            orc.start(8, 10 ** 9, 45, hints_of(res), 1)
            viol = orc.wait(100)
        if not viol:
            badset = {r['task'] for r, _ in failed} | {r['task'] for r, _ in undecided}
            again = [names[n] for n in sorted(badset) if n in names]
            left = min(250, 780 - (time.time() - T0)) if quick else 3600
            fset = {r['task'] for r, _ in failed}
            if len(fset) <= 40:
                # a proof may hang on the order of the solver's steps: one that succeeds in another order is as good
                for runner.SHAKE in (1, 2, 3):
                    ok = {r['task']: r for r in runner.run_tasks([t for t in again if t.name in fset], deadline=40, until=time.time() + left / 8) if not runner.bad([r])}
                    res = [ok.get(r['task'], r) for r in res]
                    again = [t for t in again if t.name not in ok]
                runner.SHAKE = 0
                left = min(250, 780 - (time.time() - T0)) if quick else 3600
            log('repeating %d tasks with callee bodies instead of contracts' % len(again))
            res2 = {r['task']: r for r in runner.run_tasks(again, inline=True, deadline=min(100, left), until=time.time() + left)}
            retried = list(res2.values())
            better = lambda old, new: new if not runner.bad([new]) else new if not new['error'] and any(not o[1] for o in new['obl']) else old
            res = [better(r, res2[r['task']]) if r['task'] in res2 else r for r in res]
            # an obligation that fails against the contract but cannot be judged against the bodies is undecided, not failed
            for i, r in enumerate(res):
                n = res2.get(r['task'])
                if n is not None and n is not r and n['error'] and not r['error'] and any(not o[1] for o in r['obl']):
                    res[i] = dict(r, error='obligation failed modularly; ' + n['error']) if not any(not o[1] for o in n['obl']) else n
            failed, undecided = failing(prop, res)
            log('after repetition: %d failed obligations, %d undecided' % (len(failed), len(undecided)))
            if failed and orc.module:
                orc.start(8, 10 ** 9, 40, hints_of(res), 101)
                viol = orc.wait(90)
    kf = [f for f in load_findings() if f.get('property') == prop and not f.get('fixed')]
    for f in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    nviol = 0
    rc = 0
    if viol:
        nviol = 1
        path = os.path.join(EVID, '%s.replay.json' % prop)
        json.dump(dict(property=prop, case=viol['case'], message=viol['message'], oracle=orc.module,
                       replay_cmd='%s %s replay %s' % (PY, os.path.join(HERE, 'oracle', orc.module + '.py'), path),
                       failed_obligations=[dict(task=r['task'], functions=r['funcs'], obligation=o[0], detail=str(o[2])[:500]) for r, o in failed[:20]]), open(path, 'w'), indent=1, default=str)
        for r, o in failed[:5]:
            print('failed obligation: %s | %s' % (r['task'], o[0]))
        print('failing input: %s\n  %s' % (json.dumps(viol['case'])[:500], viol['message'][:500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif failed:
        nviol = len(failed)
        path = os.path.join(EVID, '%s.replay.json' % prop)
        json.dump(dict(property=prop, case=None, failed_obligations=[dict(task=r['task'], functions=r['funcs'], obligation=o[0], verifier_output=str(o[2])[:1500], hints=o[3]) for r, o in failed[:50]]),
                  open(path, 'w'), indent=1, default=str)
        for r, o in failed[:10]:
            print('failed obligation: %s | %s | %s' % (r['task'], o[0], str(o[2])[:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        rc = 1
    elif undecided:
        print('UNDECIDED (bounded only): %d tasks outside the verifier\'s reach; the search found no failing input' % len({r['task'] for r, _ in undecided}))
    model = conf()
    evidence(prop, tier, seed, cl, res, retried, orc, failed, undecided, nviol, model, skipped)
    if rc == 0 and model.get('disagree', 1):
        print('ERROR: the language model disagrees with the real implementation: %s' % json.dumps(model)[:800])
        rc = 2
    if rc == 0 and orc.errs and orc.module and orc.evals == 0:
        print('ERROR: the code could not be executed: %s' % orc.errs[:2])
        rc = 2
    log('exit', rc)
    return rc


def evidence(prop, tier, seed, cl, res, retried, orc, failed, undecided, nviol, model, skipped):
    nobl = sum(len(r['obl']) for r in res) + sum(1 for r in res if r['error'] or not r['obl'])
    und_tasks = sorted({r['task'] for r, _ in undecided})
    okd = sum(1 for r in res for o in r['obl'] if o[1] and not r['error'])
    funcs = sorted({f for r in res for f in r['funcs']})
    ev = dict(property=prop, tier=tier, seed=seed, level=cl.get('level', 'proof'), wall_s=round(time.time() - T0, 1), violations=nviol,
              assumptions=ASSUMPTIONS[:] + cl.get('assumptions', []),
              coverage=dict(
                  obligations=nobl, discharged=okd,
                  checker_cmd='python3-vt /verif/run.py %s --tier %s' % (prop, tier),
                  trusted_base=TRUSTED + cl.get('trusted', []),
                  functions_under_contract=funcs,
                  proof_tasks=len(res), proof_tasks_skipped_after_violation=skipped, paths=sum(r['paths'] for r in res),
                  back_end='vc/solver.py (built-in decision procedure: linear arithmetic over polynomials in integers and symbolic powers of two)',
                  solver_queries=sum(r.get('queries', 0) for r in res), solver_time_s=round(sum(r.get('solver_time', 0) for r in res), 1),
                  proof_cpu_s=round(sum(r['time'] for r in res), 1),
                  repeated_inline=len(retried), failed_obligations=['%s | %s' % (r['task'], o[0]) for r, o in failed[:20]],
                  undecided_bounded_only=und_tasks[:50],
                  model_conformance=model,
                  bounded=dict(label='bounded: concrete executions of the real code against an exact rational oracle; not counted as proved', oracle=orc.module,
                               evaluations=orc.evals, distinct=orc.distinct, samples=orc.samples[:3], errors=orc.errs[:3])))
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    main()
