#!/usr/bin/env python3
"""Turn a seed description (a Python file defining SEED) into seeded/<id>/ after confirming it in a scratch copy.

  mkseed.py FILE...        each FILE defines SEED = dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo=..)
The existing tests are run in a private mount namespace in which /repo is the patched copy (so several run in parallel).
"""
import os, re, subprocess, sys, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

PKG = 'bittrue/models/python/en_cl_fix_pkg/'
HEAD = """import sys, warnings
sys.path.insert(0, 'bittrue/models/python')
import numpy as np
from en_cl_fix_pkg import *
"""

VTB = """library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;
library work; use work.en_cl_fix_pkg.all;
entity demo is end entity;
architecture sim of demo is
%s
begin
%s
    process
    begin
%s
        wait;
    end process;
end architecture;
"""
VSH = """#!/bin/bash
# Analyses the VHDL sources with the testbench beside this file in a scratch directory and runs it (a failed assertion ends it with an error).
here=$(cd "$(dirname "$0")" && pwd); R=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cd "$d" || exit 3
export GHDL_BACKEND=gcc
H=$R/hdl
ghdl -a -frelaxed --std=08 $H/en_cl_fix_private_pkg.vhd $H/en_cl_fix_pkg.vhd $H/en_cl_fix_round.vhd $H/en_cl_fix_saturate.vhd $H/en_cl_fix_resize.vhd || exit 3
ghdl -a -frelaxed --std=08 "$here/demo.vhd" && ghdl -e -frelaxed --std=08 demo || exit 3
./demo --stop-time=100us
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(path):
    g = {}
    exec(open(path).read(), g)
    s = g['SEED']
    d = tempfile.mkdtemp(prefix='seed-' + s['id'] + '-')
    try:
        c = d + '/repo'
        sh(f'cp -a /repo {c}')
        sh(f'git -C {c} checkout -q -- .')
        for f, old, new in s['edits']:
            f = f if '/' in f else PKG + f
            t = open(c + '/' + f, newline='').read()
            if '\r\n' in t:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(c + '/' + f, 'w', newline='').write(t.replace(old, new))
        out = f'{d}/seed'
        os.mkdir(out)
        patch = subprocess.run(['git', '-C', c, 'diff'], capture_output=True).stdout
        open(out + '/patch.diff', 'wb').write(patch)
        if 'vhdl' in s:
            open(out + '/demo.vhd', 'w').write(VTB % (s.get('decl', ''), s.get('conc', ''), s['vhdl']))
            open(out + '/demo.sh', 'w').write(VSH)
        elif 'demo_sh' in s:
            open(out + '/demo.sh', 'w').write(s['demo_sh'])
            for n, t in s.get('files', {}).items():
                open(f'{out}/{n}', 'w').write(t)
        else:
            open(out + '/demo.py', 'w').write(HEAD + s['demo'])
            open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        meta = {k: s[k] for k in ('property', 'needs', 'what_it_breaks')}
        json.dump(meta, open(out + '/meta.json', 'w'), indent=1)
        r0 = sh(f'bash {out}/demo.sh', cwd='/repo')
        r1 = sh(f'bash {out}/demo.sh', cwd=c)
        if r0.returncode != 0 or r1.returncode == 0:
            return s['id'], f'DEMO {r0.returncode} {r1.returncode} {r0.stderr[-500:]} {r1.stderr[-300:]}'
        sh(f'mkdir -p {d}/vp && cp -a /opt/vp/. {d}/vp/ && rm -rf {d}/vp/reports && grep -v pkill {d}/vp/test.sh > {d}/vp/test_nokill.sh && cp -a /opt/vunit {d}/vunit')
        script = (f'mount --bind {c} /repo && mount --bind {d}/vp /opt/vp && mount --bind {d}/vunit /opt/vunit && '
                  f'bash /opt/vp/build.sh > {d}/build.log 2>&1 && bash /opt/vp/test.sh {d}/out.json')
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', script.replace('/opt/vp/test.sh', '/opt/vp/test_nokill.sh')
                            if os.path.exists(f'{d}/vp/test_nokill.sh') else script], capture_output=True, text=True)
        if not os.path.exists(d + '/out.json'):
            return s['id'], 'NO RESULT ' + r.stderr[-500:] + (open(d + '/build.log').read()[-600:] if os.path.exists(d + '/build.log') else '')
        res = json.load(open(d + '/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad = [x for x in base if x not in set(res['passed'])]
        if bad:
            return s['id'], 'TESTS %d %s' % (len(bad), bad[:6])
        dst = '/verif/seeded/' + s['id']
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return s['id'], 'OK'
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    n = int(os.environ.get('PAR', '2'))
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, sys.argv[1:]):
            print(*r, flush=True)
