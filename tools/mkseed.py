#!/usr/bin/env python3
"""Regenerates /verif/seeded from tools/seeds.py: patch.diff, demo.sh, demo.cpp, meta.json per planted bug, after
confirming in a scratch copy that the demo passes without and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
SH = '''#!/bin/bash
# exit 0: the property holds on the tree in the current directory; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
R=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O0 %s-I"$R/include" -I"$R/_build/include" -I"$d/stubs" -isystem /usr/include/eigen3 \\
    -DBOOST_SERIALIZATION_DYN_LINK "$d/demo.cpp" -o "$t/demo" -lpagmo -lboost_serialization -ltbb -lpthread || exit 2
cd "$t" && timeout 120 ./demo
'''


def one(s, root, tests):
    d = os.path.join(V, 'seeded', s['id'])
    w = os.path.join(root, s['id'])
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    edits = s['edits'] if 'edits' in s else [(s['file'], s['old'], s['new'])]
    for f, old, new in edits:
        p = os.path.join(w, f)
        x = open(p).read()
        k = x.count(old)
        if k != s.get('count', 1):
            return s['id'], 'old text occurs %d times' % k
        if k > 1 and 'occ' in s:
            parts = x.split(old)
            i = s['occ']
            x = old.join(parts[:i + 1]) + new + old.join(parts[i + 1:])
        else:
            x = x.replace(old, new)
        open(p, 'w').write(x)
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    tmpd = os.path.join(root, s['id'] + '.d')
    os.makedirs(tmpd)
    open(os.path.join(tmpd, 'patch.diff'), 'w').write(diff)
    open(os.path.join(tmpd, 'demo.cpp'), 'w').write(s['demo'].lstrip('\n'))
    open(os.path.join(tmpd, 'demo.sh'), 'w').write(SH % s.get('flags', ''))
    os.chmod(os.path.join(tmpd, 'demo.sh'), 0o755)
    shutil.copytree(os.path.join(V, 'stubs'), os.path.join(tmpd, 'stubs'))
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(os.path.join(tmpd, 'meta.json'), 'w'), indent=1)
    r0 = subprocess.run(['bash', os.path.join(tmpd, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
    r1 = subprocess.run(['bash', os.path.join(tmpd, 'demo.sh')], cwd=w, capture_output=True, text=True)
    msg = 'clean %d, patched %d' % (r0.returncode, r1.returncode)
    ok = r0.returncode == 0 and r1.returncode not in (0, 2)
    if ok:
        if os.path.exists(d):
            shutil.rmtree(d)
        shutil.copytree(tmpd, d)
    else:
        msg += '\n' + (r0.stdout + r0.stderr)[:1500] + '\n---\n' + (r1.stdout + r1.stderr)[:1500]
    shutil.rmtree(w)
    shutil.rmtree(tmpd)
    return s['id'], ('ok ' if ok else 'BAD ') + msg


names = sys.argv[1:]
root = tempfile.mkdtemp(prefix='seeds')
with ThreadPoolExecutor(7) as ex:
    for i, m in ex.map(lambda s: one(s, root, None), [s for s in SEEDS if not names or s['id'] in names]):
        print(i, m, flush=True)
shutil.rmtree(root)
