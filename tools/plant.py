"""Builds /verif/seeded from tools/plant_list.py: every planted bug is confirmed in a scratch copy.

  python3-vt tools/plant.py            all
  python3-vt tools/plant.py s01 s02    some
"""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from plant_list import BUGS
BASE = '827ab45'
W = '/tmp/plant/w'


def sh(cmd, cwd, t=600, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=dict(os.environ, **(env or {})))


TEST = ('PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 MPLCONFIGDIR=/opt/venv/mplconfig /opt/venv/bin/python -m pytest -q -p no:cacheprovider --import-mode=importlib '
        '--assert=plain --timeout=300 --continue-on-collection-errors moving_mesh_transport/solver_classes/functions.py moving_mesh_transport/solver_classes/cubic_spline.py')


def one(b):
    i = b['id']
    w = os.path.join(W, i)
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    sh('git checkout -q -- . && git clean -fdq', w)
    for f, old, new in b['edits']:
        p = os.path.join(w, f)
        t = open(p, newline='').read()
        if '\r\n' in t:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if t.count(old) != 1:
            return i, f'edit matches {t.count(old)} times: {old[:60]!r}'
        open(p, 'w', newline='').write(t.replace(old, new))
    raw = subprocess.run('git diff', cwd=w, shell=True, capture_output=True).stdout
    diff = raw.decode().replace('\r\n', '\n')
    # lines taken away or edited must come from the original repository
    removed = {}
    cur = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
        elif l.startswith('@@'):
            n = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-') and not l.startswith('---'):
            removed.setdefault(cur, []).append(n); n += 1
        elif l.startswith(' '):
            n += 1
    own = []
    for f, ns in removed.items():
        bl = sh(f'git blame -w -s HEAD -- {f}', w).stdout.splitlines()
        own += [(f, n) for n in ns if not bl[n - 1].lstrip('^').startswith(BASE[:7])]
    d = os.path.join(V, 'seeded', i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, 'patch.diff'), 'wb').write(raw)
    shutil.copy(os.path.join(HERE, 'plant_h.py'), os.path.join(d, 'h.py'))
    open(os.path.join(d, 'demo.py'), 'w').write('from h import *\nimport numpy as np\n\n' + b['demo'].strip() + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# run in the repository; exit 0: the property holds in this scenario\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$d" exec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    good = sh(f'bash {d}/demo.sh', '/repo')
    bad = sh(f'bash {d}/demo.sh', w)
    test = sh(TEST, w)
    tl = test.stdout.strip().splitlines()[-1:]
    shutil.rmtree(w, ignore_errors=True)
    res = f"clean {good.returncode} {good.stdout.strip()[-150:]!r} | patched {bad.returncode} {bad.stdout.strip()[-150:]!r} {bad.stderr.strip()[-200:] if bad.returncode not in (0, 1) or not bad.stdout else ''} | {tl}{' | NOT ORIGINAL ' + str(own) if own else ''}"
    ok = good.returncode == 0 and bad.returncode != 0 and not own and test.returncode == 0
    if good.returncode:
        res += ' | clean stderr ' + good.stderr[-500:]
    return i, ('OK   ' if ok else 'FAIL ') + res


if __name__ == '__main__':
    sel = [b for b in BUGS if not sys.argv[1:] or any(b['id'].startswith(a) for a in sys.argv[1:])]
    with cf.ThreadPoolExecutor(7) as ex:
        for i, r in ex.map(one, sel):
            print(i, r, flush=True)
