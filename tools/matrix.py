"""Which checks catch which planted bugs.  python3-vt tools/matrix.py own|all [ids...]   -> /tmp/mx/result.jsonl
Every bug is applied to a scratch copy of /repo and the checks run from a scratch copy of /verif against it (MC_REPO)."""
import json, os, shutil, subprocess, sys, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mode, sel = sys.argv[1], sys.argv[2:]
PAR = int(os.environ.get('PAR', '6'))
W = '/tmp/mx'
os.makedirs(W, exist_ok=True)
ALL = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] if 'checks' in json.load(open(V + '/MANIFEST.json')) else []


def one(i):
    d = os.path.join(W, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    shutil.copytree(V, d + '/verif', symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
    sd = os.path.join(V, 'seeded', i)
    subprocess.run(['git', '-C', d + '/repo', 'apply', sd + '/patch.diff'], check=True)
    own = json.load(open(sd + '/meta.json'))['property']
    out = {}
    for c in ([own] if mode == 'own' else ALL):
        t = time.time()
        try:
            r = subprocess.run(['./run', c, 'quick'], cwd=d + '/verif', env=dict(os.environ, MC_REPO=d + '/repo', MC_PROCS=str(max(1, 8 // PAR))), capture_output=True, text=True, timeout=3000)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out[c] = (r.returncode, round(time.time() - t), (v[0] if v else '')[:200], r.stderr[-300:] if r.returncode not in (0, 1) else '')
        except subprocess.TimeoutExpired:
            out[c] = (-1, 3000, 'timeout', '')
    shutil.rmtree(d, ignore_errors=True)
    return i, own, out


ids = [i for i in sorted(os.listdir(V + '/seeded')) if not sel or any(i.startswith(s) for s in sel)]
with cf.ThreadPoolExecutor(PAR) as ex, open(W + '/result.jsonl', 'a') as f:
    for fu in cf.as_completed([ex.submit(one, i) for i in ids]):
        i, own, out = fu.result()
        f.write(json.dumps([i, own, out]) + '\n'); f.flush()
        print(i, own, 'OWN', out.get(own), 'caught by', [c for c, o in out.items() if o[0] == 1], 'bad', [(c, o) for c, o in out.items() if o[0] not in (0, 1)], flush=True)
