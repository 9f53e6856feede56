"""Explorer core: enumerates the cases of a property completely, runs every one of them
on the real code, counts what was covered and reports violations.

Process layout: supervisor -> child.  The child imports a property module, enumerates its
cases and runs case 0 once (which makes numba compile everything that will be used), then
forks workers; worker k runs cases k, k+n, k+2n, ...  Nothing is sampled: the enumeration
is a fixed list and every element is run (a time cap, if ever hit, is an error, not a
silent truncation).  The supervisor turns a crash or hang of a worker into a violation
whose replay is the case that was running.
"""
import env
import os, sys, json, time, pickle, hashlib, importlib, traceback, signal, subprocess, tempfile, faulthandler
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.json')
MAXV = 5            # violations kept per worker
HANG = 780          # seconds before the supervisor declares a hang (quick tier)


def canon(x):
    return json.dumps(x, sort_keys=True, default=_j)


def _j(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    return str(o)


class Stop(Exception):
    pass


class Ck:
    """What a property module talks to while it runs one case."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.checks = 0
        self.outcomes = set()
        self.viol = []
        self.case = None
        self.bycount = {}

    # ---- coverage
    def state(self, *parts):
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(np.ascontiguousarray(p).tobytes())
            else:
                h.update(canon(p).encode())
            h.update(b'|')
        v = int.from_bytes(h.digest(), 'little')
        new = v not in self.states
        self.states.add(v)
        return new

    def step(self, n=1):
        self.transitions += n

    def outcome(self, o):
        self.outcomes.add(str(o))

    # ---- verdicts
    def fail(self, kind, detail=None, **extra):
        self.viol.append(dict(kind=kind, case=self.case, detail=str(detail)[:1500], **extra))
        raise Stop()

    def soft(self, kind, detail=None):
        """Record and go on (used where one case checks several independent sites)."""
        self.viol.append(dict(kind=kind, case=self.case, detail=str(detail)[:1500]))

    def ok(self, cond, kind, detail=None):
        self.checks += 1
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail)
        return True

    def close(self, got, want, kind, rtol=1e-9, atol=1e-10, detail=None):
        self.checks += 1
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(kind, f'shape {got.shape} instead of {want.shape} {detail or ""}')
        if not np.all(np.isfinite(got)):
            self.fail(kind, f'non-finite value {got.ravel()[:8]} expected {want.ravel()[:8]} {detail or ""}')
        d = np.abs(got - want)
        bad = d > atol + rtol * np.abs(want)
        if np.any(bad):
            i = np.unravel_index(np.argmax(np.where(bad, d, -1)), d.shape) if d.shape else ()
            self.fail(kind, f'at {tuple(int(k) for k in i)}: got {got[i]!r} expected {want[i]!r} ({int(bad.sum())} of {d.size} entries) {detail or ""}')

    def run_one(self, mod, case):
        self.case = case
        try:
            mod.run(case, self)
        except Stop:
            pass
        except Exception:
            tb = traceback.format_exc()
            self.viol.append(dict(kind='exception', case=case, detail=tb[-1500:]))
        self.traces += 1
        k = case.get('_group', 'all') if isinstance(case, dict) else 'all'
        self.bycount[k] = self.bycount.get(k, 0) + 1


# ----------------------------------------------------------------- known findings
def known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        d = json.load(f)
    return [e for e in d.get('findings', []) if e['property'] == pid]


def match(v, entries):
    for e in entries:
        if e['kind'] == v['kind'] and canon(e['case']) == canon({k: w for k, w in v['case'].items() if not k.startswith('_')}):
            return e
    return None


# ----------------------------------------------------------------- child
def child(pid, tier, workdir, nproc):
    mod = importlib.import_module('p_' + pid)
    env.scratch()
    env.silence()
    if hasattr(mod, 'setup'):
        mod.setup(tier)
    cases = list(mod.cases(tier))
    keys = [canon(c) for c in cases]
    assert len(set(keys)) == len(keys), 'duplicate cases'
    with open(os.path.join(workdir, 'n'), 'w') as f:
        f.write(str(len(cases)))
    warm = mod.warm_cases(cases) if hasattr(mod, 'warm_cases') else cases[:1]
    w = Ck(pid, tier)
    _note(workdir, 'warm', warm[0])
    for c in warm:
        _note(workdir, 'warm', c)
        w.run_one(mod, c)
    if any(v['kind'] == 'exception' for v in w.viol):
        # nothing works: report it from here instead of compiling (and failing) once per worker
        _dump(workdir, 0, w, 1)
        _dump(workdir, 'done', w, 1)
        return 0
    os.unlink(os.path.join(workdir, 'cur_warm'))
    nproc = min(nproc, max(1, len(cases) // max(1, getattr(mod, 'MIN_PER_WORKER', 20))))
    t0 = time.time()
    pids = []
    for k in range(nproc):
        p = os.fork()
        if p == 0:
            code = 0
            try:
                ck = Ck(pid, tier)
                fd = os.open(os.path.join(workdir, f'cur_{k}'), os.O_RDWR | os.O_CREAT)
                for i in range(k, len(cases), nproc):
                    b = keys[i].encode()
                    os.pwrite(fd, len(b).to_bytes(8, 'little') + b, 0)
                    ck.run_one(mod, cases[i])
                    if len(ck.viol) >= MAXV + 20:
                        break
                os.pwrite(fd, (0).to_bytes(8, 'little'), 0)
                _dump(workdir, k, ck, len(range(k, len(cases), nproc)))
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        pids.append(p)
    bad = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        bad |= (st != 0)
    return 4 if bad else 0


def _note(workdir, k, case):
    b = canon(case).encode()
    with open(os.path.join(workdir, f'cur_{k}'), 'wb') as f:
        f.write(len(b).to_bytes(8, 'little') + b)


def _dump(workdir, k, ck, planned):
    with open(os.path.join(workdir, f'res_{k}.tmp'), 'wb') as f:
        pickle.dump(dict(states=ck.states, transitions=ck.transitions, traces=ck.traces, checks=ck.checks,
                         outcomes=ck.outcomes, viol=ck.viol, planned=planned, by=ck.bycount), f)
    os.rename(os.path.join(workdir, f'res_{k}.tmp'), os.path.join(workdir, f'res_{k}'))


# ----------------------------------------------------------------- supervisor
def supervise(pid, tier):
    t0 = time.time()
    limit = HANG if tier == 'quick' else int(os.environ.get('MC_HANG', '14400'))
    nproc = int(os.environ.get('MC_PROCS', '8'))
    wd = tempfile.mkdtemp(prefix='mmrt_sup_')
    try:
        return _supervise(pid, tier, t0, limit, nproc, wd)
    finally:
        import shutil
        shutil.rmtree(wd, ignore_errors=True)


def _supervise(pid, tier, t0, limit, nproc, wd):
    errlog = open(os.path.join(wd, 'stderr'), 'wb')
    p = subprocess.Popen([env.PY, os.path.join(ROOT, 'mc', 'main.py'), '--child', pid, tier, wd, str(nproc)],
                         start_new_session=True, stdout=subprocess.PIPE if False else None, stderr=errlog)
    hang = False
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        hang = True
        rc = -1
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    errlog.close()
    err = open(os.path.join(wd, 'stderr'), errors='replace').read()[-4000:]
    res = []
    done = False
    for f in sorted(os.listdir(wd)):
        if f.startswith('res_') and not f.endswith('.tmp'):
            if f == 'res_done':
                done = True
                continue
            res.append(pickle.load(open(os.path.join(wd, f), 'rb')))
    running = []
    for f in sorted(os.listdir(wd)):
        if f.startswith('cur_'):
            b = open(os.path.join(wd, f), 'rb').read()
            n = int.from_bytes(b[:8], 'little')
            if n:
                running.append(json.loads(b[8:8 + n]))
    viol = [v for r in res for v in r['viol']]
    if not done and (rc != 0 or hang):
        if hang:
            for c in running:
                viol.append(dict(kind='hang', case=c, detail=f'no answer within {limit} s'))
        else:
            for c in running:
                viol.append(dict(kind='crash', case=c, detail='process died; ' + err))
        if not running and not viol:
            sys.stderr.write(err + f'\ncheck {pid} could not run (child exit {rc})\n')
            return 2
    states = set()
    for r in res:
        states |= r['states']
    by = {}
    for r in res:
        for k, n in r['by'].items():
            by[k] = by.get(k, 0) + n
    outcomes = set()
    for r in res:
        outcomes |= r['outcomes']
    mod = importlib.import_module('p_' + pid)
    entries = known(pid)
    hit, new = {}, []
    for v in viol:
        e = match(v, entries)
        if e is not None:
            hit[canon(e['case']) + e['kind']] = e
        else:
            new.append(v)
    ncases = int(open(os.path.join(wd, 'n')).read()) if os.path.exists(os.path.join(wd, 'n')) else 0
    traces = sum(r['traces'] for r in res)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(states=len(states), transitions=sum(r['transitions'] for r in res),
                            traces_validated_against_impl=traces, cases_enumerated=ncases,
                            comparisons=sum(r['checks'] for r in res), distinct_outcomes=sorted(outcomes)[:60],
                            cases_by_group=by,
                            exhaustive=bool(traces == ncases and not hang), bounds=getattr(mod, 'BOUNDS', {}).get(tier, ''),
                            samples=_samples(mod, tier)),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', f'.{pid}.{os.getpid()}')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=_j)
    os.rename(tmp, os.path.join(ROOT, 'evidence', f'{pid}.json'))
    for e in hit.values():
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    print(f"{pid} {tier}: {ncases} cases, {traces} run, {ev['coverage']['transitions']} transitions of the real code, "
          f"{len(states)} distinct states, {ev['coverage']['comparisons']} comparisons, {ev['wall_s']} s")
    if new:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        new.sort(key=lambda v: len(canon(v['case'])))
        path = os.path.join('replays', f'{pid}.json')
        with open(os.path.join(ROOT, path), 'w') as f:
            json.dump(dict(property=pid, case=new[0]['case'], kind=new[0]['kind'], detail=new[0]['detail'],
                           others=[dict(kind=v['kind'], case=v['case'], detail=v['detail'][:300]) for v in new[1:20]]), f, indent=1, default=_j)
        for v in new[:3]:
            print(f"  {v['kind']}: {canon(v['case'])}\n    {v['detail'][-600:]}")
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if traces != ncases:
        sys.stderr.write(f'only {traces} of {ncases} cases were run\n')
        return 2
    return 0


def _samples(mod, tier):
    try:
        cs = list(mod.cases(tier))
        n = len(cs)
        return [cs[0], cs[n // 2], cs[-1]]
    except Exception:
        return []


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module('p_' + d['property'])
    env.scratch()
    env.silence()
    if hasattr(mod, 'setup'):
        mod.setup('quick')
    ck = Ck(d['property'], 'quick')
    ck.run_one(mod, d['case'])
    for v in ck.viol:
        env.say(v['kind'], canon(v['case']), v['detail'])
    if ck.viol:
        env.say(f"VIOLATION property={d['property']} replay={path}")
        return 1
    env.say('no violation on this case')
    return 0
