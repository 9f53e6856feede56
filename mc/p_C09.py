"""C09: what is saved is what is loaded, and different problems never overwrite each other."""
import os, tempfile
import numpy as np
from itertools import product

BOUNDS = dict(quick='all sequences of up to 3 saves over 14 keys that differ pairwise in as little as one component, every key loaded back after each sequence; all sequences of 2 wave-point saves over 21 keys; all two- and three-save histories over 26 keys that nearly agree',
              thorough='all sequences of up to 4 saves over 14 keys')
MIN_PER_WORKER = 1

# problem_type when saving, problem_name when loading, cv0, source index, uncollided, moving, N_space, tfinal, c, x0_or_sigma, epsilon
BASE = dict(ptype='transport', pname='transport', cv0=0.0, src=1, unc=True, mov=True, N=8, tf=1.0, c=1.0, x0=0.5, eps=1.0)
VAR = [dict(), dict(src=2), dict(src=0), dict(src=5), dict(unc=False), dict(mov=False), dict(unc=False, mov=False), dict(N=16), dict(tf=10.0), dict(c=0.8), dict(x0=0.25),
       dict(eps=0.5), dict(ptype='su_olson', pname='su_olson'), dict(ptype='rad_transfer_constant_cv', pname='rad_transfer_const_cv', cv0=0.03)]
EXTRA = [dict(src=3), dict(src=4), dict(tf=1.5), dict(c=0.0), dict(ptype='su_olson_s2', pname='su_olson_s2'), dict(ptype='su_olson_thick', pname='su_olson_thick'),
         dict(ptype='su_olson_thick_s2', pname='su_olson_thick_s2'), dict(ptype='rad_transfer_constant_cv', pname='rad_transfer_const_cv', cv0=0.5),
         dict(ptype='rad_transfer_constant_cv_thick', pname='rad_transfer_const_cv_thick', cv0=0.03),
         dict(ptype='rad_transfer_constant_cv_s2', pname='transfer_const_cv=0.03_s2', cv0=0.03),
         dict(ptype='rad_transfer_constant_cv_thick_s2', pname='transfer_const_cv=0.03_thick_s2', cv0=0.03)]
# values that agree in their leading digits, or whose texts contain each other
NEAR = [dict(tf=1.0004), dict(tf=1.00000002), dict(tf=10.0, c=0.8), dict(tf=100.0), dict(x0=0.5000004), dict(x0=1e-9), dict(x0=1e-10), dict(c=0.8004), dict(c=0.80000003), dict(N=80), dict(N=800), dict(N=18),
        dict(eps=0.5004), dict(eps=0.05), dict(eps=5.0), dict(ptype='rad_transfer_constant_cv', pname='rad_transfer_const_cv', cv0=0.0304), dict(ptype='rad_transfer_constant_cv', pname='rad_transfer_const_cv', cv0=0.3),
        dict(ptype='rad_transfer_constant_cv', pname='rad_transfer_const_cv', cv0=0.03, x0=0.5000004)]
NAMES = ["plane_IC", "square_IC", "square_s", "gaussian_IC", "MMS", "gaussian_s"]
WP = [dict(ptype=p, pname=p, src=s, tf=t) for p in ('su_olson_thick', 'su_olson_thick_s2', 'rad_transfer_constant_cv_thick', 'transport') for s, t in ((2, 10.0), (5, 10.0), (2, 100.0))]
WP += [dict(ptype=p, pname=q, src=2, tf=10.0) for p, q in (('su_olson', 'su_olson'), ('su_olson_s2', 'su_olson_s2'), ('rad_transfer_constant_cv', 'rad_transfer_const_cv'),
       ('rad_transfer_constant_cv_thick_s2', 'rad_transfer_constant_cv_thick_s2'), ('rad_transfer_constant_cv_s2', 'transfer_const_cv=0.03_s2'))]
WP += [dict(WP[6], cv0=0.3), dict(WP[6], cv0=0.0304), dict(WP[0], tf=10.004), dict(WP[0], tf=1.0)]


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for d in range(1, depth + 1):
        for seq in product(range(len(VAR)), repeat=min(d, 2)):
            if d <= 2:
                yield dict(mode='seq', seq=list(seq), _group='save/load')
            else:
                yield dict(mode='ext', seq=list(seq), more=d - 2, _group='save/load')
    for i in range(len(EXTRA)):
        yield dict(mode='pair', extra=i, _group='save/load')
    for i in range(len(NEAR)):
        yield dict(mode='near', near=i, _group='save/load')
    for seq in product(range(len(WP)), repeat=2):
        yield dict(mode='wave', seq=list(seq), _group='wave points')
    for name in ('boundary', 'dipole', 'self_sim', 'gaussian_IC', 'square'):
        yield dict(mode='identity', problem=name, _group='identity')


def st(i):
    s = np.zeros(16, dtype=np.int64)
    s[i] = 1
    return s


def key(v):
    return dict(BASE, **v)


def payload(k, n, tag):
    """deterministic data for key number k, n-th save of the history; shapes change between saves"""
    rng = np.cos(np.arange(4000) * (1.0 + 0.37 * k + 0.11 * tag) + tag)
    nx, S, M1 = 5 + (k + tag) % 4, 2 + 2 * (tag % 2), 1 + tag % 3
    rad = key_transfer(k)
    f = lambda *sh: rng[:int(np.prod(sh))].reshape(sh).copy()
    xs = np.linspace(-1 - k, 1 + tag, nx)
    return dict(xs=xs, phi=f(nx) + 2, e=f(nx) * 0.5 + 7, psi=f(S, nx) * 3, mus=np.linspace(-1, 1, S) * (1 + 0.01 * k), ws=f(S) + 5,
                sol=f(S + rad, 3 + k % 3, M1), edges=np.linspace(-2, 2 + k + 0.1 * tag, 4 + k % 3))


def key_transfer(k):
    return 0 if ALL[k]['ptype'] == 'transport' else 1


ALL = [key(v) for v in VAR + EXTRA + NEAR]


def saver(k):
    from moving_mesh_transport.loading_and_saving.save_output import save_output
    return save_output(k['tf'], np.array([k['N']]), np.array([2]), st(k['src']), k['mov'], k['unc'], 'cells', {'none': 1}, np.array([1, 0]),
                       k['c'], 0.0, np.array([k['x0']]), k['cv0'], k['ptype'], np.array([4]), k['eps'])


def save(i, tag):
    k = ALL[i]
    p = payload(i, 0, tag)
    keep = {a: b.copy() for a, b in p.items()}
    saver(k).save_solution(p['xs'], p['phi'], p['e'], p['sol'], p['edges'], k['x0'], p['ws'], k['N'], False, p['psi'], k['eps'], p['mus'])
    for a in p:
        if not np.array_equal(p[a], keep[a]):
            raise AssertionError('save modified its input ' + a)


def load(i, what='rad'):
    from moving_mesh_transport.loading_and_saving.load_solution import load_sol
    k = ALL[i]
    l = load_sol(k['pname'], NAMES[k['src']], 'transport' if k['ptype'] == 'transport' else 'transfer', k['c'], False, k['cv0'], 'run_data.hdf5')
    l.call_sol(k['tf'], 2, k['x0'], k['N'], what, k['unc'], k['mov'], k['eps'])
    return l


def fresh():
    import h5py
    d = tempfile.mkdtemp(dir=os.getcwd())
    os.makedirs(os.path.join(d, 'moving_mesh_transport', 'local_run_data'))
    for f in ('run_data.hdf5', 'wavepoints_crc.hdf5'):
        h5py.File(os.path.join(d, 'moving_mesh_transport', 'local_run_data', f), 'w').close()
    return d


def verify(ck, model, menu, where):
    """the real store holds exactly the model's entries"""
    for i in menu:
        if i not in model:
            try:
                load(i)
            except KeyError:
                continue
            ck.fail('a solution that was never saved can be loaded', f'{where}: key {ALL[i]}')
        p = payload(i, 0, model[i])
        kw = [('rad', p['sol'][:-1] if key_transfer(i) else p['sol'])]
        if key_transfer(i):
            kw.append(('mat', p['sol'][-1]))
        for what, coeff in kw:
            try:
                l = load(i, what)
            except KeyError as e:
                ck.fail('a saved solution cannot be loaded', f'{where}: key {ALL[i]}: {e}')
            d = f'{where}: key {ALL[i]}'
            ck.close(l.xs, p['xs'], 'loaded positions differ from the saved ones', 1e-6, 1e-6, d)
            ck.close(l.phi, p['phi'], 'loaded scalar flux differs from the saved one', 1e-6, 1e-6, d)
            if key_transfer(i):
                ck.close(l.e, p['e'], 'loaded material energy differs from the saved one', 1e-6, 1e-6, d)
            ck.close(l.psi, p['psi'], 'loaded angular flux differs from the saved one', 0, 0, d)
            ck.close(l.mus, p['mus'], 'loaded ordinates differ from the saved ones', 0, 0, d)
            ck.close(l.ws, p['ws'], 'loaded weights differ from the saved ones', 0, 0, d)
            ck.close(l.edges, p['edges'], 'loaded edges differ from the saved ones', 0, 0, d)
            ck.close(l.coeff_mat, coeff, 'loaded coefficients differ from the saved ones', 0, 0, d)


def history(ck, seq, menu):
    model = {}
    d = fresh()
    os.chdir(d)
    for n, i in enumerate(seq):
        save(i, n)
        model[i] = n
        ck.step()
    verify(ck, model, menu, f'after saves {seq}')
    ck.state(sorted(model.items()))
    os.chdir('..')
    import shutil
    shutil.rmtree(d)


def run(case, ck):
    home = os.getcwd()
    try:
        _run(case, ck)
    finally:
        os.chdir(home)


def _run(case, ck):
    m = case['mode']
    menu = list(range(len(VAR)))
    if m == 'seq':
        history(ck, case['seq'], menu)
    elif m == 'ext':
        for tail in product(range(len(VAR)), repeat=case['more']):
            s = case['seq'] + list(tail)
            # loads after the last save: the keys written in this history and the neighbours of the base key
            history(ck, s, sorted(set(s)) if sum(s) % 3 else menu)
    elif m == 'pair':
        j = len(VAR) + case['extra']
        some = range(len(VAR) + len(EXTRA))
        for i in some:
            if i != j:
                history(ck, [i, j], some)
                history(ck, [i, j, i, j], some)
    elif m == 'near':
        j = len(VAR) + len(EXTRA) + case['near']
        near = [0] + [i for i, v in enumerate(VAR) if set(v) <= {'tf', 'c', 'x0', 'N', 'eps', 'ptype', 'pname', 'cv0'}] + list(range(len(VAR) + len(EXTRA), len(ALL)))
        for i in near:
            if i != j:
                history(ck, [i, j, i], near)
    elif m == 'wave':
        wave(case, ck)
    elif m == 'identity':
        identity(case, ck)


def wave(case, ck):
    from moving_mesh_transport.loading_and_saving.load_solution import load_sol
    os.chdir(fresh())
    model = {}
    data = lambda i, n: [np.linspace(0, 1 + i, 4 + n) + k * 10 + n for k in range(4)]
    for n, i in enumerate(case['seq']):
        w = WP[i]
        saver(dict(BASE, ptype=w['ptype'], src=w['src'], tf=w['tf'], cv0=w.get('cv0', 0.03))).save_wave_loc(*data(i, n))
        model[i] = n
        ck.step()
    for i, w in enumerate(WP):
        l = load_sol(w['pname'], NAMES[w['src']], 'transfer', 1.0, False, w.get('cv0', 0.03))
        try:
            l.call_wavepoints(w['tf'])
        except KeyError as e:
            ck.ok(i not in model, 'saved wave points cannot be loaded', lambda: f'{case["seq"]} key {w}: {e}')
            continue
        got = [l.tpnts, l.left, l.right, l.T_wave]
        if i in model:
            for g, x in zip(got, data(i, model[i])):
                ck.close(g, x, 'loaded wave points differ from the saved ones', 0, 0, f'{case["seq"]} key {w}')
        else:
            ck.ok(np.array_equal(l.tpnts, [w['tf']]) and not np.any(l.left) and not np.any(l.right), 'wave points that were never saved can be loaded', lambda: f'{case["seq"]} key {w} {got}')
    ck.state('wave', sorted(model.items()))


def identity(case, ck):
    """A solution is stored under the name of its own problem: saving any of the six named problems with the
    same parameters must leave it loadable."""
    import real, h5py
    from moving_mesh_transport.loading_and_saving.save_output import save_output
    mine = real.source_type(case['problem'])
    os.chdir(fresh())

    def put(stype, tag):
        p = payload(0, 0, tag)
        save_output(1.0, np.array([8]), np.array([2]), stype, True, False, 'cells', {'none': 1}, np.array([1, 0]), 1.0, 0.0, np.array([0.5]), 0.0, 'transport',
                    np.array([4]), 1.0).save_solution(p['xs'], p['phi'], p['e'], p['sol'], p['edges'], 0.5, p['ws'], 8, False, p['psi'], 1.0, p['mus'])
        ck.step()

    def stored():
        with h5py.File('moving_mesh_transport/local_run_data/run_data.hdf5', 'r') as f:
            return {k: f['transport/solution/' + k][1] for k in f['transport/solution']}

    put(mine, 1)
    first = stored()
    ck.state(sorted(first))
    for i in range(6):
        if np.array_equal(st(i), mine):
            continue
        put(st(i), 2)
        now = stored()
        k = list(first)[0]
        ck.ok(k in now and np.array_equal(now[k], first[k]), 'solutions of different problems share one name', lambda: f'{case["problem"]} and {NAMES[i]} are both stored as {k}')
