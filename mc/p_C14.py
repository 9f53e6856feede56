"""C14: every setting of the input files reaches the solver with its meaning; contradictory input is refused."""
import os, tempfile, shutil
import numpy as np
from itertools import combinations, product
import orch

BOUNDS = dict(quick='9 problems x every single deviation (55) from a complete input file, every pair of deviations for two problems, every list length 1-3, every contradictory selection; wave points of 4 thick problem kinds; solve() replaced by a recorder that binds its arguments by name',
              thorough='every pair of deviations for all 9 problems')
MIN_PER_WORKER = 10
PAIRS = dict(quick=('gaussian_IC', 'square_source'), thorough=tuple(orch.NAMES))


def cases(tier):
    for name in orch.NAMES:
        yield dict(mode='dev', name=name, devs=[], _group='single')
        for i in range(len(orch.DEV)):
            yield dict(mode='dev', name=name, devs=[i], _group='single')
        for n in (1, 2, 3):
            yield dict(mode='lists', name=name, n=n, _group='lists')
        for k in ('N_spaces', 'Ms', 'N_angles'):
            yield dict(mode='refuse', name=name, what=k, _group='refuse')
        for k in ('geometry', 'sigma_func'):
            yield dict(mode='refuse', name=name, what=k, _group='refuse')
        yield dict(mode='moves', name=name, _group='switches')
    for name, kind in product(('square_source', 'gaussian_source'), WAVES):
        yield dict(mode='waves', name=name, kind=kind, _group='wave points')
    yield dict(mode='battery', _group='switches')
    for name in PAIRS[tier]:
        for i in range(len(orch.DEV)):
            yield dict(mode='pairs', name=name, i=i, _group='pairs')


WAVES = ('su_olson_thick', 'su_olson_thick_s2', 'rad_transfer_constant_cv_thick', 'rad_transfer_constant_cv_thick_s2')


def run(case, ck):
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    os.chdir(d)
    try:
        orch.store(d)
        globals()[case['mode']](case, ck)
    finally:
        orch.close_figs()
        os.chdir(home)
        shutil.rmtree(d)


def check_calls(ck, rec, name, p, m, unc, mov, what):
    n = len(p['all']['N_spaces']) * p['all']['N_runs']
    ck.ok(len(rec.calls) == n, 'wrong number of solver runs', f'{what}: {len(rec.calls)} instead of {n}')
    L = len(p['all']['N_spaces'])
    for j, c in enumerate(rec.calls):
        want = orch.expected(name, p, m, j % L, unc, mov)
        for k, w in want.items():
            ck.ok(k in c, 'an argument of the solver is missing', k)
            ck.ok(orch.equal(c[k], w), 'a setting does not reach the solver', lambda: f'{what} run {j}: {k} is {c[k]!r}, the input says {w!r}')


def one(ck, name, devs, unc=True, mov=True):
    p, m = orch.apply(name, devs)
    r, rec = orch.runner()
    orch.load_yaml(r, p, m)
    if name == 'boundary_source':
        # its closing plots compare with stored benchmarks; they are not the subject here
        for f in ('fake_sedov_benchmark', 'siewert_bench', 'steady_state_gaussian_benchmark'):
            setattr(r, f, lambda *a, **k: None)
    getattr(r, name)(unc, mov)
    ck.step(len(rec.calls))
    check_calls(ck, rec, name, p, m, unc, mov, f'{name} {[orch.DEV[i] for i in devs]}')
    ck.state(name, devs)
    orch.close_figs()


def dev(case, ck):
    one(ck, case['name'], case['devs'])
    ck.outcome(case['name'])


def pairs(case, ck):
    i = case['i']
    for j in range(i + 1, len(orch.DEV)):
        if orch.DEV[i][:2] != orch.DEV[j][:2]:
            one(ck, case['name'], [i, j])


def moves(case, ck):
    for unc, mov in product((True, False), repeat=2):
        one(ck, case['name'], [], unc, mov)


def battery(case, ck):
    """run_all: the four treatments of the square pulse, each as asked for on its own"""
    p, m = orch.apply('square_IC', [])
    r, rec = orch.runner()
    orch.load_yaml(r, p, m)
    r.run_all()
    ck.step(len(rec.calls))
    n = len(p['all']['N_spaces'])
    ck.ok(len(rec.calls) == 4 * n, 'run_all: wrong number of solver runs', len(rec.calls))
    seen = set()
    for j in range(4):
        part = rec.calls[j * n:(j + 1) * n]
        unc, mov = bool(part[0]['uncollided']), bool(part[0]['moving'])
        seen.add((unc, mov))
        one = type('R', (), dict(calls=part))
        check_calls(ck, one, 'square_IC', p, m, unc, mov, f'run_all part {j}')
    ck.ok(len(seen) == 4, 'run_all leaves out a treatment', seen)
    ck.state(case)


def lists(case, ck):
    name, n = case['name'], case['n']
    p, m = orch.base(name)
    p['all'].update(N_spaces=[4, 8, 6][:n], Ms=[2, 1, 3][:n])
    p[name].update(N_angles=[2, 8, 4][:n], x0=[0.5, 0.7, 0.9][:n])
    r, rec = orch.runner()
    orch.load_yaml(r, p, m)
    getattr(r, name)(False, True)
    ck.step(n)
    check_calls(ck, rec, name, p, m, False, True, f'{n} runs')
    ck.state(case)


def refuse(case, ck):
    """contradictory input must not start a solver run"""
    name, what = case['name'], case['what']
    p, m = orch.base(name)
    if what in ('N_spaces', 'Ms'):
        variants = [[4], [4, 8, 16]]
    elif what == 'N_angles':
        variants = [[2], [2, 4, 8]]
    elif what == 'geometry':
        variants = [{'slab': True, 'sphere': True}]
    else:
        keys = list(orch.MESH['sigma_func'])
        variants = [{k: k in pair for k in keys} for pair in combinations(keys, 2)] + [{k: True for k in keys}]
    for v in variants:
        p, m = orch.base(name)
        (p['all'] if what in ('N_spaces', 'Ms', 'geometry') else p[name] if what == 'N_angles' else m)[what] = v
        r, rec = orch.runner()
        orch.load_yaml(r, p, m)
        try:
            getattr(r, name)(False, True)
        except (Exception, SystemExit):
            pass
        ck.step()
        ck.ok(len(rec.calls) == 0, 'contradictory input is solved', f'{what} = {v}')
        ck.state(case, v)


def waves(case, ck):
    """the wave points saved for an optically thick problem are those its mesh follows"""
    import h5py, real
    from moving_mesh_transport.loading_and_saving.save_output import save_output
    name, kind = case['name'], case['kind']
    h5py.File(os.path.join('moving_mesh_transport', 'local_run_data', 'wavepoints_crc.hdf5'), 'w').close()
    cv = 0.03
    src = 'square_source' if name == 'square_source' else 'gaussian_source'
    w = None
    # other problems, times and sources are saved around the one that is asked for
    for n, (k, tf, s) in enumerate([(k, tf, s) for k in WAVES for tf in (1.0, 2.0) for s in ('square_source', 'gaussian_source')]):
        d = [np.array([0.0, 0.4 * tf, tf]), np.array([0.0, 0.1, 0.2]), 0.5 + np.array([0.0, 0.3, 1.0]) + 0.01 * n, 0.5 + np.array([0.02, 0.2, 0.7]) + 0.01 * n]
        save_output(tf, np.array([16]), np.array([2]), np.array(orch.source(s)['source_type']), True, True, 'cells', {'none': 0}, np.array([1, 0]), 1.0, 0.0, np.array([0.5]), cv, k,
                    np.array([4]), 1.0).save_wave_loc(*d)
        if (k, tf, s) == (kind, 2.0, src):
            w = d
    p, m = orch.base(name)
    p['all'].update(problem_name=kind, thick=True, cv_const=cv, tfinal=2.0, N_spaces=[16], Ms=[1], radiative_transfer={'none': False})
    p[name].update(move_type=[0, 1, 0, 0], N_angles=[2], x0=[0.5], l=1.0)
    m.update(pad=0.25, leader_pad=0.6)
    for moving in ((True, False) if name == 'square_source' else (False,)):
        r, rec = orch.runner()
        orch.load_yaml(r, p, m)
        getattr(r, name)(False, moving)
        ck.ok(len(rec.calls) == 1, 'wrong number of solver runs')
        c = rec.calls[0]
        a = c['wave_loc_array']
        mesh = real.make_mesh(dict(geom='slab', problem=name, N=16, x0=0.5, tfinal=2.0, moving=moving, thick=True, move_type=list(c['move_type']), pad=c['pad'],
                                   leader_pad=c['leader_pad'], wave=a))
        for t in (0.5, 0.8, 1.7, 2.0):
            mesh.move(t)
            ck.step()
            e = np.array(mesh.edges)
            f = np.interp(t if moving else 2.0, w[0], w[3])
            if name == 'gaussian_source':
                want = w[3][-1] + 0.25
            else:
                want = f + 0.6 if moving else max(f + 0.6, w[2][-1] + 0.25)
            ck.close(e[-1], want, 'the mesh does not follow the saved wave points', 1e-9, 0, f'{name} {kind} moving={moving} t={t}')
            ck.state(name, kind, moving, e)
    ck.outcome('waves')
