"""C19: histories of runs: results handed out are the last run's, saved solutions are those of their own run."""
import os, tempfile, shutil
import numpy as np
from itertools import product
import orch

BOUNDS = dict(quick='all sequences of 2 runs over 18 (problem, treatment) pairs and 36 x 36 for the four treatments, list lengths 1-3, repetitions 1-2, saved-time lists, transport and energy-coupled storage; every solution loaded back; 6 real runs',
              thorough='all sequences of 3 runs over 18 pairs')
ASSUMPTIONS = ['in the enumerated histories the numerical solve is a stand-in with recognisable answers; the real solve is used in the mode real']
MIN_PER_WORKER = 4
NAMES = dict(plane_IC='plane_IC', square_IC='square_IC', square_source='square_s', gaussian_IC='gaussian_IC', gaussian_source='gaussian_s', MMS='MMS', boundary_source='boundary_source', dipole='dipole',
             self_sim_plane='self_sim_plane')
COMBO = [(True, True), (True, False), (False, True), (False, False)]
OPS = [(n, u, m) for n in orch.NAMES for u, m in COMBO]
FEW = [(n, u, m) for n in orch.NAMES for u, m in ((True, True), (False, False))]


REAL = [('square_IC', 'slab', [0.25, 0.5]), ('square_IC', 'slab', None), ('gaussian_source', 'slab', [0.25, 0.5]), ('gaussian_source', 'slab', None), ('square_IC', 'sphere', [0.2, 0.5]), ('square_IC', 'sphere', None)]


def cases(tier):
    # one case: the process that runs it has to compile everything
    yield dict(mode='real', _group='real')
    for i in range(len(OPS)):
        yield dict(mode='pairs', first=i, _group='histories')
    if tier == 'thorough':
        for i, j in product(range(len(FEW)), repeat=2):
            yield dict(mode='triples', first=i, second=j, _group='histories')
    for n in orch.NAMES:
        yield dict(mode='all', name=n, _group='all treatments')
        for k in (1, 2, 3):
            for nr in (1, 2):
                for ev in (False, True):
                    for st in ('transport', 'su_olson', 'rad_transfer_constant_cv'):
                        if st != 'transport' and (n not in ('square_source', 'gaussian_source') or ev):
                            continue
                        yield dict(mode='lists', name=n, n=k, runs=nr, eval=ev, store=st, _group='lists')


def warm_cases(cs):
    return [cs[1]]


def run(case, ck):
    orch.no_plots()
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    os.chdir(d)
    try:
        orch.store(d)
        globals()['_' + case['mode']](case, ck)
    finally:
        orch.close_figs()
        os.chdir(home)
        shutil.rmtree(d)


def config(name, n=2, runs=1, ev=False, store='transport'):
    p, m = orch.base(name)
    p['all'].update(N_spaces=[4, 8, 6][:n], Ms=[1, 3, 2][:n], N_runs=runs, save_solution=True, problem_name=store)
    if store != 'transport':
        p['all'].update(radiative_transfer={'none': False}, cv_const=0.03)
    p[name].update(N_angles=[2, 4, 6][:n], x0=[0.5, 0.7, 0.9][:n])
    m['eval_times'] = ev
    return p, m


def go(ck, model, name, unc, mov, p, m, All=False):
    """one public run; the model store is a dictionary"""
    r, rec = orch.runner()
    orch.load_yaml(r, p, m)
    if name == 'boundary_source':
        for f in ('fake_sedov_benchmark', 'siewert_bench', 'steady_state_gaussian_benchmark'):
            setattr(r, f, lambda *a, **k: None)
    if All:
        getattr(r, name)(All=True)
    else:
        getattr(r, name)(unc, mov)
    ck.step(len(rec.calls))
    ts = m['eval_array'] if m['eval_times'] else [float(p['all']['tfinal'])]
    for c, a in zip(rec.calls, rec.answers):
        for i, t in enumerate(ts):
            model[(name, int(c['N_space']), float(t), bool(c['uncollided']), bool(c['moving']))] = (a, i if m['eval_times'] else None)
    return r, rec


def results(ck, r, a, what):
    for attr, k in dict(xs='xs', phi='phi', psi='psi', ws='ws', exit_dist='exit_dist', exit_phi='exit_phi', e='e').items():
        ck.ok(np.array_equal(getattr(r, attr), a[k]), 'a result of the run object is not that of its last run', f'{what}: {attr}')
    ck.ok(np.array_equal(r.mus, a['mus']), 'a result of the run object is not that of its last run', f'{what}: mus')


def verify(ck, model, p, m, store, what, negative=()):
    from moving_mesh_transport.loading_and_saving.load_solution import load_sol
    a = p['all']
    c = a['sigma_s'] / a['sigma_t']
    pname = {'rad_transfer_constant_cv': 'rad_transfer_const_cv'}.get(store, store)
    for (name, N, t, unc, mov), (ans, i) in model.items():
        s = orch.source(name)
        l = load_sol(pname, NAMES[name], 'transport' if store == 'transport' else 'transfer', c, False, float(a['cv_const']), 'run_data.hdf5')
        w = s['sigma'] if 'gaussian' in name else 0.5
        try:
            l.call_sol(t, 1, w, N, 'rad', unc, mov, float(a['epsilon']))
        except KeyError as e:
            ck.fail('the solution of a run cannot be loaded', f'{what}: {(name, N, t, unc, mov)}: {e}')
        d = f'{what}: {(name, N, t, unc, mov)}'
        pick = lambda q: q if i is None else q[i]
        ck.close(l.xs, pick(ans['xs']), 'positions loaded are not those of their run', 1e-6, 1e-6, d)
        ck.close(l.phi, pick(ans['phi']), 'scalar flux loaded is not that of its run', 1e-6, 1e-6, d)
        ck.close(l.psi, pick(ans['psi']), 'angular flux loaded is not that of its run', 0, 0, d)
        ck.close(l.ws, ans['ws'], 'weights loaded are not those of their run', 0, 0, d)
        ck.close(l.mus, ans['mus'], 'ordinates loaded are not those of their run', 0, 0, d)
        if i is None:
            ck.close(l.edges, ans['edges'], 'edges loaded are not those of their run', 0, 0, d)
            ck.close(l.coeff_mat, ans['sol'] if store == 'transport' else ans['sol'][:-1], 'coefficients loaded are not those of their run', 0, 0, d)
        if store != 'transport':
            ck.close(l.e, ans['e'], 'material energy loaded is not that of its run', 1e-6, 1e-6, d)
    for (name, N, t, unc, mov) in negative:
        if (name, N, t, unc, mov) in model:
            continue
        s = orch.source(name)
        l = load_sol(pname, NAMES[name], 'transport', c, False, 0.0, 'run_data.hdf5')
        try:
            l.call_sol(t, 1, s['sigma'] if 'gaussian' in name else 0.5, N, 'rad', unc, mov, 1.0)
        except KeyError:
            continue
        ck.fail('a solution of a problem that was not run can be loaded', f'{what}: {(name, N, t, unc, mov)}')
    ck.state(what, sorted(map(str, model)))


def history(ck, seq):
    d = tempfile.mkdtemp(dir=os.getcwd())
    home = os.getcwd()
    os.chdir(d)
    orch.store(d)
    model = {}
    for k, (name, unc, mov) in enumerate(seq):
        # the second run of one problem uses a different list of cell counts, one of them in common
        p, m = config(name, 2)
        if k % 2:
            p['all']['N_spaces'] = [8, 16]
        r, rec = go(ck, model, name, unc, mov, p, m)
        results(ck, r, rec.answers[-1], str(seq))
    neg = [(n, 8, 1.5, u, m) for n in orch.NAMES for u, m in COMBO] if len(seq) == 1 or seq[0] == seq[1] else ()
    verify(ck, model, p, m, 'transport', str(seq), neg)
    orch.close_figs()
    os.chdir(home)
    shutil.rmtree(d)


def _pairs(case, ck):
    a = OPS[case['first']]
    history(ck, [a])
    for b in (OPS if a[0] in ('plane_IC', 'square_source') else FEW if a in FEW else [o for o in OPS if o[0] == a[0]]):
        history(ck, [a, b])
    ck.outcome(a)


def _triples(case, ck):
    for c in FEW:
        history(ck, [FEW[case['first']], FEW[case['second']], c])


def _all(case, ck):
    name = case['name']
    p, m = config(name, 2)
    model = {}
    r, rec = go(ck, model, name, None, None, p, m, All=True)
    got = sorted((bool(c['uncollided']), bool(c['moving']), int(c['N_space'])) for c in rec.calls)
    ck.ok(got == sorted((u, v, n) for u, v in COMBO for n in (4, 8)), 'All does not run every treatment once', str(got))
    verify(ck, model, p, m, 'transport', f'{name} All')


def _lists(case, ck):
    name = case['name']
    p, m = config(name, case['n'], case['runs'], case['eval'], case['store'])
    model = {}
    for unc, mov in COMBO:
        r, rec = go(ck, model, name, unc, mov, p, m)
        results(ck, r, rec.answers[-1], str(case))
        verify(ck, model, p, m, case['store'], str(case))
    from moving_mesh_transport.solver import main_class
    s = main_class(name, r.parameters, r.mesh_parameters)
    s.main(False, True)
    ck.close(s.r_times, np.full(case['n'], 0.5), 'run times are not the averages over the repetitions', 1e-12, 0)
    # several saved runs with the same cell count: the last one is kept
    orch.close_figs()


def _real(case, ck):
    os.makedirs('moving_mesh_transport/matrix_files')
    import coeffs
    coeffs.write_files('moving_mesh_transport/matrix_files', 9)
    for name, geom, ev in REAL:
        real_run(ck, name, geom, ev)


def real_run(ck, name, geom, ev):
    """the real solve behind the public entry point: what is loaded back reproduces the reported flux"""
    import p_C10
    from moving_mesh_transport import solver as sv
    from moving_mesh_transport.loading_and_saving.load_solution import load_sol
    p, m = config(name, 1)
    p['all'].update(tfinal=0.5, rt='1e-7', at='1e-9', geometry={geom: True, ('sphere' if geom == 'slab' else 'slab'): False}, weights='gauss_lobatto')
    p[name]['source_strength'] = 1.0
    if ev:
        m.update(eval_times=True, eval_array=ev)
    r, rec = orch.runner()
    sv.solve = orch._runner['real']
    orch.load_yaml(r, p, m)
    getattr(r, name)(False, True)
    ck.step()
    for i, t in enumerate(ev or [0.5]):
        l = load_sol('transport', NAMES[name], 'transport', 0.4, False, 0.0, 'run_data.hdf5')
        l.call_sol(t, 1, 0.375 if 'gaussian' in name else 0.5, 4, 'rad', False, True, 1.0)
        xs, phi, psi = (r.xs[i], r.phi[i], r.psi[i]) if ev else (r.xs, r.phi, r.psi)
        ck.close(l.xs, xs, 'positions loaded are not those of the run', 1e-6, 1e-6)
        ck.close(l.phi, phi, 'scalar flux loaded is not that of the run', 1e-6, 1e-6)
        ck.close(l.psi, psi, 'angular flux loaded is not that of the run', 0, 0)
        ck.ok(np.max(np.abs(phi)) > 0.05, 'the run produced nothing')
        got = np.array([[min((q[a] for q in p_C10.expected(geom, np.array(l.edges), np.array(l.coeff_mat), x)), key=lambda v: abs(v - psi[a, j])) for j, x in enumerate(xs)] for a in range(len(l.mus))])
        good = np.allclose(got, psi, rtol=1e-6, atol=1e-7)
        if ev and i < len(ev) - 1:
            if not good:
                ck.soft(f'coefficients and edges saved for an earlier time do not reproduce the flux of that time ({name}, {geom}, t={t})')
        else:
            ck.ok(good, 'saved coefficients and edges do not reproduce the flux', f't={t}')
        ck.state(name, geom, ev, t)
