"""A complete input file as a dict, deviations from it, and a recording stand-in for solve()."""
import copy, inspect, math, os
import numpy as np

COMMON = dict(problem_name='transport', tfinal=1.5, c_scaling=False, epsilon_scaling=False, epsilon=1.0, sigma_t=1.25, sigma_s=0.5, t0=0.75, N_spaces=[4, 8], tnodes=11,
              Ms=[1, 3], N_runs=1, rt=5e-12, at=1e-10, mxstp=0.9, major='cells', radiative_transfer={'none': True}, temperature_dependence=[0, 1, 0, 0], e_initial=1e-10,
              weights='gauss_legendre', save_solution=False, particle_v='one', edge_v='one', cv_const=0.0, estimate_wavespeed=False, thick=False, integrator='DOP853',
              geometry={'slab': True, 'sphere': False})
ST = dict(plane_IC=0, square_IC=1, square_source=2, gaussian_IC=3, MMS=4, gaussian_source=5)
NAMES = ['plane_IC', 'square_IC', 'square_source', 'gaussian_IC', 'gaussian_source', 'MMS', 'boundary_source', 'dipole', 'self_sim_plane']
MESH = dict(find_edges_tol=1e9, sqrt_t_move_factor=6.2, save_wave_loc=False, estimate_wavespeed=False, find_wave_loc=False, choose_xs=False, pad=300.0, leader_pad=0.025,
            xs_list=[0.0, 0.5, 1.0], xs_quad=25, eval_times=False, eval_array=[0.25, 0.5, 1.5], finite=False, domain_width=10.0, boundary_on=[0, 0], boundary_source_strength=1.5,
            boundary_source=False, sigma_func={'constant': True, 'linear': False, 'siewert1': False, 'siewert2': False, 'gaussian': False, 'fake_sedov': False}, Msigma=0, fake_sedov_v0=0.005)


def source(name):
    st = [0] * 16
    if name in ST:
        st[ST[name]] = 1
    elif name == 'dipole':
        st[0] = 2
    elif name == 'self_sim_plane':
        st[0] = 3
    d = dict(x0=[0.5, 0.625], source_strength=1.75, source_type=st, N_angles=[2, 4], move_type=[1, 0, 0, 0], benchmarking=False)
    if 'gaussian' in name:
        d['sigma'] = 0.375
    if name in ('square_source', 'gaussian_source'):
        d['bench_type'] = 'full'
    return d


def base(name):
    return dict(all=copy.deepcopy(COMMON), **{name: source(name)}), copy.deepcopy(MESH)


# deviations: where ('all', 'src', 'mesh'), key, value
DEV = [('all', 'tfinal', 10), ('all', 'tfinal', '3.1e1'), ('all', 'epsilon_scaling', True), ('all', 'epsilon', 0.5), ('all', 'sigma_t', 2), ('all', 'sigma_t', '8.0e2'), ('all', 'sigma_s', 0.0),
       ('all', 'sigma_s', 1.25), ('all', 't0', 5), ('all', 'tnodes', 40), ('all', 'Ms', [2, 0]), ('all', 'N_spaces', [16, 2]), ('all', 'N_runs', 2), ('all', 'rt', '1e-7'), ('all', 'at', '1e-6'),
       ('all', 'mxstp', 0.01), ('all', 'temperature_dependence', [1, 0, 0, 0]), ('all', 'e_initial', 0.5), ('all', 'weights', 'gauss_lobatto'), ('all', 'particle_v', 'sqrt_3'), ('all', 'edge_v', 'sqrt_3'),
       ('all', 'cv_const', 0.03), ('all', 'integrator', 'BDF'), ('all', 'geometry', {'slab': False, 'sphere': True}), ('all', 'radiative_transfer', {'none': False}), ('all', 'thick', True),
       ('src', 'x0', [1.5, 2.75]), ('src', 'x0', [2.5, 2.5]), ('src', 'source_strength', 3), ('src', 'N_angles', [8, 6]), ('src', 'move_type', [0, 0, 1, 0]), ('src', 'sigma', 0.5),
       ('mesh', 'find_edges_tol', 10), ('mesh', 'sqrt_t_move_factor', 2.5), ('mesh', 'choose_xs', True), ('mesh', 'pad', 7.0), ('mesh', 'leader_pad', 0.5), ('mesh', 'xs_list', [0.1, 0.2]), ('mesh', 'xs_quad', 7),
       ('mesh', 'eval_times', True), ('mesh', 'eval_array', [0.1, 1.5]), ('mesh', 'finite', True), ('mesh', 'domain_width', 3.0), ('mesh', 'boundary_on', [1, 0]), ('mesh', 'boundary_source_strength', 0.3),
       ('mesh', 'boundary_source', True), ('mesh', 'sigma_func', {'constant': False, 'linear': False, 'siewert1': False, 'siewert2': False, 'gaussian': True, 'fake_sedov': False}), ('mesh', 'Msigma', 4),
       ('mesh', 'fake_sedov_v0', 0.1), ('src', 'x0', ['1e-9', '2.5e-1']), ('all', 'N_runs', 3), ('src', 'source_strength', '1e-3'), ('all', 'sigma_s', '3e-1'), ('all', 'cv_const', '5e-2'), ('all', 'major', 'Ms')]


def apply(name, devs):
    p, m = base(name)
    for i in devs:
        w, k, v = DEV[i]
        v = copy.deepcopy(v)
        if w == 'src' and k == 'sigma' and 'gaussian' not in name:
            continue
        if k == 'x0' and isinstance(v[0], str) and not p[name]['source_type'][0]:
            continue    # text (a number without a decimal point) is read as a number for the problems of width zero
        if k == 'thick':
            p[name]['l'] = 2.5
        {'all': p['all'], 'src': p[name], 'mesh': m}[w][k] = v
    return p, m


def expected(name, p, m, count, uncollided, moving):
    """what every argument of solve() has to be, from the meaning of the input file"""
    a, s = p['all'], p[name]
    sp = dict(one=1.0, sqrt_3=1 / math.sqrt(3))
    ns = a['N_spaces'][count] if a['major'] == 'cells' else a['N_spaces'][1]     # a study of the order keeps the cells
    return dict(tfinal=float(a['tfinal']), N_space=ns, N_ang=s['N_angles'][count], M=a['Ms'][count],
                x0=float(s['x0'][count if name in ('gaussian_IC', 'MMS') else 0]), t0=float(a['t0']), sigma_t=float(a['sigma_t']), sigma_s=float(a['sigma_s']), t_nodes=int(a['tnodes']),
                source_type=s['source_type'], uncollided=uncollided, moving=moving, move_type=s['move_type'], thermal_couple=a['radiative_transfer'], temp_function=a['temperature_dependence'],
                rt=float(a['rt']), at=float(a['at']), e_initial=float(a['e_initial']), choose_xs=bool(m['choose_xs']), specified_xs=m['xs_list'] if m['choose_xs'] else None, weights=a['weights'],
                sigma=float(s.get('sigma', 0.0)), particle_v=sp[a['particle_v']], edge_v=sp[a['edge_v']], cv0=float(a['cv_const']), estimate_wavespeed=False, find_wave_loc=False, thick=bool(a['thick']),
                mxstp=float(a['mxstp']), find_edges_tol=float(m['find_edges_tol']), source_strength=float(s['source_strength']), move_factor=float(m['sqrt_t_move_factor']), integrator=a['integrator'],
                l=float(s['l']) if a['thick'] else 1.0, save_wave_loc=False, pad=float(m['pad']), leader_pad=float(m['leader_pad']), xs_quad_order=int(m['xs_quad']), eval_times=bool(m['eval_times']),
                eval_array=m['eval_array'], boundary_on=m['boundary_on'], boundary_source_strength=float(m['boundary_source_strength']), boundary_source=bool(m['boundary_source']),
                sigma_func=m['sigma_func'], Msigma=m['Msigma'], finite_domain=bool(m['finite']), domain_width=float(m['domain_width']) if m['finite'] else -1.0, fake_sedov_v0=float(m['fake_sedov_v0']),
                test_dimensional_rhs=bool(a['epsilon_scaling']), epsilon=float(a['epsilon']), geometry=a['geometry'])


class Recorder:
    """stands in for solve(): records the bound arguments, answers with recognisable data of the right shape"""

    def __init__(self, real):
        self.sig = inspect.signature(real)
        self.calls = []
        self.answers = []

    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k).arguments
        self.calls.append(dict(b))
        n = len(self.calls)
        S, N, M = int(b['N_ang']), int(b['N_space']), int(b['M'])
        nx = 3 + N
        rows = S if int(dict(b['thermal_couple']).get('none', 1)) else S + 1
        f = lambda off, *sh: (np.cos(np.arange(int(np.prod(sh))) * 1.3 + n) + 2 + off + 10 * n).reshape(sh)
        ev = bool(b['eval_times'])
        T = len(b['eval_array']) if ev else 0
        lead = (T,) if ev else ()
        xs = np.sort(f(0, *lead, nx), axis=-1)
        r = dict(xs=xs, phi=f(1, *lead, nx), psi=f(2, *lead, S, nx), exit_dist=f(3, *lead, S, 2), exit_phi=f(4, *lead, 2), e=f(5, nx), time=0.5, sol=f(6, rows, N, M + 1), mus=np.linspace(-1, 1, S),
                 ws=np.full(S, 2.0 / S) + n, edges=np.linspace(-1 - n, 1 + n, N + 1))
        self.answers.append(r)
        z = np.zeros(1)
        return (r['xs'], r['phi'], r['psi'], r['exit_dist'], r['exit_phi'], r['e'], r['time'], r['sol'], r['mus'], r['ws'], r['edges'], np.zeros((1, 1, 1)), z, z, z, z, z, z, r['mus'])


def equal(got, want):
    if want is None:
        return True
    if isinstance(want, dict):
        g = {str(k): int(v) for k, v in dict(got).items()}
        return all(g.get(k, 0) == int(v) for k, v in want.items()) and all(v == 0 or k in want for k, v in g.items())
    if isinstance(want, str):
        return got == want
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    return g.shape == w.shape and np.array_equal(g, w)


_runner = {}


def runner():
    """the public run object with solve() replaced, in the scratch folder"""
    import h5py, warnings
    warnings.simplefilter('ignore')
    from moving_mesh_transport import solver as sv
    from moving_mesh_transport.solver_functions import run_functions as rf
    if 'real' not in _runner:
        _runner['real'] = sv.solve
    rec = Recorder(_runner['real'])
    sv.solve = rec
    return rf.run(), rec


def store(folder):
    import h5py
    d = os.path.join(folder, 'moving_mesh_transport', 'local_run_data')
    os.makedirs(d, exist_ok=True)
    h5py.File(os.path.join(d, 'run_data.hdf5'), 'w').close()


def close_figs():
    import matplotlib.pyplot as plt
    plt.close('all')


def load_yaml(r, p, m, tag='mc'):
    """write the two input files and let the program read them"""
    import yaml
    d = os.path.join('moving_mesh_transport', 'input_scripts')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, tag + '.yaml'), 'w') as f:
        yaml.safe_dump(p, f)
    with open(os.path.join(d, 'mesh_parameters.yaml'), 'w') as f:
        yaml.safe_dump(m, f)
    r.load(tag)


def no_plots():
    """plotting is not the subject of the histories (C14 runs the same code with real plots)"""
    import matplotlib.pyplot as plt
    for f in ('plot', 'scatter', 'legend', 'show', 'figure', 'ion', 'xlabel', 'ylabel', 'close'):
        setattr(plt, f, lambda *a, **k: None)
