"""Helpers of this demonstration: build the program's objects, or run it, in a scratch folder."""
import os, sys, tempfile, shutil, atexit
REPO = os.getcwd()
for k, v in dict(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', NUMBA_OPT='0', NUMBA_BOUNDSCHECK='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1').items():
    os.environ[k] = v
os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
SCRATCH = tempfile.mkdtemp(prefix='demo_')
for _p in ('matrix_files', 'local_run_data', 'benchmarks', 'input_scripts'):
    os.makedirs(os.path.join(SCRATCH, 'moving_mesh_transport', _p))
os.chdir(SCRATCH)
def _rm():
    os.chdir('/')
    shutil.rmtree(SCRATCH, ignore_errors=True)
atexit.register(_rm)
_keep = os.dup(1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)


def say(*a):
    os.write(_keep, (' '.join(str(x) for x in a) + '\n').encode())


def verdict(good, *a):
    say('ok' if good else 'BROKEN', *a)
    sys.exit(0 if good else 1)


from fractions import Fraction as F
from functools import lru_cache
from math import gcd
import numpy as np


@lru_cache(None)
def cheb(n):
    """T_n as a tuple of integer coefficients, lowest power first."""
    if n == 0:
        return (1,)
    if n == 1:
        return (0, 1)
    a, b = cheb(n - 1), cheb(n - 2)
    r = [0] + [2 * x for x in a]
    for i, x in enumerate(b):
        r[i] -= x
    return tuple(r)


def pmul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return tuple(r)


def pder(a):
    return tuple(i * a[i] for i in range(1, len(a))) or (0,)


def pint(a):
    """int_{-1}^{1}"""
    return sum((F(2 * x, i + 1) for i, x in enumerate(a) if i % 2 == 0), F(0))


def _r2_coeffs(p):
    """int_{-1}^1 r^2 p(z) dz as coefficients of (rL^2, rL rR, rR^2)."""
    # r = rL (1-z)/2 + rR (1+z)/2
    ll = pint(pmul(p, (F(1, 4), F(-1, 2), F(1, 4))))
    lr = pint(pmul(p, (F(1, 2), 0, F(-1, 2))))
    rr = pint(pmul(p, (F(1, 4), F(1, 2), F(1, 4))))
    return ll, lr, rr


def _r_coeffs(p):
    return pint(pmul(p, (F(1, 2), F(-1, 2)))), pint(pmul(p, (F(1, 2), F(1, 2))))


def _split(cs):
    d = 1
    for c in cs:
        d = d * c.denominator // gcd(d, c.denominator)
    return [float(c * d) for c in cs], d


def tables(size, nsig=1):
    me = np.zeros((size, size, 3)); mo = np.zeros((size, size, 2)); md = np.ones((size, size), dtype=np.int64)
    J = np.zeros((size, size, 2)); jd = np.ones((size, size), dtype=np.int64)
    le = np.zeros((size, size, 2)); lo = np.zeros((size, size, 3)); ld = np.ones((size, size), dtype=np.int64)
    g = np.zeros((size, size, 6)); gd = np.ones((size, size), dtype=np.int64)
    ve = np.zeros((nsig, size, size, 3)); vo = np.zeros((nsig, size, size, 2)); vd = np.ones((nsig, size, size), dtype=np.int64)
    for i in range(size):
        for j in range(size):
            tt = pmul(cheb(i), cheb(j))
            # ---- mass: c_i c_j/(2 pi) int r^2 TiTj dz ; table carries everything but 1/pi and the sqrt(2) factor
            ll, lr, rr = _r2_coeffs(tt)
            both = (i > 0) + (j > 0)
            if both == 0:
                k = F(1, 2)
            elif both == 2:
                k = F(1)
            else:  # true factor sqrt2/2; the code multiplies sqrt2 (even other index) or 1/sqrt2 (odd)
                k = F(1, 2) if (i + j) % 2 == 0 else F(1)
            if (i + j) % 2 == 0:
                me[i, j], md[i, j] = _split([k * ll, k * lr, k * rr])
            else:
                assert lr == 0
                mo[i, j], md[i, j] = _split([k * ll, k * rr])
            # ---- J: c_i c_j/(2 pi) int r TiTj dz; the code divides mixed entries by sqrt2
            l, r = _r_coeffs(tt)
            k = F(1, 2) if both == 0 else F(1)
            J[i, j], jd[i, j] = _split([k * l, k * r])
            # ---- L: c_i c_j/(pi h) int r^2 Ti' Tj dz  (h = rR - rL); the code multiplies [1:,0] by sqrt2
            if i > 0:
                ll, lr, rr = _r2_coeffs(pmul(pder(cheb(i)), cheb(j)))
                k = F(1) if j == 0 else F(2)
                if (i + j) % 2 != 0:
                    lo[i, j], ld[i, j] = _split([-k * ll, -k * lr, -k * rr])
                else:
                    # divisible by (rR - rL): = (rR-rL)(a rL + b rR)
                    b = k * rr
                    a = -k * ll
                    assert k * lr == a - b
                    le[i, j], ld[i, j] = _split([a, b])
    return dict(md=md, jd=jd, gd=gd, ld=ld, vd=vd, me=me, mo=mo, J=J, g=g, le=le, lo=lo, ve=ve, vo=vo)


def _give_tables(size, nsig=1):
    t = tables(size, nsig)
    return (t['md'], t['jd'], t['gd'], t['ld'], t['vd'], t['me'], t['mo'], t['J'], t['g'], t['le'], t['lo'], t['ve'], t['vo'])


def write_files(folder, size=9, nsig=1):
    """Writes the five HDF5 files.  size <= 9: element names concatenate 1-based indices."""
    import h5py, os
    assert size <= 9
    t = tables(size, nsig)
    with h5py.File(os.path.join(folder, 'MassMatrix.h5'), 'w') as f:
        f['denominators'] = t['md']
        for i in range(size):
            for j in range(size):
                f[f'coefficients/Element{i+1}{j+1}'] = t['me'][i, j] if (i + j) % 2 == 0 else t['mo'][i, j]
    with h5py.File(os.path.join(folder, 'JMatrix.h5'), 'w') as f:
        f['denominators'] = t['jd']
        for i in range(size):
            for j in range(size):
                f[f'coefficients/Element{i+1}{j+1}'] = t['J'][i, j]
    with h5py.File(os.path.join(folder, 'GMatrix.h5'), 'w') as f:
        f['denominators'] = t['gd']
    with h5py.File(os.path.join(folder, 'LMatrix.h5'), 'w') as f:
        f['denominators'] = t['ld']
        for i in range(1, size):
            for j in range(size):
                f[f'coefficients/Element{i+1}{j+1}'] = t['le'][i, j] if (i + j) % 2 == 0 else t['lo'][i, j]
    with h5py.File(os.path.join(folder, 'VVMatrix.h5'), 'w') as f:
        f['denominators'] = t['vd']


import numba as nb
TYPES = {'plane': 0, 'square': 1, 'square_source': 2, 'gaussian_IC': 3, 'MMS': 4, 'gaussian_source': 5, 'boundary': None}


def D(**k):
    d = nb.typed.Dict.empty(key_type=nb.typeof('par_1'), value_type=nb.typeof(1))
    for a, b in k.items():
        d[a] = int(b)
    return d


def source_type(name):
    s = np.zeros(16, dtype=np.int64)
    if name == 'dipole':
        s[0] = 2
    elif name == 'self_sim':
        s[0] = 3
    elif name == 'gaussian_IC_noniso':
        s[3] = 1
        s[-1] = 1
    elif TYPES[name] is not None:
        s[TYPES[name]] = 1
    return s


SIG = ('constant', 'gaussian', 'siewert1', 'siewert2', 'fake_sedov')

DEFAULTS = dict(geom='slab', problem='plane', N=4, M=1, S=4, tfinal=1.0, x0=0.5, t0=0.4, sigma_t=1.0, sigma_s=1.0,
                uncollided=False, moving=True, move_type=(1, 0, 0, 0), thermal=False, temp=0, e0=0.0, sigma=0.5,
                speed=1.0, cv0=0.0, thick=False, strength=1.0, move_factor=1.0, l=1.0, pad=0.0, leader_pad=0.0,
                bnd_on=(0, 0), bnd_strength=0.0, bnd=False, sigfunc='constant', Msigma=0, finite=False, width=-1.0,
                sedov_v0=0.0, weights='gauss_legendre', tnodes=10, wave=None)


def full(cfg):
    c = dict(DEFAULTS)
    for k in cfg:
        if k not in c:
            raise KeyError(k)
    c.update(cfg)
    return c


def quads(c):
    from moving_mesh_transport.solver_classes.functions import quadrature
    mus, ws = quadrature(c['S'], c['weights'])
    if c['geom'] == 'slab':
        xq, wq = quadrature(2 * c['M'] + 1, 'gauss_legendre')
    else:
        xq, wq = quadrature(6 * c['M'] + 1, 'chebyshev')
    tq, tw = quadrature(c['tnodes'], 'gauss_legendre')
    qs, _ = quadrature(int(c['N'] / 2 + 1), 'gauss_lobatto')
    qe, _ = quadrature(int(c['N'] / 4 + 1), 'gauss_lobatto')
    return mus, ws, xq, wq, tq, tw, qs, qe


def geometry(c):
    return D(slab=c['geom'] == 'slab', sphere=c['geom'] == 'sphere')


def wave(c):
    return np.zeros((1, 1, 1)) if c['wave'] is None else np.asarray(c['wave'], dtype=float)


def make_mesh(cfg):
    from moving_mesh_transport.solver_classes.mesh import mesh_class
    from moving_mesh_transport.solver_classes.functions import quadrature
    c = full(cfg)
    qs, _ = quadrature(int(c['N'] / 2 + 1), 'gauss_lobatto')
    qe, _ = quadrature(int(c['N'] / 4 + 1), 'gauss_lobatto')
    return mesh_class(c['N'], c['x0'], c['tfinal'], bool(c['moving']), np.array(c['move_type']), source_type(c['problem']),
                      c['speed'], bool(c['thick']), c['move_factor'], wave(c), c['pad'], c['leader_pad'], qs, qe,
                      int(c['finite']), float(c['width']), float(c['sedov_v0']), np.array(c['bnd_on']), float(c['t0']), geometry(c))


def make_build(cfg):
    from moving_mesh_transport.solver_classes.build_problem import build
    c = full(cfg)
    mus, ws, xq, wq, tq, tw, qs, qe = quads(c)
    return build(c['S'], c['N'], c['M'], c['tfinal'], float(c['x0']), float(c['t0']), mus, ws, xq, wq, float(c['sigma_t']), float(c['sigma_s']),
                 source_type(c['problem']), bool(c['uncollided']), bool(c['moving']), np.array(c['move_type']), tq, tw,
                 D(none=0 if c['thermal'] else 1), np.array([1, 0] if c['temp'] == 0 else [0, 1]), float(c['e0']), float(c['sigma']), 1.0,
                 float(c['speed']), float(c['cv0']), int(c['thick']), wave(c), float(c['strength']), float(c['move_factor']), float(c['l']), 0,
                 float(c['pad']), float(c['leader_pad']), qs, qe, np.array(c['bnd_on']), float(c['bnd_strength']), int(c['bnd']),
                 D(**{k: k == c['sigfunc'] for k in SIG}), c['Msigma'], int(c['finite']), float(c['width']), float(c['sedov_v0']),
                 False, 1.0, geometry(c))


_give = {}


def give(size=9):
    if size not in _give:
        _give[size] = _give_tables(size)
    return _give[size]


def make_matrices(b, size=9):
    from moving_mesh_transport.solver_classes.matrices import G_L
    return G_L(b, *give(size))


class System:
    """The full set of objects solve() wires together, and the same RHS closure."""

    def __init__(self, cfg, size=9):
        from moving_mesh_transport.solver_classes.numerical_flux import LU_surf
        from moving_mesh_transport.solver_classes.sources import source_class
        from moving_mesh_transport.solver_classes.uncollided_solutions import uncollided_solution
        from moving_mesh_transport.solver_classes.phi_class import scalar_flux
        from moving_mesh_transport.solver_classes.rhs_class_1 import rhs_class
        from moving_mesh_transport.solver_classes.radiative_transfer import T_function
        from moving_mesh_transport.solver_classes.opacity import sigma_integrator
        self.c = c = full(cfg)
        self.b = b = make_build(cfg)
        self.mesh = make_mesh(cfg)
        self.mat = make_matrices(b, size)
        self.flux_num = LU_surf(b)
        self.src = source_class(b)
        self.unc = uncollided_solution(b)
        self.flux = scalar_flux(b)
        self.rhs = rhs_class(b)
        self.tr = T_function(b)
        self.sig = sigma_integrator(b)
        self.flux.load_AAA(self.sig.AAA)
        self.mus = np.array(b.mus)
        self.ws = np.array(b.ws)
        self.shape = (c['S'], c['N'], c['M'] + 1)
        self.dof = int(np.prod(self.shape))

    def F(self, t, V):
        return self.rhs.call(t, V, self.mesh, self.mat, self.flux_num, self.src, self.unc, self.flux, self.tr, self.sig)


def run_solve(cfg, ev=None, pts=None, integrator='DOP853', mx=1.0, rt=1e-8, at=1e-10):
    """solve() exactly as the main class calls it"""
    c = full(cfg)
    write_files(os.path.join(SCRATCH, 'moving_mesh_transport', 'matrix_files'))
    from moving_mesh_transport.solver_functions.main_functions import solve
    return solve(tfinal=c['tfinal'], N_space=c['N'], N_ang=c['S'], M=c['M'], x0=float(c['x0']), t0=float(c['t0']), sigma_t=float(c['sigma_t']), sigma_s=float(c['sigma_s']), t_nodes=c['tnodes'],
                 source_type=source_type(c['problem']), uncollided=bool(c['uncollided']), moving=bool(c['moving']), move_type=np.array(c['move_type']), thermal_couple=D(none=1),
                 temp_function=np.array([1, 0]), rt=rt, at=at, e_initial=0.0, choose_xs=pts is not None, specified_xs=pts if pts is not None else 0.0, weights=c['weights'], sigma=float(c['sigma']),
                 particle_v=1.0, edge_v=float(c['speed']), cv0=0.0, estimate_wavespeed=False, find_wave_loc=False, thick=False, mxstp=mx, wave_loc_array=np.zeros((1, 1, 1)), find_edges_tol=1e9,
                 source_strength=float(c['strength']), move_factor=float(c['move_factor']), integrator=integrator, l=1.0, save_wave_loc=False, pad=float(c['pad']), leader_pad=float(c['leader_pad']),
                 xs_quad_order=4, eval_times=ev is not None, eval_array=np.array(ev if ev is not None else [1.0]), boundary_on=np.array(c['bnd_on']), boundary_source_strength=float(c['bnd_strength']),
                 boundary_source=int(c['bnd']), sigma_func=D(**{k: k == c['sigfunc'] for k in SIG}), Msigma=c['Msigma'], finite_domain=int(c['finite']), domain_width=float(c['width']),
                 fake_sedov_v0=float(c['sedov_v0']), test_dimensional_rhs=False, epsilon=1.0, geometry=geometry(c))


def input_files(name):
    st = [0] * 16
    idx = dict(plane_IC=0, square_IC=1, square_source=2, gaussian_IC=3, MMS=4, gaussian_source=5)
    if name in idx:
        st[idx[name]] = 1
    p = {'all': dict(problem_name='transport', tfinal=1.0, c_scaling=False, epsilon_scaling=False, epsilon=1.0, sigma_t=1.0, sigma_s=1.0, t0=0.5, N_spaces=[2], tnodes=8,
                     Ms=[0], N_runs=1, rt=1e-7, at=1e-8, mxstp=1.0, major='cells', radiative_transfer={'none': True}, temperature_dependence=[0, 1, 0, 0], e_initial=0.0,
                     weights='gauss_legendre', save_solution=False, particle_v='one', edge_v='one', cv_const=0.0, estimate_wavespeed=False, thick=False, integrator='DOP853',
                     geometry={'slab': True, 'sphere': False}),
         name: dict(x0=[0.5], source_strength=1.0, source_type=st, N_angles=[2], move_type=[1, 0, 0, 0], benchmarking=False, sigma=0.5, bench_type='full')}
    m = dict(find_edges_tol=1e9, sqrt_t_move_factor=0.0, save_wave_loc=False, estimate_wavespeed=False, find_wave_loc=False, choose_xs=False, pad=2.0, leader_pad=0.0,
             xs_list=[0.0, 0.5], xs_quad=4, eval_times=False, eval_array=[0.25, 0.5, 1.0], finite=False, domain_width=10.0, boundary_on=[0, 0], boundary_source_strength=0.0,
             boundary_source=False, sigma_func={'constant': True, 'linear': False, 'siewert1': False, 'siewert2': False, 'gaussian': False, 'fake_sedov': False}, Msigma=0, fake_sedov_v0=0.0)
    return p, m


def run_input(name, p, m, uncollided=False, moving=True, solve=None, quiet=True):
    """write the input files, load them and run the problem through the public entry point"""
    import yaml, h5py
    import matplotlib.pyplot as plt
    if quiet:
        for f in ('plot', 'scatter', 'legend', 'show', 'figure', 'ion', 'xlabel', 'ylabel', 'close'):
            setattr(plt, f, lambda *a, **k: None)
    from moving_mesh_transport import solver as sv
    from moving_mesh_transport.solver_functions import run_functions as rf
    write_files(os.path.join(SCRATCH, 'moving_mesh_transport', 'matrix_files'))
    d = os.path.join('moving_mesh_transport', 'local_run_data', 'run_data.hdf5')
    if not os.path.exists(d):
        h5py.File(d, 'w').close()
    i = os.path.join('moving_mesh_transport', 'input_scripts')
    yaml.safe_dump(p, open(os.path.join(i, 'demo.yaml'), 'w'))
    yaml.safe_dump(m, open(os.path.join(i, 'mesh_parameters.yaml'), 'w'))
    if solve is not None:
        sv.solve = solve
    r = rf.run()
    r.load('demo')
    getattr(r, name)(uncollided, moving)
    return r


def stored(name, tfinal, x0_or_sigma, N, uncollided=False, moving=True, c=1.0):
    from moving_mesh_transport.loading_and_saving.load_solution import load_sol
    l = load_sol('transport', name, 'rad', c, False, 0.0, 'run_data.hdf5')
    l.call_sol(tfinal, 0, x0_or_sigma, N, 'rad', uncollided, moving)
    return l
