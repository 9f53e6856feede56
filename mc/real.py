"""Construction of the real objects of the code under test from a plain dict."""
import env
import numpy as np
import numba as nb
import coeffs

TYPES = {'plane': 0, 'square': 1, 'square_source': 2, 'gaussian_IC': 3, 'MMS': 4, 'gaussian_source': 5, 'boundary': None}


def D(**k):
    d = nb.typed.Dict.empty(key_type=nb.typeof('par_1'), value_type=nb.typeof(1))
    for a, b in k.items():
        d[a] = int(b)
    return d


def source_type(name):
    s = np.zeros(16, dtype=np.int64)
    if name == 'dipole':
        s[0] = 2
    elif name == 'self_sim':
        s[0] = 3
    elif name == 'gaussian_IC_noniso':
        s[3] = 1
        s[-1] = 1
    elif TYPES[name] is not None:
        s[TYPES[name]] = 1
    return s


SIG = ('constant', 'gaussian', 'siewert1', 'siewert2', 'fake_sedov')

DEFAULTS = dict(geom='slab', problem='plane', N=4, M=1, S=4, tfinal=1.0, x0=0.5, t0=0.4, sigma_t=1.0, sigma_s=1.0,
                uncollided=False, moving=True, move_type=(1, 0, 0, 0), thermal=False, temp=0, e0=0.0, sigma=0.5,
                speed=1.0, cv0=0.0, thick=False, strength=1.0, move_factor=1.0, l=1.0, pad=0.0, leader_pad=0.0,
                bnd_on=(0, 0), bnd_strength=0.0, bnd=False, sigfunc='constant', Msigma=0, finite=False, width=-1.0,
                sedov_v0=0.0, weights='gauss_legendre', tnodes=10, wave=None)


def full(cfg):
    c = dict(DEFAULTS)
    for k in cfg:
        if k not in c:
            raise KeyError(k)
    c.update(cfg)
    return c


def quads(c):
    from moving_mesh_transport.solver_classes.functions import quadrature
    mus, ws = quadrature(c['S'], c['weights'])
    if c['geom'] == 'slab':
        xq, wq = quadrature(2 * c['M'] + 1, 'gauss_legendre')
    else:
        xq, wq = quadrature(6 * c['M'] + 1, 'chebyshev')
    tq, tw = quadrature(c['tnodes'], 'gauss_legendre')
    qs, _ = quadrature(int(c['N'] / 2 + 1), 'gauss_lobatto')
    qe, _ = quadrature(int(c['N'] / 4 + 1), 'gauss_lobatto')
    return mus, ws, xq, wq, tq, tw, qs, qe


def geometry(c):
    return D(slab=c['geom'] == 'slab', sphere=c['geom'] == 'sphere')


def wave(c):
    return np.zeros((1, 1, 1)) if c['wave'] is None else np.asarray(c['wave'], dtype=float)


def make_mesh(cfg):
    from moving_mesh_transport.solver_classes.mesh import mesh_class
    from moving_mesh_transport.solver_classes.functions import quadrature
    c = full(cfg)
    qs, _ = quadrature(int(c['N'] / 2 + 1), 'gauss_lobatto')
    qe, _ = quadrature(int(c['N'] / 4 + 1), 'gauss_lobatto')
    return mesh_class(c['N'], c['x0'], c['tfinal'], bool(c['moving']), np.array(c['move_type']), source_type(c['problem']),
                      c['speed'], bool(c['thick']), c['move_factor'], wave(c), c['pad'], c['leader_pad'], qs, qe,
                      int(c['finite']), float(c['width']), float(c['sedov_v0']), np.array(c['bnd_on']), float(c['t0']), geometry(c))


def make_build(cfg):
    from moving_mesh_transport.solver_classes.build_problem import build
    c = full(cfg)
    mus, ws, xq, wq, tq, tw, qs, qe = quads(c)
    return build(c['S'], c['N'], c['M'], c['tfinal'], float(c['x0']), float(c['t0']), mus, ws, xq, wq, float(c['sigma_t']), float(c['sigma_s']),
                 source_type(c['problem']), bool(c['uncollided']), bool(c['moving']), np.array(c['move_type']), tq, tw,
                 D(none=0 if c['thermal'] else 1), np.array([1, 0] if c['temp'] == 0 else [0, 1]), float(c['e0']), float(c['sigma']), 1.0,
                 float(c['speed']), float(c['cv0']), int(c['thick']), wave(c), float(c['strength']), float(c['move_factor']), float(c['l']), 0,
                 float(c['pad']), float(c['leader_pad']), qs, qe, np.array(c['bnd_on']), float(c['bnd_strength']), int(c['bnd']),
                 D(**{k: k == c['sigfunc'] for k in SIG}), c['Msigma'], int(c['finite']), float(c['width']), float(c['sedov_v0']),
                 False, 1.0, geometry(c))


_give = {}


def give(size=9):
    if size not in _give:
        _give[size] = coeffs.give(size)
    return _give[size]


def make_matrices(b, size=9):
    from moving_mesh_transport.solver_classes.matrices import G_L
    return G_L(b, *give(size))


class System:
    """The full set of objects solve() wires together, and the same RHS closure."""

    def __init__(self, cfg, size=9):
        from moving_mesh_transport.solver_classes.numerical_flux import LU_surf
        from moving_mesh_transport.solver_classes.sources import source_class
        from moving_mesh_transport.solver_classes.uncollided_solutions import uncollided_solution
        from moving_mesh_transport.solver_classes.phi_class import scalar_flux
        from moving_mesh_transport.solver_classes.rhs_class_1 import rhs_class
        from moving_mesh_transport.solver_classes.radiative_transfer import T_function
        from moving_mesh_transport.solver_classes.opacity import sigma_integrator
        self.c = c = full(cfg)
        self.b = b = make_build(cfg)
        self.mesh = make_mesh(cfg)
        self.mat = make_matrices(b, size)
        self.flux_num = LU_surf(b)
        self.src = source_class(b)
        self.unc = uncollided_solution(b)
        self.flux = scalar_flux(b)
        self.rhs = rhs_class(b)
        self.tr = T_function(b)
        self.sig = sigma_integrator(b)
        self.flux.load_AAA(self.sig.AAA)
        self.mus = np.array(b.mus)
        self.ws = np.array(b.ws)
        self.shape = (c['S'], c['N'], c['M'] + 1)
        self.dof = int(np.prod(self.shape))

    def F(self, t, V):
        return self.rhs.call(t, V, self.mesh, self.mat, self.flux_num, self.src, self.unc, self.flux, self.tr, self.sig)
