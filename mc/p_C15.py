"""C15: spatially varying opacity enters as the exact moments of its projection."""
import numpy as np
from itertools import product

BOUNDS = dict(quick='4 opacity profiles and the constant one x orders 0-4 x opacity orders 0-5 x cells of 3 meshes x 4 times (the shock on no quadrature point); all evaluation sequences of length 3 over 3 meshes and 2 times',
              thorough='orders 0-8, opacity orders 0-10, sequences of length 4')
MIN_PER_WORKER = 12

MESH = [[-2.0, -0.5, 0.0, 0.3, 2.0], [-2.0, -1.0, 0.0, 1.0, 2.0], [-0.4, -0.2, 0.0, 0.6, 3.0]]


def cases(tier):
    deep = tier == 'thorough'
    for f, M, Ms in product(('gaussian', 'siewert1', 'siewert2', 'fake_sedov', 'constant'), range(5 if not deep else 9), range(6 if not deep else 11)):
        if f == 'constant' and Ms:
            continue
        yield dict(mode='moments', sigfunc=f, M=M, Msigma=Ms, _group='moments')
    for f, M, Ms in product(('gaussian', 'siewert1', 'fake_sedov'), (0, 2), (0, 2)):
        yield dict(mode='history', sigfunc=f, M=M, Msigma=Ms, depth=3 if not deep else 4, _group='history')


def make(c):
    import real
    from moving_mesh_transport.solver_classes.opacity import sigma_integrator
    from moving_mesh_transport.solver_classes.phi_class import scalar_flux
    b = real.make_build(dict(problem='gaussian_source', N=4, M=c['M'], S=3, sigfunc=c['sigfunc'], Msigma=c['Msigma'], sigma_t=1.3, sigma_s=0.7, sedov_v0=0.3))
    s, f = sigma_integrator(b), scalar_flux(b)
    f.load_AAA(s.AAA)
    return b, s, f


def evaluate(c, s, f, edges, t, u, space):
    """absorption term and scattering term the right-hand side uses"""
    s.sigma_moments(edges, t)
    f.get_coeffs(s)
    f.make_P(u, space, edges[space], edges[space + 1])
    p = np.array(f.scalar_flux_term)
    if c['sigfunc'] != 'constant':
        q = np.array(f.call_P_noncon(edges[space], edges[space + 1]))
        assert np.array_equal(p, q) or np.allclose(p, q, rtol=1e-13, atol=1e-13)
    a = []
    for l in range(u.shape[0]):
        s.make_vectors(edges, u[l], space)
        a.append(np.array(s.VV))
    return np.array(a), p


def operator(c, b, edges, space, t):
    """exact Galerkin matrix of the projected opacity"""
    import ref, rhsspace
    xL, xR = edges[space], edges[space + 1]
    h = xR - xL
    M, Ms = c['M'], c['Msigma']
    sg = rhsspace.sigma_of(dict(sigfunc=c['sigfunc'], sedov_v0=0.3), t)
    z, w = np.array(b.xs_quad), np.array(b.ws_quad)
    x = xL * (1 - z) / 2 + xR * (1 + z) / 2
    cs = [h / 2 * np.sum(w * sg(x) * ref.shape('slab', k, z)) / np.sqrt(h) for k in range(Ms + 1)]
    g, gw = np.polynomial.legendre.leggauss(M + Ms + 3)
    B = np.array([ref.shape('slab', i, g) for i in range(max(M, Ms) + 1)]) / np.sqrt(h)
    sig = sum(cs[k] * B[k] for k in range(Ms + 1))
    return (B[:M + 1] * (gw * h / 2 * sig)) @ B[:M + 1].T


def run(case, ck):
    globals()[case['mode']](case, ck)


def moments(case, ck):
    b, s, f = make(case)
    M, S = case['M'], 3
    ws = np.array(b.ws)
    k = np.arange(S * (M + 1))
    us = [np.cos(1.0 + k * k).reshape(S, M + 1)]
    for i in range(M + 1):
        u = np.zeros((S, M + 1))
        u[i % S, i] = 1.0
        us.append(u)
    for mesh, t in product(MESH, (0.0, 0.41, 0.97, 3.1)):
        edges = np.array(mesh)
        for sp in range(4):
            if case['sigfunc'] == 'constant':
                A = np.eye(M + 1)
            else:
                A = operator(case, b, edges, sp, t)
            for n, u in enumerate(us):
                keep = u.copy()
                a, p = evaluate(case, s, f, edges, t, u, sp)
                ck.step()
                ck.ok(np.array_equal(u, keep), 'the state is modified')
                ck.close(a, 1.3 * u @ A.T, 'absorption term', 1e-10, 1e-11, f'mesh {mesh} cell {sp} t={t} state {n}')
                ck.close(p, 0.7 * A @ (ws @ u), 'scattering term', 1e-10, 1e-11, f'mesh {mesh} cell {sp} t={t} state {n}')
        ck.state(case, mesh, t)
    ck.outcome(case['sigfunc'])


def history(case, ck):
    menu = [(m, t) for m in range(3) for t in (0.2, 0.9)]
    M = case['M']
    k = np.arange(3 * (M + 1))
    u = np.cos(1.0 + k * k).reshape(3, M + 1)
    refs = []
    for m, t in menu:
        b, s, f = make(case)
        refs.append([evaluate(case, s, f, np.array(MESH[m]), t, u, sp) for sp in range(4)])
    b, s, f = make(case)
    for seq in product(range(len(menu)), repeat=case['depth']):
        for n, i in enumerate(seq):
            m, t = menu[i]
            for sp in (0, 3, 1):
                a, p = evaluate(case, s, f, np.array(MESH[m]), t, u, sp)
                ck.step()
                ck.close(a, refs[i][sp][0], 'absorption depends on earlier evaluations', 1e-12, 1e-13, f'{seq[:n + 1]} cell {sp}')
                ck.close(p, refs[i][sp][1], 'scattering depends on earlier evaluations', 1e-12, 1e-13, f'{seq[:n + 1]} cell {sp}')
        ck.state(case, seq)
