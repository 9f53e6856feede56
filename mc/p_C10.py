"""C10: reported fluxes are the weighted sums of the cell polynomials at the requested points."""
import numpy as np
from itertools import product

BOUNDS = dict(quick='orders 0..12 (sphere) and 0..14 (slab), 1-5 cells on 4 meshes, 1-8 ordinates, every unit coefficient x a menu of points holding every edge, points next to every edge, interior points and points outside; uncollided part on and off for every problem type; node placement for every mesh',
              thorough='more ordinates (1..16), 8-cell meshes, pairs of unit coefficients')
ASSUMPTIONS = ['at an interior edge either one-sided value is accepted']
MIN_PER_WORKER = 8

MESHES = {'unit': [-1.0, 1.0], 'uneven': [-2.0, -0.7, 0.1, 0.2, 5.0], 'far': [100.0, 100.5, 103.0], 'six': [-3.0, -1.5, -0.5, 0.25, 0.5, 3.5],
          'nine': [-4.0, -3.0, -1.0, -0.5, -0.1, 0.7, 0.9, 2.0, 4.5]}
BALLS = {'unit': [0.0, 1.0], 'uneven': [0.0, 0.7, 0.8, 2.0, 5.0], 'far': [50.0, 50.5, 53.0], 'six': [0.0, 0.5, 1.5, 1.75, 2.0, 3.5],
         'nine': [0.0, 0.2, 1.0, 1.5, 2.1, 2.7, 3.9, 4.0, 4.5]}
UNC = ('plane', 'square', 'square_source', 'gaussian_IC', 'gaussian_source')


def cases(tier):
    deep = tier == 'thorough'
    for geom, top in (('slab', 14), ('sphere', 12)):
        for M in range(top + 1):
            for name in ('unit', 'uneven', 'far', 'six') + (('nine',) if deep else ()):
                for S in ((1, 4) if not deep else (1, 2, 3, 8, 16)):
                    yield dict(mode='unit', geom=geom, M=M, mesh=name, S=S, deep=deep, _group=geom)
            for name in MESHES:
                yield dict(mode='nodes', geom=geom, M=M, mesh=name, _group='nodes')
    for p, M, S, t in product(UNC, (0, 3), (2, 4), (0.0, 0.05, 0.5, 1.0)):
        yield dict(mode='unc', geom='slab', problem=p, M=M, S=S, t=t, _group='uncollided')
    for M, S, t in product((0, 2), (2, 4), (0.0, 0.05, 0.5, 1.0)):
        yield dict(mode='unc', geom='sphere', problem='square', M=M, S=S, t=t, _group='uncollided')


def warm_cases(cs):
    return [dict(mode='unit', geom='slab', M=1, mesh='unit', S=2, deep=False), dict(mode='unc', geom='sphere', problem='square', M=0, S=2, t=0.5)]


def points(edges):
    h = np.diff(edges)
    p = list(edges)
    for a, b, d in zip(edges[:-1], edges[1:], h):
        p += [a + 0.5 * d, a + 0.03 * d, a + 0.29 * d, b - 0.11 * d, a + 1e-9 * d, b - 1e-9 * d]
    p += [edges[0] - 0.2, edges[0] - 50.0, edges[-1] + 1e-6, edges[-1] + 3.0]
    return np.array(p)


def expected(geom, edges, u, x):
    """per angle: list of admissible values at x (two at an interior edge)"""
    import ref
    out = []
    for k in range(len(edges) - 1):
        a, b = edges[k], edges[k + 1]
        if a <= x <= b:
            z = np.array([(2 * x - a - b) / (b - a)])
            B = np.array([ref.shape(geom, i, z)[0] for i in range(u.shape[2])]) / np.sqrt(b - a)
            out.append(u[:, k, :] @ B)
    return out or [np.zeros(u.shape[0])]


def run(case, ck):
    globals()[case['mode']](case, ck)


def _unc(cfg):
    import real
    from moving_mesh_transport.solver_classes.uncollided_solutions import uncollided_solution
    return uncollided_solution(real.make_build(cfg))


_u = {}


def off(geom):
    if geom not in _u:
        _u[geom] = _unc(dict(geom=geom, problem='square', uncollided=False))
    return _u[geom]


def unit(case, ck):
    import real
    from moving_mesh_transport.solver_classes.make_phi import make_output
    geom, M, S = case['geom'], case['M'], case['S']
    edges = np.array((MESHES if geom == 'slab' else BALLS)[case['mesh']])
    N = len(edges) - 1
    xs = points(edges)
    ws = np.array([0.3 + 0.1 * k for k in range(S)])
    d = real.D(slab=geom == 'slab', sphere=geom == 'sphere')
    units = [(a, k, i) for a in range(S) for k in range(N) for i in range(M + 1)]
    if S > 4:
        units = [q for q in units if q[0] in (0, S // 2, S - 1)]
    vecs = []
    for q in units:
        u = np.zeros((S, N, M + 1))
        u[q] = 1.5
        vecs.append((q, u))
    k = np.arange(S * N * (M + 1))
    vecs.append(('dense', np.cos(1.0 + k * k).reshape(S, N, M + 1)))
    for q, u in vecs:
        keep = u.copy()
        o = make_output(0.7, S, ws, xs, u, M, edges, 0, d)
        phi = np.array(o.make_phi(off(geom)))
        psi = np.array(o.psi_out)
        ck.step()
        ck.ok(np.array_equal(u, keep), 'the solution is modified by the reconstruction', str(q))
        ck.ok(np.array_equal(np.array(o.phi_out), phi), 'phi_out differs from the returned flux')
        ck.close(phi, ws @ psi, 'scalar flux is not the weighted sum of the angular flux', 1e-12, 1e-13, str(q))
        for c, x in enumerate(xs):
            ex = expected(geom, edges, u, x)
            sc = max(1.0, max(np.max(np.abs(e)) for e in ex))
            ck.ok(min(np.max(np.abs(psi[:, c] - e)) for e in ex) <= 1e-7 * sc * (1 if case['mesh'] != 'far' else 30),
                  'angular flux at a point is not the polynomial of its cell', lambda: f'{q} x={x!r} got {psi[:, c]} expected {ex}')
        ed, ep = o.get_exit_dist(off(geom))
        ex = np.array([expected(geom, edges, u, edges[0])[0], expected(geom, edges, u, edges[-1])[-1]]).T
        ck.close(ed, ex, 'exit distribution is not the angular flux at the boundary', 1e-9, 1e-9, str(q))
        ck.close(ep, ws @ ex, 'exit flux is not the weighted sum at the boundary', 1e-9, 1e-9, str(q))
        ck.state(geom, M, case['mesh'], S, str(q))
    # material energy density lives behind the last ordinate
    u = np.zeros((S + 1, N, M + 1))
    for kk in range(N):
        for i in range(M + 1):
            u[:] = 0.0
            u[S, kk, i] = 2.0
            u[0, kk, i] = -7.0
            o = make_output(0.7, S, ws, xs, u, M, edges, 0, d)
            e = np.array(o.make_e())
            ck.step()
            for c, x in enumerate(xs):
                ex = [v[S] for v in expected(geom, edges, u, x)]
                ck.ok(min(abs(e[c] - v) for v in ex) <= 1e-7 * max(1.0, max(map(abs, ex))) * (1 if case['mesh'] != 'far' else 30),
                      'material energy at a point is not the polynomial of its cell', lambda: f'{(kk, i)} x={x!r} got {e[c]} expected {ex}')
    ck.outcome((geom, M))


def nodes(case, ck):
    import real
    from moving_mesh_transport.solver_classes.functions import find_nodes
    geom, M = case['geom'], case['M']
    edges = np.array((MESHES if geom == 'slab' else BALLS)[case['mesh']])
    xs = np.array(find_nodes(edges, M, real.D(slab=geom == 'slab', sphere=geom == 'sphere')))
    n = max(M, 1)
    ck.step()
    ck.ok(len(xs) == n * (len(edges) - 1), 'wrong number of output points', f'{len(xs)}')
    ck.ok(np.all(np.diff(xs) > 0), 'output points are not increasing', xs)
    z = np.polynomial.legendre.leggauss(n)[0] if geom == 'slab' else np.sort(np.cos((2 * np.arange(1, n + 1) - 1) * np.pi / 2 / n))
    want = np.concatenate([a + (z + 1) / 2 * (b - a) for a, b in zip(edges[:-1], edges[1:])])
    ck.close(xs, want, 'output points are not the quadrature points of the cells', 1e-10, 1e-10)
    ck.state('nodes', geom, M, case['mesh'])


def unc(case, ck):
    import real
    from moving_mesh_transport.solver_classes.make_phi import make_output
    geom, M, S, t = case['geom'], case['M'], case['S'], case['t']
    cfg = dict(geom=geom, problem=case['problem'], uncollided=True, strength=1.7, S=S, tnodes=20)
    on = _unc(cfg)
    edges = np.array([-2.0, -0.7, 0.1, 0.2, 2.5]) if geom == 'slab' else np.array([0.0, 0.3, 0.9, 2.0])
    xs = points(edges)[:-4]
    N = len(edges) - 1
    ws = np.linspace(0.2, 0.8, S)
    k = np.arange(S * N * (M + 1))
    u = np.cos(1.0 + k * k).reshape(S, N, M + 1)
    d = real.D(slab=geom == 'slab', sphere=geom == 'sphere')
    o = make_output(t, S, ws, xs, u, M, edges, 1, d)
    phi = np.array(o.make_phi(on))
    psi = np.array(o.psi_out)
    o2 = make_output(t, S, ws, xs, u, M, edges, 0, d)
    phi2 = np.array(o2.make_phi(on))
    psi2 = np.array(o2.psi_out)
    ck.step(2)
    ref_u = np.array(on.uncollided_solution(xs, t))
    ck.ok(np.array_equal(psi, psi2), 'the collided angular flux depends on the uncollided switch')
    ck.close(phi, phi2 + ref_u, 'reported flux is not collided plus uncollided', 1e-12, 1e-12)
    ed, ep = o.get_exit_dist(on)
    ed2, ep2 = o2.get_exit_dist(on)
    ub = np.array(on.uncollided_solution(np.array([edges[0], edges[-1]]), t))
    ck.close(ep, ep2 + ub, 'exit flux is not collided plus uncollided', 1e-12, 1e-12)
    ck.ok(np.array_equal(ed, ed2), 'exit distribution depends on the uncollided switch')
    ck.state('unc', case)
