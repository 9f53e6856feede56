"""C13: the initial state is the projection of the problem's initial condition and carries its particles."""
import numpy as np
from itertools import product
from math import pi, sqrt

BOUNDS = dict(quick='every problem type, slab and sphere, moving and static, orders 0-4, 2-4 ordinates, 2-10 cells, two widths, two strengths, uncollided on and off, with and without material energy; larger systems (orders 6 and 8, 16 and 24 cells)',
              thorough='orders 0-8, 2-8 ordinates, more widths and cell counts')
ASSUMPTIONS = ['the projection integral is the (2M+1)-point Gauss rule (slab) or the (6M+1)-point Chebyshev rule (sphere)']
MIN_PER_WORKER = 60

PROBS = ('plane', 'square', 'square_source', 'gaussian_IC', 'gaussian_IC_noniso', 'gaussian_source', 'MMS', 'self_sim', 'dipole', 'boundary')


def cases(tier):
    deep = tier == 'thorough'
    Ms = range(5) if not deep else range(9)
    for p, M, S, moving, unc, st in product(PROBS, Ms, (2, 4) if not deep else (2, 3, 4, 8), (True, False), (False, True), (1.0, 2.5)):
        if unc and p in ('MMS', 'self_sim', 'dipole', 'boundary', 'gaussian_IC_noniso'):
            continue
        if unc and st != 1.0:
            continue
        for N, w in ((4, 0.5), (8, 0.3)) if not deep else ((4, 0.5), (8, 0.3), (12, 1.0), (20, 2.0)):
            if p == 'dipole' and moving:
                continue
            if p == 'plane' and moving:
                w = 0.01 * w
            yield dict(geom='slab', problem=p, M=M, S=S, N=N, moving=moving, uncollided=unc, strength=st, x0=w, sigma=w, _group=p)
    # larger systems, one of each kind
    for p, (M, S, N), moving in product(PROBS, ((6, 8, 16), (8, 3, 24)), (True, False)):
        if p == 'dipole' and moving:
            continue
        yield dict(geom='slab', problem=p, M=M, S=S, N=N, moving=moving, uncollided=False, strength=0.3, x0=0.7 if p != 'plane' or not moving else 0.007, sigma=0.7, tfinal=3.0, _group=p)
    # cell counts, also odd ones
    for p, N in product(('plane', 'gaussian_IC', 'MMS', 'self_sim'), (1, 2, 3, 5, 7, 10)):
        for M in (0, 2):
            yield dict(geom='slab', problem=p, M=M, S=2, N=N, moving=True, uncollided=False, strength=1.0, x0=0.3, sigma=0.3, _group='cells')
    for N in (2, 4, 6, 10, 20):
        for M in (0, 1, 3):
            yield dict(geom='slab', problem='plane', M=M, S=2, N=N, moving=False, uncollided=False, strength=1.0, x0=0.5, sigma=0.5, _group='static plane')
    for p, M, S, moving, unc, N in product(('plane', 'square'), Ms, (2, 4), (True, False), (False, True), (2, 4, 7)):
        for fin in (False, True) if p == 'square' else (False,):
            k = dict(geom='sphere', problem=p, M=M, S=S, N=N, moving=moving, uncollided=unc, strength=1.7, x0=0.5 if p == 'square' else 0.02, sigma=0.5, weights='gauss_lobatto', _group='sphere ' + p)
            if p == 'plane' and N % 2:
                continue
            if fin:
                k.update(finite=True, width=4.0)
            yield k
    for p, M, e in product(('square_source', 'gaussian_source'), (0, 1, 3), (0.0, 0.37)):
        yield dict(geom='slab', problem=p, M=M, S=2, N=4, moving=True, uncollided=False, strength=1.0, x0=0.5, sigma=0.5, thermal=True, e0=e, _group='energy')


def psi0(c, w, x, mu, h2):
    """the initial angular flux the problem means; w: half width of the pulse"""
    p, s = c['problem'], c['strength']
    inside = (np.abs(x) <= w) * 1.0
    if c['uncollided']:
        return 0 * x
    if c['geom'] == 'sphere':
        if p == 'square':
            return s * 3 / (4 * pi * w ** 3) / 2 * inside
        return s / w ** 3 * inside
    if p == 'plane':
        return s / (2 * w) / 2 * inside
    if p == 'square':
        return s / 2 * inside
    if p == 'gaussian_IC':
        return s / 2 * np.exp(-(x / c['sigma']) ** 2)
    if p == 'gaussian_IC_noniso':
        return s * np.exp(-(x / c['sigma']) ** 2) * (mu > 0)
    if p == 'MMS':
        return np.exp(-x * x / 2) / 2
    if p == 'self_sim':
        A, t = 29.998 / 3 / 800, 0.01
        return np.exp(-x * x / 4 / A / t) / sqrt(pi / 2) / sqrt(A * t) / 2
    if p == 'dipole':
        return s / 2 / h2 * np.where(np.abs(x) <= h2, np.sign(x), 0.0)
    return 0 * x


def run(case, ck):
    import real, ref
    c = {k: v for k, v in case.items() if not k.startswith('_')}
    b = real.make_build(c)
    b.make_IC()
    IC = np.array(b.IC)
    m = real.make_mesh(c)
    edges = np.array(m.edges)
    N, M, S = c['N'], c['M'], c['S']
    mus, ws = np.array(b.mus), np.array(b.ws)
    ck.step()
    ck.state(case)
    ck.ok(IC.shape == (S + (1 if c.get('thermal') else 0), N, M + 1), 'wrong shape', IC.shape)
    w, h2 = c['x0'], 0.0
    if not c['moving'] and c['problem'] == 'plane' and not c['uncollided'] and N % 2 == 0:
        # a static mesh cannot resolve the pulse: it is spread over whole cells around the centre
        w = 2 * (edges[N // 2 + 1] - edges[N // 2]) if c['geom'] == 'slab' else edges[1]
        if c['geom'] == 'slab' and 2 * w > edges[-1] - edges[0] + 1e-9:
            h = np.diff(edges)
            tot = np.sum(2 * ws @ IC[:S, :, 0] * np.sqrt(h))
            ck.ok(abs(tot - c['strength']) < 1e-9, 'particles of the pulse are outside of the mesh', f'total {tot}')
    if c['problem'] == 'dipole':
        h2 = edges[N // 2 + 1] - edges[N // 2]
    z, q = np.array(b.xs_quad), np.array(b.ws_quad)
    if c['geom'] == 'slab':
        B = np.array([ref.shape('slab', j, z) for j in range(M + 1)])
    else:
        B = np.array([ref.shape('sphere', j, z) for j in range(M + 1)])
    scale = 0.0
    want = np.zeros((S, N, M + 1))
    for k in range(N):
        a, bb = edges[k], edges[k + 1]
        h = bb - a
        x = a * (1 - z) / 2 + bb * (1 + z) / 2
        for l in range(S):
            v = psi0(c, w, x, mus[l], h2)
            want[l, k] = (h / 2 if c['geom'] == 'slab' else h) * (B * q) @ v / np.sqrt(h)
    sc = max(1.0, np.max(np.abs(want)))
    ck.close(IC[:S], want, 'the initial state is not the projection of the initial condition', 1e-9, 1e-10 * sc, f'edges {edges}')
    if c.get('thermal'):
        e = np.zeros((N, M + 1))
        e[:, 0] = c['e0'] * np.sqrt(np.diff(edges))
        ck.close(IC[S], e, 'initial material energy is not uniform', 1e-10, 1e-12)
    if c['uncollided'] or c['problem'] in ('square_source', 'gaussian_source', 'boundary'):
        ck.ok(np.all(IC[:S] == 0), 'the collided solution does not start empty')
    elif c['geom'] == 'slab':
        # particles: phi = 2 sum ws psi
        h = np.diff(edges)
        tot = np.sum(2 * ws @ IC[:S, :, 0] * np.sqrt(h))
        s = c['strength']
        exact = dict(plane=s, square=2 * c['x0'] * s, dipole=0.0).get(c['problem'])
        if exact is not None and not (c['problem'] == 'plane' and N % 2 and not c['moving']):
            ck.close(tot, exact, 'initial particle content', 1e-9, 1e-10 * sc)
        if c['problem'] not in ('dipole',) and N % 2 == 0:
            sg = (-1.0) ** np.arange(M + 1)
            iso = IC[:S]
            ck.close(iso[:, ::-1] * sg, iso, 'initial state is not symmetric', 1e-9, 1e-9 * sc)
    elif c['problem'] == 'square':
        # integral over the ball of phi r^2: total emission
        g, gw = np.polynomial.legendre.leggauss(M + 4)
        tot = 0.0
        for k in range(N):
            a, bb = edges[k], edges[k + 1]
            r = a * (1 - g) / 2 + bb * (1 + g) / 2
            f = np.array([ref.shape('sphere', j, g) for j in range(M + 1)]) / np.sqrt(bb - a)
            phi = 2 * ws @ IC[:S, k] @ f
            tot += (bb - a) / 2 * np.sum(gw * phi * 4 * pi * r * r)
        ck.close(tot, c['strength'], 'initial particle content of the ball', 1e-9, 1e-9)
    ck.outcome((c['geom'], c['problem']))
