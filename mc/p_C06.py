"""C06: particle balance of every cell and of the whole domain, and exactness on polynomial solutions."""
import numpy as np
from itertools import product
import rhsspace

BOUNDS = dict(quick='balance: all slab systems with constant opacity and all sphere systems of the configuration product (with larger ones: orders to 8, 16 ordinates, 24 cells; and every kind with one parameter pushed far out: times 0.02-30, half widths 0.002-400, opacities 1e-6-800, strengths 0-1e4), every basis state, 3-5 times; '
                    'exactness: all streaming/absorbing/scattering solutions that are polynomials of degree <= order in space, slab, orders 0-3, moving and static meshes',
              thorough='orders 0-5, 2-8 ordinates, more meshes and times')
MIN_PER_WORKER = 10


def cases(tier):
    for c in rhsspace.every(tier):
        if 'sigfunc' in c:
            continue
        if tier == 'quick' and c['geom'] == 'slab' and c['S'] == 2 and c['M'] == 1:
            continue
        yield dict(c, mode='balance', _group='balance')
    deep = tier == 'thorough'
    for prob, M, S, moving in product(('plane', 'square', 'gaussian_IC'), range(4 if not deep else 6), (2, 4) if not deep else (2, 3, 4, 8), (True, False)):
        for st, ss in ((1.0, 1.0), (0.7, 0.2), (0.5, 0.0)):
            for sp in (1.0, 0.4) if moving else (1.0,):
                yield dict(mode='exact', geom='slab', problem=prob, M=M, S=S, N=4 if prob == 'square' else 3, moving=moving, sigma_t=st, sigma_s=ss, x0=0.5,
                           speed=sp, _group='exact')


def run(case, ck):
    import real
    c = {k: v for k, v in case.items() if not k.startswith('_') and k != 'mode'}
    s = real.System(c)
    (balance if case['mode'] == 'balance' else exact)(case, c, s, ck)
    ck.outcome((case['mode'], c['geom'], c['problem']))


def mass_functional(geom, M, edges, vel):
    """q[cell, i] = int rho B_i and its explicit time derivative"""
    import ref
    N = len(edges) - 1
    q, qt = np.zeros((N, M + 1)), np.zeros((N, M + 1))
    z, w = ref.Lg.leggauss(M + 6)
    for k in range(N):
        h, hp = edges[k + 1] - edges[k], vel[k + 1] - vel[k]
        r = edges[k] * (1 - z) / 2 + edges[k + 1] * (1 + z) / 2
        rt = vel[k] * (1 - z) / 2 + vel[k + 1] * (1 + z) / 2
        rho, rhot = (r * r, 2 * r * rt) if geom == 'sphere' else (1.0, 0.0)
        for i in range(M + 1):
            f = ref.shape(geom, i, z)
            q[k, i] = np.sqrt(h) / 2 * np.sum(w * rho * f)
            qt[k, i] = hp / (4 * np.sqrt(h)) * np.sum(w * rho * f) + np.sqrt(h) / 2 * np.sum(w * rhot * f)
    return q, qt


def balance(case, c, s, ck):
    """d/dt of the particles in a cell (per ordinate) = inflow - outflow - collisions + scattering (+ angular
    redistribution that telescopes over the ordinates, in a sphere) + source, for every basis state."""
    import ref
    geom, M, S, N = c['geom'], c['M'], c['S'], c['N']
    f = s.c
    n = M + 1
    sphere = geom == 'sphere'
    ws = s.ws / np.sum(s.ws)
    for t in rhsspace.times(c):
        A, b = rhsspace.measure(s, t, ck)
        edges, vel = np.array(s.mesh.edges), np.array(s.mesh.Dedges)
        q, qt = mass_functional(geom, M, edges, vel)
        A5 = A.reshape(S, N, n, S * N * n)
        V = np.eye(S * N * n).reshape(S, N, n, -1)
        h = np.diff(edges)
        rho = edges ** 2 if sphere else np.ones(N + 1)
        trL = np.array([[ref.shape(geom, i, np.array([-1.0]))[0] / np.sqrt(h[k]) for i in range(n)] for k in range(N)])
        trR = np.array([[ref.shape(geom, i, np.array([1.0]))[0] / np.sqrt(h[k]) for i in range(n)] for k in range(N)])
        psiL, psiR = np.einsum('ki,akid->akd', trL, V), np.einsum('ki,akid->akd', trR, V)
        # particles per ordinate and cell, and their rate of change
        num = np.einsum('ki,akid->akd', q, V)
        rate = np.einsum('ki,akid->akd', q, A5) + np.einsum('ki,akid->akd', qt, V)
        flux = np.zeros((S, N + 1, V.shape[-1]))     # rightwards through every (moving) edge
        for a in range(S):
            for e in range(N + 1):
                sp = s.mus[a] - vel[e]
                if sp >= 0:
                    up = psiR[a, e - 1] if e > 0 else 0.0
                else:
                    up = psiL[a, e] if e < N else 0.0
                flux[a, e] = rho[e] * sp * up
        coll = f['sigma_t'] * num
        scat = f['sigma_s'] * np.einsum('a,akd->kd', ws, num)[None]
        res = rate - (flux[:, :-1] - flux[:, 1:]) + coll - scat
        scale = max(1.0, np.max(np.abs(A)) * np.max(np.abs(q)))
        if sphere:
            # redistribution moves particles between ordinates only
            dmu = ref.angular(s.mus)[1]
            ck.close(np.einsum('a,akd->kd', dmu, res), np.zeros(res.shape[1:]), 'particles appear or vanish in a cell', 0, 1e-10 * scale, detail=f't={t}')
        else:
            ck.close(res, np.zeros(res.shape), 'particles appear or vanish in a cell', 0, 1e-10 * scale, detail=f't={t}')
            if f['sigma_s'] == f['sigma_t']:
                tot = np.einsum('a,akd->d', ws, rate)
                out = np.einsum('a,ad->d', ws, flux[:, -1] - flux[:, 0])
                ck.close(tot, -out, 'total particle number changes other than through the outer faces', 0, 1e-10 * scale, detail=f't={t}')
        # the source and inflow deposit what they emit
        gain = np.einsum('ki,aki->ak', q, b.reshape(S, N, n))
        p = f['problem']
        if not f['uncollided'] and p in ('plane', 'square', 'gaussian_IC', 'gaussian_IC_noniso', 'self_sim'):
            ck.close(gain, np.zeros((S, N)), 'a problem without source gains particles', 0, 1e-13, detail=f't={t}')
        elif p == 'square_source' and not f['uncollided'] and np.min(np.abs(edges - f['x0'])) < 1e-12:
            on = t < f['t0']
            mid = 0.5 * (edges[1:] + edges[:-1])
            ck.close(gain, np.tile(np.where(on & (np.abs(mid) < f['x0']), 0.5 * f['strength'] * h, 0.0), (S, 1)), 'square source emits the wrong amount', 1e-9, 1e-12, detail=f't={t}')
        elif p == 'boundary':
            w = np.zeros((S, N))
            if t <= f['t0']:
                for a in range(S):
                    if f['bnd_on'][0] and s.mus[a] - vel[0] > 0:
                        w[a, 0] += (s.mus[a] - vel[0]) * f['bnd_strength']
                    if f['bnd_on'][1] and s.mus[a] - vel[-1] < 0:
                        w[a, -1] -= (s.mus[a] - vel[-1]) * f['bnd_strength']
            ck.close(gain, w, 'the boundary source lets in the wrong amount', 1e-9, 1e-12, detail=f't={t}')


def exact(case, c, s, ck):
    """psi(x, t) = exp(-sigma t) (x - mu t)^p in one ordinate (and uniform psi with scattering) solve the
    equation and lie in the approximation space on every mesh: the scheme must reproduce dV/dt exactly."""
    import ref
    M, S, N, f = c['M'], c['S'], c['N'], s.c
    n = M + 1
    z, w = ref.Lg.leggauss(M + 8)
    sh = np.array([ref.shape('slab', i, z) for i in range(n)])

    def edges_at(t):
        s.mesh.move(t)
        return np.array(s.mesh.edges)

    def project(fun, t):
        e = edges_at(t)
        h = np.diff(e)
        x = e[:-1, None] * (1 - z) / 2 + e[1:, None] * (1 + z) / 2
        return np.array([[[np.sqrt(h[k]) / 2 * np.sum(w * fun(a, x[k], t) * sh[i]) for i in range(n)] for k in range(N)] for a in range(S)])

    sols = []
    if f['sigma_s'] == 0.0:
        for a in range(S):
            for p in range(M + 1):
                sols.append((f'ordinate {a} degree {p}', lambda b, x, t, a=a, p=p: (np.exp(-f['sigma_t'] * t) * (x - s.mus[a] * t) ** p if a == b else 0 * x)))
    sols.append(('uniform', lambda b, x, t: np.exp(-(f['sigma_t'] - f['sigma_s']) * t) + 0 * x))
    if f['sigma_s'] == f['sigma_t'] and M >= 1:
        # psi = x - mu / sigma: steady solution of the scattering problem
        m1 = 1.0 / f['sigma_t']
        if abs(np.dot(s.ws, s.mus)) < 1e-13:
            sols.append(('diffusion', lambda b, x, t: x - s.mus[b] * m1))
    for t in (0.3, 0.62):
        for name, fun in sols:
            d = 2e-3
            V = project(fun, t)
            dV = (8 * (project(fun, t + d) - project(fun, t - d)) - (project(fun, t + 2 * d) - project(fun, t - 2 * d))) / (12 * d)
            G = np.array(s.F(t, V.ravel())).reshape(V.shape)
            ck.step()
            ck.state(c, t, name)
            edges, vel = np.array(s.mesh.edges), np.array(s.mesh.Dedges)
            sc = max(1.0, np.max(np.abs(dV)))
            for a in range(S):
                for k in range(N):
                    if (k == 0 and s.mus[a] - vel[0] > 0) or (k == N - 1 and s.mus[a] - vel[-1] < 0):
                        continue       # vacuum enters here
                    ck.close(G[a, k], dV[a, k], 'a polynomial solution is not reproduced', 1e-7, 1e-7 * sc, detail=f'{name} t={t} angle {a} cell {k}')
