"""Independent reference of the moving-mesh DG-SN discretisation, written from its definition
(weak form + upwinding) with numerical integrals; shares no code with the implementation.

Unknown u[angle, cell, i];  psi = sum_i u_i B_i,
 slab    B_i = sqrt((2i+1)/h) P_i(z)                    rho = 1
 sphere  B_0 = 1/sqrt(pi h), B_i = sqrt(2/(pi h)) T_i   rho = r^2
"""
import numpy as np
from numpy.polynomial import legendre as Lg, chebyshev as Ch


def shape(geom, n, z, d=0):
    """shape polynomial n (incl. normalisation, without 1/sqrt(h)) or its z-derivative"""
    c = np.zeros(n + 1)
    c[n] = 1.0
    if geom == 'slab':
        c = Lg.legder(c) if d else c
        return np.sqrt(2 * n + 1.0) * Lg.legval(z, c) * np.ones_like(z)
    c = Ch.chebder(c) if d else c
    return (np.sqrt(2.0) if n else 1.0) / np.sqrt(np.pi) * Ch.chebval(z, c) * np.ones_like(z)


_cache = {}


def _tab(geom, M, nq=None):
    k = (geom, M, nq)
    if k not in _cache:
        z, w = Lg.leggauss(nq or M + 4)
        B = np.array([shape(geom, i, z) for i in range(M + 1)])
        D = np.array([shape(geom, i, z, 1) for i in range(M + 1)])
        e = np.array([-1.0, 1.0])
        E = np.array([shape(geom, i, e) for i in range(M + 1)])
        _cache[k] = z, w, B, D, E
    return _cache[k]


def cell(geom, M, xL, xR, vL, vR):
    """Mass, L, G, J, Mprime of one cell"""
    z, w, B, D, E = _tab(geom, M)
    h, hp = xR - xL, vR - vL
    r = xL * (1 - z) / 2 + xR * (1 + z) / 2
    rt = vL * (1 - z) / 2 + vR * (1 + z) / 2
    rho = r * r if geom == 'sphere' else np.ones_like(r)
    W = w * h / 2
    Bx = B / np.sqrt(h)
    Bd = D * (2 / h) / np.sqrt(h)
    zt = (-(vL + vR) - z * hp) / h
    Bt = -hp / (2 * h) * Bx + D / np.sqrt(h) * zt
    Mass = (Bx * (W * rho)) @ Bx.T
    L = (Bd * (W * rho)) @ Bx.T
    G = (Bt * (W * rho)) @ Bx.T
    J = (Bx * (W * r)) @ Bx.T
    Mp = (B * (w / 2 * 2 * r * rt)) @ B.T if geom == 'sphere' else np.zeros_like(Mass)
    return Mass, L, G, J, Mp


def angular(mus):
    """D[a,b]: the telescoping difference of (1-mu^2) psi on the cells around the ordinates"""
    S = len(mus)
    D = np.zeros((S, S))
    mid = np.concatenate([[-1.0], 0.5 * (np.asarray(mus)[1:] + np.asarray(mus)[:-1]), [1.0]])
    for a in range(S):
        dm = mid[a + 1] - mid[a]
        if a + 1 < S:
            D[a, a] += 0.5 * (1 - mid[a + 1] ** 2) / dm
            D[a, a + 1] += 0.5 * (1 - mid[a + 1] ** 2) / dm
        if a > 0:
            D[a, a] -= 0.5 * (1 - mid[a] ** 2) / dm
            D[a, a - 1] -= 0.5 * (1 - mid[a] ** 2) / dm
    return D, np.diff(mid)


def opacity_matrix(xL, xR, M, Msigma, sigma, xq, wq):
    """int sigma_h B_i B_j over the slab cell, sigma_h the Legendre expansion of order Msigma whose
    moments use the configured quadrature (xq, wq)"""
    h = xR - xL
    x = xL * (1 - xq) / 2 + xR * (1 + xq) / 2
    s = sigma(x)
    cs = [h / 2 * np.sum(wq * s * shape('slab', k, xq)) / np.sqrt(h) for k in range(Msigma + 1)]
    z, w, B, _, _ = _tab('slab', M, 2 * M + Msigma + 4)
    sh = sum(c * shape('slab', k, z) for k, c in enumerate(cs)) / np.sqrt(h)
    return (B * (w / 2 * sh)) @ B.T


def operator(geom, edges, vel, mus, ws, M, sigma_t, sigma_s, S=None, ghost_left=None, ghost_right=None, opacity=None):
    """A, b with du/dt = A u + b.   ws must sum to one.
    S: (angles, cells, M+1) source moments (multiplied by 1/2 here; the sphere multiplies by sigma_s too)
    ghost_*: (angles,) inflow values at the outer faces;  opacity: callable(cell) -> (M+1, M+1) matrix"""
    nA, N, n = len(mus), len(edges) - 1, M + 1
    A = np.zeros((nA, N, n, nA, N, n))
    b = np.zeros((nA, N, n))
    _, _, _, _, E = _tab(geom, M)
    h = np.diff(edges)
    rho = np.asarray(edges) ** 2 if geom == 'sphere' else np.ones(N + 1)
    tr = E[None] / np.sqrt(h)[:, None, None]     # cell, i, side
    D = angular(mus)[0] if geom == 'sphere' else None
    for k in range(N):
        Mass, L, G, J, Mp = cell(geom, M, edges[k], edges[k + 1], vel[k], vel[k + 1])
        Mi = np.linalg.inv(Mass) if geom == 'sphere' else np.eye(n)
        for a in range(nA):
            blk = G + mus[a] * L - Mp
            out = np.zeros((N, n, n))       # coupling to the cells of the same angle
            src = np.zeros(n)
            out[k] += blk
            for side in (0, 1):
                e = k + side
                s = mus[a] - vel[e]
                sg = 1.0 if side else -1.0
                up = e - 1 if s >= 0 else e     # upwind cell
                co = -sg * rho[e] * s * tr[k, :, side]
                if 0 <= up < N:
                    out[up] += np.outer(co, tr[up, :, 1 if s >= 0 else 0])
                elif up < 0:
                    if ghost_left is not None:
                        src += co * ghost_left[a]
                    elif geom == 'sphere':
                        A[a, k, :, nA - 1 - a, 0, :] += Mi @ np.outer(co, tr[0, :, 0])
                elif ghost_right is not None:
                    src += co * ghost_right[a]
            for c in range(N):
                if np.any(out[c]):
                    A[a, k, :, a, c, :] += Mi @ out[c]
            if D is not None:
                for q in range(nA):
                    if D[a, q]:
                        A[a, k, :, q, k, :] -= D[a, q] * (Mi @ J)
            O = np.eye(n) if opacity is None else opacity(k)
            A[a, k, :, a, k, :] -= sigma_t * O
            for q in range(nA):
                A[a, k, :, q, k, :] += sigma_s * ws[q] * O
            if S is not None:
                src = src + 0.5 * S[a, k] * (sigma_s if geom == 'sphere' else 1.0)
            b[a, k] += Mi @ src
    d = nA * N * n
    return A.reshape(d, d), b.reshape(d)
