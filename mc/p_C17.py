"""C17: basis functions are the orthonormal bases on every cell; special functions."""
import numpy as np
from itertools import product

BOUNDS = dict(quick='Legendre orders 0-20 and Chebyshev orders 0-12 on every cell with end points in a 15-point set (from 1e-6 wide to 1400 wide), all pairs of orders; scalar and vector variants; exponential integral at 400 arguments from 1e-12 to 700 of both signs; coupling factors for all index pairs to 20',
              thorough='Legendre orders 0-40, 23 end points')
MIN_PER_WORKER = 8
E1 = [-700.0, -30.0, -1.0, -0.5, -1e-3, 0.0, 1e-6, 1e-3, 0.25, 0.5, 0.5625, 1.0, 2.0, 31.6228, 700.0]
E2 = E1 + [-10.0, -3.0, -0.1, 0.1, 0.501, 3.0, 10.0, 100.0]


def ends(tier):
    e = sorted(E1 if tier != 'thorough' else E2)
    return [(a, b) for a in e for b in e if a < b]


def cases(tier):
    L = 20 if tier != 'thorough' else 40
    for a, b in ends(tier):
        yield dict(kind='cell', a=a, b=b, L=L, _group='Legendre and Chebyshev on a cell')
    yield dict(kind='expi', _group='exponential integral')
    yield dict(kind='factors', _group='coupling factors')


def run(case, ck):
    globals()['_' + case['kind']](case, ck)


def _cell(case, ck):
    from moving_mesh_transport.solver_classes import functions as F
    from numpy.polynomial import legendre as Lg, chebyshev as C
    a, b, L = case['a'], case['b'], case['L']
    h = b - a
    # the nodes are rounded to the grid of doubles near the cell: compare at the rounded positions
    eps = 4e-16 * max(abs(a), abs(b)) / h
    x, w = Lg.leggauss(L + 1)
    X = h / 2 * x + (a + b) / 2
    z = (2 * X - a - b) / h
    P = np.array([F.normPn(n, X, a, b) for n in range(L + 1)])
    ck.step(L + 1)
    ref = Lg.legvander(z, L).T * np.sqrt((2 * np.arange(L + 1)[:, None] + 1) / h)
    tol = (1e-11 + 4 * eps * (L + 1) ** 2) / np.sqrt(h) * np.sqrt(2 * L + 1)
    ck.close(P, ref, 'Legendre basis function is wrong', 1e-11, tol)
    G = (P * (w * h / 2)) @ P.T
    ck.close(G, np.eye(L + 1), 'Legendre basis is not orthonormal', 0, 1e-10 + 1e2 * eps * L ** 2)
    raw = Lg.legvander(X, 12).T
    for n in range(L + 1):
        for y in (a, b, X[0], X[len(X) // 2]):
            v = F.normPn_scalar(n, y, a, b)
            ck.close(v, F.normPn(n, np.array([y]), a, b)[0], 'scalar and vector Legendre values differ', 1e-12, tol)
        ck.close(F.normPn_scalar(n, a, a, b), (-1) ** n * np.sqrt((2 * n + 1) / h), 'Legendre value at the left edge', 1e-12, tol)
        ck.close(F.normPn_scalar(n, b, a, b), np.sqrt((2 * n + 1) / h), 'Legendre value at the right edge', 1e-12, tol)
    if abs(a) <= 1 and abs(b) <= 1:
        for n in range(13):
            ck.close(F.Pn(n, X, a, b), raw[n], 'Legendre polynomial value is wrong', 1e-11, 1e-12)
            ck.close(F.Pn_scalar(n, X[1], a, b), raw[n][1], 'Legendre polynomial value is wrong', 1e-11, 1e-12)
    # Chebyshev: orders 0..12, weight 2/sqrt(1-z^2)
    K = 14
    zc = np.cos((2 * np.arange(1, K + 1) - 1) / 2 / K * np.pi)
    Xc = h / 2 * zc + (a + b) / 2
    zr = (2 * Xc - a - b) / h
    T = np.array([F.normTn(n, Xc, a, b) for n in range(13)])
    ck.step(13)
    nrm = np.sqrt(2 / h / np.pi) * np.where(np.arange(13) == 0, 1 / np.sqrt(2), 1)
    ref = C.chebvander(zr, 12).T * nrm[:, None]
    tol = (1e-11 + 8 * eps * 144) / np.sqrt(h) * 1e1
    ck.close(T, ref, 'Chebyshev basis function is wrong', 1e-10, tol)
    G = (T * (2 * np.pi / K * h / 2)) @ T.T
    ck.close(G, np.eye(13), 'Chebyshev basis is not orthonormal', 0, 1e-9 + 1e4 * eps)
    inside = (Xc > a) & (Xc < b)
    wf = F.weight_func_Tn(Xc[inside], a, b)
    if eps < 1e-10:
        ck.close(wf * np.sqrt(1 - zr[inside] ** 2), 2 * np.ones(inside.sum()), 'Chebyshev weight function is wrong', 1e-5, 0)
    for n in range(13):
        ck.close(F.eval_Tn(n, zc), C.chebvander(zc, 12)[:, n], 'Chebyshev polynomial value is wrong', 1e-10, 1e-11)
    ck.state(a, b)
    ck.outcome('cell')


def _expi(case, ck):
    from moving_mesh_transport.solver_classes.functions import numba_expi
    from scipy.special import expi
    for m in np.logspace(-12, np.log10(700.0), 200):
        for s in (1, -1):
            ck.close(numba_expi(s * m), expi(s * m), 'exponential integral is wrong', 1e-12, 0)
            ck.step()
            ck.state(s * m)


def _factors(case, ck):
    from moving_mesh_transport.solver_classes import functions as F
    for n in range(21):
        ck.close(F.kronecker(n), float(n == 0), 'Kronecker delta')
    for i, j in product(range(21), repeat=2):
        mixed = (i == 0) != (j == 0)
        k = max(i, j)
        ck.close(F.sqrt_two_mass_func(i, j), (np.sqrt(2) if k % 2 == 0 else 1 / np.sqrt(2)) if mixed else 1.0, 'mass factor')
        ck.close(F.rttwo_mistake_undoer(i, j), (2.0 if k % 2 == 0 else 1.0) if mixed else 1.0, 'mass factor')
        ck.step()
        ck.state(i, j)
    for x in (-2.0, -1e-300, -0.0, 0.0, 1e-300, 3.0):
        ck.close(F.heaviside_scalar(x), float(x >= 0), 'step function')
        ck.close(F.heaviside_vector(np.array([x, -1.0, 2.0, x])), [float(x >= 0), 0.0, 1.0, float(x >= 0)], 'step function')
        ck.step()
