"""C21: the cubic spline is the natural interpolating spline; the linear solver solves."""
import numpy as np
from itertools import product
from fractions import Fraction

BOUNDS = dict(quick='spline: every knot set of 3-5 knots from 7 positions, every data vector over {-1,0,2} on uniform knots of 3-6 and unit data on all others, 2 scales and shifts, 9 points per interval; solver: every 2x2 matrix over -3..3 and every 3x3 matrix over {-1,0,2} with every unit right-hand side, 4x4 to 20x20 structured families',
              thorough='3x3 matrices over {-2,-1,0,1,3}; knot sets of 3-7 from 9 positions')
MIN_PER_WORKER = 4
POS = [0.0, 0.3, 1.0, 1.1, 2.0, 3.5, 4.0, 6.0, 6.25]


def cases(tier):
    from itertools import combinations
    deep = tier == 'thorough'
    for n in (3, 4, 5, 6, 7) if deep else (3, 4, 5):
        for k in combinations(POS if deep else POS[:7], n):
            yield dict(kind='spline', knots=list(k), _group='spline knots')
    for n in (3, 4, 5, 6) if not deep else (3, 4, 5, 6, 7):
        yield dict(kind='data', n=n, _group='spline data')
    yield dict(kind='two', r=3 if not deep else 5, _group='solver')
    g = (-1, 0, 2) if not deep else (-2, -1, 0, 1, 3)
    for row in product(g, repeat=3):
        yield dict(kind='three', row=list(row), g=list(g), _group='solver')
    for n in (4, 5, 8, 12, 16, 20):
        yield dict(kind='big', n=n, _group='solver')


def run(case, ck):
    import orch
    list(orch.no_plots() or [])
    globals()['_' + case['kind']](case, ck)


def spline(ck, x, y, what):
    from moving_mesh_transport.solver_classes.cubic_spline import cubic_spline
    from scipy.interpolate import CubicSpline
    x0, y0 = x.copy(), y.copy()
    s = cubic_spline(x, y)
    ck.step()
    t = np.concatenate([np.linspace(a, b, 9) for a, b in zip(x[:-1], x[1:])])
    got = np.array(s.eval_spline(t))
    sc = max(1e-30, np.max(np.abs(y)))
    ck.close(got, CubicSpline(x, y, bc_type='natural')(t), 'spline is not the natural interpolating spline', 1e-6, 1e-6 * sc, what)
    ck.close(np.array(s.eval_spline(x)), y, 'spline misses a data point', 1e-7, 1e-7 * sc, what)
    for p in t[:3]:
        ck.close(np.array(s.eval_spline(np.array([p])))[0], got[list(t).index(p)], 'spline value depends on the other points asked for', 1e-11, 1e-12, what)
    ck.close(np.array(s.eval_spline(t[::-1].copy())), got[::-1], 'spline value depends on the order of the points', 1e-9, 1e-9 * sc, what)
    out = np.array(s.eval_spline(np.array([x[0] - 1.0, x[-1] + 1.0])))
    ck.close(out, [0.0, 0.0], 'spline is not zero outside of the data', 0, 0, what)
    ck.ok(np.array_equal(x, x0) and np.array_equal(y, y0), 'spline changes its data', what)


def _spline(case, ck):
    k = np.array(case['knots'])
    n = len(k)
    for scale, shift in ((1.0, 0.0), (0.1, -0.2)):
        x = k * scale + shift
        for i in range(n):
            spline(ck, x, np.eye(n)[i].copy(), f'knots {x} unit {i}')
            ck.state(x, i)
        spline(ck, x, np.ones(n), f'knots {x} constant')
        spline(ck, x, 2 * x - 1, f'knots {x} linear')
    ck.outcome('knots')


def _data(case, ck):
    n = case['n']
    x = np.linspace(-1.0, 1.0, n)
    for y in product((-1.0, 0.0, 2.0), repeat=n):
        spline(ck, x.copy(), np.array(y), f'data {y}')
        ck.state(n, y)
    ck.outcome('data')


def exact(A, b):
    """rational elimination; None when singular"""
    n = len(A)
    M = [[Fraction(v) for v in r] + [Fraction(w)] for r, w in zip(A, b)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c] / M[c][c]
                M[r] = [u - f * v for u, v in zip(M[r], M[c])]
    return [float(M[i][n] / M[i][i]) for i in range(n)]


def solve(ck, A, b, want=None):
    from moving_mesh_transport.solver_classes.cubic_spline import GaussElim
    if want is None:
        want = exact([[int(v) for v in r] for r in A], [int(v) for v in b])
    if want is None:
        return
    A0, b0 = A.copy(), b.copy()
    x = np.array(GaussElim(A, b))
    ck.step()
    ck.close(x, want, 'linear system is not solved', 1e-9, 1e-10 * max(1.0, np.max(np.abs(want))), lambda: f'{A0.tolist()} {b0.tolist()}')
    ck.ok(np.array_equal(A, A0) and np.array_equal(b, b0), 'linear solver changes its input', f'{A0.tolist()}')
    ck.state(A0, b0)


def _two(case, ck):
    g = range(-case['r'], case['r'] + 1)
    for a in product(g, repeat=4):
        for b in np.eye(2):
            solve(ck, np.array(a, dtype=float).reshape(2, 2), b.copy())


def _three(case, ck):
    for rest in product(case['g'], repeat=6):
        A = np.array(case['row'] + list(rest), dtype=float).reshape(3, 3)
        if abs(round(np.linalg.det(A))) == 0:
            continue
        inv = None
        for i, b in enumerate(np.eye(3)):
            if inv is None:
                # adjugate of an integer matrix is exact
                c = np.array([[A[(j + 1) % 3, (k + 1) % 3] * A[(j + 2) % 3, (k + 2) % 3] - A[(j + 1) % 3, (k + 2) % 3] * A[(j + 2) % 3, (k + 1) % 3] for k in range(3)] for j in range(3)])
                inv = c.T / (A[0] @ c[0])
            solve(ck, A.copy(), b.copy(), inv[:, i])


def _big(case, ck):
    n = case['n']
    I = np.arange(n)
    fams = [np.eye(n)[::-1], np.roll(np.eye(n), 1, axis=0), np.triu(np.ones((n, n))), np.tril(np.ones((n, n))), np.minimum.outer(I + 1.0, I + 1.0),
            2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1), np.eye(n) * 1e-3 + np.roll(np.eye(n), 2, axis=1) * 7, np.eye(n) + np.ones((n, n)), np.diag(10.0 ** (I % 7 - 3))[::-1]]
    for A in fams:
        A = np.ascontiguousarray(A, dtype=float)
        for i in range(n):
            x = np.zeros(n)
            x[i] = 1.0
            solve(ck, A.copy(), A @ x, x)
        x = (I % 3 - 1.0)
        solve(ck, A.copy(), A @ x, x)
    ck.outcome('big')
