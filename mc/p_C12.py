"""C12: the quadrature rules integrate what they promise to."""
import numpy as np
from itertools import product

BOUNDS = dict(quick='Gauss-Legendre 1..80 and 128, 256, 512 points, Gauss-Lobatto 2..80 and 128, 256 points, Chebyshev 1..120 points; every polynomial degree up to the exactness limit; angular weights as normalised by the problem object for 2..32 ordinates',
              thorough='Gauss-Legendre 1..300, Gauss-Lobatto 2..200, Chebyshev 1..300')
MIN_PER_WORKER = 30


def cases(tier):
    deep = tier == 'thorough'
    for n in list(range(1, 81 if not deep else 301)) + ([128, 256, 512] if not deep else [512, 1024]):
        yield dict(name='gauss_legendre', n=n, _group='gauss_legendre')
    for n in list(range(2, 81 if not deep else 201)) + ([128, 256] if not deep else [256, 512]):
        yield dict(name='gauss_lobatto', n=n, _group='gauss_lobatto')
    for n in range(1, 121 if not deep else 301):
        yield dict(name='chebyshev', n=n, _group='chebyshev')
    for name, n in product(('gauss_legendre', 'gauss_lobatto'), (2, 3, 4, 6, 8, 16, 32)):
        yield dict(name=name, n=n, build=True, _group='angular')


def run(case, ck):
    from moving_mesh_transport.solver_classes.functions import quadrature
    from numpy.polynomial import legendre as L, chebyshev as C
    name, n = case['name'], case['n']
    if case.get('build'):
        import real
        b = real.make_build(dict(S=n, weights=name))
        mus, ws = np.array(b.mus), np.array(b.ws)
        ck.close(np.sum(ws), 1.0, 'ordinate weights do not sum to one', 1e-12, 1e-12)
        ck.close(mus, -mus[::-1], 'ordinates are not symmetric', 1e-12, 1e-13)
        ck.close(ws, ws[::-1], 'ordinate weights are not symmetric', 1e-11, 1e-13)
        ck.ok(np.all(ws > 0), 'ordinate weight not positive', ws)
        if name == 'gauss_legendre' or n > 2:
            ck.close(np.sum(ws * mus ** 2), 1.0 / 3.0, 'second angular moment is not one third', 1e-12, 1e-12)
        ck.step()
        ck.state('build', name, n)
        return
    for testing in (False, True):
        x, w = quadrature(n, name, testing)
        x, w = np.array(x), np.array(w)
        ck.step()
        ck.state(name, n, testing)
        ck.ok(len(x) == n and len(w) == n, 'wrong number of points', f'{len(x)} {len(w)}')
        ck.ok(np.all(np.isfinite(x)) and np.all(np.isfinite(w)), 'non-finite rule')
        ck.ok(np.all(w > 0), 'weight not positive', w)
        d = np.diff(x) if name != 'chebyshev' else -np.diff(x)
        ck.ok(np.all(d > 0), 'points are not ordered and distinct', x)
        ck.ok(np.all(np.abs(x) <= 1), 'points outside of the interval', x)
        ck.close(x, -x[::-1], 'points are not symmetric', 1e-9, 1e-12)
        ck.close(w, w[::-1], 'weights are not symmetric', 1e-9, 1e-13)
        if name == 'gauss_lobatto':
            ck.ok(x[0] == -1 and x[-1] == 1, 'end points missing', x)
        top = 2 * n - 3 if name == 'gauss_lobatto' else 2 * n - 1
        # orthogonal polynomials up to the exactness limit: only degree 0 has a non-zero integral
        V = (C.chebvander if name == 'chebyshev' else L.legvander)(x, top)
        I = w @ V
        want = np.zeros(top + 1)
        want[0] = np.pi if name == 'chebyshev' else 2.0
        ck.close(I, want, 'a polynomial within the exactness limit is not integrated exactly', 1e-11, 2e-11 if name != 'gauss_lobatto' else 1e-10)
    ck.outcome(name)
