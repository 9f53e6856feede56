"""C16: the emission term of the material-energy problems."""
import numpy as np
from itertools import product

BOUNDS = dict(quick='two emission laws and the uncoupled problem; orders 0-6; every energy vector over {-1,0,1,2.5} up to order 3 (over {0,1} with one negative entry above); 5 cells; heat capacities 0.003, 0.03, 0.3; every ordered pair of (cell, energy) evaluations on one object',
              thorough='energy vectors over {-2,-1,0,0.5,1,2.5} up to order 3, orders 0-10, ordered triples')
ASSUMPTIONS = ['the constant heat capacity law is compared with the projection by the Gauss rule of the problem (2M+1 points), which is exact whenever the degrees permit']
MIN_PER_WORKER = 2
CELLS = [(-1.0, 1.0), (0.0, 0.1), (2.3, 2.9), (-7.0, -6.99), (0.5, 30.0)]
A = 0.0137225


def cases(tier):
    deep = tier == 'thorough'
    for law, cv in (('linear', 0.0), ('linear', 0.03), ('cv', 0.03), ('cv', 0.003), ('cv', 0.3), ('none', 0.0), ('none', 0.03)):
        for M in range(11 if deep else 7):
            yield dict(law=law, cv=cv, M=M, deep=deep, _group=law)


def vectors(M, deep):
    if M <= 3:
        g = (-2.0, -1.0, 0.0, 0.5, 1.0, 2.5) if deep else (-1.0, 0.0, 1.0, 2.5)
        for v in product(g, repeat=M + 1):
            yield np.array(v)
    else:
        for v in product((0.0, 1.0), repeat=M + 1):
            yield np.array(v)
        for k in range(M + 1):
            v = np.zeros(M + 1)
            v[0] = 1.0
            v[k] -= 2.5
            yield v


def basis(M, x, a, b):
    from numpy.polynomial import legendre as L
    z = (2 * x - a - b) / (b - a)
    return L.legvander(z, M) * np.sqrt((2 * np.arange(M + 1) + 1) / (b - a))


def want(case, a, b, e):
    M = case['M']
    if case['law'] == 'none':
        return np.zeros(M + 1)
    if case['law'] == 'linear':
        return e
    x, w = np.polynomial.legendre.leggauss(2 * M + 1)
    B = basis(M, (b - a) / 2 * x + (a + b) / 2, a, b)
    f = (B @ e / (case['cv'] / A)) ** 4
    return (b - a) / 2 * (B * (w * f)[:, None]).sum(axis=0)


def run(case, ck):
    import real
    from moving_mesh_transport.solver_classes.radiative_transfer import T_function
    M = case['M']
    b = real.make_build(dict(M=M, thermal=case['law'] != 'none', temp=0 if case['law'] != 'cv' else 1, cv0=case['cv']))
    T = T_function(b)

    def once(a, c, e, kind):
        e0 = e.copy()
        T.make_H(a, c, e)
        w = want(case, a, c, e0)
        ck.step()
        s = max(1e-300, np.max(np.abs(w)), (1.0 if case['law'] != 'cv' else 0))
        ck.close(np.array(T.H), w, kind, 1e-9, 1e-10 * s, f'cell {(a, c)} e {e0}')
        ck.ok(np.array_equal(e, e0), 'the energy vector is changed by the evaluation', f'{e0} -> {e}')
    vs = list(vectors(M, case['deep']))
    for (a, c), e in product(CELLS, vs):
        once(a, c, e, 'emission differs from the law')
        ck.state(case['law'], case['cv'], M, a, c, e)
    # histories: the value does not depend on what was evaluated before
    few = [vs[0], vs[len(vs) // 2], vs[-1], np.eye(M + 1)[0]]
    ops = list(product(CELLS[:3], few))
    for seq in product(ops, repeat=3 if case['deep'] and M < 4 else 2):
        for (a, c), e in seq:
            once(a, c, e.copy(), 'emission depends on earlier evaluations')
        ck.state('seq', len(seq), case['law'], case['cv'], M)
    ck.outcome(case['law'])
