"""C04: the cell matrices equal the integrals they stand for, for every cell, order and history."""
import numpy as np
from itertools import product

BOUNDS = dict(quick='orders 0..8 (0..10 for the analytic sphere formulas), 5 left edges x 4 widths x 5 x 5 edge velocities, slab and sphere; object reuse over all ordered pairs of a 12-cell menu; tables read through the HDF5 reader',
              thorough='9 left edges x 9 widths x 7 x 7 velocities; all ordered triples of an 18-cell menu')
ASSUMPTIONS = ['the HDF5 coefficient tables the repository reads but does not ship are generated exactly (rational arithmetic)']
MIN_PER_WORKER = 1


def grid(tier):
    if tier == 'quick':
        return (0.0, 0.1, 0.5, 1.0, 20.0), (0.01, 0.3, 1.0, 4.0), (-1.0, -0.3, 0.0, 0.6, 1.0)
    return (0.0, 1e-6, 0.05, 0.1, 0.5, 1.0, 3.7, 20.0, 300.0), (1e-4, 0.01, 0.1, 0.3, 1.0, 1.7, 4.0, 30.0, 200.0), (-2.0, -1.0, -0.3, 0.0, 0.6, 1.0, 3 ** 0.5)


def cases(tier):
    for geom in ('sphere', 'slab'):
        for M in range(9):
            yield dict(mode='exact', geom=geom, M=M, depth=2 if tier == 'quick' else 3, _tier=tier)
    for M in (0, 3, 8):
        yield dict(mode='reader', geom='sphere', M=M, _tier=tier)
    for i in range(11):
        yield dict(mode='formula', row=i, _tier=tier)
    yield dict(mode='reader_sizes', geom='sphere', M=0, _tier=tier)


def warm_cases(cs):
    return [dict(mode='exact', geom='sphere', M=0, depth=1, _tier='quick'), dict(mode='formula', row=0, _tier='quick')]


def cells(tier, geom, row):
    Ls, hs, vs = grid(tier)
    for l, h, a, b in product(Ls, hs, vs, vs):
        if geom == 'slab':
            yield l - 2.0, l - 2.0 + h, a, b
        else:
            if l == 0.0 and a != 0.0:
                continue
            yield l, l + h, a, b


def get(m, geom, M):
    d = dict(L=np.array(m.L), G=np.array(m.G))
    if geom == 'sphere':
        d.update(Mass=np.array(m.Mass), J=np.array(m.J), MPRIME=np.array(m.MPRIME))
    return d


def want(geom, M, c):
    import ref
    Ma, L, G, J, Mp = ref.cell(geom, M, *c)
    d = dict(L=L, G=G)
    if geom == 'sphere':
        d.update(Mass=Ma, J=J, MPRIME=Mp)
    return d


def check(ck, got, exp, where):
    for k in exp:
        s = np.max(np.abs(exp[k])) if exp[k].size else 0.0
        ck.close(got[k], exp[k], f'matrix {k} is not its integral', 1e-8, 1e-12 + 3e-11 * s, detail=where)


def run(case, ck):
    import real, ref
    tier = case['_tier']
    mode = case['mode']
    if mode == 'formula':
        from moving_mesh_transport.solver_classes.GMAT_sphere import GMatrix, MPRIME
        i = case['row']
        for c in cells(tier, 'sphere', i):
            _, _, G, _, Mp = ref.cell('sphere', 10, *c)
            gs, ms = np.max(np.abs(G)), np.max(np.abs(Mp))
            for j in range(11):
                ck.close(GMatrix(i, j, *c) / np.pi, G[i, j], 'matrix G is not its integral', 1e-8, 1e-12 + 3e-11 * gs, detail=(i, j, c))
                ck.close(MPRIME(i, j, *c) / np.pi, Mp[i, j], 'matrix MPRIME is not its integral', 1e-8, 1e-12 + 3e-11 * ms, detail=(i, j, c))
                ck.step(2)
            ck.state(i, c)
        return
    if mode == 'reader_sizes':
        import coeffs, os, tempfile
        from moving_mesh_transport.solver_functions.Chebyshev_matrix_reader import file_reader
        for size in (range(1, 10)):
            d = tempfile.mkdtemp(dir=os.getcwd())
            coeffs.write_files(d, size)
            got = file_reader(*[os.path.join(d, x + 'Matrix.h5') for x in ('Mass', 'J', 'G', 'L', 'VV')])()
            for n, (g, w) in enumerate(zip(got, coeffs.give(size))):
                ck.close(g, w, 'the table reader changes the tables', 1e-14, 0.0, detail=(size, n))
            ck.step()
            ck.state(size)
        return
    geom, M = case['geom'], case['M']
    b = real.make_build(dict(geom=geom, M=M, S=2, N=2))
    if mode == 'reader':
        import coeffs, os, tempfile
        from moving_mesh_transport.solver_functions.Chebyshev_matrix_reader import file_reader
        from moving_mesh_transport.solver_classes.matrices import G_L
        d = tempfile.mkdtemp(dir=os.getcwd())
        coeffs.write_files(d, 9)
        rd = file_reader(*[os.path.join(d, x + 'Matrix.h5') for x in ('Mass', 'J', 'G', 'L', 'VV')])
        m = G_L(b, *rd())
        for c in cells(tier, geom, 0):
            m.make_all_matrices(*c)
            check(ck, get(m, geom, M), want(geom, M, c), f'cell {c} (tables read from files)')
            ck.step()
            ck.state(c)
        return
    m = real.make_matrices(b)
    n = 0
    for c in cells(tier, geom, 0):
        m.make_all_matrices(*c)
        w = want(geom, M, c)
        check(ck, get(m, geom, M), w, f'cell {c}')
        ck.step()
        ck.state(geom, M, c)
    # reuse: the matrices of a cell do not depend on the cells evaluated before
    menu = list(cells('quick', geom, 0))
    menu = menu[:: max(1, len(menu) // (12 if case['depth'] == 2 else 18))]
    exp = [want(geom, M, c) for c in menu]
    for seq in product(range(len(menu)), repeat=case['depth']):
        m = real.make_matrices(b) if sum(seq) % 7 == 0 else m
        for q in seq:
            m.make_all_matrices(*menu[q])
            ck.step()
        check(ck, get(m, geom, M), exp[seq[-1]], f'after cells {[menu[q] for q in seq]}')
        ck.state(geom, M, seq)
