"""C05: the right-hand side is the discontinuous Galerkin discrete-ordinates operator."""
import numpy as np
import rhsspace

BOUNDS = dict(quick='all systems of the configuration product (orders 0-2, 2 and 4 ordinates, 1-8 cells, every problem/opacity/geometry; one system of each kind with orders to 8, 16 ordinates, 24 cells; every kind with one parameter pushed far out: times 0.02-30, half widths 0.002-400, opacities 1e-6-800, strengths 0-1e4, sources shorter and longer than the run) x 3-5 times x every basis state, the zero state and dense states (affinity makes the basis states decide all states)',
              thorough='orders 0-5, 2-8 ordinates, 2-8 cells; additionally every pair sum of basis states for small systems')
MIN_PER_WORKER = 10


def cases(tier):
    seen = set()
    for c in rhsspace.every(tier):
        g = f"{c['geom']} {c['problem']}{' uncollided' if c.get('uncollided') else ''}{' ' + c['sigfunc'] if 'sigfunc' in c else ''}"
        yield dict(c, _group=g, _deep=tier == 'thorough')


def run(case, ck):
    import real
    c = {k: v for k, v in case.items() if not k.startswith('_')}
    s = real.System(c)
    for t in rhsspace.times(c):
        s.mesh.move(t)
        edges, vel = np.array(s.mesh.edges), np.array(s.mesh.Dedges)
        A, b = rhsspace.reference(s, c, t, edges, vel)
        d = len(b)
        sc = np.max(np.abs(A)) if d else 1.0
        tol = 1e-10 * max(1.0, sc)
        f0 = np.array(s.F(t, np.zeros(d)))
        ck.close(f0, b, 'source, inflow or constant term is wrong', 1e-9, 1e-10 * max(1.0, np.max(np.abs(b))), detail=f't={t}')
        ck.step()
        got = np.empty((d, d))
        e = np.zeros(d)
        for k in range(d):
            e[k] = 1.0
            got[:, k] = s.F(t, e) - b
            e[k] = 0.0
            ck.step()
            ck.state(c, t, k)
        if not np.allclose(got, A, rtol=1e-9, atol=tol):
            i, j = np.unravel_index(np.argmax(np.abs(got - A) - 1e-9 * np.abs(A)), A.shape)
            n = c['M'] + 1
            nm = lambda q: f'(angle {q // (n * c["N"])}, cell {q // n % c["N"]}, moment {q % n})'
            ck.fail('operator entry is wrong', f't={t}: d/dt of {nm(i)} per unit of {nm(j)} is {got[i, j]!r}, definition gives {A[i, j]!r}; edges {edges} velocities {vel}')
        # affine in the state: dense, large, small and sign-mixed states
        k = np.arange(d)
        for u in (np.cos(1.0 + k * k), 1e3 * np.sin(3.0 + 2.0 * k), -1e-6 * np.ones(d)):
            w = A @ u + b
            ck.close(s.F(t, u), w, 'not affine in the state', 1e-8, 1e-9 * max(1e-3, np.max(np.abs(w))), detail=f't={t}')
            ck.step()
        if case['_deep'] and d <= 40:
            for i in range(d):
                for j in range(i):
                    u = np.zeros(d)
                    u[i], u[j] = 1.0, -2.0
                    ck.close(s.F(t, u), A @ u + b, 'not affine in the state', 1e-8, tol * 10, detail=f't={t} {i} {j}')
                    ck.step()
    ck.outcome(case['_group'])
