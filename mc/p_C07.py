"""C07: upwind causality, boundary behaviour, positivity and stability of the slab operator."""
import numpy as np
import rhsspace

BOUNDS = dict(quick='all systems of the configuration product that have constant or varying opacity (with larger ones: orders to 8, 16 ordinates, 24 cells; and every kind with one parameter pushed far out: times 0.02-30, half widths 0.002-400, opacities 1e-6-800, strengths 0-1e4), 3-5 times, every basis state (the operator is measured column by column)',
              thorough='orders 0-5, 2-8 ordinates, 2-8 cells')
MIN_PER_WORKER = 10


def cases(tier):
    for c in rhsspace.every(tier):
        if c.get('uncollided') and c['geom'] == 'slab':
            continue
        yield dict(c, _group=c['geom'])


def run(case, ck):
    import real
    c = {k: v for k, v in case.items() if not k.startswith('_')}
    s = real.System(c)
    f = s.c
    S, N, n = s.shape
    sphere = c['geom'] == 'sphere'
    for t in rhsspace.times(c):
        A, b = rhsspace.measure(s, t, ck)
        vel = np.array(s.mesh.Dedges)
        edges = np.array(s.mesh.edges)
        A6 = A.reshape(S, N, n, S, N, n)
        tiny = 1e-11 * max(1.0, np.max(np.abs(A)))
        nz = np.max(np.abs(A6), axis=(2, 5)) > tiny       # angle, cell -> angle, cell coupling
        for a in range(S):
            for k in range(N):
                for q in range(S):
                    for l in range(N):
                        if not nz[a, k, q, l] or (a == q and k == l):
                            continue
                        if k == l:
                            # coupling between ordinates: scattering, or neighbouring ordinates in a sphere
                            okay = f['sigma_s'] != 0 or (sphere and abs(a - q) == 1)
                            ck.ok(okay, 'coupling of ordinates without scattering', lambda: f't={t} {(a, k, q, l)}')
                        elif a == q and l == k - 1:
                            ck.ok(s.mus[a] - vel[k] > 0, 'a cell depends on its downwind neighbour', lambda: f't={t} angle {a} cell {k} on {l}')
                        elif a == q and l == k + 1:
                            ck.ok(s.mus[a] - vel[k + 1] < 0, 'a cell depends on its downwind neighbour', lambda: f't={t} angle {a} cell {k} on {l}')
                        else:
                            ck.fail('a cell depends on a cell that is not its neighbour', f't={t} angle {a} cell {k} on angle {q} cell {l}')
                # it must depend on its upwind neighbour
                if k > 0 and s.mus[a] - vel[k] > 1e-9 and (not sphere or edges[k] > 1e-3):
                    ck.ok(nz[a, k, a, k - 1], 'upwind neighbour has no influence', lambda: f't={t} angle {a} cell {k}')
                if k < N - 1 and s.mus[a] - vel[k + 1] < -1e-9:
                    ck.ok(nz[a, k, a, k + 1], 'upwind neighbour has no influence', lambda: f't={t} angle {a} cell {k}')
        if not sphere:
            w = np.repeat(s.ws / np.sum(s.ws), N * n)
            W = w[:, None] * A
            ev = np.linalg.eigvalsh(0.5 * (W + W.T))
            if f['sigma_s'] <= f['sigma_t'] and (f['sigfunc'] == 'constant'):
                ck.ok(ev[-1] <= 1e-10 * max(1.0, np.max(np.abs(A))), 'the scheme can amplify the solution (energy grows)', lambda: f't={t} growth {ev[-1]}')
            if n == 1:
                off = A - np.diag(np.diag(A))
                ck.ok(np.min(off) >= -tiny, 'first-order scheme is not positive', lambda: f't={t} {np.min(off)}')
                if f['problem'] != 'MMS':
                    ck.ok(np.min(b) >= -1e-12, 'negative source or inflow', lambda: f't={t} {np.min(b)}')
        elif n == 1:
            pass
    ck.outcome(c['geom'])
