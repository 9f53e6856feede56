"""The bounded space of transport systems the right-hand-side properties quantify over."""
from itertools import product
import numpy as np

UNC = ('plane', 'square', 'square_source', 'gaussian_IC', 'gaussian_source')


def systems(tier):
    """dicts for real.System"""
    deep = tier == 'thorough'
    Ms = (0, 1, 2) if not deep else (0, 1, 2, 3, 5)
    sig = ((1.0, 1.0), (1.5, 0.4), (0.8, 0.0)) if not deep else ((1.0, 1.0), (1.5, 0.4), (0.8, 0.0), (3.0, 2.9))
    # slab, every problem type, collided
    for prob in ('plane', 'square', 'square_source', 'gaussian_IC', 'gaussian_IC_noniso', 'gaussian_source', 'MMS', 'self_sim'):
        for M, S, N in product(Ms, (2, 4) if not deep else (2, 3, 4, 8), (4,) if not deep else (4, 8)):
            for moving in (True, False):
                for st, ss in (sig if prob != 'MMS' else ((1.0, 1.0),)):
                    if not deep and (st, ss) == (0.8, 0.0) and S == 4:
                        continue
                    yield dict(geom='slab', problem=prob, M=M, S=S, N=N, moving=moving, sigma_t=st, sigma_s=ss, strength=1.0 if prob == 'MMS' else 1.7, x0=0.5,
                               weights='gauss_legendre' if S != 2 else 'gauss_lobatto')
    # odd cell counts, and one or two cells
    for prob, N in product(('plane', 'gaussian_IC', 'MMS'), (1, 2, 3, 5)):
        for M in Ms:
            yield dict(geom='slab', problem=prob, M=M, S=4, N=N, moving=True, sigma_t=1.0, sigma_s=1.0)
    # finite slabs
    for prob, M, frac in product(('square', 'square_source'), Ms, (0.3, 0.8)):
        for w in (1.5, 5.0):
            yield dict(geom='slab', problem=prob, M=M, S=4, N=8, moving=True, finite=True, width=w, pad=w / 2, x0=0.5, t0=frac, strength=1.3, sigma_t=1.2, sigma_s=0.7)
    # boundary sources
    for M, S, bo, v in product(Ms, (2, 4), ([1, 0], [0, 1], [1, 1]), (0.0, 0.3)):
        yield dict(geom='slab', problem='boundary', M=M, S=S, N=4, moving=True, x0=2.0, sedov_v0=v, bnd_on=bo, bnd_strength=2.5, bnd=True, t0=0.6, sigma_t=1.1, sigma_s=0.9)
    # spatially varying opacities
    for f, M, Ms_ in product(('gaussian', 'siewert1', 'siewert2', 'fake_sedov'), Ms, (0, 1, 2)):
        for prob in ('gaussian_source', 'boundary'):
            for moving in (True, False):
                k = dict(geom='slab', problem=prob, M=M, S=2 if not deep else 4, N=4, moving=moving, sigfunc=f, Msigma=Ms_, sigma_t=1.0, sigma_s=0.7)
                if prob == 'boundary':
                    if f == 'gaussian':
                        continue
                    k.update(x0=2.0, bnd_on=[1, 0], bnd_strength=1.5, bnd=True, t0=10.0, sedov_v0=0.3 if f == 'fake_sedov' else 0.0)
                else:
                    k.update(sedov_v0=0.3)
                yield k
    # uncollided source treatment
    for prob, M, S in product(UNC, Ms, (2, 4)):
        for moving in (True, False):
            yield dict(geom='slab', problem=prob, M=M, S=S, N=4, moving=moving, sigma_t=1.0, sigma_s=0.8, uncollided=True, strength=1.3, x0=0.5 if prob != 'plane' else 1e-9)
    # sphere
    for prob, M, S, N in product(('plane', 'square'), Ms, (2, 4) if not deep else (2, 3, 4, 8), (3, 4) if not deep else (2, 3, 4, 8)):
        for moving in (True, False):
            for st, ss in sig[:2]:
                for unc in ((False, True) if prob == 'square' else (False,)):
                    for fin in ((False, True) if prob == 'square' else (False,)):
                        k = dict(geom='sphere', problem=prob, M=M, S=S, N=N, moving=moving, sigma_t=st, sigma_s=ss, uncollided=unc, strength=1.3,
                                 x0=0.5 if prob == 'square' else 0.01, weights='gauss_lobatto')
                        if fin:
                            k.update(finite=True, width=4.0)
                        yield k


def large():
    """higher orders, more ordinates, more cells, other magnitudes than the product above: one of each kind"""
    for (M, S, N), st in product(((4, 8, 6), (8, 2, 4), (3, 16, 8), (1, 4, 24), (6, 3, 5)), (0.9,)):
        for i, prob in enumerate(('plane', 'square', 'square_source', 'gaussian_IC', 'gaussian_source', 'MMS')):
            if 'square' in prob and N % 4:
                continue
            yield dict(geom='slab', problem=prob, M=M, S=S, N=N, moving=(i + M) % 2 == 0, sigma_t=st if prob != 'MMS' else 1.0, sigma_s=0.7 if prob != 'MMS' else 1.0, strength=0.2 if prob != 'MMS' else 1.0, x0=0.5, tfinal=2.5,
                       weights='gauss_legendre' if S % 2 == 0 else 'gauss_lobatto')
        if N % 2 == 0:
            yield dict(geom='slab', problem='boundary', M=M, S=S, N=N, moving=True, sigfunc='fake_sedov', Msigma=min(M, 4), sigma_t=1.3, sigma_s=0.9, x0=2.0, sedov_v0=0.2, bnd_on=[1, 1], bnd_strength=0.3, bnd=True, t0=1.6, tfinal=2.5)
            yield dict(geom='slab', problem='boundary', M=M, S=S, N=N, moving=True, sigfunc='siewert1', Msigma=min(M + 1, 5), sigma_t=40.0, sigma_s=39.0, x0=5.0, bnd_on=[0, 1], bnd_strength=3.0, bnd=True, t0=10.0, tfinal=20.0)
        for prob, mov in (('square', True), ('plane', False)):
            yield dict(geom='sphere', problem=prob, M=M, S=S, N=min(N, 8), moving=mov, sigma_t=1.7, sigma_s=1.1, strength=0.4, x0=0.5 if prob == 'square' else 0.01, weights='gauss_lobatto', tfinal=2.5)


def extremes():
    """one parameter (or two) of a plain system pushed far out: late times, thin, wide and thick problems, weak and strong materials, long and short sources"""
    base = dict(geom='slab', S=4, N=4, M=2, moving=True, sigma_t=1.0, sigma_s=0.8, strength=1.3, x0=0.5, tfinal=1.0)
    probs = ('plane', 'square', 'square_source', 'gaussian_IC', 'gaussian_source')
    far = [dict(tfinal=30.0, t0=12.0), dict(tfinal=0.02, t0=0.01), dict(x0=40.0, tfinal=8.0, t0=3.0), dict(x0=0.002), dict(sigma_t=60.0, sigma_s=59.0), dict(sigma_t=1e-3, sigma_s=5e-4), dict(sigma_t=1e-6, sigma_s=0.0),
           dict(sigma_t=1.0, sigma_s=1.4), dict(strength=1e4), dict(strength=1e-5), dict(strength=0.0), dict(t0=5.0), dict(t0=1.0), dict(tfinal=3.0, t0=0.1), dict(M=4, S=8), dict(M=3, S=3, N=8), dict(N=12, S=6, M=1), dict(M=5, S=2)]
    for i, (prob, k) in enumerate(product(probs, far)):
        c = dict(base, problem=prob, weights='gauss_legendre' if k.get('S', 4) % 2 == 0 and i % 2 else 'gauss_lobatto')
        c.update(k)
        if prob == 'plane':
            if 'x0' in k:
                continue
            c['x0'] = 1e-9
        yield c
        yield dict(c, moving=False)
        if prob != 'square_source' or c['x0'] <= 1:
            if c.get('tfinal', 1.0) <= 20:
                yield dict(c, uncollided=True, moving=i % 2 == 0)
    for k in far:
        if 'x0' in k or 'sigma_t' in k or 'strength' in k:
            continue
        yield dict(dict(base, problem='MMS', sigma_s=1.0, strength=1.0), **k)
    # widths of the initial Gaussian and of the Gaussian source
    for prob, sg in product(('gaussian_IC', 'gaussian_source'), (0.05, 3.0, 50.0)):
        yield dict(base, problem=prob, sigma=sg, x0=2.0)
    # optically thick layouts
    for prob, x0, N in product(('square', 'square_source', 'gaussian_IC', 'gaussian_source'), (0.5, 400.0), (4, 8)):
        yield dict(base, problem=prob, x0=x0, thick=True, N=N, sigma_t=800.0, sigma_s=799.0, tfinal=2.0, pad=0.1, leader_pad=0.1, move_factor=3.0)
    # boundary sources
    for k in far:
        if 'x0' in k or k.get('N', 4) % 2:
            continue
        yield dict(dict(base, problem='boundary', bnd=True, bnd_on=[1, 1], bnd_strength=k.get('strength', 1.3) * 2, x0=2.0, t0=0.6), **k)
    # spatially varying opacities
    for f, k in product(('gaussian', 'siewert1', 'siewert2', 'fake_sedov'), (dict(M=4, Msigma=3, S=3), dict(M=1, Msigma=4), dict(tfinal=5.0, Msigma=2), dict(x0=12.0, Msigma=2), dict(sigma_s=0.0, Msigma=1), dict(sigma_t=3.0, sigma_s=2.5, Msigma=3))):
        yield dict(dict(base, problem='gaussian_source', sigfunc=f, sedov_v0=0.3), **k)
        if f != 'gaussian':
            yield dict(dict(base, problem='boundary', sigfunc=f, bnd_on=[1, 0], bnd_strength=1.5, bnd=True, t0=10.0, sedov_v0=0.3 if f == 'fake_sedov' else 0.0), **dict(dict(x0=2.0), **k))
    # finite slabs and spheres
    for prob, k in product(('square', 'square_source'), far):
        if k.get('x0', 0.5) > 1 or k.get('N', 4) % 4:
            continue
        yield dict(dict(base, problem=prob, finite=True, width=6.0, pad=3.0, t0=0.6), **dict(k, N=8))
    for prob, k in product(('plane', 'square'), far):
        if k.get('M', 2) > 4 or k.get('tfinal', 1.0) > 20:
            continue
        c = dict(dict(base, geom='sphere', problem=prob, weights='gauss_lobatto', x0=0.5 if prob == 'square' else 0.01), **k)
        yield c
        yield dict(c, moving=False)
        if prob == 'square':
            yield dict(c, uncollided=True)
        if prob == 'square' and c['x0'] <= 1:
            yield dict(c, finite=True, width=6.0)


def every(tier):
    # the big ones first, so that they do not end up last on one worker
    yield from large()
    yield from extremes()
    yield from systems(tier)


def times(c):
    tf = c.get('tfinal', 1.0)
    t0 = c.get('t0', 0.4)
    if c.get('uncollided'):
        return [0.05 * tf, 0.37 * tf, tf]
    ts = [0.0, 0.37 * tf, tf]
    if 'source' in c['problem'] or c['problem'] == 'boundary':
        ts += [t for t in (t0, t0 + 0.01) if t <= tf]
    return sorted(set(ts))


def sigma_of(c, t):
    f = c.get('sigfunc', 'constant')
    if f == 'gaussian':
        return lambda x: np.exp(-x ** 2 / 8)
    if f == 'siewert1':
        return lambda x: np.exp(-(x + 2.5))
    if f == 'siewert2':
        return lambda x: np.exp(-x / 1e11)
    if f == 'fake_sedov':
        v = c.get('sedov_v0', 0.0)
        return lambda x: np.where(x + v * t >= 0, np.exp(-(x + 1 + v * t) ** 2 / 4), 0.0) + np.where(x + v * t <= 0, 0.2, 0.0)
    return None


def reference(s, c, t, edges, vel):
    """A, b of the definition for the system s (real.System) of configuration c at time t"""
    import ref
    f = s.c
    geom, M = f['geom'], f['M']
    nA, N, n = s.shape
    mus, ws = s.mus, s.ws / np.sum(s.ws)
    xq, wq = np.array(s.b.xs_quad), np.array(s.b.ws_quad)
    S = np.zeros((nA, N, n))
    p, st = f['problem'], f['strength']

    def project(fun, xL, xR):
        h = xR - xL
        x = xL * (1 - xq) / 2 + xR * (1 + xq) / 2
        v = fun(x)
        if geom == 'slab':
            return np.array([h / 2 * np.sum(wq * v * ref.shape('slab', j, xq)) / np.sqrt(h) for j in range(n)])
        # Gauss-Chebyshev: int g dz = sum w sqrt(1-z^2) g
        return np.array([h / 2 * np.sum(wq * np.sqrt(1 - xq ** 2) * x * x * v * ref.shape('sphere', j, xq)) / np.sqrt(h) for j in range(n)])

    for k in range(N):
        xL, xR = edges[k], edges[k + 1]
        if f['uncollided']:
            if geom == 'slab' and p == 'plane' and f['moving']:
                S[:, k, 0] = s.unc.plane_IC_uncollided_solution_integrated(t, xL, xR) * st * f['sigma_s']
            else:
                fun = lambda x: s.unc.uncollided_solution(x, t)
                S[:, k] = project(fun, xL, xR) * (f['sigma_s'] if geom == 'slab' else 1.0)
        elif geom == 'slab' and p == 'square_source':
            if t < f['t0']:
                S[:, k] = st * project(lambda x: (np.abs(x) <= f['x0']) * 1.0, xL, xR)
        elif geom == 'slab' and p == 'gaussian_source':
            if t <= f['t0']:
                S[:, k] = st * project(lambda x: np.exp(-(x / f['sigma']) ** 2), xL, xR)
        elif p == 'MMS':
            for a in range(nA):
                S[a, k] = project(lambda x: np.where(np.abs(x) <= t + f['x0'], -np.exp(-x * x / 2) * (1 + (1 + t) * x * mus[a]) / (1 + t) ** 2, 0.0), xL, xR)
    gl = gr = None
    if p == 'MMS':
        g = lambda x: np.exp(-x * x / 2) / (2 * (1 + t))
        hl, hr = edges[1] - edges[0], edges[-1] - edges[-2]
        one, left = np.array([ref.shape('slab', j, np.array([1.0]))[0] for j in range(n)]), np.array([ref.shape('slab', j, np.array([-1.0]))[0] for j in range(n)])
        gl = np.full(nA, np.dot(project(g, edges[0] - hl, edges[0]), one) / np.sqrt(hl))
        gr = np.full(nA, np.dot(project(g, edges[-1], edges[-1] + hr), left) / np.sqrt(hr))
    elif p == 'boundary' and not f['uncollided'] and t <= f['t0']:
        if f['bnd_on'][0]:
            gl = np.full(nA, f['bnd_strength'])
        if f['bnd_on'][1]:
            gr = np.full(nA, f['bnd_strength'])
    sg = sigma_of(f, t)
    op = None if sg is None else (lambda k: ref.opacity_matrix(edges[k], edges[k + 1], M, f['Msigma'], sg, xq, wq))
    return ref.operator(geom, edges, vel, mus, ws, M, f['sigma_t'], f['sigma_s'], S, gl, gr, op)


def measure(s, t, ck=None):
    """A, b of the real right-hand side, column by column"""
    d = s.dof
    b = np.array(s.F(t, np.zeros(d)))
    A = np.empty((d, d))
    e = np.zeros(d)
    for k in range(d):
        e[k] = 1.0
        A[:, k] = s.F(t, e) - b
        e[k] = 0.0
        if ck is not None:
            ck.step()
            ck.state(s.c, t, k)
    return A, b
