"""C23: a run converges to the solution of the discrete-ordinates transport equation, whatever mesh and source treatment it uses."""
import numpy as np
from itertools import product
from math import pi, sqrt

BOUNDS = dict(quick='slab, constant opacity, every pulse and source problem that has an exact discrete-ordinates solution x moving/static x with/without uncollided treatment x 3 media x orders 1-4 x 2-16 ordinates x 4-12 cells; boundary driven absorbers with every opacity profile; boundary driven and interior problems with scattering in every opacity profile, finite slabs (fine fixed grid as reference); balls of particles in the sphere; saved times',
              thorough='additionally orders 0-6, up to 24 cells, 32 ordinates, more media')
ASSUMPTIONS = ['the exact solution is the Fourier solution of the S_N equations on a line (matrix exponential per mode), ray integrals for absorbers, or a fine fixed-grid solution with the same ordinates (finite slabs, varying media with scattering)',
               'allowed error: a fixed multiple of the error of the best approximation of the exact solution in the trial space of the run, plus the truncation of the pulse at the ends of the initial mesh']
MIN_PER_WORKER = 4
L = 24.0           # period of the Fourier box
NK = 1024


def cases(tier):
    return sorted(_cases(tier), key=lambda c: -c.get('N', 4) * c.get('S', 4) * (c.get('M', 1) + 1) ** 2 * (3 if c.get('uncollided') else 1) * (4 if c.get('geom') == 'sphere' else 1))


def _cases(tier):
    deep = tier == 'thorough'
    med = ((1.0, 1.0), (1.5, 0.6), (0.7, 0.0)) if not deep else ((1.0, 1.0), (1.5, 0.6), (0.7, 0.0), (2.0, 2.0), (1.0, 0.3))
    Ms = (1, 3) if not deep else (0, 1, 2, 3, 4, 6)
    sizes = ((4, 8), (8, 4)) if not deep else ((4, 8), (8, 4), (8, 16), (12, 8), (24, 2), (4, 32))
    for prob, M, (N, S), (st, ss), mov in product(('gaussian_IC', 'gaussian_source', 'square', 'square_source', 'gaussian_IC_noniso'), Ms, sizes, med, (True, False)):
        if not deep and (st, ss) == (0.7, 0.0) and M == 3:
            continue
        x0 = 2.5 if 'gaussian' in prob else 0.5
        yield dict(problem=prob, M=M, N=N, S=S, sigma_t=st, sigma_s=ss, moving=mov, strength=1.7, x0=x0, sigma=0.6, t0=0.4, _group=prob)
    for prob, M, (N, S), ss, mov in product(('plane', 'gaussian_IC', 'gaussian_source', 'square', 'square_source'), Ms, sizes[:1] if not deep else sizes, (1.0, 0.6), (True, False)):
        if prob == 'plane' and not mov:
            continue
        x0 = 2.5 if 'gaussian' in prob else 0.5 if prob != 'plane' else 1e-9
        yield dict(problem=prob, M=M, N=N, S=S if not prob == 'plane' else 16, sigma_t=1.0, sigma_s=ss, moving=mov, strength=1.7, x0=x0, sigma=0.6, t0=0.4, uncollided=True, _group=prob + ' uncollided')
    for M, N, tf in product(Ms, (4, 8), (1.0, 2.0)):
        yield dict(problem='MMS', M=M, N=N, S=4, x0=0.5, tfinal=tf, _group='MMS')
    for f, M, v in product(('constant', 'gaussian', 'siewert1', 'siewert2', 'fake_sedov'), Ms, (0.0, 0.4)):
        for on in ((1, 0), (0, 1)):
            if v and f != 'fake_sedov':
                continue
            yield dict(problem='boundary', sigfunc=f, M=M, Msigma=M + 1, N=12, S=4, sigma_t=1.3, sigma_s=0.0, x0=2.0, sedov_v0=v, bnd_on=on, bnd=True, bnd_strength=1.5, t0=50.0, tfinal=3.0, moving=True, _group='boundary ' + f)
    # slabs of finite width and media that vary, with scattering, against a fine fixed-grid solution with the same ordinates
    for prob, M, w, tf, mov in product(('square', 'square_source'), Ms, (1.5, 5.0), (0.6, 2.0), (True, False)):
        yield dict(problem=prob, M=M, N=8, S=4, finite=True, width=w, pad=w / 2, x0=0.5, t0=0.8, strength=1.3, sigma_t=1.2, sigma_s=0.7, tfinal=tf, moving=mov, grid=True, _group='finite slab')
    for f, M, on, t0, v in product(('constant', 'gaussian', 'siewert1', 'siewert2', 'fake_sedov'), Ms, ([1, 0], [1, 1], [0, 1]), (50.0, 1.2), (0.0, 0.4)):
        if (v and f != 'fake_sedov') or (on == [0, 1] and t0 < 50 and not deep):
            continue
        yield dict(problem='boundary', sigfunc=f, M=M, Msigma=M + 1, N=12, S=4, sigma_t=1.3, sigma_s=0.9, x0=2.0, sedov_v0=v, bnd_on=on, bnd=True, bnd_strength=1.5, t0=t0, tfinal=3.0, moving=True, grid=True, _group='boundary scattering ' + f)
    for f, prob, M, mov in product(('gaussian', 'siewert1', 'siewert2', 'fake_sedov'), ('gaussian_source', 'gaussian_IC', 'square', 'square_source'), Ms, (True, False)):
        x0 = 2.5 if 'gaussian' in prob else 0.5
        yield dict(problem=prob, sigfunc=f, M=M, Msigma=M + 1, N=12, S=4, sigma_t=1.3, sigma_s=0.9, x0=x0, sigma=0.6, strength=1.3, sedov_v0=0.3 if f == 'fake_sedov' else 0.0, t0=0.4, tfinal=1.0, moving=mov, grid=True, _group='medium ' + f)
    for M, N, S, (st, ss), mov in product((1, 2), (6,), (16,) if not deep else (16, 32), ((1.0, 1.0), (1.2, 0.5)), (True, False)):
        yield dict(geom='sphere', problem='square', M=M, N=N, S=S, sigma_t=st, sigma_s=ss, x0=0.5, moving=mov, strength=1.3, weights='gauss_lobatto', _group='ball')


# ------------------------------------------------------------------ exact discrete-ordinates solution on a line
def kgrid():
    return 2 * pi / L * np.arange(0, NK + 1)


def hat_shape(c, k):
    """Fourier transform (cosine) of the spatial shape"""
    p = c['problem']
    if 'gaussian' in p:
        s = c['sigma']
        return s * sqrt(pi) * np.exp(-(k * s) ** 2 / 4)
    if p == 'plane':
        return np.ones_like(k)
    return 2 * np.sinc(k * c['x0'] / pi) * c['x0']


def exact(c, mus, ws, t):
    """coefficients psi_m(k) of the collided angular flux at time t, k on kgrid"""
    k = kgrid()
    W = ws / np.sum(ws)
    S = len(mus)
    st, ss = c['sigma_t'], c['sigma_s']
    sh = hat_shape(c, k) * c['strength']
    on = min(t, c['t0'])
    # A = -(i k mu + st) + ss * 1 W^T
    A = np.zeros((len(k), S, S), dtype=complex)
    A[:, range(S), range(S)] = -1j * np.outer(k, mus) - st
    A += ss * np.ones((S, 1)) * W[None, None, :]
    ew, ev = np.linalg.eig(A)
    one = np.ones((len(k), S), dtype=complex)
    if c['problem'] == 'gaussian_IC_noniso':
        one = one * (np.asarray(mus) > 0)[None] * 2
    co = np.linalg.solve(ev, one[..., None])[..., 0]
    if not c['uncollided']:
        if 'source' in c['problem']:
            # int_0^on exp(A (t - tau)) dtau
            with np.errstate(all='ignore'):
                f = np.where(np.abs(ew) > 1e-9, (np.exp(ew * t) - np.exp(ew * (t - on))) / np.where(np.abs(ew) > 1e-9, ew, 1), on)
        else:
            f = np.exp(ew * t)
        return np.einsum('kij,kj->ki', ev, f * co) * sh[:, None] / 2
    # collided part: source ss/2 phi_u(k, t); phi_u of a unit plane pulse: exp(-s) sin(ks)/(ks)
    z, w = np.polynomial.legendre.leggauss(400)

    def U(s):
        return np.exp(-s) * np.sinc(k * s / pi)

    def panel(a, b):
        return a + (b - a) * (z + 1) / 2, w * (b - a) / 2
    acc = np.zeros_like(ew)
    if 'source' not in c['problem']:
        q, qw = panel(0, t)
        for s, h in zip(q, qw):
            acc += h * np.exp(ew * (t - s)) * U(s)[:, None]
    else:
        # phi_u(s) = int_{max(0, s - on)}^{s} U: cumulative
        z2, w2 = np.polynomial.legendre.leggauss(60)

        def phi_u(s):
            a, b = max(0.0, s - c['t0']), s
            r = a + (b - a) * (z2 + 1) / 2
            return ((b - a) / 2 * w2)[:, None] * np.exp(-r)[:, None] * np.sinc(np.outer(r, k) / pi)
        for a, b in ((0, on), (on, t)):
            if b > a:
                q, qw = a + (b - a) * (z2 + 1) / 2, w2 * (b - a) / 2
                for s, h in zip(q, qw):
                    acc += h * np.exp(ew * (t - s)) * phi_u(s).sum(0)[:, None]
    return np.einsum('kij,kj->ki', ev, acc * co) * (ss * sh / 2)[:, None]


def values(C, x):
    """psi_m(x) from the coefficients"""
    k = kgrid()
    E = np.exp(1j * np.outer(x, k))
    E[:, 1:] *= 2
    return (E @ C).real / L


# ------------------------------------------------------------------ rays
def ray(c, mus, x, t):
    import rhsspace
    out = np.zeros((len(x), len(mus)))
    f = rhsspace.sigma_of(c, 0.0)
    z, w = np.polynomial.legendre.leggauss(24)
    for m, mu in enumerate(mus):
        if (mu > 0 and not c['bnd_on'][0]) or (mu < 0 and not c['bnd_on'][1]):
            continue
        xb = -c['x0'] if mu > 0 else c['x0']
        for i, y in enumerate(x):
            d = (y - xb) / mu
            if d > t:
                continue
            tb = t - d
            if f is None:
                tau = c['sigma_t'] * d
            else:
                # split the ray at the shock
                br = [0.0, d]
                v = c['sedov_v0']
                if c['sigfunc'] == 'fake_sedov' and abs(mu + v) > 1e-12:
                    s = -(xb + v * tb) / (mu + v)
                    if 0 < s < d:
                        br = [0.0, s, d]
                tau = 0.0
                for a, b in zip(br[:-1], br[1:]):
                    s = a + (b - a) * (z + 1) / 2
                    for sj, wj in zip(s, w * (b - a) / 2):
                        tau += wj * c['sigma_t'] * float(rhsspace.sigma_of(c, tb + sj)(np.array([xb + mu * sj]))[0])
            out[i, m] = c['bnd_strength'] * np.exp(-tau)
    return out


# ------------------------------------------------------------------ fixed fine grid
def grid(c, mus, ws, x, t):
    """P2 elements on a fixed grid, RK4: for finite slabs and varying media"""
    import rhsspace
    p = c['problem']
    H = c['x0'] if p == 'boundary' else c['width'] / 2 if c['finite'] else c['x0'] + (3.0 if 'gaussian' in p else t) + 0.2
    n = int(round(2 * H / (0.01 if c['finite'] else 0.02)))
    h = 2 * H / n
    mu, W = np.asarray(mus)[:, None, None], np.asarray(ws) / np.sum(ws)
    z, w = np.polynomial.legendre.leggauss(4)
    B = np.polynomial.legendre.legvander(z, 2) * np.sqrt(2 * np.arange(3) + 1)            # int B_i B_j dz/2 = delta
    dB = np.stack([0 * z, np.sqrt(3) * np.ones_like(z), np.sqrt(5) * 3 * z], 1)
    D = (dB.T * w / 2) @ B * 2 / h                                                         # [i, j] int B_i' B_j / h
    bR, bL = B[0] * 0 + np.sqrt([1, 3, 5]), np.sqrt([1, 3, 5]) * [1, -1, 1]
    X = -H + h * (np.arange(n)[:, None] + (z + 1) / 2)
    P = B.T * w / 2
    pos = np.asarray(mus) > 0
    f0 = rhsspace.sigma_of(c, 0.0)
    moving_medium = c['sigfunc'] == 'fake_sedov' and c['sedov_v0'] != 0
    def proj(fun):
        return np.einsum('iq,cq->ci', P, fun(X))
    shape = proj(lambda y: np.exp(-(y / c['sigma']) ** 2)) if 'gaussian' in p else proj(lambda y: (np.abs(y) <= c['x0']) * 1.0) if p != 'boundary' else None
    U = np.zeros((len(mus), n, 3))
    if p in ('square', 'gaussian_IC'):
        U += shape * c['strength'] / 2
    F0 = None if f0 is None else f0(X)

    def rhs(U, s):
        vals = U @ B.T                                       # values at the points
        g = 1.0 if F0 is None else rhsspace.sigma_of(c, s)(X) if moving_medium else F0
        phi = np.tensordot(W, vals, 1)
        react = (c['sigma_s'] * phi[None] - c['sigma_t'] * vals) * g
        out = react @ P.T + mu * (U @ D.T)
        R, Lf = U @ bR, U @ bL
        on = s < c['t0'] if p == 'boundary' else False
        inL = c['bnd_strength'] * c['bnd_on'][0] if on else 0.0
        inR = c['bnd_strength'] * c['bnd_on'][1] if on else 0.0
        m = mu[..., 0]
        up = np.empty((len(mus), n + 1))
        up[pos, 0], up[pos, 1:] = inL, R[pos]
        up[~pos, n], up[~pos, :n] = inR, Lf[~pos]
        out -= (m * up[:, 1:])[..., None] * bR / h - (m * up[:, :-1])[..., None] * bL / h
        if p in ('gaussian_source', 'square_source') and s < c['t0']:
            out += shape * c['strength'] / 2
        return out
    stops = [0.0] + ([c['t0']] if c['t0'] < t and ('source' in p or p == 'boundary') else []) + [t]
    for a, b in zip(stops[:-1], stops[1:]):
        k = int(np.ceil((b - a) / (0.2 * h)))
        dt = (b - a) / k
        e = 1e-9
        for i in range(k):
            s = a + i * dt
            k1 = rhs(U, s + (e if i == 0 else 0))
            k2 = rhs(U + dt / 2 * k1, s + dt / 2)
            k3 = rhs(U + dt / 2 * k2, s + dt / 2)
            k4 = rhs(U + dt * k3, s + dt - e)
            U = U + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    j = np.clip(((x + H) / h).astype(int), 0, n - 1)
    y = np.clip(2 * (x + H - j * h) / h - 1, -1, 1)
    Bx = np.polynomial.legendre.legvander(y, 2) * np.sqrt(2 * np.arange(3) + 1)
    out = np.einsum('mxi,xi->xm', U[:, j, :], Bx)
    out[np.abs(x) > H] = 0.0
    return out


# ------------------------------------------------------------------
GZ, GW = np.polynomial.legendre.leggauss(12)


def run(case, ck):
    import real, p_C18
    p_C18.home()
    cfg = {k: v for k, v in case.items() if not k.startswith('_') and k != 'grid'}
    c = real.full(cfg)
    sphere = c['geom'] == 'sphere'
    m = real.make_mesh(cfg)
    m.move(c['tfinal'])
    e0 = np.array(m.edges)
    pts = np.concatenate([a + (b - a) * (GZ + 1) / 2 for a, b in zip(e0[:-1], e0[1:])])
    W = np.concatenate([GW * (b - a) / 2 for a, b in zip(e0[:-1], e0[1:])])
    xs, phi, psi, ed, ep, e, time, sol, mus, ws, edges, *rest = p_C18.call(c, None, pts, 'DOP853', 0.9, rt=1e-7, at=1e-9)
    ck.step()
    ck.state(case)
    ck.close(edges, e0, 'edges', 1e-10, 1e-12)
    ck.ok(np.all(np.isfinite(phi)), 'the solution is not finite')
    if sphere:
        return ball(case, c, ck, pts, W, phi, e0)
    t, M, N = c['tfinal'], c['M'], c['N']
    if c['problem'] == 'MMS':
        ex = np.tile((np.exp(-pts ** 2 / 2) / 2 / (1 + t))[:, None], (1, len(mus)))
    elif case.get('grid'):
        ex = grid(c, mus, ws, pts, t)
    elif c['problem'] == 'boundary':
        ex = ray(c, mus, pts, t)
    else:
        ex = values(exact(c, np.array(mus), np.array(ws), t), pts)
    # error per ordinate and best approximation in the cells of the final mesh
    got = np.array(psi).T
    Lg = np.polynomial.legendre.legvander(GZ, M) * np.sqrt(2 * np.arange(M + 1) + 1)
    P = Lg @ (Lg.T * GW / 2)              # projector on the 12 points of a cell
    proj = np.concatenate([P @ ex[12 * i:12 * i + 12] for i in range(N)])
    nrm = lambda v: sqrt(np.sum(W[:, None] * np.asarray(v).reshape(len(W), -1) ** 2))
    err, best, size = nrm(got - ex), nrm(proj - ex), nrm(ex)
    ck.outcome(case['_group'])
    fac, rel = TOL[kind(c)] if not c['finite'] else (3.5, 3e-4)      # finite slabs: the solution is rougher before the final time
    ck.ok(err <= fac * best + rel * size, 'the angular flux does not approximate the transport solution', lambda: f'relative error {err / size:.3e}, best approximation {best / size:.3e}, allowed {fac} times that plus {rel}')
    # scalar flux: weights times angular flux, plus the uncollided part of the exact problem
    if not c['uncollided']:
        pe, pb = nrm(np.array(phi) - ex @ np.array(ws)), nrm((proj - ex) @ np.array(ws))
        ck.ok(pe <= fac * best * 2 + rel * 2 * size, 'the scalar flux does not approximate the transport solution', lambda: f'error {pe:.3e} best {pb:.3e}')
    else:
        import p_C11
        tot = float(np.sum(W * phi))
        # the treatment does not change the number of particles on a mesh that holds them all
        if c['moving']:
            want = number(c, t)
            ck.ok(abs(tot - want) <= 0.02 * want, 'the uncollided treatment changes the number of particles', f'{tot} instead of {want}')


def number(c, t):
    sa = c['sigma_t'] - c['sigma_s']
    p = c['problem']
    n = c['strength'] * {'g': c['sigma'] * sqrt(pi), 's': 2 * c['x0'], 'p': 1.0}[p[0]]
    if 'source' in p:
        on = min(t, c['t0'])
        return n * (on if sa < 1e-12 else (1 - np.exp(-sa * on)) / sa) * np.exp(-sa * (t - on))
    return n * np.exp(-sa * t)


def kind(c):
    p = c['problem']
    return ('u ' if c['uncollided'] else '') + ('smooth' if 'gaussian' in p or p == 'MMS' else 'rough')


TOL = {'smooth': (2.2, 3e-4), 'rough': (2.2, 3e-4), 'u smooth': (2.2, 3e-4), 'u rough': (2.2, 3e-4)}


def ball(case, c, ck, r, W, phi, e0):
    """a uniform ball of particles: r phi(r) is the slab solution with the odd initial condition r on the ball"""
    k = kgrid()
    S = 64
    mus, ws = np.polynomial.legendre.leggauss(S)
    R, t = c['x0'], c['tfinal']
    # transform of x on [-R, R]: -2i (sin kR - kR cos kR)/k^2
    with np.errstate(all='ignore'):
        f = np.where(k > 0, -2j * (np.sin(k * R) - k * R * np.cos(k * R)) / np.where(k > 0, k, 1) ** 2, 0)
    A = np.zeros((len(k), S, S), dtype=complex)
    A[:, range(S), range(S)] = -1j * np.outer(k, mus) - c['sigma_t']
    A += c['sigma_s'] / 2 * ws[None, None, :]
    ew, ev = np.linalg.eig(A)
    co = np.linalg.solve(ev, np.ones((len(k), S, 1), dtype=complex))[..., 0]
    C = np.einsum('kij,kj->ki', ev, np.exp(ew * t) * co) @ ws / 2 * f
    C[k > 300] = 0
    s = c['strength'] * 3 / (4 * pi * R ** 3)
    E = np.exp(1j * np.outer(r, k))
    E[:, 1:] *= 2
    ex = s * (E @ C).real / L / r
    w = W * r * r
    err = sqrt(np.sum(w * (phi - ex) ** 2) / np.sum(w * ex ** 2))
    # the finite differences in angle are second order in 1/S near mu = 1 and dominate
    tol = {16: 0.2, 32: 0.17}[c['S']] if c['M'] == 1 else {16: 0.14, 32: 0.075}[c['S']]
    ck.ok(err < tol, 'the scalar flux of the ball does not approximate the transport solution', f'relative error {err:.3e}, allowed {tol}')
    n, x = np.sum(w * phi), np.sum(w * ex)
    ck.ok(abs(n - x) < (0.09 if c['S'] == 16 else 0.04) * x, 'the number of particles of the ball is wrong', f'{n} instead of {x}')
