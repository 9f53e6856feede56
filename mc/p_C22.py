"""C22: the closed forms and reference tables a run is plotted against solve the problem of that run."""
import numpy as np
import io, contextlib, os
from math import pi
from itertools import product

BOUNDS = dict(quick='moving shock: 4 shock speeds x 3 switch-off times x 4 times x 14 directions x 13 places; its scalar flux and error for 2-16 ordinates and 1-3 saved times; steady gaussian absorber: 4 half widths x 3 quadratures; constant absorber; all 44 entries of the slab albedo tables; both times of the square source table; runs of other problems with and without the reference',
              thorough='40 directions, 60 places, 9 times, 6 speeds, up to 64 ordinates')
ASSUMPTIONS = ['the oracle integrates the opacity function of the repository along the characteristics; the tables are recomputed with an independent slab solver (linear characteristics, 64 ordinates, 2000 cells) and an independent time-dependent slab solver (linear elements, 64 ordinates, 400 cells)',
               'points on a front are excluded']
MIN_PER_WORKER = 8
X0 = -5.0


def cases(tier):
    deep = tier == 'thorough'
    tm = (0.4, 2.3, 6.0, 11.0) if not deep else (0.05, 0.4, 1.0, 2.3, 4.0, 6.0, 8.0, 11.0, 20.0)
    for v, ts, t in product((0.0, 0.05, 0.2, 0.45) if not deep else (0.0, 0.01, 0.05, 0.2, 0.3, 0.45), (0.7, 3.0, 50.0), tm):
        if v * t < -X0:
            yield dict(what='shock', v=v, ts=ts, t=t, _group='shock')
    for S, v, n, ts in product((2, 4, 16) if not deep else (2, 3, 4, 8, 16, 64), (0.0, 0.2), (1, 2, 3), (2.0, 50.0)):
        yield dict(what='shock flux', S=S, v=v, n=n, ts=ts, _group='shock flux')
    for x0, S, q in product((0.5, 2.0, 5.0, 9.0), (2, 4, 16) if not deep else (2, 4, 16, 64), ('gauss_legendre', 'gauss_lobatto')):
        yield dict(what='gaussian', x0=x0, S=S, q=q, _group='gaussian')
    for x0 in (0.5, 2.0, 5.0):
        yield dict(what='constant', x0=x0, _group='constant')
    for k in (1, 2):
        yield dict(what='siewert', k=k, _group='siewert')
        yield dict(what='siewert medium', k=k, _group='siewert medium')
    for t in (1.0, 5.0):
        yield dict(what='square source', t=t, _group='square source')


def opacity(name, v=0.0):
    import real
    s = real.System(dict(problem='boundary', sigfunc=name, Msigma=1, M=1, N=2, S=2, x0=5.0, sigma_s=0.0, sedov_v0=v, bnd_on=[1, 0], bnd_strength=1.0, bnd=True))
    return lambda x, t: np.array(s.sig.sigma_function(np.array(x, dtype=float), float(t)))


Z, W = np.polynomial.legendre.leggauss(40)


def depth(sig, mu, t, x, xb, v=None):
    """optical depth of the ray that reaches x at t with direction cosine mu from xb"""
    te = t - (x - xb) / mu
    br = [xb, x]
    if v is not None:
        # the ray is at s at time te + (s - xb)/mu; the shock at -v t
        s = (-v * (te - xb / mu)) / (1 + v / mu)
        if xb < s < x:
            br = [xb, s, x]
    d = 0.0
    for a, b in zip(br[:-1], br[1:]):
        n = max(1, int(b - a) + 1)
        for k in range(n):
            l, r = a + (b - a) * k / n, a + (b - a) * (k + 1) / n
            q = l + (r - l) * (Z + 1) / 2
            d += sum(w * (r - l) / 2 * float(sig([s], te + (s - xb) / mu)[0]) for s, w in zip(q, W))
    return d / mu


def shock(sig, v, ts, mu, t, x):
    """1 between the switch on and the switch off of the left boundary"""
    if mu <= 0:
        return 0.0
    te = t - (x - X0) / mu
    if min(abs(te), abs(te - ts)) < 1e-9:
        return None
    if te < 0 or te > ts:
        return 0.0
    return float(np.exp(-depth(sig, mu, t, x, X0, v)))


class Plots:
    """records what is drawn"""

    def __init__(self, rf):
        self.rf, self.lines = rf, []

    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        self.old = self.rf.plt
        rec = self

        class P:
            def plot(self, x, y, *a, **k):
                rec.lines.append((np.array(x, dtype=float), np.array(y, dtype=float), k.get('label')))

            def __getattr__(self, n):
                return lambda *a, **k: None
        self.rf.plt = P()
        return self

    def __exit__(self, *a):
        self.rf.plt = self.old


class Results:
    """what a finished run hands over"""

    def __init__(self, **k):
        self.__dict__.update(xs=None, phi=None, e=None, psi=None, ws=None, angles=None, x0=[0.5], exit_dist=np.zeros((2, 2)), tfinal=1.0, fake_sedov_v0=0.0, t0=1.0, eval_array=np.array([1.0]), exit_phi=np.zeros((1, 2)),
                             sigma_func=dict(constant=0, gaussian=0, siewert1=0, siewert2=0, fake_sedov=0))
        self.__dict__.update(k)

    def main(self, *a):
        pass


def public(rf, ck, name, res):
    """the public entry point of the run object on a finished run"""
    r = rf.run()
    r.parameters = r.mesh_parameters = {}
    old = rf.main_class
    rf.main_class = lambda *a: res
    out = io.StringIO()
    try:
        with Plots(rf) as p, contextlib.redirect_stdout(out):
            getattr(r, name)(False, True)
    finally:
        rf.main_class = old
    ck.step()
    return p.lines, out.getvalue(), r


def quad(S, q):
    from moving_mesh_transport.solver_classes.functions import quadrature
    mus, ws = quadrature(S, q)
    return np.array(mus), np.array(ws) / np.sum(ws)


def run(case, ck):
    from moving_mesh_transport.solver_functions import run_functions as rf
    globals()['run_' + case['what'].replace(' ', '_')](case, ck, rf)
    ck.outcome(case['_group'])


def run_shock(case, ck, rf):
    deep = ck.tier == 'thorough'
    v, ts = case['v'], case['ts']
    sig = opacity('fake_sedov', v)
    r = rf.run()
    r.v0, r.t0_source = v, ts
    mus = [1.0, 0.9830, 0.8, 0.6, 0.41, 0.3, 0.2, 0.11, 0.03] + [-0.02, -0.3, -0.61, -0.9, -1.0] if not deep else list(np.linspace(1, 0.02, 40)) + [-1.0, -0.5]
    xs = [-4.9999, -4.9, -4.0, -2.71, -1.3, -0.5, -0.05, 0.0, 0.1, 0.77, 2.0, 3.9, 5.0] if not deep else list(np.linspace(-4.99, 5.0, 60))
    t = case['t']
    for mu, x in product(mus, xs):
        want = shock(sig, v, ts, mu, t, x)
        if want is None:
            continue
        with contextlib.redirect_stdout(io.StringIO()):
            got = r.fake_sedov(mu, t, x)
        ck.step()
        ck.state(v, ts, t, mu, x)
        # optical depths above 40 are cut off on purpose
        ck.close(got, want, 'the shock reference is not the attenuation along the characteristic', 1e-7, 1e-16, (v, ts, t, mu, x))


def run_shock_flux(case, ck, rf):
    mus, ws = quad(case['S'], 'gauss_legendre')
    v, ts, t = case['v'], case['ts'], 6.0
    sig = opacity('fake_sedov', v)
    n = case['n']
    xs = np.tile(np.linspace(-5.0, 5.0, 201), (n, 1))
    phi = np.array([0.1 * (i + 1) + 0.02 * xs[0] for i in range(n)])
    res = Results(xs=xs, phi=phi, psi=np.zeros((n, len(mus), 201)), ws=ws, angles=mus, x0=[5.0], tfinal=t, fake_sedov_v0=v, t0=ts, eval_array=np.linspace(2, t, n), exit_phi=np.zeros((n, 2)))
    res.sigma_func['fake_sedov'] = 1
    lines, text, r = public(rf, ck, 'boundary_source', res)
    ref = [l for l in lines if l[2] and 'benchmark' in l[2]]
    if not ck.ok(len(ref) == 1, 'the reference is not drawn', len(ref)):
        return
    x, y, _ = ref[0]
    want = np.zeros(len(x))
    for i, xx in enumerate(x):
        for mu, w in zip(mus, ws):
            f = shock(sig, v, ts, mu, t, xx)
            # on the front itself the reference is the value outside
            want[i] += w * (f or 0.0)
    ck.state(case)
    ck.ok(x[0] == -5.0 and x[-1] == 5.0 and len(x) > 20, 'the reference does not cover the domain', x)
    ck.close(y, want, 'the shock reference flux is not the weighted sum over the directions', 1e-7, 1e-12)
    said = [float(l.split()[-1]) for l in text.splitlines() if l.startswith('RMSE')]
    rms = float(np.sqrt(np.mean((np.interp(x, xs[-1], phi[-1]) - want) ** 2)))
    ck.close(said, [rms], 'the reported difference is not that of the final time', 1e-6, 1e-9)


def run_gaussian(case, ck, rf):
    mus, ws = quad(case['S'], case['q'])
    x0 = case['x0']
    sig = opacity('gaussian')
    xs = np.linspace(-x0, x0, 23)
    res = Results(xs=xs, phi=xs * 0, psi=np.zeros((len(mus), 23)), ws=ws, angles=mus, x0=[x0], tfinal=100.0)
    res.sigma_func['gaussian'] = 1
    lines, text, r = public(rf, ck, 'boundary_source', res)
    ref = [l for l in lines if l[2] and 'benchmark' in l[2]]
    if not ck.ok(len(ref) == 1, 'the reference is not drawn', len(ref)):
        return
    x, y, _ = ref[0]
    ck.state(case)
    ck.close(x, xs, 'the reference is at other points', 1e-12, 0)
    want = [sum(w * np.exp(-depth(sig, mu, 1e3, xx, -x0)) for mu, w in zip(mus, ws) if mu > 0) for xx in xs]
    ck.close(y, want, 'the steady absorber reference is not the attenuation by the opacity of the run', 1e-8, 1e-13)


def run_constant(case, ck, rf):
    x0 = case['x0']
    xs = np.linspace(-x0, x0, 23)
    res = Results(xs=xs, phi=xs * 0, psi=np.zeros((2, 23)), ws=np.array([0.5, 0.5]), angles=np.array([-1.0, 1.0]), x0=[x0], tfinal=100.0)
    res.sigma_func['constant'] = 1
    lines, text, r = public(rf, ck, 'boundary_source', res)
    if not ck.ok(len(lines) == 1, 'the reference is not drawn', len(lines)):
        return
    ck.state(case)
    ck.close(lines[0][0], xs, 'the reference is at other points', 1e-12, 0)
    ck.close(lines[0][1], np.exp(-(xs + x0)), 'the steady absorber reference is not the attenuation from the left boundary', 1e-12, 0)


def slab(c, extra, T=5.0, n=2000, K=32):
    """steady slab, unit isotropic flux at the left, mean free path 1, scattering ratio c(x); exit fluxes in the given directions"""
    z, w = np.polynomial.legendre.leggauss(K)
    mu, w = np.concatenate([(z + 1) / 2, extra]), np.concatenate([w / 2, 0 * extra])
    x = np.linspace(0, T, n + 1)
    cx = c(x)
    tau = (x[1] - x[0]) / mu
    e = np.exp(-tau)
    A = (1 - e) / tau
    a, b = A - e, 1 - A
    phi = np.ones(n + 1)
    for it in range(400):
        s = cx * phi / 2
        f, g = np.zeros((n + 1, len(mu))), np.zeros((n + 1, len(mu)))
        f[0] = 1.0
        for i in range(n):
            f[i + 1] = f[i] * e + s[i] * a + s[i + 1] * b
        for i in range(n, 0, -1):
            g[i - 1] = g[i] * e + s[i] * a + s[i - 1] * b
        new = (f + g) @ w
        d = abs(new - phi).max()
        phi = new
        if d < 1e-11:
            return g[0, K:], f[-1, K:]
    raise ValueError('no convergence')


def run_siewert(case, ck, rf):
    k = case['k']
    mus = np.array([-0.9, -0.5, -0.1, 0.1, 0.5, 0.9])
    ex = np.arange(12.0).reshape(6, 2)
    res = Results(xs=np.zeros(3), phi=np.zeros(3), psi=np.zeros((6, 3)), ws=np.ones(6) / 6, angles=mus, x0=[2.5], tfinal=100.0, exit_dist=ex)
    res.sigma_func['siewert%d' % k] = 1
    lines, text, r = public(rf, ck, 'boundary_source', res)
    ref = [l for l in lines if l[2] and 'benchmark' in l[2]]
    mine = [l for l in lines if l[2] and 'exit' in l[2]]
    if not ck.ok(len(ref) == 2 and len(mine) == 2, 'the references are not drawn', len(ref)):
        return
    m = ref[0][0]
    L, R = slab((lambda x: np.exp(-x)) if k == 1 else (lambda x: np.ones_like(x)), m)
    ck.close(m, [0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0], 'directions of the table', 1e-12, 0)
    for i in range(len(m)):
        ck.state(k, i)
        ck.ok(abs(ref[0][1][i] - L[i]) < 2.5e-5, 'a reflected flux of the table is wrong', lambda: f'entry {i}: {ref[0][1][i]} instead of {L[i]:.5f}')
        ck.ok(abs(ref[1][1][i] - R[i]) < (2.5e-5 if k == 2 else 8e-5 * R[i]), 'a transmitted flux of the table is wrong', lambda: f'entry {i}: {ref[1][1][i]} instead of {R[i]:.5e}')
    # the run's own exit fluxes drawn next to them
    ck.close(mine[0][0], -mus, 'left exit directions', 1e-12, 0)
    ck.close(mine[0][1], ex[:, 0], 'left exit flux', 1e-12, 0)
    ck.close(mine[1][0], mus, 'right exit directions', 1e-12, 0)
    ck.close(mine[1][1], ex[:, -1], 'right exit flux', 1e-12, 0)


def run_siewert_medium(case, ck, rf):
    """the medium of the run is that of the table: unit total cross section, scattering ratio 1 or exp(-x) from the left face"""
    import real
    k = case['k']
    s = real.System(dict(problem='boundary', sigfunc='siewert%d' % k, Msigma=6, M=2, N=4, S=2, x0=2.5, sigma_t=1.0, sigma_s=1.0, bnd_on=[1, 0], bnd_strength=1.0, bnd=True))
    s.mesh.move(0.0)
    e = np.array(s.mesh.edges)
    s.sig.sigma_moments(e, 0.0)
    for c in range(4):
        for j in range(3):
            u = np.zeros(3)
            u[j] = 1.0
            s.sig.make_vectors(e, u, c)
            ck.step()
            ck.state(k, c, j)
            got = np.array(s.sig.VV)
            ck.ok(np.abs(got - u).max() < 1e-6, f'the total cross section of the siewert{k} medium is not that of the table', lambda: f'cell {c}, moment {j}: {got}')


def finite_source(t, xs, H=5.0, a=2.5, ss=0.9, N=400, S=64):
    """scalar flux in a slab of half width H between vacuum, unit source in |x| < a from time 0: linear discontinuous elements, RK4"""
    mu, w = np.polynomial.legendre.leggauss(S)
    h = 2 * H / N
    xc = -H + h * (np.arange(N) + 0.5)
    q = (np.abs(xc) < a) * 1.0
    U = np.zeros((S, N, 2))        # average and slope (P1)
    m = mu[:, None]

    def F(U):
        R, Lf = U[..., 0] + U[..., 1], U[..., 0] - U[..., 1]
        up = np.zeros((S, N + 1))
        p = mu > 0
        up[p, 1:] = R[p]
        up[~p, :-1] = Lf[~p]
        s = ss / 2 * np.einsum('m,mnk->nk', w, U)
        s[:, 0] += q / 2
        d = np.empty_like(U)
        d[..., 0] = -m / h * (up[:, 1:] - up[:, :-1])
        d[..., 1] = -3 * m / h * (up[:, 1:] + up[:, :-1] - 2 * U[..., 0])
        return d - U + s[None]
    n = int(np.ceil(t / (0.25 * h)))
    k = t / n
    for _ in range(n):
        a1 = F(U)
        a2 = F(U + k / 2 * a1)
        a3 = F(U + k / 2 * a2)
        a4 = F(U + k * a3)
        U = U + k / 6 * (a1 + 2 * a2 + 2 * a3 + a4)
    phi = np.einsum('m,mnk->nk', w, U)
    e = -H + h * np.arange(N + 1)
    left = np.r_[np.nan, phi[:, 0] + phi[:, 1]]
    right = np.r_[phi[:, 0] - phi[:, 1], np.nan]
    v = np.nanmean([left, right], axis=0)
    return np.interp(xs, e, v)


def run_square_source(case, ck, rf):
    t = case['t']
    for x0, name in ((2.5, True), (0.5, False)):
        res = Results(xs=np.array([0.0, 1.0]), phi=np.array([0.3, 0.2]), psi=np.zeros((2, 2)), ws=np.ones(2) / 2, angles=np.array([-1.0, 1.0]), x0=[x0], tfinal=t)
        lines, text, r = public(rf, ck, 'square_source', res)
        ref = [l for l in lines if l[2] and 'benchmark' in l[2]]
        ck.ok((len(ref) == 1) == name, 'the reference is drawn for another problem', (x0, len(ref)))
        ck.ok(any(np.array_equal(l[0], res.xs) and np.array_equal(l[1], res.phi) for l in lines) == name, 'the solution is not drawn next to the reference')
        if len(ref) != 1:
            continue
        x, y, _ = ref[0]
        want = finite_source(t, x)
        ck.close(x, np.arange(-5, 5.01, 0.5), 'places of the table', 1e-12, 1e-12)
        for i in range(len(x)):
            ck.state(t, i)
            ck.ok(abs(y[i] - want[i]) < 1e-3, 'an entry of the square source table is wrong', lambda: f'x = {x[i]}: {y[i]} instead of {want[i]:.4f}')
