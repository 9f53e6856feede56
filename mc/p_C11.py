"""C11: the analytic uncollided fluxes are the uncollided fluxes of their problems."""
import numpy as np
from itertools import product
from math import erf, exp, pi, sqrt

BOUNDS = dict(quick='7 problems x widths x source durations x S2/full angle x every regime of (time, position): a time menu around every switch, for each a point menu around every wave front and source boundary; strengths 1 and 2.5; shock speeds 0-0.35 x half widths x durations x up to 2048 directions',
              thorough='finer time (25) and position (120) grids, six widths, five durations')
ASSUMPTIONS = ['pulse in a plane slab: exp(-t)/(2t) inside the front; the other slab solutions are superpositions of it', 'points within 1e-6 of a front are compared with either side of it in position and time']
MIN_PER_WORKER = 4


def cases(tier):
    deep = tier == 'thorough'
    W = (0.5, 0.1, 2.0) if not deep else (0.5, 0.1, 2.0, 0.01, 7.0, 1.0)
    T0 = (0.4, 3.0) if not deep else (0.4, 3.0, 1.0, 10.0, 0.05)
    for geom, prob in (('slab', 'plane'), ('slab', 'square'), ('slab', 'gaussian_IC'), ('sphere', 'square')):
        for w in W:
            yield dict(geom=geom, problem=prob, w=w, t0=0.4, S=4, deep=deep, _group=prob)
    for prob, S, w, t0 in product(('square_source', 'gaussian_source'), (2, 4), W, T0):
        yield dict(geom='slab', problem=prob, w=w, t0=t0, S=S, deep=deep, _group=prob + (' S2' if S == 2 else ''))
    if deep:
        for t0 in T0:
            yield dict(geom='slab', problem='gaussian_source', w=6.0, t0=t0, S=2, deep=deep, _group='gaussian_source S2 wide')
    else:
        yield dict(geom='slab', problem='gaussian_source', w=6.0, t0=2.0, S=2, deep=deep, _group='gaussian_source S2 wide')
    for geom, prob in (('slab', 'plane'), ('slab', 'square'), ('slab', 'gaussian_source'), ('sphere', 'square'), ('slab', 'boundary')):
        yield dict(geom=geom, problem=prob, w=0.5, t0=0.4, S=4, off=True, deep=deep, _group='off')
    V0 = (0.0, 0.1, 0.35) if not deep else (0.0, 0.01, 0.1, 0.3, 0.35, 0.6)
    for S in (512, 2048) if not deep else (256, 512, 1024, 2048):
        for v0 in (0.1, 0.3):
            yield dict(geom='slab', problem='boundary', sedov=True, v0=v0, w=5.0, t0=2.0, S=S, few=True, deep=deep, _group='many directions')
    for v0, w, t0 in product(V0, (1.0, 2.0, 5.0), (0.5, 2.0, 20.0)):
        for S in (2, 4, 8) if not deep else (2, 4, 8, 16, 64):
            yield dict(geom='slab', problem='boundary', sedov=True, v0=v0, w=w, t0=t0, S=S, deep=deep, _group='beams into a moving shock')


GZ, GW = np.polynomial.legendre.leggauss(16)


def gl(f, a, b, breaks=()):
    p = sorted({a, b, *[q for q in breaks if a < q < b]})
    s = 0.0
    for l, r in zip(p[:-1], p[1:]):
        # graded towards both ends (1/s is nearly singular when a front is close to its source)
        q = [0.0] + [10.0 ** -k for k in (4, 3, 2, 1)]
        q = [l + (r - l) * v / 2 for v in q] + [r - (r - l) * v / 2 for v in [1.0] + q[::-1]]
        for lo, hi in zip(q[:-1], q[1:]):
            y = (hi - lo) / 2 * GZ + (hi + lo) / 2
            s += (hi - lo) / 2 * np.dot(GW, [f(q) for q in y])
    return s


def sq(x, t, w):
    if t <= 0:
        return 1.0 if abs(x) <= w else 0.0
    ov = min(x + t, w) - max(x - t, -w)
    return exp(-t) * max(ov, 0.0) / (2 * t)


def gs(x, t, s):
    if t <= 1e-9:
        return exp(-t - (x / s) ** 2)
    return exp(-t) * s * sqrt(pi) / (4 * t) * (erf((x + t) / s) - erf((x - t) / s))


def want(c, x, t):
    p, w, t0 = c['problem'], c['w'], c['t0']
    T = min(t, t0)
    if c['geom'] == 'sphere':
        # uniform ball, total emission 1 spread over all directions
        if t == 0:
            return 3 / (4 * pi * w ** 3) if x <= w else 0.0
        # fraction of directions whose backward point lies inside the ball
        if x == 0:
            frac = 2.0 if t <= w else 0.0
        else:
            mu = (x * x + t * t - w * w) / (2 * x * t)
            frac = 1 - min(1.0, max(-1.0, mu))
        return 3 / (4 * pi * w ** 3) / 2 * frac * exp(-t)
    if p == 'plane':
        return exp(-t) / (2 * t) if abs(x) <= t else 0.0
    if p == 'square':
        return sq(x, t, w)
    if p == 'gaussian_IC':
        return gs(x, t, w)
    if p == 'square_source' and c['S'] == 2:
        r3 = sqrt(3)
        f = lambda s: exp(-s) * 0.5 * ((abs(x - s / r3) <= w) * 1.0 + (abs(x + s / r3) <= w) * 1.0)
        return gl(f, t - T, t, [r3 * abs(x - w), r3 * abs(x + w)])
    if p == 'square_source':
        return gl(lambda s: sq(x, s, w), t - T, t, [abs(x - w), abs(x + w)])
    if p == 'gaussian_source' and c['S'] == 2:
        r3 = sqrt(3)
        f = lambda s: exp(-s) * 0.5 * (exp(-((x - s / r3) / w) ** 2) + exp(-((x + s / r3) / w) ** 2))
        br = [r3 * abs(x) + k * w for k in (-4, -2, -1, 0, 1, 2, 4)]
        return gl(f, t - T, t, br)
    if p == 'gaussian_source':
        return gl(lambda s: gs(x, s, w), t - T, t, [abs(x) + k * w for k in (-4, -2, -1, 0, 1, 2, 4)])


def times(c):
    w, t0 = c['w'], c['t0']
    ts = [1e-3, 0.1, 0.3, w / 2, w, 1.5 * w, 2.2 * w, 1.0, 3.7]
    if 'source' in c['problem']:
        ts += [t0 / 2, t0, t0 + 0.01, t0 + w / 2, t0 + w, t0 + 2 * w, t0 + 3.0, t0 + sqrt(3) * w * 0.5, t0 + sqrt(3) * w * 1.5]
    if c['deep']:
        ts += list(np.geomspace(0.002, 9.0, 25))
    if c['problem'] in ('square', 'gaussian_IC'):
        ts.append(0.0)
    if c['problem'] == 'gaussian_source' and c['S'] == 4:
        ts = [t for t in ts if t <= 4.0 * max(c['w'], 0.5)]
    return sorted(set(ts))


def fronts(c, t):
    w, t0 = c['w'], c['t0']
    v = 1 / sqrt(3) if c['S'] == 2 and 'source' in c['problem'] else 1.0
    s = max(t - t0, 0.0) if 'source' in c['problem'] else t
    if c['problem'] == 'plane':
        return [t]
    return sorted({abs(q) for q in (w, v * t + w, v * t - w, v * s + w, v * s - w)})


def xs_of(c, t):
    f = fronts(c, t)
    top = max(f) + 1.0
    p = [0.0] + f
    for q in f:
        p += [q * (1 - 1e-3), q * (1 + 1e-3), q / 2, q + 0.3, abs(q - 0.2)]
    p += list(np.linspace(0.01, top, 9 if not c['deep'] else 120))
    p = sorted(set(p))
    if c['geom'] == 'slab':
        p = [-x for x in p[::-1] if x > 0] + p
    return np.array(p)


# --- beams entering at the left edge into an opacity profile with a moving shock
DZ, DW = np.polynomial.legendre.leggauss(30)


def beam(mu, t, x, xb, v0, t0, off=0.0):
    """attenuated unit beam along mu that enters at xb between time 0 and t0; off shifts the entry time"""
    if mu <= 0:
        return 0.0
    te = t - (x - xb) / mu + off
    if te < 0 or te > t0:
        return 0.0
    te -= off
    sh = (-v0 * te * mu + v0 * xb) / (mu + v0)
    cuts = [xb] + ([sh] if xb < sh < x else []) + [x]
    d = 0.0
    for a, b in zip(cuts[:-1], cuts[1:]):
        n = max(1, int(2 * (b - a)) + 1)
        for k in range(n):
            l, r = a + (b - a) * k / n, a + (b - a) * (k + 1) / n
            y = l + (r - l) * (DZ + 1) / 2
            m = 0.5 * (l + r)
            tm = te + (m - xb) / mu
            tt = te + (y - xb) / mu
            s = np.full_like(y, 0.2) if m < -v0 * tm else np.exp(-((y + 1 + v0 * tt) / 2) ** 2)
            d += (r - l) / 2 * np.dot(DW, s)
    return exp(-d / mu)


def sedov(c, ck):
    import real
    from moving_mesh_transport.solver_classes.uncollided_solutions import uncollided_solution
    v0, X, t0 = c['v0'], c['w'], c['t0']
    sols = {}
    for st in (1.0, 2.5):
        b = real.make_build(dict(geom='slab', problem='boundary', sigfunc='fake_sedov', sigma_s=0.0, S=c['S'], t0=t0, x0=X, sedov_v0=v0,
                                 strength=st, bnd_on=[1, 0], bnd_strength=st, bnd=True, uncollided=True))
        sols[st] = uncollided_solution(b)
    mus, ws = np.polynomial.legendre.leggauss(c['S'])
    ck.close(np.array(b.mus), mus, 'directions', 1e-12, 1e-13)
    T = [0.01, 0.3, 0.9, t0, t0 + 0.4, 1.7 * X, 2.5, 6.0] + ([X, 3 * X, 11.0, t0 + 3.0, 0.05] if c['deep'] else [])
    for t in sorted(set(T)):
        if v0 * t >= X:
            continue
        p = [-X, -X + 1e-3, -v0 * t]
        for m in mus[mus > 0][::max(1, c['S'] // 64) * 8 if c.get('few') else 1]:
            for q in (-X + m * t, -X + m * max(t - t0, 0.0)):
                p += [q - 1e-3, q + 1e-3]
        p = np.array(sorted({q for q in p + list(np.linspace(-X, X, 9 if not c['deep'] else 41)) if -X <= q <= X}))
        got = np.array(sols[1.0].uncollided_solution(p.copy(), t))
        two = np.array(sols[2.5].uncollided_solution(p.copy(), t))
        ck.step()
        ck.close(two, 2.5 * got, 'uncollided flux is not proportional to the source strength', 1e-12, 1e-14, f't={t}')
        if c.get('few'):
            ck.ok(np.all(np.isfinite(got)), 'uncollided flux is not finite', lambda: f'beams into a shock: t={t} {got}')
            got, p = got[::25], p[::25]
        for x, g in zip(p, got):
            ex = [sum(w * beam(m, t, x, -X, v0, t0, o) for m, w in zip(mus, ws)) for o in (-1e-6, 0.0, 1e-6)]
            ck.ok(min(ex) - 1e-6 <= g <= max(ex) + 1e-6, 'uncollided flux is wrong', lambda: f'beams into a shock: t={t} x={x!r}: got {g!r}, expected {ex}')
            ck.ok(np.isfinite(g), 'uncollided flux is not finite')
        ck.state(c, t)
    ck.outcome('beams into a moving shock')


def run(case, ck):
    if case.get('sedov'):
        return sedov({k: v for k, v in case.items() if not k.startswith('_')}, ck)
    import real
    from moving_mesh_transport.solver_classes.uncollided_solutions import uncollided_solution
    c = {k: v for k, v in case.items() if not k.startswith('_')}
    p = c['problem']
    sols = {}
    for st in (1.0, 2.5):
        k = dict(geom=c['geom'], problem=p, S=c['S'], t0=c['t0'], strength=st, tnodes=60, uncollided=not c.get('off', False))
        k['sigma' if 'gaussian' in p else 'x0'] = c['w']
        sols[st] = uncollided_solution(real.make_build(k))
    for t in times(c):
        xs = xs_of(c, t)
        keep = xs.copy()
        got = np.array(sols[1.0].uncollided_solution(xs, t))
        ck.step()
        ck.ok(np.array_equal(xs, keep), 'the points are modified')
        ck.ok(got.shape == xs.shape, 'wrong number of values')
        if c.get('off'):
            ck.ok(np.all(got == 0), 'uncollided flux although it is switched off', f't={t} {got}')
            continue
        ck.ok(np.all(np.isfinite(got)), 'uncollided flux is not finite', lambda: f't={t} x={xs[~np.isfinite(got)]}')
        ck.ok(np.all(got >= -1e-12), 'uncollided flux is negative', lambda: f't={t} x={xs[got < -1e-12]} {got[got < -1e-12]}')
        two = np.array(sols[2.5].uncollided_solution(xs, t))
        ck.close(two, 2.5 * got, 'uncollided flux is not proportional to the source strength', 1e-12, 1e-14, f't={t}')
        # evaluated point by point it is the same (no memory between points)
        one = np.array([sols[1.0].uncollided_solution(np.array([x]), t)[0] for x in xs[::5]])
        ck.close(one, got[::5], 'the value at a point depends on the other points', 1e-11, 1e-13)
        f = fronts(c, t)
        for x, g in zip(xs, got):
            ex = [want(c, x, t)]
            if min(abs(abs(x) - q) for q in f) < 1e-6:
                ex += [want(c, x + d, max(t + e, 0.0)) for d in (-2e-6, 0.0, 2e-6) for e in (-4e-6, 0.0, 4e-6)]
            tol = 2e-7 if len(ex) == 1 else 2e-5
            lo, hi = min(ex), max(ex)
            ck.ok(lo - tol * max(1.0, abs(lo)) <= g <= hi + tol * max(1.0, abs(hi)), 'uncollided flux is wrong', lambda: f't={t} x={x!r}: got {g!r}, expected {ex}')
        ck.state(c, t)
    ck.outcome((c['geom'], p))
