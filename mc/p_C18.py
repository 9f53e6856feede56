"""C18: a solver run returns the solution of the semi-discrete system at the requested times."""
import os
import numpy as np
from itertools import product

BOUNDS = dict(quick='every problem type, geometry, opacity and source treatment x moving/static x {final time only, 4 choices of saved times} x {own points, given points} x 5 integrators, 2 step limits; orders 0-5, 2-12 ordinates, 1-16 cells, edge speeds 0.58-2, final times 0.2-12; compared at every returned point with an independently wired integration, and with the particle balance',
              thorough='orders 0-5, all integrators for every problem, every nonempty subset of 5 saved times')
ASSUMPTIONS = ['solutions of two integrators at tolerance 1e-8 / 1e-9 are compared with a tolerance of 2e-5 of the largest value', 'scipy solve_ivp integrates correctly']
MIN_PER_WORKER = 5
PTS = [-30.0, -1.3, -0.5, -0.1, 0.0, 0.03, 0.25, 0.5, 0.77, 1.0, 1.4, 2.0, 40.0]
EV = [None, [0.3, 0.7, 1.0], [1.0], [0.4, 0.45], [0.0, 0.5, 1.0]]


def problems(deep):
    for M in (0, 2) if not deep else (0, 1, 2, 3, 4, 5):
        for mov in (True, False):
            k = dict(M=M, moving=mov, N=4, S=4)
            for p in ('square', 'square_source', 'gaussian_IC', 'gaussian_source', 'MMS', 'self_sim', 'gaussian_IC_noniso'):
                yield dict(k, problem=p, strength=1.0 if p == 'MMS' else 1.7, sigma_t=1.3 if p != 'MMS' else 1.0, sigma_s=0.9 if p != 'MMS' else 1.0)
            yield dict(k, problem='plane', x0=0.05 if mov else 0.5, strength=1.7)
            for p in ('square', 'square_source', 'gaussian_IC', 'gaussian_source'):
                yield dict(k, problem=p, strength=1.3, sigma_s=0.8, uncollided=True)
            for v in (0.0, 0.3):
                if mov or v == 0.0:
                    yield dict(k, problem='boundary', x0=2.0, sedov_v0=v, bnd_on=[1, 0], bnd_strength=2.5, bnd=True, t0=0.6, sigma_t=1.1, sigma_s=0.9)
            for f in ('gaussian', 'siewert1', 'fake_sedov'):
                yield dict(k, problem='gaussian_source', sigfunc=f, Msigma=1, sigma_s=0.7, sedov_v0=0.3)
            for u in (False, True):
                yield dict(k if not u or deep else dict(k, M=M // 2, N=2, S=2), geom='sphere', problem='square', x0=0.5, weights='gauss_lobatto', sigma_t=1.2 if not u else 1.0, sigma_s=0.8, uncollided=u, strength=1.3)
            if mov:
                yield dict(k, geom='sphere', problem='plane', x0=0.05, weights='gauss_lobatto', strength=1.3)
        yield dict(M=M, N=8, S=2, problem='square', finite=True, width=5.0, pad=2.5, moving=True, sigma_s=0.5)
        yield dict(M=M, N=8, S=2, problem='square_source', finite=True, width=5.0, pad=2.5, moving=True, sigma_s=0.5)
    # larger and longer
    yield dict(problem='gaussian_source', N=12, S=6, M=4, tfinal=3.0, t0=2.2, x0=2.5, sigma=0.6, strength=0.2, sigma_t=2.0, sigma_s=1.9)
    yield dict(problem='square', N=16, S=12, M=1, tfinal=2.5, strength=0.2, sigma_t=0.3, sigma_s=0.3)
    yield dict(problem='boundary', N=10, S=6, M=3, sigfunc='fake_sedov', Msigma=4, x0=2.0, sedov_v0=0.25, bnd_on=[1, 1], bnd_strength=0.4, bnd=True, t0=1.5, tfinal=2.5, sigma_t=1.3, sigma_s=0.9)
    yield dict(problem='square_source', N=8, S=4, M=5, tfinal=2.0, t0=1.3, strength=0.2, sigma_s=0.4, moving=False)
    yield dict(problem='gaussian_IC', N=1, S=2, M=3)
    # other edge speeds, long runs, wide and narrow problems
    yield dict(problem='gaussian_IC', N=4, S=2, M=1, speed=3 ** -0.5, sigma_s=0.9, strength=1.3)
    yield dict(problem='square', N=8, S=4, M=1, speed=1.5, sigma_s=0.9, strength=1.3)
    yield dict(problem='square_source', N=4, S=2, M=1, speed=2.0, tfinal=12.0, t0=5.0, sigma_t=0.4, sigma_s=0.4, strength=0.3)
    yield dict(problem='plane', N=2, S=2, M=2, x0=1e-9, uncollided=True, tfinal=8.0, sigma_s=1.0, strength=20.0)
    yield dict(problem='gaussian_source', N=4, S=2, M=1, x0=30.0, sigma=12.0, tfinal=6.0, t0=20.0, sigma_s=0.9)
    yield dict(problem='square', N=4, S=4, M=1, x0=0.05, sigma_t=6.0, sigma_s=5.0, tfinal=0.2)
    yield dict(problem='gaussian_IC', N=3, S=8, M=1)
    yield dict(problem='gaussian_source', N=8, S=8, M=1, weights='gauss_lobatto')
    # meshes of the optically thick problems
    w = [[[0.0, 0.5, 1.0], [0.0, 0.1, 0.2], [0.5, 0.7, 1.0], [0.52, 0.7, 1.1]]]
    for mov in (True, False):
        yield dict(problem='gaussian_source', N=4, S=2, M=1, thick=True, moving=mov, sigma_s=0.8, x0=2.5, strength=1.3)
        yield dict(problem='square', N=8, S=2, M=1, thick=True, moving=mov, sigma_s=0.8, strength=1.3)
    yield dict(problem='gaussian_source', N=4, S=2, M=2, thick=True, move_type=[0, 1, 0, 0], wave=w, pad=1.2, moving=False, sigma_s=0.8, strength=1.3)


def cases(tier):
    # expensive ones first, so that the workers finish together
    cost = lambda c: -c.get('S', 4) * c.get('N', 4) * (c.get('M', 1) + 1) ** 2 * (4 if c.get('geom') == 'sphere' else 3 if c['problem'] == 'MMS' else 1) * (2 if c.get('uncollided') else 1)
    return sorted(_cases(tier), key=cost)


def _cases(tier):
    deep = tier == 'thorough'
    for c in problems(deep):
        g = f"{c.get('geom', 'slab')} {c['problem']}{' uncollided' if c.get('uncollided') else ''}"
        # dense output of the integrator is less accurate than its steps: short steps for the high orders
        tf = c.get('tfinal', 1.0)
        runs = [dict(ev=e and [t * tf for t in e], pts=i % 2 == 1, **(dict(mx=0.05) if c.get('M', 1) > 3 else {})) for i, e in enumerate(EV) if not (i == 4 and c.get('uncollided'))]
        if tf > 5.0:
            runs.append(dict(ev=[tf * (0.02 + 0.98 * (k / 11) ** 2) for k in range(12)], pts=True))
        if deep:
            runs += [dict(ev=[t * tf for i, t in enumerate((0.1, 0.3, 0.4, 0.8, 1.0)) if m >> i & 1]) for m in range(1, 32)]
            runs += [dict(ev=[t * tf for t in EV[1]], int=i) for i in ('RK45', 'RK23', 'LSODA', 'Radau', 'BDF')]
        yield dict(c, _group=g, _runs=runs)
    for i, c in product(('RK45', 'RK23', 'LSODA', 'Radau', 'BDF'), (dict(problem='gaussian_source', M=1), dict(problem='square', M=1, geom='sphere', weights='gauss_lobatto'), dict(problem='plane', M=1, x0=0.1))):
        yield dict(c, N=2, S=2, _group='integrators', _runs=[dict(ev=EV[1], int=i, mx=mx) for mx in ((0.9,) if i in ('Radau', 'BDF') else (0.9, 0.05))], _tag=i)


def warm_cases(cs):
    return [dict(problem='gaussian_IC', M=0, N=2, S=2, _group='', _runs=[dict(ev=None), dict(ev=[1.0])]), dict(geom='sphere', problem='square', M=0, N=2, S=2, _group='', _runs=[dict(ev=None)])]


def call(c, ev, pts, integrator, mx, rt=1e-8, at=1e-10):
    """solve() exactly as the main class calls it"""
    import real
    from moving_mesh_transport.solver_functions.main_functions import solve
    return solve(tfinal=c['tfinal'], N_space=c['N'], N_ang=c['S'], M=c['M'], x0=float(c['x0']), t0=float(c['t0']), sigma_t=float(c['sigma_t']), sigma_s=float(c['sigma_s']), t_nodes=c['tnodes'],
                 source_type=real.source_type(c['problem']), uncollided=bool(c['uncollided']), moving=bool(c['moving']), move_type=np.array(c['move_type']), thermal_couple=real.D(none=1),
                 temp_function=np.array([1, 0]), rt=rt, at=at, e_initial=0.0, choose_xs=pts is not None, specified_xs=pts if pts is not None else 0.0, weights=c['weights'], sigma=float(c['sigma']),
                 particle_v=1.0, edge_v=float(c['speed']), cv0=0.0, estimate_wavespeed=False, find_wave_loc=False, thick=bool(c['thick']), mxstp=mx, wave_loc_array=real.wave(c), find_edges_tol=1e9,
                 source_strength=float(c['strength']), move_factor=float(c['move_factor']), integrator=integrator, l=1.0, save_wave_loc=False, pad=float(c['pad']), leader_pad=float(c['leader_pad']),
                 xs_quad_order=4, eval_times=ev is not None, eval_array=np.array(ev if ev is not None else [1.0]), boundary_on=np.array(c['bnd_on']), boundary_source_strength=float(c['bnd_strength']),
                 boundary_source=int(c['bnd']), sigma_func=real.D(**{k: k == c['sigfunc'] for k in real.SIG}), Msigma=c['Msigma'], finite_domain=int(c['finite']), domain_width=float(c['width']),
                 fake_sedov_v0=float(c['sedov_v0']), test_dimensional_rhs=False, epsilon=1.0, geometry=real.geometry(c))


_home = {}


def home():
    """every worker process has its own folder: the table files are opened for writing"""
    import coeffs, tempfile
    p = os.getpid()
    if p not in _home:
        d = tempfile.mkdtemp(dir=os.getcwd())
        f = os.path.join(d, 'moving_mesh_transport', 'matrix_files')
        os.makedirs(f)
        coeffs.write_files(f, 9)
        _home[p] = d
        os.chdir(d)


_ref = {}


def reference(cfg, ts):
    """states at the times ts by another integration of separately built objects"""
    import real
    from core import canon
    from scipy.integrate import solve_ivp
    key = canon(cfg)
    if key not in _ref:
        _ref.clear()
        s = real.System(cfg)
        s.b.make_IC()
        u0 = np.array(s.b.IC).reshape(-1)
        _ref[key] = (s, [(0.0, u0)])
    s, known = _ref[key]
    out = []
    t0 = s.c['t0']
    for t in ts:
        tb, ub = max((k for k in known if k[0] <= t), key=lambda k: k[0])
        u = ub
        marks = [tb] + [q for q in (t0,) if tb < q < t] + [t]
        for a, b in zip(marks[:-1], marks[1:]):
            if b > a:
                u = solve_ivp(s.F, [a, b], u, method='DOP853' if s.dof > 8 else 'RK45', rtol=1e-9, atol=1e-11, max_step=0.25).y[:, -1]
        known.append((t, u))
        out.append(u)
    return s, out


def run(case, ck):
    home()
    cfg = {k: v for k, v in case.items() if not k.startswith('_')}
    for r in case['_runs']:
        one(ck, cfg, r)
        ck.state(cfg, r)
    ck.outcome(case['_group'])


def one(ck, cfg, r):
    import real, p_C10
    c = real.full(cfg)
    ev = r['ev']
    pts = np.array(PTS if c['geom'] == 'slab' else [x for x in PTS if x >= 0]) if r.get('pts') else None
    xs, phi, psi, ed, ep, e, time, sol, mus, ws, edges, *rest = call(c, ev, pts, r.get('int', 'DOP853'), r.get('mx', 0.9))
    ck.step()
    ts = [c['tfinal']] if ev is None else ev
    s, us = reference(cfg, ts)
    ck.close(mus, s.mus, 'returned ordinates are wrong', 1e-12, 1e-13)
    ck.close(ws / np.sum(ws), s.ws / np.sum(s.ws), 'returned weights are wrong', 1e-12, 1e-13)
    ck.close(rest[-1], s.mus, 'returned ordinates are wrong', 1e-12, 1e-13)
    if ev is None:
        xs, phi, psi, ed, ep = (np.asarray(q)[None] for q in (xs, phi, psi, ed, ep))
    w = np.array(ws)
    for i, (t, u) in enumerate(zip(ts, us)):
        u = u.reshape(s.shape)
        m = real.make_mesh(cfg)
        m.move(t)
        me = np.array(m.edges)
        top = max(np.max(np.abs(u)), 1e-30)
        if i == len(ts) - 1:
            ck.close(edges, me, 'returned edges are not the mesh at the last time', 1e-10, 1e-12)
            ck.close(sol, u, 'returned coefficients are not the solution at the last time', 0.0, 2e-9 + 2e-5 * top, f't={t}')
        x = np.array(xs[i])
        if pts is not None:
            ck.ok(np.array_equal(x, pts), 'given output points are not used')
        else:
            ck.ok(np.all(np.diff(x) > 0) and x[0] >= me[0] and x[-1] <= me[-1] and np.all(np.histogram(x, me)[0] > 0), 'output points do not cover the mesh of their time', lambda: f't={t} {x} edges {me}')
        un = np.array(s.unc.uncollided_solution(x, t)) if c['uncollided'] else 0 * x
        sc = 0.0
        for j, y in enumerate(x):
            ex = p_C10.expected(c['geom'], me, u, y)
            sc = max(sc, max(np.max(np.abs(q)) for q in ex))
        for j, y in enumerate(x):
            ex = p_C10.expected(c['geom'], me, u, y)
            tol = 2e-9 + 5e-5 * sc
            ck.ok(min(np.max(np.abs(psi[i, :, j] - q)) for q in ex) <= tol, 'angular flux is not the solution at its time', lambda: f't={t} x={y} got {psi[i, :, j]} want {ex}')
            ck.ok(min(abs(phi[i, j] - w @ q - un[j]) for q in ex) <= 2 * tol + 1e-9 * abs(un[j]), 'scalar flux is not the solution at its time', lambda: f't={t} x={y} got {phi[i, j]} want {[w @ q + un[j] for q in ex]}')
        bx = np.array([p_C10.expected(c['geom'], me, u, me[0])[0], p_C10.expected(c['geom'], me, u, me[-1])[-1]]).T
        ub = np.array(s.unc.uncollided_solution(np.array([me[0], me[-1]]), t)) if c['uncollided'] else np.zeros(2)
        ck.close(ed[i], bx, 'exit distribution is not the solution at its time', 0.0, 2e-9 + 5e-5 * sc)
        ck.close(ep[i], w @ bx + ub, 'exit flux is not the solution at its time', 1e-9, 4e-9 + 1e-4 * sc)
        balance(ck, c, s, np.array(sol) if i == len(ts) - 1 else u, me, t, w)
        ck.state(cfg, r, t)


def balance(ck, c, s, u, me, t, w):
    """collided-only pulses on an unbounded mesh decay by absorption alone"""
    if c['uncollided'] or c['finite'] or c['sigfunc'] != 'constant' or c['geom'] == 'sphere' or c['problem'] not in ('square', 'gaussian_IC', 'plane', 'square_source') or not c['moving']:
        return
    W = w / np.sum(w)
    tot = lambda v, ed: float(np.sum(W @ v[:, :, 0] * np.sqrt(np.diff(ed))))
    sa = c['sigma_t'] - c['sigma_s']
    k = c['problem']
    if 'source' in k:
        rate = 0.5 * c['strength'] * 2 * c['x0']
        on = min(t, c['t0'])
        want = rate * (on if sa < 1e-12 else (1 - np.exp(-sa * on)) / sa) * np.exp(-sa * (t - on))
    else:
        s.b.make_IC()
        ic = np.array(s.b.IC).reshape(s.shape)
        import real
        mm = real.make_mesh({q: v for q, v in c.items()})
        mm.move(0.0)
        want = tot(ic, np.array(mm.edges)) * np.exp(-sa * t)
    got = tot(u, me)
    ck.close(got, want, 'particles are created or lost', 1e-4, 1e-9, f't={t}')
