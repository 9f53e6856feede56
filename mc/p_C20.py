"""C20: the reported error is the error."""
import os, io, contextlib, math, tempfile, shutil
import numpy as np
from itertools import product
import orch

BOUNDS = dict(quick='every problem with a benchmark x 4 final times x with and without scattering scaling x 10 point layouts (symmetric and one-sided, even and odd counts, inside the benchmark range, ending on, next to and far beyond its edge) x 1-3 cell counts x 1-2 repetitions; both curves of every benchmark evaluated inside, on and beyond their range; energy-coupled problems (thin and thick) against both benchmark kinds',
              thorough='additionally every position of the benchmark edge relative to 12 points on a 40-step grid')
ASSUMPTIONS = ['the numerical solve is a stand-in with recognisable answers; benchmarks are cubic polynomials, which cubic interpolation reproduces exactly']
MIN_PER_WORKER = 10
NAMES = ['plane_IC', 'square_IC', 'square_source', 'gaussian_IC', 'gaussian_source', 'MMS']
SETS = NAMES + ['P1_su_olson_rad', 'P1_su_olson_mat', 'P1_gaussian_rad', 'P1_gaussian_mat', 'P1_gaussian_rad_thick', 'P1_gaussian_mat_thick', 'P1_su_olson_rad_thick', 'P1_su_olson_mat_thick']
FILE_ORDER = ['plane_IC', 'square_IC', 'square_source', 'gaussian_IC', 'MMS', 'gaussian_source', '', ''] + SETS[6:]    # which entry of source_type selects which
TIMES = [1.0, 5, 10.0, 31.6228, 2.0, 4.0, 0.4]
R = 3.0         # benchmark range
half = dict(inside=[0.1, 0.7, 1.3, 2.2], near=[0.2, 1.0, 2.9, 3.4], tie=[0.5, 2.5, 3.5], on=[0.5, 3.0, 4.0], end=[0.2, 1.0, 3.0], beyond=[0.4, 3.6, 9.0], none=[3.5, 4.0], just=[0.3, 2.9999, 3.0001], last=[0.1, 0.2, 0.3, 0.4, 2.95, 3.01],
            wide=[0.01, 1.0, 2.0, 2.5, 2.75, 2.85, 20.0])
LAYOUTS = ['sym', 'sym0', 'one', 'one0']


def layout(kind, h):
    h = np.array(h)
    if kind == 'sym':
        return np.concatenate([-h[::-1], h])
    if kind == 'sym0':
        return np.concatenate([-h[::-1], [0.0], h])
    return h if kind == 'one' else np.concatenate([[0.0], h])


def poly(name, t):
    """coefficients of the (made-up) benchmark of a problem at a time: flux and uncollided flux"""
    i, j = SETS.index(name), TIMES.index(t)
    return [2.0 + i + 0.3 * j, -0.4 - 0.01 * i, 0.11 + 0.02 * j, -0.013 * (1 + i)], [50.0 + i, 1.0, 0.0, 0.0]


def cases(tier):
    for n in NAMES:
        for t, sc in product(TIMES[:4], (False, True)):
            if sc and t == 31.6228:
                continue
            for lay in LAYOUTS:
                yield dict(mode='transport', name=n, t=t, scaling=sc, layout=lay, _group='transport')
        for k, nr in product((1, 2, 3), (1, 2)):
            yield dict(mode='lists', name=n, n=k, runs=nr, _group='lists')
    for n in SETS:
        if n != 'MMS':
            yield dict(mode='direct', name=n, _group='benchmark')
    for n, w in product(('square_source', 'gaussian_source'), ('gauss_legendre', 'gauss_lobatto')):
        for b in ('full', 'S2'):
            if (w == 'gauss_legendre') == (b == 'S2'):
                yield dict(mode='energy', name=n, weights=w, bench=b, _group='energy-coupled')
        yield dict(mode='energy', name=n, weights=w, bench='S2', thick=True, _group='energy-coupled')
    if tier == 'thorough':
        for k in range(40):
            for lay in LAYOUTS:
                yield dict(mode='edge', shift=k, layout=lay, _group='edge')


class Points(orch.Recorder):
    """answers with the requested points"""

    def __init__(self, real, layouts):
        super().__init__(real)
        self.layouts = layouts

    def __call__(self, *a, **k):
        out = list(super().__call__(*a, **k))
        x = self.layouts[(len(self.calls) - 1) % len(self.layouts)]
        n = len(self.calls)
        phi = np.cos(np.arange(len(x)) * 1.3 + n) + 0.25 * n
        e = np.sin(np.arange(len(x)) * 1.1 + n) + 0.1 * n
        out[0], out[1], out[2], out[5] = x, phi, np.outer(np.ones(int(self.calls[-1]['N_ang'])), phi), e
        self.answers[-1].update(xs=x, phi=phi, e=e)
        return tuple(out)


_done = []


def files():
    """benchmark files in the scratch folder (written once per process)"""
    import h5py
    if _done and _done[-1] == os.getpid():
        return
    d = tempfile.mkdtemp(dir=os.getcwd())
    b = os.path.join(d, 'moving_mesh_transport', 'benchmarks')
    os.makedirs(b)
    x = np.linspace(0.0, R, 41)
    with h5py.File(os.path.join(b, 'benchmarks.hdf5'), 'w') as f:
        for n, t in product(SETS, TIMES):
            p, q = poly(n, t)
            f.create_dataset(f'{n}/t = {float(t)}', data=np.array([x, np.polyval(p[::-1], x), np.polyval(q[::-1], x)]))
    for nm, k in (('su_olson_1.txt', 1.0), ('su_olson_31.txt', 2.0)):
        xs = SU
        np.savetxt(os.path.join(b, nm), np.array([xs, k + xs, 2 * k - xs ** 2]).T)
    os.chdir(d)
    orch.store(d)
    _done.append(os.getpid())


SU = np.array([0.01, 0.1, 0.5, 1.0, 2.0])


def bench(name, t, x):
    x = np.abs(x)
    return np.where(x <= R, np.polyval(poly(name, t)[0][::-1], x), 0.0)


def go(ck, name, p, m, layouts):
    from moving_mesh_transport import solver as sv
    orch.no_plots()
    r, rec = orch.runner()
    rec = sv.solve = Points(orch._runner['real'], layouts)
    orch.load_yaml(r, p, m)
    from moving_mesh_transport.solver_functions import run_functions as rf
    keep = []
    real = orch._runner.setdefault('main_class', rf.main_class)

    class Kept(real):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            keep.append(self)
    rf.main_class = Kept
    if not getattr(rf.run, '_quiet', False):
        rf.run._quiet = True
        for f in ('olson_henderson_bench',):
            if hasattr(rf.run, f):
                setattr(rf.run, f, lambda *a, **k: None)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            getattr(r, name)(True, True)
    finally:
        rf.main_class = real
    ck.step(len(rec.calls))
    said = [l.split() for l in out.getvalue().splitlines()]
    rms = [float(l[-1]) for l in said if l and l[0] == 'RMSE']
    erms = [float(l[-1]) for l in said if l[:2] == ['energy', 'RMSE']]
    order = [float(l[-1]) for l in said if l[:4] == ['radiation', 'energy', 'density', 'convergence']]
    eorder = [float(l[-1]) for l in said if l[:4] == ['material', 'energy', 'convergence', 'order']]
    return rec, rms, erms, order, eorder, keep[0]


def check(ck, p, rec, rms, order, obj, want, what, label='', lst='RMS_list', runs=1):
    N = p['all']['N_spaces']
    ck.close(rms, want, f'reported {label}error is not the root mean square difference to the benchmark', 1e-7, 1e-9, what)
    n = len(N)
    ck.close(getattr(obj, lst), want[-n:], f'stored {label}errors are not those reported', 1e-7, 1e-9, what)
    wo = [-math.log(want[k * n + i] / want[k * n + i - 1]) / math.log(N[i] / N[i - 1]) for k in range(runs) for i in range(1, n)]
    ck.close(order, wo, f'reported {label}convergence order is wrong', 0, 0.0051, what)


def config(name, t, n=2, runs=1, scaling=False):
    p, m = orch.base(name)
    p['all'].update(tfinal=t, N_spaces=[4, 8, 6][:n], Ms=[1, 3, 2][:n], N_runs=runs, c_scaling=scaling)
    p[name].update(N_angles=[2, 4, 6][:n], x0=[0.5, 0.7, 0.9][:n], benchmarking=True)
    return p, m


def run(case, ck):
    files()
    globals()['_' + case['mode']](case, ck)


def expected(name, p, rec, scaling, t, c):
    out = []
    for a in rec.answers:
        if scaling:
            w = c * math.exp(-(1 - c) * t) * bench(name, t * c, a['xs'] * c)
        else:
            w = bench(name, t, a['xs'])
        out.append(float(np.sqrt(np.mean((a['phi'] - w) ** 2))))
    return out


def _transport(case, ck):
    name, t, sc = case['name'], case['t'], case['scaling']
    for k, h in half.items():
        p, m = config(name, t, 2, 1, sc)
        c = p['all']['sigma_s'] / p['all']['sigma_t']
        lays = [layout(case['layout'], np.array(h) / (c if sc else 1.0)), layout(case['layout'], half['inside'])]
        rec, rms, erms, order, eorder, obj = go(ck, name, p, m, lays)
        check(ck, p, rec, rms, order, obj, expected(name, p, rec, sc, t, c), f'{k} {case["layout"]}')
        ck.ok(not erms, 'an energy error is reported for a problem without material energy')
        ck.state(name, t, sc, k, case['layout'])
    ck.outcome('scaled' if sc else 'plain')


def _edge(case, ck):
    h = np.linspace(0.05, 0.05 + 11 * 0.27, 12) + 0.0067 * case['shift'] * 2
    p, m = config('square_IC', 1.0)
    rec, rms, erms, order, eorder, obj = go(ck, 'square_IC', p, m, [layout(case['layout'], h)])
    check(ck, p, rec, rms, order, obj, expected('square_IC', p, rec, False, 1.0, 0.4), f'{h}')
    ck.state(case['shift'], case['layout'])


def _direct(case, ck):
    """the benchmark object itself: both of its curves, inside, at and beyond their range"""
    from moving_mesh_transport.loading_and_saving.load_bench import load_bench
    name = case['name']
    st = np.zeros(16, dtype=int)
    st[FILE_ORDER.index(name)] = 1
    for t, (k, h) in product(TIMES, half.items()):
        x = np.array(h)
        out = load_bench(st, t, 0.5, 1.0, False)(x)
        p, q = poly(name, t)
        for n, c in enumerate((p, q)):
            ck.close(out[n], np.where(x <= R, np.polyval(c[::-1], x), 0.0), 'the benchmark is not the stored curve, zero beyond it', 1e-7, 1e-9, f'{name} t={t} {k} curve {n}')
        ck.state(name, t, k)
        ck.step()


def _lists(case, ck):
    name = case['name']
    lays = [layout('sym', half[k]) for k in ('near', 'inside', 'wide')][:case['n']]
    p, m = config(name, 1.0, case['n'], case['runs'])
    rec, rms, erms, order, eorder, obj = go(ck, name, p, m, lays)
    ck.ok(len(rec.calls) == case['n'] * case['runs'], 'wrong number of runs')
    check(ck, p, rec, rms, order, obj, expected(name, p, rec, False, 1.0, 0.4), 'lists', runs=case['runs'])
    ck.state(name, case['n'], case['runs'])
    ck.outcome('lists')


def _energy(case, ck):
    name, b, thick = case['name'], case['bench'], case.get('thick', False)
    for t in (1.0, 31.6228):
        for wide in (False, True):
            p, m = config(name, t, 2)
            p['all'].update(problem_name='su_olson', radiative_transfer={'none': False}, weights=case['weights'], cv_const=0.03)
            p[name].update(bench_type=b, x0=[400.0 if thick and name == 'square_source' else 0.5] * 2)
            if name == 'gaussian_source':
                p[name]['sigma'] = 300 if thick else 0.5
            if b == 'full' and wide:
                continue
            lays = [SU] if b == 'full' else [layout('sym', half['wide' if wide else 'inside']), layout('one', half['near'])]
            rec, rms, erms, order, eorder, obj = go(ck, name, p, m, lays)
            k = 1.0 if t == 1.0 else 2.0
            kind = 'su_olson' if name == 'square_source' else 'gaussian'
            tail = '_thick' * thick
            w = [(k + SU, 2 * k - SU ** 2) if b == 'full' else (bench(f'P1_{kind}_rad{tail}', t, a['xs']), bench(f'P1_{kind}_mat{tail}', t, a['xs'])) for a in rec.answers]
            f = lambda u, v: float(np.sqrt(np.mean((u - v) ** 2)))
            check(ck, p, rec, rms, order, obj, [f(a['phi'], q[0]) for a, q in zip(rec.answers, w)], f'{t} {wide}')
            check(ck, p, rec, erms, eorder, obj, [f(a['e'], q[1]) for a, q in zip(rec.answers, w)], f'{t} {wide}', 'energy ', 'RMS_list_energy')
            ck.state(name, b, t, wide, thick, case['weights'])
    ck.outcome('energy')
