"""C24: stored error studies are kept apart and read back by the plots."""
import os, shutil, tempfile
import numpy as np
from itertools import product
import orch

BOUNDS = dict(quick='every ordered pair of keys (problem, final time, treatment, mesh, study of cells or of the order, order, ordinates): save the first, save the second, save the first again with other data, reading every key after each save; three lengths of study',
              thorough='additionally every ordered triple of keys that differ in one or two components')
ASSUMPTIONS = ['the plots read the file that the saver wrote (it is linked to the place where they look for it); single precision of the stored numbers is accepted']
MIN_PER_WORKER = 20
NAMES = ['plane_IC', 'square_IC', 'square_s', 'gaussian_IC', 'MMS', 'gaussian_s']
DEFAULT = dict(kind='plain', source='square_IC', t=1, unc=True, mov=True, major='cells', M=2, ang=8)
TIMES = [1, 5, 10, 1.25, 0.8333333333333334]


def keys():
    """the default key, everything that differs from it in one component, and what differs from that in a second one"""
    out = []

    def add(**k):
        d = dict(DEFAULT, **k)
        if d['major'] == 'Ms':
            d['M'] = 2
        if d['kind'] == 'plain':
            d['ang'] = 8
        if d not in out:
            out.append(d)
    menu = dict(source=NAMES, t=TIMES, unc=[True, False], mov=[True, False], major=['cells', 'Ms'], M=[2, 4, 21])
    add()
    for a in menu:
        for v in menu[a]:
            add(**{a: v})
    for a, b in product(menu, menu):
        if a < b and a != 'source':
            for v, w in product(menu[a][1:3], menu[b][1:]):
                add(**{a: v, b: w})
    # studies of the coupled problems, by number of ordinates
    for s, thick, ang, t in product(('square_s', 'gaussian_s'), (False, True), (2, 8), (1, 10, 31)):
        if not thick and ang == 8:
            continue        # nothing reads those
        add(kind='coupled', source=s, thick=thick, ang=ang, t=t)
    for k in (dict(mov=False), dict(unc=False), dict(major='Ms'), dict(M=4), dict(major='Ms', mov=False)):
        add(kind='coupled', source='square_s', thick=False, ang=2, **k)
    for k in (dict(), dict(t=10), dict(mov=False), dict(major='Ms'), dict(M=4)):
        add(kind='su_olson', source='square_s', **k)
    return out


def cases(tier):
    n = len(keys())
    for i in range(n):
        yield dict(first=i, deep=tier == 'thorough', _group=keys()[i]['kind'])


def where(tmp):
    for n in ('local_run_data',):
        os.makedirs(os.path.join(tmp, 'moving_mesh_transport', n), exist_ok=True)


def fresh(tmp):
    import h5py
    for n in ('transport', 'su_olson'):
        a = os.path.join(tmp, 'moving_mesh_transport', 'local_run_data', f'run_data_{n}_RMS.h5')
        b = os.path.join(tmp, 'moving_mesh_transport', f'run_data_{n}_RMS.h5')
        for f in (a, b):
            if os.path.exists(f):
                os.remove(f)
        with h5py.File(a, 'w') as f:
            f.create_group('gaussian_IC')
        os.link(a, b)


def data(k, v):
    """a study whose numbers tell which save they belong to"""
    n = (3, 2, 4)[v % 3]
    q = (hash_of(k) * 7 + v * 1.37) % 11.3
    N = np.array([2, 4, 8, 16][:n]) * (1 + v % 2)
    Ms = np.array([k['M']] * n) if k['major'] == 'cells' else np.array([1, 3, 4, 6][:n])
    return dict(cells=N, Ms=Ms, rms=(1 + q) * 10.0 ** -np.arange(n), erms=(2 + q) * 5.0 ** -np.arange(n), ang=np.full(n, k['ang']), times=np.arange(n) + 0.5 + q)


_keys = keys()


def hash_of(k):
    return _keys.index(k) + 1


def save(k, v):
    from moving_mesh_transport.loading_and_saving.save_output import save_output
    d = data(k, v)
    st = np.zeros(16, dtype=int)
    st[NAMES.index(k['source'])] = 1
    thick = k.get('thick')
    x0 = np.array([400.0 if thick and k['source'] == 'square_s' else 0.5])
    sigma = 0 if k['source'] != 'gaussian_s' else (300 if thick else 0.5)
    t = 31.6228 if k['t'] == 31 else float(k['t'])
    s = save_output(t, d['cells'], d['Ms'], st, k['mov'], k['unc'], k['major'], {'none': 1}, np.array([1, 0]), 1.0, sigma, x0, 0.0, 'transport' if k['kind'] == 'plain' else 'su_olson', d['ang'], 1.0)
    if k['kind'] == 'coupled':
        s.save_RMS_P1_su_olson(d['rms'], d['erms'], d['ang'], d['times'], int(k['ang']))
    else:
        s.save_RMS(d['rms'], d['erms'], d['ang'], d['times'])


def names(k):
    if k['kind'] == 'plain':
        return [k['source']]
    if k['kind'] == 'su_olson':
        return ['su_olson', 'su_olson_energy']
    if not k['thick']:
        return ['su_olson_s2', 'su_olson_energy_s2'] if k['source'] == 'square_s' else ['gaussian_s2', 'gaussian_energy_s2']
    b = ('su_olson_thick' if k['source'] == 'square_s' else 'gaussian_s_thick') + f"_s{k['ang']}"
    return [b, b + '_energy']


def load(k, name):
    from moving_mesh_transport.plots.make_plots import rms_plotter
    p = rms_plotter(k['t'], k['M'], name, k['major'])
    p.load_RMS_data(k['unc'], k['mov'])
    out = dict(cells=p.cells, rms=p.RMS, ang=p.angles, times=p.times)
    if k['major'] == 'Ms':
        out['Ms'] = p.Ms
    if k['kind'] != 'plain':
        out['erms'] = p.energy_RMS
    return out


def same(ck, k, v, after):
    d = data(k, v)
    for name in names(k)[:1 if after else None]:
        got = load(k, name)
        for q in got:
            ck.close(got[q], d[q], f'the stored {q} of a study are not those saved last under its key', 1e-6, 1e-7, f'{k} read as {name}, after {after}')
        ck.step()


def run(case, ck):
    home = os.getcwd()
    tmp = tempfile.mkdtemp(dir=home)
    try:
        where(tmp)
        os.chdir(tmp)
        go(case, ck, tmp)
    finally:
        os.chdir(home)
        shutil.rmtree(tmp, ignore_errors=True)


def differ(a, b):
    return sum(a.get(q) != b.get(q) for q in set(a) | set(b))


def go(case, ck, tmp):
    a = _keys[case['first']]
    for j, b in enumerate(_keys):
        fresh(tmp)
        save(a, 0)
        same(ck, a, 0, '')
        if j == case['first']:
            for v in (3, 1, 4, 2):      # as long, shorter, as long, longer
                save(a, v)
                same(ck, a, v, '')
            continue
        save(b, 2)
        same(ck, b, 2, str(a))
        same(ck, a, 0, str(b))
        save(a, 4)
        same(ck, a, 4, str(b))
        same(ck, b, 2, str(a))
        ck.step(3)
        ck.state(a, b)
        if case['deep'] and differ(a, b) <= 2:
            for c in _keys:
                if c in (a, b) or differ(a, c) > 2:
                    continue
                save(c, 1)
                same(ck, c, 1, str((a, b)))
                same(ck, a, 4, str((b, c)))
                same(ck, b, 2, str((a, c)))
                ck.state(a, b, c)
    ck.outcome((a['kind'], a['major']))
