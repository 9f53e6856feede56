"""C03: edges and velocities are a function of the time alone, whatever was evaluated before."""
import numpy as np
from itertools import product
import meshspace

BOUNDS = dict(quick='all sequences of up to 4 mesh evaluations over a 6-time menu (0, around the source switch-off, near and at the final time), for a reduced configuration space; all pairs of evaluations for the extreme configurations of C01',
              thorough='all sequences of up to 5 evaluations over a 7-time menu')
MIN_PER_WORKER = 2


def cases(tier):
    seen = set()
    depth = 4 if tier == 'quick' else 5
    if tier == 'quick':
        core = {repr(c) for c in meshspace.product_space(False)}
        for c in meshspace.configs('quick'):
            if repr(c) not in core:
                yield dict(c, depth=2, _group='extremes')
    for c in meshspace.product_space(tier != 'quick'):
        if tier == 'quick' and c['tfinal'] == 0.05:
            continue
        if c['N'] not in (3, 4, 8, 6) or c['speed' if 'speed' in c else 'tfinal'] == 3 ** -0.5:
            continue
        if tier != 'quick' and (c['tfinal'] not in (0.3, 1.0, 7.5) or c.get('speed', 1.0) not in (1.0,)):
            continue
        fam = meshspace.family(c)
        if fam == 'linear' and (c['x0'] == 3.0 or c['N'] != 4):
            continue
        yield dict(c, depth=depth, _group=fam)


def menu(c, n):
    tf = c['tfinal']
    if c.get('finite') and 't0' in c and c['t0'] < tf:
        ts = [0.0, 0.6 * c['t0'], c['t0'], 0.5 * (c['t0'] + tf), 0.995 * tf, tf, 0.2 * c['t0']]
    else:
        ts = [0.0, 0.3 * tf, 0.7 * tf, 0.95 * tf, 0.999 * tf, tf, 0.5 * tf]
    return ts[:n]


def run(case, ck):
    import real
    depth = case['depth']
    c = {k: v for k, v in case.items() if not k.startswith('_') and k != 'depth'}
    ts = menu(c, 7 if depth == 5 else 6)
    ref = []
    for t in ts:
        m = real.make_mesh(c)
        m.move(t)
        ref.append((np.array(m.edges), np.array(m.Dedges)))
    # breadth-first over histories; the object cannot be copied, so a history is re-executed as one
    # long walk: after any prefix the state must be the reference state of its last element, so the walk
    # over a de Bruijn-like concatenation of all words visits every transition sequence of that depth.
    words = product(range(len(ts)), repeat=depth)
    m = real.make_mesh(c)
    n = 0
    for w in words:
        if n % 40 == 0:
            m = real.make_mesh(c)   # histories that start at construction, too
        n += 1
        for k, i in enumerate(w):
            m.move(ts[i])
            ck.step()
            e, d = np.array(m.edges), np.array(m.Dedges)
            if not (np.allclose(e, ref[i][0], rtol=1e-12, atol=1e-13) and np.allclose(d, ref[i][1], rtol=1e-10, atol=1e-12)):
                ck.fail('edges depend on the evaluation history', f'times {[ts[j] for j in w[:k + 1]]}: edges {e} velocities {d}; a fresh mesh gives {ref[i]}')
    ck.checks += n
    for e, d in ref:
        ck.state(e, d)
    ck.outcome(meshspace.family(c))
