"""C08: the right-hand side is a pure function of (t, V), whatever was evaluated before."""
import numpy as np
from itertools import product
import rhsspace

BOUNDS = dict(quick='all sequences of up to 3 evaluations over a menu of 7 (time, state) pairs - times before, at and after every switch, repeated and decreasing - for a reduced set of systems covering every problem, geometry, opacity and source treatment (up to 2 evaluations for larger systems and for systems with one parameter pushed far out); inputs compared bitwise',
              thorough='all sequences of up to 4 evaluations')
MIN_PER_WORKER = 3


def cases(tier):
    seen = set()
    for c in rhsspace.large():
        if c['M'] in (3, 6):
            yield dict(c, depth=2 if tier == 'quick' else 3, _group=c['geom'])
    for c in rhsspace.extremes():
        if c['S'] * c['N'] * (c['M'] + 1) <= 72 and c.get('strength', 1.3) == 1.3 and c['sigma_t'] in (1.0, 60.0, 800.0):
            yield dict(c, depth=2 if tier == 'quick' else 3, _group='extreme')
    for c in rhsspace.systems(tier):
        if c['M'] != (1 if c['geom'] == 'slab' else 2) or c['S'] != (4 if c['geom'] == 'slab' and 'sigfunc' not in c else 2):
            continue
        if c['sigma_t'] not in (1.5, 1.0, 1.2, 1.1):
            continue
        if c['N'] in (1, 2, 5):
            continue
        k = (c['geom'], c['problem'], c['moving'], c.get('uncollided'), c.get('sigfunc'), c.get('Msigma'), c.get('finite'), c.get('width'), c.get('t0'), c['N'])
        if k in seen:
            continue
        seen.add(k)
        yield dict(c, depth=3 if tier == 'quick' else 4, _group=c['geom'])


def run(case, ck):
    import real
    c = {k: v for k, v in case.items() if not k.startswith('_') and k != 'depth'}
    t0, tf = c.get('t0', 0.4), c.get('tfinal', 1.0)
    s = real.System(c)
    d = s.dof
    k = np.arange(d)
    vecs = [np.zeros(d), np.cos(1.0 + k * k), 5.0 * np.sin(2.0 + 3.0 * k)]
    lo = 0.05 * tf if c.get('uncollided') else 0.0
    menu = [(lo, 1), (lo, 2), (0.37 * tf, 1), (min(t0, tf), 0), (min(t0 + 0.05 * tf, tf), 2), (tf, 1), (0.97 * tf, 2)]
    refs = []
    for t, v in menu:
        f = real.System(c)
        refs.append(np.array(f.F(t, vecs[v])))
        # the evaluated state is an input, not a workspace; the answer is not a view of it
        g = real.System(c)
        x = vecs[v].copy()
        y = g.F(t, x)
        ck.ok(np.array_equal(x, vecs[v]), 'the state passed in is modified', f't={t}')
        y2 = np.array(y)
        g.F(menu[0][0], vecs[0])
        ck.ok(np.array_equal(np.array(y), y2), 'a returned derivative changes later', f't={t}')
        ck.step(3)
    ws, mus = np.array(s.ws), np.array(s.mus)
    for depth in (case['depth'],):
        for n, w in enumerate(product(range(len(menu)), repeat=depth)):
            if n % 25 == 0:
                s = real.System(c)
            for q in w:
                t, v = menu[q]
                got = np.array(s.F(t, vecs[v]))
                ck.step()
                if not np.allclose(got, refs[q], rtol=1e-10, atol=1e-11 * max(1.0, np.max(np.abs(refs[q])))):
                    i = int(np.argmax(np.abs(got - refs[q])))
                    ck.fail('the derivative depends on what was evaluated before',
                            f'sequence (time, state) {[menu[j] for j in w]}: entry {i} is {got[i]!r}, a fresh solver gives {refs[q][i]!r}')
            ck.state(c, w)
    ck.checks += n
    ck.ok(np.array_equal(np.array(s.b.ws), ws) and np.array_equal(np.array(s.b.mus), mus), 'the quadrature is modified', '')
    # one long run: the step counter wraps around at 1000 evaluations
    s = real.System(c)
    for i in range(1010 if c['problem'] in ('square', 'gaussian_source') else 0):
        q = i % len(menu)
        s.F(menu[q][0], vecs[menu[q][1]])
        ck.step()
    ck.close(s.F(menu[2][0], vecs[1]), refs[2], 'the derivative depends on what was evaluated before', 1e-10, 1e-11, detail='after 1010 evaluations')
