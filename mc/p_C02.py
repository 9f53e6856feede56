"""C02: the reported edge velocities are the time derivatives of the reported edges."""
import numpy as np
import meshspace

BOUNDS = dict(quick='every mesh configuration of C01 x every regime-boundary time, one-sided and central difference quotients', thorough='as quick over the thorough configuration space')
ASSUMPTIONS = ['at a kink of the trajectory (source switched off, domain boundary reached) either one-sided derivative is accepted', 'the two meshes of the optically thick square source start at time zero with a jump or an infinite velocity: their velocity is compared from the first positive time on']


def cases(tier):
    for c in meshspace.configs(tier):
        yield dict(c, _group=meshspace.family(c))


def at(m, t, ck):
    m.move(t)
    ck.step()
    return np.array(m.edges), np.array(m.Dedges)


def run(case, ck):
    import real
    c = {k: v for k, v in case.items() if not k.startswith('_')}
    m = real.make_mesh(c)
    tf = c['tfinal']
    h = 2e-6 * tf
    dall = None
    fam = meshspace.family(c)
    for t in meshspace.times(c):
        if t == 0 and fam in ('sqrt', 'follow'):
            continue
        if fam == 'sqrt':
            h = 2e-6 * t
        e, d = at(m, t, ck)
        ck.state(e, d)
        ck.ok(d.shape == e.shape and np.all(np.isfinite(d)), 'finite velocities', lambda: f't={t} {d}')
        if not c['moving']:
            ck.ok(np.all(d == 0), 'static mesh has zero velocity', lambda: f't={t} {d}')
            continue
        cands = []
        roundoff = 8 * np.finfo(float).eps * max(np.max(np.abs(e)), 1e-3) / h
        if t - 2 * h >= 0:
            a2, _ = at(m, t - 2 * h, ck)
            a1, _ = at(m, t - h, ck)
            cands.append((3 * e - 4 * a1 + a2) / (2 * h))
        if t + 2 * h <= tf:
            b2, _ = at(m, t + 2 * h, ck)
            b1, _ = at(m, t + h, ck)
            cands.append((-3 * e + 4 * b1 - b2) / (2 * h))
        tol = 1e-6 * (1 + np.max(np.abs(d))) + 10 * roundoff
        err = [np.max(np.abs(x - d)) for x in cands]
        # within 2h of a kink one of the two one-sided quotients straddles it: the other must agree
        ck.ok(min(err) <= tol, 'velocity is the derivative of the position', lambda: f't={t} reported {d} differences {cands}')
        if len(err) == 2 and np.max(np.abs(cands[0] - cands[1])) <= tol:
            ck.ok(max(err) <= 2 * tol, 'velocity is the derivative of the position', lambda: f't={t} reported {d} differences {cands}')
    ck.outcome(meshspace.family(c))
