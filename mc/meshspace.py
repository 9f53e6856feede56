"""The bounded space of mesh configurations the mesh properties quantify over."""
from itertools import product

LINEAR = ('plane', 'dipole', 'self_sim', 'gaussian_IC', 'gaussian_IC_noniso', 'gaussian_source', 'MMS')
SQUARE = ('square', 'square_source')


def family(c):
    p = c['problem']
    if p == 'boundary':
        return 'boundary'
    if c.get('wave') is not None:
        return 'follow' if p == 'square_source' else 'wave'       # moves with, or is static and as wide as, a stored wave front
    if c.get('thick') and list(c['move_type']) == [0, 0, 1, 0]:
        return 'sqrt'       # spreads like the square root of the time
    if p in SQUARE and c.get('thick'):
        return 'linear'
    if p in SQUARE:
        if c['geom'] == 'sphere':
            return 'shell'
        return ('finite_' if c.get('finite') else '') + p
    return 'linear'


def wave(tf, x0, grow):
    """stored wave points: times, left edges, right edges, positions of the temperature front"""
    return [[[0.0, 0.5 * tf, tf], [0.0, 0.1, 0.2], [x0, x0 + 0.3 * grow, x0 + grow], [x0 + 0.01 * grow, x0 + 0.2 * grow, x0 + 0.7 * grow]]]


def configs(tier):
    if tier == 'thorough':
        yield from product_space(True)
        return
    # the quick product, and around it every setting of the thorough product that leaves it in one direction
    menu, have = {}, set()
    for c in product_space(False):
        for k in ('N', 'x0', 'tfinal', 'speed'):
            menu.setdefault((family(c), k), set()).add(c.get(k))
        have.add(repr(sorted(c.items())))
        yield c
    for c in product_space(True):
        out = [k for k in ('N', 'x0', 'tfinal', 'speed') if c.get(k) not in menu[family(c), k]]
        if len(out) == 1 and (c['tfinal'] == 1.0 or 'tfinal' in out) and (c.get('speed', 1.0) == 1.0 or 'speed' in out) and repr(sorted(c.items())) not in have:
            yield c


def product_space(deep):
    tfs = (0.05, 1.0, 7.5) if not deep else (0.01, 0.05, 0.3, 1.0, 2.5, 7.5, 31.6228, 300.0)
    speeds = (1.0, 3 ** -0.5) if not deep else (1.0, 3 ** -0.5, 0.25, 2.0)
    for moving in (True, False):
        for tf in tfs:
            for sp in speeds:
                for prob in LINEAR:
                    for geom in (('slab', 'sphere') if prob == 'plane' else ('slab',)):
                        for N in ((1, 2, 3, 4, 8) if not deep else (1, 2, 3, 4, 5, 6, 7, 8, 13, 16, 64, 150)):
                            for x0 in ((1e-9, 0.5, 3.0) if not deep else (1e-11, 1e-9, 1e-3, 0.5, 3.0, 225.5)):
                                if prob == 'dipole' and x0 < 0.1:
                                    continue
                                for thick in ((False, True) if prob in ('gaussian_IC', 'gaussian_source') or (prob in ('plane', 'dipole', 'self_sim') and geom == 'slab' and sp == 1.0) else (False,)):
                                    yield dict(geom=geom, problem=prob, N=N, x0=x0, tfinal=tf, speed=sp, moving=moving, thick=thick,
                                               move_type=[1, 0, 0, 0])
                for prob in SQUARE:
                    for N in ((4, 8, 12) if not deep else (4, 8, 12, 16, 20, 32, 64, 128)):
                        for x0 in ((0.5, 2.5) if not deep else (0.05, 0.5, 2.5, 10.0)):
                            yield dict(geom='slab', problem=prob, N=N, x0=x0, tfinal=tf, speed=sp, moving=moving)
                            if sp == 1.0:
                                yield dict(geom='slab', problem=prob, N=N, x0=x0, tfinal=tf, speed=sp, moving=moving, thick=True, move_type=[1, 0, 0, 0])
                            # finite slab [-w/2, w/2]; pad is where the source mesh ends up
                            for w in (2 * x0 + 0.5, 2 * x0 + 4.0):
                                for frac in (0.3, 0.8, 1.0, 2.0):
                                    t0 = frac * tf
                                    if prob == 'square':
                                        if frac != 0.3:
                                            continue
                                        yield dict(geom='slab', problem=prob, N=N, x0=x0, tfinal=tf, speed=sp, moving=moving, finite=True,
                                                   width=w, t0=t0, pad=w / 2)
                                    else:
                                        for pad in (w / 2,):
                                            yield dict(geom='slab', problem=prob, N=N, x0=x0, tfinal=tf, speed=sp, moving=moving, finite=True,
                                                       width=w, t0=t0, pad=pad)
                if sp == 1.0:
                    for N, x0, mf in product((4, 8, 12) if not deep else (4, 8, 12, 16, 20, 32, 64), (0.5, 2.5) if not deep else (0.05, 0.5, 2.5, 10.0), (1.0, 0.3, 4.0)):
                        if moving:
                            yield dict(geom='slab', problem='square_source', N=N, x0=x0, tfinal=tf, speed=sp, moving=True, thick=True, move_type=[0, 0, 1, 0], move_factor=mf)
                        else:
                            for prob in ('square', 'gaussian_IC', 'gaussian_source'):
                                yield dict(geom='slab', problem=prob, N=N, x0=x0, tfinal=tf, speed=sp, moving=False, thick=True, move_type=[0, 1, 0, 0], pad=0.25, wave=wave(tf, x0, mf))
                    for N, x0, mf in product((16, 20, 32) if not deep else (16, 20, 24, 32, 64, 128), (0.5, 2.5) if not deep else (0.5, 2.5, 400.0), (1.0, 0.3, 4.0)):
                        yield dict(geom='slab', problem='square_source', N=N, x0=x0, tfinal=tf, speed=sp, moving=moving, thick=True, move_type=[0, 1, 0, 0], pad=0.25, leader_pad=0.6,
                                   wave=wave(tf, x0, mf))
                for N in ((2, 3, 4, 5, 8) if not deep else (2, 3, 4, 5, 6, 7, 8, 9, 16, 33, 100)):
                    for x0 in ((0.5, 2.5) if not deep else (0.05, 0.5, 2.5, 10.0)):
                        yield dict(geom='sphere', problem='square', N=N, x0=x0, tfinal=tf, speed=sp, moving=moving)
                        yield dict(geom='sphere', problem='square', N=N, x0=x0, tfinal=tf, speed=sp, moving=moving, finite=True, width=2 * x0 + 4.0)
            for N in ((2, 4, 6) if not deep else (2, 4, 6, 8, 16, 32, 100)):
                for x0 in (0.5, 5.0):
                    for v in (0.0, 0.2, 0.9, -0.4):
                        # v is the fraction of the half width the shock travels
                        yield dict(geom='slab', problem='boundary', N=N, x0=x0, tfinal=tf, sedov_v0=v * x0 / tf, moving=moving, bnd_on=[1, 0], bnd=True)


def times(c):
    """A menu of times that hits every regime boundary of every family."""
    tf = c['tfinal']
    t0 = c.get('t0', 0.4)
    ts = {0.0, 0.1 * tf, 0.37 * tf, 0.5 * tf, 0.9 * tf, 0.999 * tf, tf}
    if c.get('finite'):
        for t in (t0, t0 * (1 - 1e-9), t0 * (1 + 1e-9), 0.5 * (t0 + tf)):
            if 0 <= t <= tf:
                ts.add(t)
        r0 = c['x0'] + 1e-2
        ts |= {t for t in [(c['width'] / 2 - r0) / c['speed'] * f for f in (0.999, 1.0, 1.001)] if 0 <= t <= tf}
    return sorted(ts)
