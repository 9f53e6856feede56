"""C01: at every time the mesh is a valid partition that covers what it has to cover."""
import numpy as np
import meshspace

BOUNDS = dict(quick='9932 configurations: 3624-element product of problem family x geometry x cells (1..12) x half width x final time x edge speed x moving/static x finite domain, '
                    'and every setting of the thorough product that leaves it in one direction (up to 150 cells, final times 0.01 to 300, widths 1e-11 to 400), at every regime-boundary time of the configuration',
              thorough='as quick with cells up to 150, more widths, times and speeds')
ASSUMPTIONS = ['slab square problems use a multiple of 4 cells, boundary problems an even number']


def cases(tier):
    for c in meshspace.configs(tier):
        yield dict(c, _group=meshspace.family(c))


def clean(c):
    return {k: v for k, v in c.items() if not k.startswith('_')}


def run(case, ck):
    import real
    c = clean(case)
    fam = meshspace.family(c)
    m = real.make_mesh(c)
    N, x0, tf, sp = c['N'], c['x0'], c['tfinal'], c['speed'] if 'speed' in c else 1.0
    slab = c['geom'] == 'slab'
    prev = None
    first = None
    for t in meshspace.times(c):
        m.move(t)
        ck.step()
        e = np.array(m.edges)
        ck.state(e)
        ck.ok(e.shape == (N + 1,), 'number of edges', lambda: f't={t} {e}')
        ck.ok(np.all(np.isfinite(e)), 'finite edges', lambda: f't={t} {e}')
        ck.ok(np.all(np.diff(e) > 0), 'strictly increasing edges', lambda: f't={t} {e}')
        scale = max(abs(e[0]), abs(e[-1]))
        tol = 1e-11 * max(scale, 1.0) if scale > 1e-6 else 1e-6 * scale
        if not slab:
            ck.ok(e[0] == 0.0, 'sphere mesh starts at the centre', lambda: f't={t} {e}')
        elif fam != 'boundary' and not c['problem'] == 'dipole':
            ck.ok(np.max(np.abs(e + e[::-1])) <= tol, 'slab mesh symmetric about the origin', lambda: f't={t} {e}')
        if first is None:
            first = e
        if fam == 'boundary':
            ck.ok(abs(e[0] + x0) <= tol and abs(e[-1] - x0) <= tol, 'boundary problem mesh spans the domain', lambda: f't={t} {e}')
            shock = -c['sedov_v0'] * t if c['moving'] else 0.0
            ck.close(e[N // 2], shock, 'the shock of the opacity is not on a mesh edge', 0, tol, f't={t}')
            ck.close(np.diff(e), np.where(np.arange(N) < N // 2, shock + x0, x0 - shock) / (N / 2), 'cells on the two sides of the shock are not even', 0, 2 * tol, f't={t}')
        if c.get('finite'):
            ck.ok(e[-1] <= c['width'] / 2 + 1e-9 and (not slab or e[0] >= -c['width'] / 2 - 1e-9), 'mesh inside the finite domain', lambda: f't={t} {e}')
        tt = t if c['moving'] else tf
        front = x0 + sp * tt
        need = None
        if c.get('thick') and not c['moving'] and 'gaussian' in c['problem']:
            need = x0      # wide static mesh of the optically thick problems
        elif fam == 'sqrt':
            ck.close(e[-1], x0 + c['move_factor'] * tt ** 0.5, 'outer edge is not where the square-root law puts it', 1e-3, 1e-4, f't={t}')
        elif fam == 'follow':
            front_at = np.interp(tt, c['wave'][0][0], c['wave'][0][3])
            if not c['moving']:
                ck.close(e[-1], max(front_at + c['leader_pad'], c['wave'][0][2][-1] + c['pad']), 'static mesh does not cover the stored waves', 1e-12, 0)
            elif t > 0:
                ck.close(e[[-1, -2, -3]], [front_at + c['leader_pad'], front_at + c['pad'], front_at], 'leading edges do not follow the stored wave front', 0, 2.1e-3, f't={t}')
        elif fam == 'wave':
            ck.close(e[-1], c['wave'][0][3 if 'gaussian' in c['problem'] else 2][-1] + c['pad'], 'outer edge is not at the stored wave front', 1e-12, 0)
        elif fam in ('linear', 'square', 'square_source'):
            need = front
        elif fam == 'shell' and N >= 3:
            need = front if not c.get('finite') else min(front, c['width'] / 2)
        elif fam == 'finite_square':
            need = min(front, c['width'] / 2)
        elif fam == 'finite_square_source':
            need = min(x0 + sp * min(tt, c['t0']), c['width'] / 2)
        if need is not None:
            ck.ok(e[-1] >= need - tol, 'mesh reaches the signal front', lambda: f't={t} outer edge {e[-1]} front {need}')
            if slab:
                # the dipole mesh is shifted by a hundredth to the right
                ck.ok(-e[0] >= need - tol - (0.0100001 if c['problem'] == 'dipole' else 0), 'mesh reaches the left signal front', lambda: f't={t} {e[0]} front {need}')
        aligned = fam in ('square', 'square_source', 'shell', 'sqrt', 'follow') or (fam == 'wave' and 'square' in c['problem']) or (fam == 'finite_square' and c['moving']) or (fam == 'finite_square_source' and tt <= c['t0'])
        if aligned:
            ck.ok(np.min(np.abs(e - x0)) <= 1e-12 * x0 and (not slab or np.min(np.abs(e + x0)) <= 1e-12 * x0),
                  'source boundary is a mesh edge', lambda: f't={t} x0={x0} {e}')
            if fam != 'shell' or N >= 3:
                ins = int(np.sum((e >= (-x0 if slab else 0) * (1 + 1e-12)) & (e <= x0 * (1 + 1e-12)))) - 1
                ck.ok(0 < ins < N, 'cells on both sides of the source boundary', lambda: f't={t} {e}')
        if prev is not None and fam not in ('boundary',):
            ck.ok(e[-1] >= prev[-1] - tol, 'outer edge never retracts', lambda: f't={t} {e} after {prev}')
        if not c['moving']:
            ck.ok(np.array_equal(e, first), 'static mesh does not move', lambda: f't={t} {e} {first}')
        prev = e
    if not c['moving'] and fam not in ('finite_square', 'wave', 'follow') and not (c.get('thick') and 'gaussian' in c['problem']):
        d = dict(c, moving=True)
        m2 = real.make_mesh(d)
        m2.move(tf)
        ck.step()
        if fam == 'boundary':
            d['sedov_v0'] = 0.0
            m2 = real.make_mesh(d)
            m2.move(tf)
        ck.close(first, m2.edges, 'static mesh is the final moving mesh', rtol=1e-12, atol=1e-12)
    if not c['moving'] and fam == 'finite_square':
        ck.ok(abs(first[-1] - c['width'] / 2) <= 1e-12 * c['width'], 'static finite mesh spans the domain', first)
    ck.outcome(fam)
