"""Exact (rational) generation of the coefficient tables the spherical cell matrices read.

The repository reads five HDF5 tables that it does not ship.  They are *inputs* of the
code under test, so they are generated here from the definition of the matrices with
exact rational arithmetic, in the layout file_reader documents:

  Mass_ij = int r^2 B_i B_j dr,  J_ij = int r B_i B_j dr,  L_ij = int r^2 B_i' B_j dr
  B_0 = 1/sqrt(pi h), B_j = sqrt(2)/sqrt(pi h) T_j(z),  r = (rL+rR)/2 + z (rR-rL)/2
"""
from fractions import Fraction as F
from functools import lru_cache
from math import gcd
import numpy as np


@lru_cache(None)
def cheb(n):
    """T_n as a tuple of integer coefficients, lowest power first."""
    if n == 0:
        return (1,)
    if n == 1:
        return (0, 1)
    a, b = cheb(n - 1), cheb(n - 2)
    r = [0] + [2 * x for x in a]
    for i, x in enumerate(b):
        r[i] -= x
    return tuple(r)


def pmul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return tuple(r)


def pder(a):
    return tuple(i * a[i] for i in range(1, len(a))) or (0,)


def pint(a):
    """int_{-1}^{1}"""
    return sum((F(2 * x, i + 1) for i, x in enumerate(a) if i % 2 == 0), F(0))


def _r2_coeffs(p):
    """int_{-1}^1 r^2 p(z) dz as coefficients of (rL^2, rL rR, rR^2)."""
    # r = rL (1-z)/2 + rR (1+z)/2
    ll = pint(pmul(p, (F(1, 4), F(-1, 2), F(1, 4))))
    lr = pint(pmul(p, (F(1, 2), 0, F(-1, 2))))
    rr = pint(pmul(p, (F(1, 4), F(1, 2), F(1, 4))))
    return ll, lr, rr


def _r_coeffs(p):
    return pint(pmul(p, (F(1, 2), F(-1, 2)))), pint(pmul(p, (F(1, 2), F(1, 2))))


def _split(cs):
    d = 1
    for c in cs:
        d = d * c.denominator // gcd(d, c.denominator)
    return [float(c * d) for c in cs], d


def tables(size, nsig=1):
    me = np.zeros((size, size, 3)); mo = np.zeros((size, size, 2)); md = np.ones((size, size), dtype=np.int64)
    J = np.zeros((size, size, 2)); jd = np.ones((size, size), dtype=np.int64)
    le = np.zeros((size, size, 2)); lo = np.zeros((size, size, 3)); ld = np.ones((size, size), dtype=np.int64)
    g = np.zeros((size, size, 6)); gd = np.ones((size, size), dtype=np.int64)
    ve = np.zeros((nsig, size, size, 3)); vo = np.zeros((nsig, size, size, 2)); vd = np.ones((nsig, size, size), dtype=np.int64)
    for i in range(size):
        for j in range(size):
            tt = pmul(cheb(i), cheb(j))
            # ---- mass: c_i c_j/(2 pi) int r^2 TiTj dz ; table carries everything but 1/pi and the sqrt(2) factor
            ll, lr, rr = _r2_coeffs(tt)
            both = (i > 0) + (j > 0)
            if both == 0:
                k = F(1, 2)
            elif both == 2:
                k = F(1)
            else:  # true factor sqrt2/2; the code multiplies sqrt2 (even other index) or 1/sqrt2 (odd)
                k = F(1, 2) if (i + j) % 2 == 0 else F(1)
            if (i + j) % 2 == 0:
                me[i, j], md[i, j] = _split([k * ll, k * lr, k * rr])
            else:
                assert lr == 0
                mo[i, j], md[i, j] = _split([k * ll, k * rr])
            # ---- J: c_i c_j/(2 pi) int r TiTj dz; the code divides mixed entries by sqrt2
            l, r = _r_coeffs(tt)
            k = F(1, 2) if both == 0 else F(1)
            J[i, j], jd[i, j] = _split([k * l, k * r])
            # ---- L: c_i c_j/(pi h) int r^2 Ti' Tj dz  (h = rR - rL); the code multiplies [1:,0] by sqrt2
            if i > 0:
                ll, lr, rr = _r2_coeffs(pmul(pder(cheb(i)), cheb(j)))
                k = F(1) if j == 0 else F(2)
                if (i + j) % 2 != 0:
                    lo[i, j], ld[i, j] = _split([-k * ll, -k * lr, -k * rr])
                else:
                    # divisible by (rR - rL): = (rR-rL)(a rL + b rR)
                    b = k * rr
                    a = -k * ll
                    assert k * lr == a - b
                    le[i, j], ld[i, j] = _split([a, b])
    return dict(md=md, jd=jd, gd=gd, ld=ld, vd=vd, me=me, mo=mo, J=J, g=g, le=le, lo=lo, ve=ve, vo=vo)


def give(size, nsig=1):
    t = tables(size, nsig)
    return (t['md'], t['jd'], t['gd'], t['ld'], t['vd'], t['me'], t['mo'], t['J'], t['g'], t['le'], t['lo'], t['ve'], t['vo'])


def write_files(folder, size=9, nsig=1):
    """Writes the five HDF5 files.  size <= 9: element names concatenate 1-based indices."""
    import h5py, os
    assert size <= 9
    t = tables(size, nsig)
    with h5py.File(os.path.join(folder, 'MassMatrix.h5'), 'w') as f:
        f['denominators'] = t['md']
        for i in range(size):
            for j in range(size):
                f[f'coefficients/Element{i+1}{j+1}'] = t['me'][i, j] if (i + j) % 2 == 0 else t['mo'][i, j]
    with h5py.File(os.path.join(folder, 'JMatrix.h5'), 'w') as f:
        f['denominators'] = t['jd']
        for i in range(size):
            for j in range(size):
                f[f'coefficients/Element{i+1}{j+1}'] = t['J'][i, j]
    with h5py.File(os.path.join(folder, 'GMatrix.h5'), 'w') as f:
        f['denominators'] = t['gd']
    with h5py.File(os.path.join(folder, 'LMatrix.h5'), 'w') as f:
        f['denominators'] = t['ld']
        for i in range(1, size):
            for j in range(size):
                f[f'coefficients/Element{i+1}{j+1}'] = t['le'][i, j] if (i + j) % 2 == 0 else t['lo'][i, j]
    with h5py.File(os.path.join(folder, 'VVMatrix.h5'), 'w') as f:
        f['denominators'] = t['vd']
