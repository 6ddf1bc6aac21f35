"""Helpers of the demonstrations: small maps built from arrays."""
import os, pathlib, sys, tempfile, shutil, atexit
os.environ.setdefault('MPLBACKEND', 'Agg')
import numpy as np
import defdap
import defdap.ebsd as ebsd
import defdap.hrdic as hrdic
from defdap.quat import Quat
from defdap.crystal import Phase

tmp = tempfile.mkdtemp()
atexit.register(shutil.rmtree, tmp, True)


def phase(sym='cubic', name='P', ca=1.6, sg=None):
    return Phase(name, 9 if sym == 'hexagonal' else 11, sg if sg is not None else (0 if sym == 'hexagonal' else 225),
                 (3., 3., 3. * ca if sym == 'hexagonal' else 3., np.pi / 2, np.pi / 2, np.pi * 2 / 3 if sym == 'hexagonal' else np.pi / 2))


def emap(euler, ph=None, phases=None, step=1., **kw):
    """EBSD map; euler in degrees, (h, w) about the normal or (3, h, w)"""
    e = np.asarray(euler, float)
    if e.ndim == 2:
        e = np.stack([e, 0 * e, 0 * e])
    h, w = e.shape[1:]
    return ebsd.Map({'step_size': step, 'phases': phases or [phase()], 'phase': np.ones((h, w), int) if ph is None else np.array(ph),
                     'euler_angle': np.deg2rad(e), 'band_contrast': np.arange(h * w).reshape(h, w) % 251,
                     'band_slope': np.arange(h * w).reshape(h, w) % 241}, data_type='PythonDict', **kw)


def davis(u, v, sub=4, name='d.txt', flip=False):
    u, v = np.asarray(u, float), np.asarray(v, float)
    h, w = u.shape
    p = pathlib.Path(tmp, name)
    ys = range(h)
    rows = ['%d\t%d\t%.4f\t%.4f' % (x * sub + sub // 2, y * sub + sub // 2, u[y, x], v[y, x]) for y in (reversed(ys) if flip else ys) for x in range(w)]
    p.write_text('#DaVis 8.4.0 2D-vector %d %d %d "" "pixel" "" "pixel" "displacement" "pixel"\n' % (sub, h, w) + '\n'.join(rows) + '\n')
    return p


def dmap(u, v=None, **kw):
    return hrdic.Map(davis(u, np.zeros(np.shape(u)) if v is None else v), **kw)


def linked(em, d, shift=(0, 0)):
    pts = [(0, 0), (em.x_dim - 1, 0), (0, em.y_dim - 1), (em.x_dim - 1, em.y_dim - 1)]
    em.frame.set_homog_points(pts)
    d.frame.set_homog_points([(x + shift[0], y + shift[1]) for x, y in pts])
    d.link_ebsd_map(em)
    return d


def check(ok, msg):
    if not ok:
        print('FAILED:', msg)
        sys.exit(1)
