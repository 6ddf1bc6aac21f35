"""Drives the orientation filter (C33) and the Nye tensor / GND density (C34)."""
import numpy as np
import defdap.ebsd as ebsd
from d_quat import ri, rl, comp
from d_ebsd import mkphase
from d_ori import oris

F = 10000


def mk(e):
    w, h = e['w'], e['h']
    ph = [mkphase(e['sym'], 0)]
    if e.get('extra'):      # a second phase of the other structure, the first one still primary
        ph.append(mkphase('hexagonal' if e['sym'] == 'cubic' else 'cubic', 1))
    m = ebsd.Map({'step_size': e['step'], 'phases': ph, 'phase': np.ones((h, w), dtype=int),
                  'euler_angle': np.zeros((3, h, w)), 'band_contrast': np.ones((h, w))}, data_type='PythonDict')
    m.data.orientation = oris(e['img'], w, h)
    return m


def run(e):
    e = dict(e)
    m = mk(e)
    if e['op'] == 'filter':
        out = []
        for _ in range(e.pop('times')):
            if e['dflt']:
                m.filter_data()
            else:
                m.filter_data(misori_tol=e['tol2'] / 2)
            r = m.data.orientation
            res = [rl(comp(x), F) for x in np.asarray(r).ravel()]
            out.append(dict(e, step=0, shape=list(r.shape), r=res))
            e['img'] = res
        return {'many': out}
    else:
        k = e['step'] * 1e-6 * 1.4e-10 * F
        if e['order']:
            g, a = m.data.GND, m.data.Nye_tensor
        else:
            a, g = m.data.Nye_tensor, m.data.GND
        a, g = np.asarray(a), np.asarray(g)
        e['shape'], e['gshape'] = list(a.shape), list(g.shape)
        e['nye'] = [[[ri(a[i, j, y, x] * k) for j in range(3)] for i in range(3)] for y in range(e['h']) for x in range(e['w'])]
        v = [g[y, x] for y in range(e['h']) for x in range(e['w'])]
        # no density at all may be stored as a floor instead
        e['flat'] = [bool(x == 1e12) for x in v]
        e['gnd'] = [0 if f else ri(x * k) for x, f in zip(v, e['flat'])]
    e['step'] = 0
    return e
