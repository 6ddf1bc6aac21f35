"""Drives defdap.ebsd maps built from explicit pixel contents."""
import numpy as np
import defdap.ebsd as ebsd
from defdap.crystal import Phase
from defdap.quat import Quat

LP = {'cubic': (3.6, 3.6, 3.6, np.pi / 2, np.pi / 2, np.pi / 2),
      'hexagonal': (3., 3., 4.8, np.pi / 2, np.pi / 2, 2 * np.pi / 3)}


def mkphase(sym, i=0, sg=None):
    return Phase(f'{sym[:3]}{i}', 11 if sym == 'cubic' else 9,
                 sg or (225 if sym == 'cubic' else 194), LP[sym])


def mkmap(case):
    w, h = case['w'], case['h']
    other = {'cubic': 'hexagonal', 'hexagonal': 'cubic'}[case['sym']]
    phases = [mkphase(case['sym']), mkphase(other, 1), mkphase(case['sym'], 2)]
    ph = np.array(case['ph'], dtype=int).reshape(h, w)
    euler = np.zeros((3, h, w))
    if case['mode'] == 'z':
        euler[0] = np.deg2rad(np.array(case['ori'], dtype=float).reshape(h, w))
    m = ebsd.Map({
        'step_size': 1., 'phases': phases, 'phase': ph, 'euler_angle': euler,
        'band_contrast': np.arange(w * h).reshape(h, w) % 256,
    }, data_type='PythonDict')
    if case['mode'] == 'q':
        oris = np.empty((h, w), dtype=Quat)
        for k, i in enumerate(case['ori']):
            q = np.array(case['pal'][i - 1], dtype=float)
            oris[k // w, k % w] = Quat(q / np.sqrt((q * q).sum()))
        m.data.orientation = oris
    return m


def pts(s):
    return sorted([int(x), int(y)] for x, y in s)


def img(a):
    return sorted([int(x), int(y)] for y, x in zip(*np.nonzero(a)))


def lines(ls):
    return [[int(round(2 * v)) for pt in line for v in pt] for line in ls]


def base(case):
    return {k: case[k] for k in ('w', 'h', 'ph', 'ori', 'mode', 'sym', 'tol2', 'min')}


def getb(case, m):
    """Boundaries as the case wants them: default, explicit tolerance or user supplied."""
    if case.get('ux') is not None:
        h, w = case['h'], case['w']
        bx, by = np.zeros((h, w), bool), np.zeros((h, w), bool)
        for x, y in case['ux']:
            bx[y, x] = True
        for x, y in case['uy']:
            by[y, x] = True
        if case.get('flip'):
            # grains were found before, with mirrored boundaries
            mx = np.zeros((h, w), bool)
            mx[:, :w - 1] = bx[:, :w - 1][:, ::-1]
            m.data.grain_boundaries = ebsd.BoundarySet.from_image(m, mx, by[:, ::-1])
            m.data.generate('grains', min_grain_size=case['min'])
        m.data.grain_boundaries = ebsd.BoundarySet.from_image(m, bx, by)
    elif case.get('dflt'):
        pass
    else:
        m.data.generate('grain_boundaries', misori_tol=case['tol2'] / 2)


def boundaries(case):
    m = mkmap(case)
    getb(case, m)
    r = base(case)
    g, p = m.data.grain_boundaries, m.data.phase_boundaries
    for a, b in (('g', g), ('p', p)):
        r[a + 'x'], r[a + 'y'], r[a + 'p'] = pts(b.points_x), pts(b.points_y), pts(b.points)
        r[a + 'ix'], r[a + 'iy'], r[a + 'i'] = img(b.image_x), img(b.image_y), img(b.image)
        r[a + 'l'] = lines(b.lines)
    r['shapes'] = list(g.image.shape)
    return r


def getg(case, m):
    if case.get('dflt') and case['min'] == 10:
        m.data.grains
    else:
        if case.get('twice'):
            m.data.generate('grains', min_grain_size=case['twice'])
        m.data.generate('grains', min_grain_size=case['min'])


def grains(case):
    m = mkmap(case)
    getb(case, m)
    getg(case, m)
    r = base(case)
    g = m.data.grain_boundaries
    r['gx'], r['gy'] = pts(g.points_x), pts(g.points_y)
    lab = np.asarray(m.data.grains)
    r['lab'] = [int(v) for v in lab.ravel()] if lab.shape == (case['h'], case['w']) else []
    r['n'] = len(m)
    r['gr'] = []
    for gr in m.grains:
        r['gr'].append({
            'id': int(gr.grain_id), 'len': len(gr),
            'pts': [[int(x), int(y)] for x, y in gr.data.point],
            'phase': -1 if gr.phase_id is None else int(gr.phase_id),
            'phobj': gr.phase_id is not None and gr.phase is m.phases[gr.phase_id],
        })
    return r


def network(case):
    m = mkmap(case)
    getb(case, m)
    getg(case, m)
    m.build_neighbour_network()
    r = base(case)
    g = m.data.grain_boundaries
    r['gx'], r['gy'] = pts(g.points_x), pts(g.points_y)
    r['lab'] = [int(v) for v in np.asarray(m.data.grains).ravel()]
    r['n'] = len(m)
    nn = m.neighbour_network
    r['nodes'] = [int(x.grain_id) for x in nn.nodes]
    r['edges'] = []
    tup = lambda ps: [[int(a), int(b)] for a, b in ps]
    for a, b, d in nn.edges(data=True):
        s = d['boundary']
        r['edges'].append({
            'n1': int(a.grain_id), 'n2': int(b.grain_id),
            'g1': int(s.grain1.grain_id), 'g2': int(s.grain2.grain_id),
            'x': tup(s.boundary_points_x), 'y': tup(s.boundary_points_y),
            'ox': [bool(v) for v in s.boundary_point_owners_x],
            'oy': [bool(v) for v in s.boundary_point_owners_y],
            'px': [tup(p) for p in s.boundary_point_pairs_x],
            'py': [tup(p) for p in s.boundary_point_pairs_y],
            'lines': lines(s.boundary_lines), 'len': len(s),
        })
    return r
