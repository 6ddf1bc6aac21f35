"""Drives unit cells, slip traces on grain plots and slip band detection (C38)."""
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
from mpl_toolkits.mplot3d.art3d import Poly3DCollection
from matplotlib.quiver import Quiver
import defdap.hrdic as hrdic
from defdap.crystal import crystalStructures
from defdap.quat import Quat
import d_ebsd
from d_quat import ri, rl, n, unit
from d_dic import Scratch, davis, attempt

F = 10000


_set = Poly3DCollection.set_verts


def record(self, verts, *args, **kw):
    self.seen_verts = [[list(p) for p in f] for f in verts]
    return _set(self, verts, *args, **kw)


Poly3DCollection.set_verts = record     # the polygons as given to the figure


def faces(ax):
    out = []
    for c in ax.collections:
        for f in getattr(c, 'seen_verts', []):
            f = [rl(p, F) for p in f]
            while len(f) > 1 and f[0] == f[-1]:
                f.pop()
            out.append(f)
    return out


def rgb(c):
    return [ri(v * 255) for v in to_rgba(c)[:3]]


def quivers(ax):
    out = []
    for c in ax.collections:
        if isinstance(c, Quiver):
            o = np.asarray(c.get_offsets())
            for j, (u, v) in enumerate(zip(np.atleast_1d(c.U), np.atleast_1d(c.V))):
                out.append({'uv': [ri(u * F), ri(v * F)], 'at': [ri(x) for x in o[j if len(o) > 1 else 0]], 'pivot': c.pivot, 'scale': ri(c.scale * 10),
                            'col': [ri(t * 255) for t in c.get_facecolors()[0][:3]]})
    return out


def cellcase(c):
    m = d_ebsd.mkmap(c)
    d_ebsd.getb(c, m)
    d_ebsd.getg(c, m)
    return m


def run(e):
    try:
        return run1(dict(e))
    finally:
        plt.close('all')


CACHE = {}


def bandmap(k):
    """a DIC map of one grain"""
    if k not in CACHE:
        em = d_ebsd.mkmap({'w': k, 'h': k, 'sym': 'cubic', 'ph': [1] * (k * k), 'ori': [0] * (k * k), 'mode': 'z', 'pal': [], 'ux': [], 'uy': [], 'min': 1})
        em.data.generate('grains', min_grain_size=1)
        with Scratch() as d:
            m = hrdic.Map(davis(d, k, k, 4, np.zeros((k, k)), np.zeros((k, k))), experiment=em.experiment)
        pts = [(0, 0), (k - 1, 0), (0, k - 1), (k - 1, k - 1)]
        m.frame.set_homog_points(pts)
        em.frame.set_homog_points(pts)
        m.link_ebsd_map(em)
        m.data.generate('grains', algorithm='warp', min_grain_size=1)
        CACHE[k] = em, m
    return CACHE[k]


def pattern(e):
    k = e['k']
    y, x = np.mgrid[:k, :k] - (k - 1) / 2
    inside = np.hypot(x, y) < k / 2 - 1 if e['disc'] else (abs(x) < k / 2 - 1) & (abs(y) < k / 2.6)
    d = np.where(inside, .1, 0.)
    for t, w in e['bands']:
        t = np.deg2rad(t)
        dist = x * np.cos(t) - y * np.sin(t)
        d += w / 100 * inside * np.exp(-(((dist + 6) % 12 - 6) / 1.2) ** 2)
    if e['neg']:
        d = -d
    if e['nan']:
        d[~inside] = np.nan
    return d


def run1(e):
    o = e['op']
    if o == 'cell':
        kw = {} if e['oi'] and e['dflt'] else {'OI': e['oi']}
        if e['mode'] == 'quat':
            p = unit(e['q'], False).plot_unit_cell(crystalStructures[e['sym']], **kw)
        else:
            m = cellcase({'w': 2, 'h': 2, 'sym': e['sym'], 'ph': [1] * 4, 'ori': [1] * 4, 'pal': [e['q']], 'mode': 'q', 'ux': None, 'dflt': True, 'min': 1})
            m.calc_grain_av_oris()
            p = m[0].plot_default(**kw) if e['mode'] == 'default' else m[0].plot_unit_cell(**kw)
        e['faces'] = faces(p.ax)
        e['view'] = [ri(p.ax.elev), ri(p.ax.azim) % 360]
        e['lims'] = [ri(v * F) for f in (p.ax.get_xlim3d, p.ax.get_ylim3d, p.ax.get_zlim3d) for v in f()]
        return e
    if o == 'bands':
        em, m = bandmap(e['k'])
        g = m[0]
        d = pattern(e)
        kw = {a: b for a, b in (('thres', e['thres'] / 100 if e['thres'] != 30 else None), ('min_dist', e['dist'] if e['dist'] != 30 else None)) if b is not None}
        r = g.calc_slip_bands(d, **kw)
        e['r'] = [ri(np.degrees(t) * 10) for t in r]
        e['tr'], e['pos'], e['box'], e['col'] = [], [], [0, 0, e['k'] - 1, e['k'] - 1], rgb('black')
        if e['drawn']:
            nm = f'band{len(m.data)}'
            m.data.add(nm, np.nan_to_num(d), type='map', order=0)
            p = g.plot_map(nm, plot_slip_bands=e['flag'] and not kw)
            if not (e['flag'] and not kw):
                p.add_slip_bands(d, colour='red', **kw)
                e['col'] = rgb('red')
            e['tr'] = quivers(p.ax)
        return e
    # traces on a grain of a map of two grains
    w, h, x0 = e['w'], e['h'], e['x0']
    ori = [1 if x < x0 else 2 for y in range(h) for x in range(w)]
    m = cellcase({'w': w, 'h': h, 'sym': e['sym'], 'ph': [1] * (w * h), 'ori': ori, 'pal': [[1, 0, 0, 0], e['q']], 'mode': 'q', 'ux': None, 'dflt': True, 'min': 1})
    m.calc_grain_av_oris()
    g = next(x for x in m if x.data.point[0][0] >= x0)
    e['box'] = [x0, 0, w - 1, h - 1]
    if o == 'traces':
        p = g.plot_map('orientation', 'IPF_z') if False else g.plot_map('band_contrast')
        kw = {'top_only': True} if e['top'] else {}
        if e['pos']:
            kw['pos'] = tuple(e['pos'])
        a = np.deg2rad(e['angles'])
        p.add_traces(list(a) if e['listed'] else a, e['names'], **kw)
        e['cols'] = [rgb(c) for c in e['names']]
    else:
        e['top'], e['pos'] = False, []
        if e['flag']:
            p = g.plot_map('band_contrast', plot_slip_traces=True)
        else:
            p = g.plot_map('band_contrast')
            p.add_slip_traces(**({'colours': e['names']} if e['names'] else {}))
        e['cols'] = [rgb(c) for c in (e['names'] if e['names'] and not e['flag'] else g.phase.slip_trace_colours)]
        e['tens'] = [ri(np.degrees(t) * 10) for t in g.slip_traces]
    e['tr'] = quivers(p.ax)
    return e
