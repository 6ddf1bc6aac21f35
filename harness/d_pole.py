"""Drives pole figures (C35): projections, inverse pole figures, symmetric lines and labels."""
import re
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
from defdap import defaults
from defdap.plotting import PolePlot
from defdap.quat import Quat
import d_ebsd
from d_quat import ri, rl, comp, n
from d_ori import mix

F = 10000


def idc(text):
    out = []
    for bar, plain in re.findall(r'\\(?:bar|overline)\{(\d)\}|(\d)', text.replace('$', '')):
        out.append(-int(bar) if bar else int(plain))
    return out


def labels(ax, k=0):
    return [{'text': t.get_text(), 'idc': idc(t.get_text()), 'xy': rl(t.get_position(), F)} for t in ax.texts[k:]]


def lines(ax, k=0):
    out = []
    for ln in ax.lines[k:]:
        x, y = ln.get_xdata(), ln.get_ydata()
        ix = sorted({0, len(x) // 4, len(x) // 2, (3 * len(x)) // 4, len(x) - 1})
        out.append([[ri(x[i] * F), ri(y[i] * F)] for i in ix])
    return out


def proj_arg(e):
    return {'own': {'stereo': PolePlot.stereo_project, 'lambert': PolePlot.lambert_project}[e['kind']], 'none': None}.get(e['name'], e['name'])


def cols(sc):
    fc = sc.get_facecolors() if len(sc.get_facecolors()) else sc.get_edgecolors()
    return [ri(v * 255) for v in fc[0][:3]]


def half(sc):
    """which half of a round marker is filled: 1 upper, -1 lower, 0 both"""
    y = sc.get_paths()[0].vertices[:, 1]
    return 0 if y.max() > 0.1 and y.min() < -0.1 else 1 if y.max() > 0.1 else -1


def run(e):
    try:
        return run1(dict(e))
    finally:
        plt.close('all')
        defaults['ipf_triangle_convention'] = 'up'
        defaults['pole_projection'] = 'stereographic'


def run1(e):
    o = e['op']
    if e.get('dproj'):
        defaults['pole_projection'] = e['dproj']
    if o == 'proj':
        f = PolePlot.stereo_project if e['kind'] == 'stereo' else PolePlot.lambert_project
        v = np.array(e['vs'], dtype=float)
        v /= np.linalg.norm(v, axis=1)[:, None]
        a, b = np.arccos(v[:, 2]), np.arctan2(v[:, 1], v[:, 0])
        if e['arr']:
            x, y = f(*v.T) if e['vec'] else f(a, b)
            e['r'] = [[ri(p * F), ri(q * F)] for p, q in zip(np.atleast_1d(x), np.atleast_1d(y))]
        else:
            e['r'] = [rl([np.asarray(t).item() for t in (f(*u) if e['vec'] else f(p, q))], F) for u, p, q in zip(v, a, b)]
        return e
    defaults['ipf_triangle_convention'] = 'up' if e['up'] else 'down'
    fig, ax = plt.subplots()
    if o == 'ipf':
        d = np.array(e['d'], dtype=float)
        kw = {}
        e['nlayers'], e['colours'], e['want'], e['bar'], e['wbar'], e['warr'] = 1, [], [], [], [], []
        if e['mark'] == 'one':
            kw['marker_colour'] = 'red' if e['listed'] else ['red']
            e['want'] = [[255, 0, 0]]
        elif e['mark'] == 'two':
            kw['marker_colour'] = ['blue', 'lime']
            e['want'] = [[0, 0, 255], [0, 255, 0]]
            e['nlayers'] = 2
        if e['grain']:
            q = e['qs']
            case = {'w': len(q), 'h': 1, 'sym': e['sym'], 'ph': [1] * len(q), 'ori': list(range(1, len(q) + 1)), 'pal': q,
                    'mode': 'q', 'ux': [[x, 0] for x in range(len(q) - 1)] if e['grain'] == 'data' else [], 'uy': [], 'min': 1}
            m = d_ebsd.mkmap(case)
            d_ebsd.getb(case, m)
            d_ebsd.getg(case, m)
            g = m[0]
            if e['grain'] == 'data':
                m.calc_grain_av_oris()
                col = [[int(x) for x, y in g.data.point] for g in m]     # the grain of each pixel
                ids = [next(i for i, c in enumerate(col) if x in c) for x in e['pick']]
                pick = e['pick'] if e['ids'] else [c[0] for c in col]
                vals = [e['vals'][x] for x in pick]
                a = {'map_data': np.array([e['vals']], dtype=float)} if e['bymap'] else {'grain_data': np.array(vals) if e['bymap'] is None else vals}
                if e['ids']:
                    a['grain_ids'] = ids
                e['qs'] = [q[x] for x in pick]
                e['warr'] = vals
                plot = m.plot_grain_data_ipf(d, projection=proj_arg(e), fig=fig, ax=ax, **a)
            elif e['grain'] == 'ref':
                g.ref_ori = Quat(np.array(q[0], dtype=float) / n(q[0]))
                e['qs'] = q = q[:1]
                plot = g.plot_ref_ori(direction=d, projection=proj_arg(e), fig=fig, ax=ax, **kw)
            else:
                plot = g.plot_ori_spread(direction=d, projection=proj_arg(e), fig=fig, ax=ax, **kw)
        else:
            qs = mix(e['qs'], e['ks'], e['sym'], False)
            base = None
            if e['twice']:
                base = PolePlot('IPF', e['sym'], projection=proj_arg(e), fig=fig, ax=ax)
                base.add_points(np.array([0.1, 0.2]), np.array([1.6, 1.7]), c=[50, 60], cmap='viridis')
            if e['cbar']:
                kw.update(c=e['vals'], plot_colour_bar=True, clabel='what')
                e['warr'] = e['vals']
                e['wbar'] = ['what', min(e['vals']), max(e['vals'])]
            if e['single']:
                plot = qs[0].plot_ipf(d, e['sym'], projection=proj_arg(e), plot=base, fig=fig, ax=ax, **kw)
            else:
                plot = Quat.plot_ipf(qs, d, e['sym'], projection=proj_arg(e), plot=base, fig=fig, ax=ax, **kw)
            if e['cbar']:
                e['bar'] = [plot.colour_bar.ax.get_ylabel(), *[ri(v) for v in plot.colour_bar.mappable.get_clim()]]
        new = plot.ax.collections[1 if e['twice'] and not e['grain'] else 0:]
        e['layers'] = [[rl(p, F) for p in np.asarray(s.get_offsets())] for s in new]
        if e['mark'] != 'no':
            e['colours'] = [cols(s) for s in new]
        e['arr'] = [ri(v) for v in new[0].get_array()] if e['warr'] and new[0].get_array() is not None else []
        e['half'] = [half(s) for s in new]
        e['lines'], e['labels'] = lines(plot.ax), labels(plot.ax)
        for k in ('ks', 'vals', 'listed', 'single', 'twice', 'pick', 'ids', 'bymap'):
            e.pop(k, None)
        return e
    plot = PolePlot('IPF', e['sym'], projection=proj_arg(e), fig=fig, ax=ax)
    kl, kt = len(plot.ax.lines), len(plot.ax.texts)
    if o == 'label':
        plot.label_point(tuple(e['p']), plot_syms=e['syms'], **({'label': e['text']} if e['text'] else {}))
        e['labels'] = labels(plot.ax, kt)
    else:
        plot.add_line(tuple(e['a']), tuple(e['b']), plot_syms=e['syms'], res=e['res'], c='r')
        e['lines'] = lines(plot.ax, kl)
    return e
