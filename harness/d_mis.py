"""Drives views of misorientation within grains and across segments (C39)."""
import re
import numpy as np
import matplotlib.pyplot as plt
import d_ebsd
from d_quat import ri, rl, comp, unit, attempt

F = 10000


def image(p):
    return np.ma.filled(np.ma.asarray(p.img_layers[0].get_array(), dtype=float), np.nan)


def hund(v):
    return ri(v * 100) if np.isfinite(v) else 99999


def label(p, comp):
    if not comp:
        return ''
    cb = p.colour_bar
    m = re.findall(r'\b([XYZ])\b', cb.ax.get_ylabel() + ' ' + cb.ax.get_xlabel())
    return m[0] if len(m) == 1 else '?'


def run(case):
    try:
        return run1(case)
    finally:
        plt.close('all')


def run1(case):
    m = d_ebsd.mkmap(case)
    d_ebsd.getb(case, m)
    d_ebsd.getg(case, m)
    gs = list(m)
    pts = [[[int(x), int(y)] for x, y in g.data.point] for g in gs]
    r = {'sym': case['sym'], 'w': case['w'], 'h': case['h'], 'img': [case['pal'][i - 1] for i in case['ori']], 'pts': pts, 'ev': [], 'nseg': 0}
    if not gs:
        return {'many': []}
    inside = np.zeros((case['h'], case['w']), bool)
    for g in pts:
        for x, y in g:
            inside[y, x] = True
    for o in case['script']:
        e = dict(o)
        if 'g' in e:
            e['g'] = (e['g'] - 1) % len(gs) + 1
            g = gs[e['g'] - 1]
        try:
            if e['op'] == 'set':
                e['q'] = case['refs'][e['q'][0] - 1]
                g.ref_ori = unit(e['q'], False)
            elif e['op'] == 'avg':
                m.calc_grain_av_oris()
            elif e['op'] == 'calc':
                m.calc_grain_mis_ori(**({'calc_axis': e['axis']} if e['axis'] or case['flag'] else {}))
            elif e['op'] == 'build':
                g.build_mis_ori_list(**({'calc_axis': e['axis']} if e['axis'] or case['flag'] else {}))
            elif e['op'] == 'show':
                p = m.plot_mis_ori_map(**({'component': e['comp']} if e['comp'] or case['flag'] else {}))
                a = image(p)
                e['shape'] = list(a.shape)
                e['vals'] = [[hund(a[y, x]) for x, y in q] for q in pts]
                e['out'] = int(np.sum(a[~inside] != 0))
                e['label'] = label(p, e['comp'])
            elif e['op'] == 'showg':
                p = g.plot_mis_ori(**({'component': e['comp']} if e['comp'] or case['flag'] else {}))
                a = image(p)
                q = pts[e['g'] - 1]
                x0, y0 = min(x for x, y in q), min(y for x, y in q)
                e['vals'] = [hund(a[y - y0, x - x0]) for x, y in q]
                e['out'] = int(np.sum(np.isfinite(a))) - sum(v != 99999 for v in e['vals'])
                e['label'] = label(p, e['comp'])
            elif e['op'] == 'seg':
                if any(g.ref_ori is None for g in gs):
                    continue
                e['segs'] = []
                if m.neighbour_network is None:
                    m.build_neighbour_network()
                net = m.neighbour_network
                r['nseg'] = net.number_of_edges()
                for a, b in net.edges:
                    s = net[a][b]['boundary']
                    t, ax = s.misorientation()
                    k = [next(i for i, x in enumerate(gs) if x is y) + 1 for y in (s.grain1, s.grain2)]
                    if np.degrees(t) < .6:
                        ax = np.zeros(3)
                    e['segs'].append({'a': k[0], 'b': k[1], 'ang': hund(np.degrees(t)), 'axis': rl(ax, 1000)})
        except Exception as x:
            e = {'op': 'crash', 'what': repr(x)[:120]}
        e['refs'] = [rl(comp(g.ref_ori), F) if g.ref_ori is not None else [] for g in gs]
        r['ev'].append(e)
        if e['op'] == 'crash':
            break
    return r
