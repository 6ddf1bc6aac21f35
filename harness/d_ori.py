"""Drives orientation based results: means (C26), KAM (C27), colours (C28), turning (C25)."""
import numpy as np
import defdap.ebsd as ebsd
from defdap.quat import Quat
from d_quat import ri, rl, unit, comp, n, attempt
from d_ebsd import mkphase
import d_ebsd

F = 10000


def eqv(sym, k):
    """the k-th rotation of the group, chosen by the harness (not from the code)"""
    if sym == 'cubic':
        r = np.sqrt(.5)
        g = [[1, 0, 0, 0], [r, r, 0, 0], [0, 1, 0, 0], [.5, .5, .5, .5], [0, r, r, 0], [.5, -.5, .5, .5], [r, 0, 0, -r], [0, 0, r, -r]]
    else:
        g = [[np.cos(np.pi * j / 6), 0, 0, np.sin(np.pi * j / 6)] for j in range(6)] + \
            [[0, np.cos(np.pi * j / 6), np.sin(np.pi * j / 6), 0] for j in range(6)]
    return np.array(g[k % len(g)], dtype=float)


def qm(p, q):
    return np.array([p[0]*q[0]-p[1]*q[1]-p[2]*q[2]-p[3]*q[3], p[0]*q[1]+p[1]*q[0]+p[2]*q[3]-p[3]*q[2],
                     p[0]*q[2]-p[1]*q[3]+p[2]*q[0]+p[3]*q[1], p[0]*q[3]+p[1]*q[2]-p[2]*q[1]+p[3]*q[0]])


def mix(qs, ks, sym, south):
    out = []
    for i, q in enumerate(qs):
        u = np.array(q, dtype=float) / n(q)
        if ks:
            u = qm(eqv(sym, ks[i]), u)
        out.append(Quat(u, allow_southern=south))
    return out


def halves(ax):
    """rotation vector -> cos and axis*sin of half of it"""
    res = []
    for a in ax:
        t = n(a)
        if not np.isfinite(t):
            res.append([0, 0, 0, 0])
        elif t == 0:
            res.append([F, 0, 0, 0])
        else:
            res.append([ri(np.cos(t / 2) * F)] + rl(np.array(a) / t * np.sin(t / 2), F))
    return res


def rgb(a):
    return [ri(v * 1000) if np.isfinite(v) else -1 for v in a]


def run(e):
    e = dict(e)
    o = e['op']
    if o == 'avg':
        qs = mix(e['qs'], e.pop('ks'), e['sym'], e.pop('south'))
        e['mean'] = rl(comp(Quat.calc_average_ori(Quat.calc_sym_eqvs(qs, e['sym']))), F)
    elif o == 'kam':
        m = mk(e)
        r = m.data.KAM
        e['shape'] = list(r.shape)
        e['r'] = [ri(np.cos(v / 2) * F) for v in np.asarray(r).ravel()]
    elif o == 'kamf':
        # sines keep the digits that cosines of small angles lose
        e['r'] = [ri(2e8 * np.sin(v / 4) ** 2) for v in np.asarray(mk(e).data.KAM).ravel()]
    elif o == 'fund':
        qs = mix(e['qs'], e.pop('ks'), e['sym'], e.pop('south'))
        kw = {} if e['dflt'] else {'triangle': 'up' if e['up'] else 'down'}
        a, b = Quat.calc_fund_dirs(qs, e['d'], e['sym'], **kw)
        if e['dflt']:
            from defdap import defaults
            e['up'] = defaults['ipf_triangle_convention'] == 'up'
        e['r'] = [rl([np.sin(x) * np.cos(y), np.sin(x) * np.sin(y), np.cos(x)], F) for x, y in zip(a, b)]
    elif o == 'ipf':
        qs = mix(e['qs'], e.pop('ks'), e['sym'], e.pop('south'))
        r = Quat.calc_ipf_colours(np.array(qs, dtype=object) if e['arr'] else qs, np.array(e['d']), e['sym'])
        e['r'] = [rgb(c) for c in np.asarray(r).T]
    elif o == 'same':
        qs = mix([e['q']] * len(e['ks']), e['ks'], e['sym'], False)
        r = Quat.calc_ipf_colours(qs, np.array(e['d'], dtype=float) * e['len'], e['sym'])
        e['r'] = [rgb(c) for c in np.asarray(r).T]
        e.pop('len')
    elif o == 'corner':
        from numpy import sqrt
        d = {'cubic': [[0, 0, 1], [0, 1, 1], [-1, 1, 1]], 'hexagonal': [[0, 0, 1], [0, 1, 0], [-.5, sqrt(3) / 2, 0]]}[e['sym']][e['k'] - 1]
        P = unit(e['q'])
        # the sample direction that lies along the corner in the crystal (or an equivalent one)
        g = eqv(e['sym'], e['s'])
        v = qm(qm(g, [0] + list(d)), g * [1, -1, -1, -1])
        v = qm(qm(comp(P) * [1, -1, -1, -1], v), comp(P))[1:]
        e['r'] = rgb(np.asarray(Quat.calc_ipf_colours([P], v, e['sym'])).T[0])
    return e


def mk(e, syms=('cubic',)):
    w, h = e['w'], e['h']
    eul = np.zeros((3, h, w))
    if 'eul' in e:
        eul = np.radians(np.array(e['eul'], dtype=float).T.reshape(3, h, w))
    d = {'step_size': 1., 'phases': [mkphase(s, i) for i, s in enumerate(syms)],
         'phase': np.array(e.get('ph', [1] * (w * h)), dtype=int).reshape(h, w), 'euler_angle': eul,
         'band_contrast': np.array(e.get('bc', [1] * (w * h))).reshape(h, w)}
    m = ebsd.Map(d, data_type='PythonDict')
    if 'bs' in e:
        m.data.add('band_slope', np.array(e['bs']).reshape(h, w), type='map')
    if 'mad' in e:
        m.data.add('mean_angular_deviation', np.array(e['mad']).reshape(h, w), type='map', order=0)
    if 'vec' in e:
        m.data.add('vec', np.array(e['vec']).T.reshape(2, h, w), type='map', order=1)
        m.data.add('lst', list(e['ph']), type='list')
    if e.get('img'):
        m.data.orientation = oris(e['img'], w, h)
    return m


def oris(img, w, h):
    a = np.empty((h, w), dtype=object)
    for k, q in enumerate(img):
        a[k // w, k % w] = Quat(np.array(q, dtype=float) / n(q), allow_southern=True)
    return a


def colmap(e):
    e = dict(e)
    m = mk(e, e['syms'])
    bg = {None: [0, 0, 0]}.get(None) if e['bgin'] is None else e['bgin']
    kw = {}
    if e['bgin'] is not None:
        kw['bg_colour'] = np.array(e['bgin'], dtype=float) / 4
        bg = [ri(b / 4 * 1000) for b in e['bgin']]
    e['bg'] = bg
    if e['selin'] is not None:
        kw['phases'] = e['selin']
        e['sel'] = [s + 1 for s in e['selin']]
    else:
        e['sel'] = [i + 1 for i in range(len(e['syms']))]
    if e['kind'] == 'ipf':
        r = m.calc_ipf_colour(m.data.orientation, np.array(e['d']), **kw)
    else:
        r = m.calc_euler_colour(m.data.euler_angle, **kw)
    e['shape'] = list(r.shape)
    e['r'] = [rgb(c) for c in r.reshape(-1, 3)]
    e.pop('bgin'), e.pop('selin')
    return e


def graincol(e):
    """colours of each grain's own map"""
    import matplotlib.pyplot as plt
    e = dict(e)
    m = mk(e, e['syms'])
    w, h = e['w'], e['h']
    bx = np.zeros((h, w), bool)
    for x in e['cuts']:
        bx[:, x] = True
    m.data.grain_boundaries = ebsd.BoundarySet.from_image(m, bx, np.zeros((h, w), bool))
    m.data.generate('grains', min_grain_size=1)
    out = []
    for g in m:
        pts = [(int(x), int(y)) for x, y in g.data.point]
        p = g.plot_map('orientation', 'IPF_' + 'xyz'[e['axis']]) if e['kind'] == 'ipf' else g.plot_map('euler_angle', component='all_euler')
        a = np.ma.filled(np.ma.asarray(p.img_layers[0].get_array(), dtype=float), np.nan)
        x0, y0 = min(x for x, y in pts), min(y for x, y in pts)
        k = [y * w + x for x, y in pts]
        ph = {e['ph'][i] for i in k}
        if len(ph) == 1:
            out.append({'op': 'graincol', 'kind': e['kind'], 'sym': e['syms'][ph.pop() - 1], 'img': [e['img'][i] for i in k], 'eul': [e['eul'][i] for i in k],
                        'd': [int(i == e['axis']) for i in range(3)], 'r': [rgb(a[y - y0, x - x0]) if a.ndim == 3 else [-2] * 3 for x, y in pts],
                        'shape': list(a.shape), 'box': [max(y for x, y in pts) - y0 + 1, max(x for x, y in pts) - x0 + 1]})
        plt.close('all')
    return {'many': out}


def grains(case):
    """Means and spreads of every grain of a map: one record per grain, returned as a list."""
    m = d_ebsd.mkmap(case)
    d_ebsd.getb(case, m)
    d_ebsd.getg(case, m)
    rng = np.random.default_rng(case['seed'])
    out = []
    order = list(range(len(m.grains)))
    if case['mapwise']:
        m.calc_grain_av_oris()
        m.calc_grain_mis_ori(calc_axis=case['axis'])
    for gi in order:
        g = m.grains[gi]
        if len(g) > 14:
            continue
        pts = [(int(x), int(y)) for x, y in g.data.point]
        e = {'op': 'grain', 'sym': 'cubic' if g.phase.crystal_structure.name == 'cubic' else 'hexagonal',
             'qs': [case['pal'][case['ori'][y * case['w'] + x] - 1] for x, y in pts], 'set': False, 'ref': [1, 0, 0, 0]}
        how = rng.integers(4)
        if how == 0:        # explicit reference
            e['set'] = True
            e['ref'] = case['pal'][int(rng.integers(len(case['pal'])))]
            g.ref_ori = unit(e['ref'], False)
        elif how == 1:
            g.calc_average_ori()
        axes = []
        first = rng.random() < 0.5
        if first:
            grod, gax = g.data['GROD'], g.data['GROD_axis']
        ax = rng.random() < 0.6
        g.build_mis_ori_list(calc_axis=ax)
        if ax:
            axes.append(halves(g.mis_ori_axis_list))
        if not first:
            grod, gax = g.data['GROD'], g.data['GROD_axis']
        axes.append(halves(np.asarray(gax).T))
        e['mean'] = rl(comp(g.ref_ori), F)
        e['list'] = [ri(v * F) for v in g.mis_ori_list]
        e['sum'] = sum(e['list'])
        e['av'] = ri(g.average_mis_ori * F)
        e['grod'] = [ri(np.cos(v / 2) * F) for v in grod]
        e['axes'] = axes
        out.append(e)
    return {'many': out}


def rotate(case):
    r = dict(case)
    m = mk(case)
    names = {'ph': 'phase', 'bc': 'band_contrast', 'bs': 'band_slope', 'ori': 'orientation', 'eul': 'euler_angle',
             'mad': 'mean_angular_deviation', 'vec': 'vec', 'lst': 'lst'}
    ev = []
    e0 = set(case) | {'ori'} | ({'lst'} if 'vec' in case else set())
    for k in ('bs', 'mad', 'vec'):
        r.setdefault(k, [])
    for op in case['ops']:
        e = dict(op)
        if op['op'] == 'rotate':
            e['ok'] = attempt(m.rotate_data)
        elif op['op'] == 'setori':
            m.data.orientation = oris(op['img'], case['w'], case['h'])
        else:
            if op['what'] not in e0:
                continue
            v = m.data[names[op['what']]]
            if op['what'] == 'ori':
                e['r'] = [rl(comp(q), F) for q in v.ravel()]
            elif op['what'] == 'eul':
                e['r'] = [[ri(np.degrees(x)) for x in c] for c in v.reshape(3, -1).T]
            elif op['what'] == 'vec':
                e['r'] = [[int(x) for x in c] for c in np.asarray(v).reshape(2, -1).T]
            else:
                e['r'] = [int(x) for x in np.ravel(v)]
        ev.append(e)
    r.pop('ops')
    r['ev'] = ev
    return r
