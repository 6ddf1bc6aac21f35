"""Drives the EBSD map linker with real mouse events (C24)."""
import numpy as np
import defdap.ebsd as ebsd
from defdap.quat import Quat
from d_dic import attempt
from d_ebsd import mkphase
from d_exp import fire, data_xy, press_button
from d_quat import ri

FIG = {'fig_params': {'figsize': (3, 2.5), 'dpi': 60}}


def mk(c):
    w, h = c['w'], c['h']
    e = np.zeros((3, h, w))
    e[0] = np.deg2rad(np.array(c['ori'], float).reshape(h, w))
    m = ebsd.Map({'step_size': c['step'] / 8, 'phases': [mkphase('cubic')], 'phase': np.array(c['ph'], int).reshape(h, w), 'euler_angle': e,
                  'band_contrast': np.zeros((h, w), int)}, data_type='PythonDict')
    m.data.generate('grains', min_grain_size=c['min'])
    return m


def token(q):
    if q is None:
        return 0
    w, x, y, z = q.quat_coef
    if abs(x) > 1e-6 or abs(y) > 1e-6:
        return -1
    a = np.rad2deg(2 * np.arctan2(-z, w)) % 90
    return int(round(float(a))) % 90 + 1


def own(g):
    a = np.rad2deg(g.owner_map.data.euler_angle[0][g.data.point[0][1], g.data.point[0][0]]) % 90
    return int(round(float(a))) % 90 + 1


def zq(v):
    return Quat.from_euler_angles(np.deg2rad(v - 1), 0, 0)


def link(case):
    import matplotlib.pyplot as plt
    maps = [mk(c) for c in case['maps']]
    ms = [{'w': m.x_dim, 'h': m.y_dim, 'step': c['step'], 'lab': [int(x) for x in np.asarray(m.data.grains).ravel()], 'n': len(m), 'own': [own(g) for g in m]}
          for m, c in zip(maps, case['maps'])]
    if any(q['n'] == 0 for q in ms):
        return {'many': []}
    ln = ebsd.Linker(maps)
    rng = np.random.default_rng(case['seed'])
    ev = []
    plots, mode = [], ''
    for op in case['ops']:
        e = dict(op)
        o = e['op']
        ok, mis = True, []
        m = e.get('m', 1)
        M = maps[m - 1]
        if 'g' in e:
            e['g'] = int(rng.integers(0, ms[m - 1]['n'])) + 1
        if 'v' in e:
            e['v'] = int(rng.integers(0, 90)) + 1
        if 'z' in e:
            e['z'] = [int(rng.integers(0, d)) * 100 + int(rng.integers(-47, 48)) for d in (M.x_dim, M.y_dim)]
        if o in ('origin', 'click', 'link'):
            want = 'o' if o == 'origin' else 'l'
            if mode != want:
                if case['close']:
                    plt.close('all')
                ok, _ = attempt(lambda: (ln.set_origin(**FIG) if want == 'o' else ln.start_linking()))
                mode = want
        if o in ('origin', 'click'):
            p = ln.plots[m - 1]
            px, py = data_xy(p, e['z'][0] / 100, e['z'][1] / 100)
            if o == 'click' and not e['inside']:
                bb = p.ax.bbox
                px, py = bb.x0 - 4, bb.y0 + 6
            ok, _ = attempt(lambda: fire(p, 'button_press_event', px, py, 1))
        elif o == 'link':
            if case['btn'] and all(q.sel_grain is not None for q in maps):
                ok, _ = attempt(lambda: press_button(ln.plots[int(rng.integers(0, len(maps)))], 0))
            else:
                ok, _ = attempt(lambda: ln.make_link(None, ln.plots[0]))
        elif o == 'reset':
            ok, _ = attempt(ln.reset_links)
        elif o == 'ref':
            M[e['g'] - 1].ref_ori = zq(e['v'])
        elif o == 'turn':
            r = maps[0][e['g'] - 1].ref_ori
            if r is None:
                maps[0][e['g'] - 1].ref_ori = zq(e['v'])
            else:
                r.quat_coef[:] = zq(e['v']).quat_coef
        elif o == 'master':
            ok, _ = attempt(ln.set_ref_ori_from_master)
        elif o == 'misori':
            for q in maps:
                for g in q:
                    g.mis_ori_list = g.mis_ori_axis_list = None
            e['axis'] = bool(rng.random() < .5)
            kw = {'calc_axis': e['axis']} if e['axis'] or rng.random() < .5 else {}
            ok, _ = attempt(lambda: ln.update_misori(**kw))
            for i, q in enumerate(maps):
                for k, g in enumerate(q):
                    if g.mis_ori_list is not None:
                        d = sorted({int(round(float(np.rad2deg(2 * np.arccos(min(1., float(v))))))) for v in g.mis_ori_list})
                        a = g.mis_ori_axis_list
                        a = [] if a is None else np.rad2deg(np.array([[float(v) for v in row] for row in a]).reshape(-1, 3).T)
                        mis.append({'m': i + 1, 'g': k + 1, 'deg': d, 'turn': sorted({int(round(abs(v))) for v in a[2]}) if len(a) else [],
                                    'tilt': int(round(float(np.abs(a[:2]).max()))) if len(a) else 0})
        e['ok'] = ok
        e['mis'] = mis
        sel = [0 if q.sel_grain is None else 1 + [i for i, g in enumerate(q) if g is q.sel_grain][0] for q in maps]
        e['s'] = {'origin': [[int(v) for v in q.origin] for q in maps], 'sel': sel, 'links': [[int(v) for v in t] for t in ln.links],
                  'ref': [[token(g.ref_ori) for g in q] for q in maps]}
        ev.append(e)
    plt.close('all')
    return {'ms': ms, 'ev': ev}
