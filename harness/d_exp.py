"""Drives experiments, frames and the interactive picking of points (C12, C13)."""
import numpy as np
import defdap
import defdap.hrdic as hrdic
import defdap.ebsd as ebsd
from defdap.experiment import Experiment, Frame
from d_dic import Scratch, davis, attempt
from d_ebsd import mkphase


def emap(w, h, **kw):
    return ebsd.Map({'step_size': 1., 'phases': [mkphase('cubic')], 'phase': np.ones((h, w), int), 'euler_angle': np.zeros((3, h, w)),
                     'band_contrast': np.arange(w * h).reshape(h, w) % 256}, data_type='PythonDict', **kw)


def fire(plot, name, x, y, button=None, key=None):
    from matplotlib.backend_bases import MouseEvent, KeyEvent
    c = plot.fig.canvas
    if name == 'key_press_event':
        ev = KeyEvent(name, c, key, x, y)
    else:
        ev = MouseEvent(name, c, x, y, button, key)
    c.callbacks.process(name, ev)


def data_xy(plot, x, y):
    return plot.ax.transData.transform((x, y))


def press_button(plot, i):
    a = plot.btn_store[i].ax
    b = a.bbox
    x, y = (b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2
    fire(plot, 'button_press_event', x, y, 1)
    fire(plot, 'button_release_event', x, y, 1)


def layer(plot, i, one):
    o = plot.img_layers[plot.points_layer_ids[i]].get_offsets()
    o = np.ma.filled(np.ma.asarray(o).astype(float), np.nan)
    ps = [[round(float(a), 6) for a in p] for p in o if not np.isnan(p).any()]
    ps = [[int(a) if a == int(a) else a for a in p] for p in ps]
    return (ps[0] if ps else []) if one else ps


def picking(case):
    import matplotlib.pyplot as plt
    w, h = case['w'], case['h']
    ex = Experiment()
    with Scratch() as d:
        a = hrdic.Map(davis(d, w, h, 4, np.zeros((h, w)), np.zeros((h, w))), experiment=ex)
        b = hrdic.Map(davis(d, w, h, 4, np.zeros((h, w)), np.zeros((h, w))), experiment=ex, frame=a.frame)
    c = emap(w, h, experiment=ex)
    for m in (a, b, c):
        for k in (1, 2, 3, 4):
            m.data.add(f'pat{k}', np.arange(w * h * k * k).reshape(h * k, w * k), type='map', order=0, **({'binning': k} if k > 1 else {}))
    F = {1: a.frame, 2: c.frame}
    plots, ev = [], []
    rr = case['alt']
    for n, op in enumerate(case['ops']):
        e = dict(op)
        o = e['op']
        ok = True
        if o == 'open':
            m = c if e['f'] == 2 else (a, b)[(rr + n) % 2]
            kw = {} if e['bin'] == 1 and (rr + n) % 3 else {'map_name': f'pat{e["bin"]}'}
            ok, p = attempt(lambda: m.set_homog_point(fig_params={'figsize': (3, 2.5), 'dpi': 60}, **kw))
            if ok:
                plots.append(p)
        elif o == 'click':
            p = plots[e['p'] - 1]
            if e['inside']:
                x, y = data_xy(p, e['x'] / 100, e['y'] / 100)
            else:
                bb = p.ax.bbox
                x, y = [(bb.x0 - 5, bb.y0 + 5), (bb.x1 + 3, bb.y1 - 2), (bb.x0 + 4, bb.y1 + 4), (1, 1)][n % 4]
            ok, _ = attempt(lambda: fire(p, 'button_press_event', x, y, e['button'], e['mod'] or None))
            attempt(lambda: fire(p, 'button_release_event', x, y, e['button'], e['mod'] or None))
        elif o == 'key':
            p = plots[e['p'] - 1]
            k = None if e['key'] == 'none' else (e['mod'] + '+' if e['mod'] else '') + e['key']
            ok, _ = attempt(lambda: fire(p, 'key_press_event', 5, 5, key=k))
        elif o == 'save':
            p = plots[e['p'] - 1]
            q = F[1] if p.calling_map is not c else F[2]
            n0 = len(q.homog_points)
            ok, _ = attempt(lambda: press_button(p, -1))
            new = q.homog_points[n0:]
            e['saved'] = [int(v) for v in new[-1]] if len(new) else []
        elif o == 'set':
            F[e['f']].set_homog_points([tuple(x) for x in e['pts']])
        elif o == 'put':
            if e['i'] < 0:
                continue
            ok, _ = attempt(lambda: F[e['f']].update_homog_points(e['i'], new_point=tuple(e['v'])))
        elif o == 'shift':
            ok, _ = attempt(lambda: F[e['f']].update_homog_points(homog_idx=e['i'], delta=tuple(e['v'])))
        elif o == 'notint':
            ok, _ = attempt(lambda: F[e['f']].update_homog_points([0, 0.0, '0', None][n % 4], delta=(1, 1)))
        e['ok'] = ok
        e['pts2'] = [[[int(v) for v in x] for x in F[i].homog_points] for i in (1, 2)]
        e['seen'] = [{'sel': layer(p, 1, True), 'shown': layer(p, 0, False)} for p in plots]
        ev.append(e)
    plt.close('all')
    return {'ev': ev}


def book(case):
    anon = defdap.anonymous_experiment
    n0 = len(anon.increments)
    E = [anon, Experiment(), Experiment()]
    incs, maps, ev = [], [], []

    def see(i):
        if not any(q is i for q in incs):
            incs.append(i)
    ident = lambda x, l: next((k + 1 for k, q in enumerate(l) if q is x), 0)
    with Scratch() as d:
        f = davis(d, 2, 2, 4, np.zeros((2, 2)), np.zeros((2, 2)))
        for op in case['ops']:
            e = dict(op)
            o = e['op']
            ok, res = True, []
            if o == 'inc':
                kw = {'step': e['meta']} if e['meta'] else {}
                ok, r = attempt(lambda: E[e['exp'] - 1].add_increment(**kw))
                if ok:
                    see(r)
            elif o == 'map':
                kw = {}
                if e['exp']:
                    kw['experiment'] = E[e['exp'] - 1]
                if e['inc']:
                    kw['increment'] = incs[e['inc'] - 1]
                if e['frame']:
                    kw['frame'] = Frame() if e['frame'] < 0 else maps[e['frame'] - 1].frame
                if e['name']:
                    kw['map_name'] = e['name']
                ok, m = attempt(lambda: emap(2, 2, **kw) if e['kind'] == 'ebsd' else hrdic.Map(f, **kw))
                if ok:
                    maps.append(m)
                for x, ex in enumerate(E):
                    for i in ex.increments[n0 if x == 0 else 0:]:
                        see(i)
            elif o == 'attach':
                ok, _ = attempt(lambda: incs[e['inc'] - 1].add_map(e['name'], maps[e['m'] - 1]))
            elif o == 'iter':
                x = e['exp']
                ok, r = attempt(lambda: [(i, m) for i, m in E[x - 1].iter_over_maps(e['name'])])
                if ok:
                    sh = n0 if x == 1 else 0
                    res = [[int(i) - sh, ident(m, maps)] for i, m in r if i >= sh]
            elif o == 'get':
                ok, r = attempt(lambda: E[e['exp'] - 1][e['k']])
                res = [ident(r, incs)] if ok else []
            elif o == 'pts':
                maps[e['m'] - 1].frame.set_homog_points([tuple(p) for p in e['pts']])
            elif o == 'addpt':
                ok, _ = attempt(lambda: maps[e['m'] - 1].frame.update_homog_points(-1, delta=(e['d'], 0)))
            e['ok'], e['res'] = ok, res
            frames = []
            for m in maps:
                if not any(q is m.frame for q in frames):
                    frames.append(m.frame)
            e['s'] = {
                'exps': [[ident(i, incs) for i in ex.increments[n0 if x == 0 else 0:]] for x, ex in enumerate(E)],
                'incs': [{'exp': ident(i.experiment, E), 'meta': int(i.metadata.get('step', 0)) if len(i.metadata) <= 1 else -1,
                          'maps': [[str(k), ident(v, maps)] for k, v in i.maps.items()]} for i in incs],
                'maps': [{'inc': ident(m.increment, incs), 'exp': ident(m.experiment, E), 'frame': ident(m.frame, frames),
                          'pts': [[int(v) for v in p] for p in m.frame.homog_points]} for m in maps],
            }
            ev.append(e)
    return {'ev': ev}
