"""Drives the interactive grain inspector (C23)."""
import contextlib, io, os, pathlib, re
import numpy as np
import defdap.ebsd as ebsd
import defdap.hrdic as hrdic
from defdap.inspector import GrainInspector
from defdap.quat import Quat
from d_dic import Scratch, attempt, davis
from d_ebsd import mkphase
from d_exp import data_xy, fire, press_button
from d_quat import ri


def c100(x):
    return ri(float(x) * 100)


def observe(m, gi, n):
    return {'cur': gi.grain_id + 1,
            'lines': [[{'p': [c100(v) for v in l[0]], 'ang': c100(l[1]), 'grp': int(l[2])} for l in g.points_list] for g in m],
            'groups': [[{'id': int(k[0]), 'ang': c100(k[1]), 'planes': [int(v) for v in k[2]], 'dev': [c100(v) for v in k[3]], 'rdr': ri(float(k[4]) * 10000)} for k in g.groups_list]
                       for g in m]}


def numbers(t):
    return [float(v) for v in t.replace(',', ' ').replace('[', ' ').replace(']', ' ').split()]


def table(text):
    rows = []
    for l in text.split('\n'):
        t = l.split('\t')
        if len(t) == 10 and t[0].isdigit():
            rows.append({'g': int(t[0]), 'k': int(t[5]), 'ang': ri(float(t[6]) * 10), 'eul': [ri(float(v) * 10) for v in t[1:4]], 'sf': ri(float(t[4]) * 1000),
                         'planes': [int(v) for v in numbers(t[7])], 'dev': [c100(v) for v in numbers(t[8])], 'rdr': c100(t[9])})
    return rows


def texts(fig):
    return [t for ax in fig.axes for t in ax.texts]


def shown(fig):
    """What the window says of the grain shown."""
    r = {'lines': [], 'groups': [], 'grain': [], 'strain': [], 'seen': [0, 0, 0]}
    for t in texts(fig):
        s = t.get_text()
        rows = [l for l in s.split('\n')[1:] if l.strip() and not l.startswith('-')]
        if re.match(r'ID\s+x0', s):
            r['seen'][0] += 1
            for l in rows:
                v = l.split()
                r['lines'].append({'id': int(v[0]), 'p': [int(float(q)) for q in v[1:5]], 'ang': ri(float(v[5]) * 10), 'grp': int(v[6])})
        elif re.match(r'ID\s+Av', s):
            r['seen'][1] += 1
            for l in rows:
                v = l.split()
                r['groups'].append({'id': int(v[0]), 'ang': ri(float(v[1]) * 10), 'planes': [int(float(q)) for q in v[2].split(',')] if len(v) > 3 else [],
                                    'dev': [ri(float(q) * 10) for q in v[3].split(',')] if len(v) > 3 else [], 'rdr': c100(v[-1])})
        elif s.startswith('Grain ID'):
            r['seen'][2] += 1
            v = re.findall(r'-?\d+(?:\.\d+)?', s)
            r['grain'] = [int(q) for q in v[:2]]
            r['strain'] = [c100(q) for q in v[2:5]]
    return r


def arrows(gi):
    """Labelled arrows on the map of the grain: where and which line."""
    r = {'at': [], 'tag': []}
    for t in gi.max_shear_axis.texts:
        if hasattr(t, 'arrow_patch'):
            if t.arrow_patch is not None:
                r['at'].append([c100(v) for v in (*t.xy, *t.get_position())])
            elif t.get_text().isdigit():
                r['tag'].append([int(t.get_text())] + [c100(v) for v in t.xy])
    return r


def big(x):
    x = float(x)
    return ri(x * 1000) if abs(x) < 1000 else 1000000 if x == x else 2000000


NUM = r'(-?(?:\d+\.?\d*|inf|nan))'


def window(fig):
    """What the window of a measured ratio says."""
    r = {'ang': [], 'eul': [], 'fit': [], 'planes': []}
    for t in texts(fig):
        s = t.get_text()
        if s.startswith('Average angle'):
            v = re.findall(NUM, s)
            r['ang'], r['eul'] = [c100(v[0])], [ri(float(q) * 10) for q in v[1:4]]
        elif s.startswith('Slope'):
            q = re.search('Slope = ' + NUM, s), re.search('R-squared = ' + NUM, s), re.search('n=' + NUM, s)
            r['fit'] = [big(q[0][1]), big(q[1][1]), int(q[2][1])]
        elif s.startswith('Plane'):
            r['planes'].append({'ang': ri(float(re.search('Angle: ' + NUM, s)[1]) * 10), 'bold': t.get_weight() in ('bold', 700),
                                'sf': [big(q) for q in re.findall('SF: ' + NUM, s)], 'rdr': [big(q) for q in re.findall('RDR: ' + NUM, s)]})
    return r


def inspect(case):
    import matplotlib.pyplot as plt
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    FigureCanvasAgg.draw = lambda *a, **k: None      # what the window looks like is not judged
    w, h = case['w'], case['h']
    rng = np.random.default_rng(case['seed'])
    cut = w // 2
    cl, ct = case['crop']
    W, H = w + cl + 1, h + ct
    oris = np.empty((h, w), dtype=Quat)
    for j in range(w):
        for i in range(h):
            oris[i, j] = Quat.from_euler_angles(*np.deg2rad(case['eul'][0 if j < cut else 1]))
    em = ebsd.Map({'step_size': 1., 'phases': [mkphase(case['sym'])], 'phase': np.ones((h, w), int), 'euler_angle': np.zeros((3, h, w)),
                   'band_contrast': np.zeros((h, w), int)}, data_type='PythonDict')
    em.data.orientation = oris
    u, v = rng.integers(0, 3, (2, H, W))
    ev, theo = [], []
    with Scratch() as d:
        m = hrdic.Map(pathlib.Path(davis(d, W, H, 4, u, v)), experiment=em.experiment)
        m.set_crop(left=cl, right=1, top=ct, bottom=0)
        pts = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)]
        m.frame.set_homog_points(pts)
        em.frame.set_homog_points(pts)
        m.link_ebsd_map(em)
        m.set_scale(.1)
        m.data.generate('grains', algorithm='warp')
        em.calc_grain_av_oris()
        em.calc_average_grain_schmid_factors(np.array([0, 0, 1]))
        cells = []
        if not case['unit']:                       # drawing the crystal is slow and not judged
            for i, g in enumerate(em):
                g.plot_unit_cell = lambda *a, i=i, **k: cells.append(i + 1)
        gi = GrainInspector(m, .1, correction_angle=case['corr'], rdr_line_length=2 * case['r'] + 1)
        n = len(m)
        theo = [[c100(np.rad2deg(t)) for t in g.ebsd_grain.slip_traces] for g in m]
        eul = [[ri(float(t) * 10) for t in np.rad2deg(g.ebsd_grain.ref_ori.euler_angles())] for g in m]
        sch = [[[big(t) for t in k] for k in g.ebsd_grain.average_schmid_factors] for g in m]
        top = [max(t for k in q for t in k) for q in sch]
        strain = [[ri(float(t) * 10000) for t in np.asarray(g.data.max_shear).ravel()] for g in m]
        tr = []
        for g in m:
            g.ebsd_grain.calc_rdr()
            tr.append([[big(t) for t in k] for k in g.ebsd_grain.rdr])
        NOWIN = {'ang': [], 'eul': [], 'fit': [], 'planes': []}
        cu, cv = u[ct:ct + h, cl:cl + w], v[ct:ct + h, cl:cl + w]
        for op in case['ops']:
            e = dict(op)
            o = e['op']
            e.setdefault('of', 1)
            e.update(drawn=[0] * 4, p=[0] * 4, ang=0, corr=0, slope=0, u=[], v=[], off=[0, 0], r=case['r'], w=w, table=[], eul=[], win=NOWIN, opened=0)
            g = m[gi.grain_id]
            x0, y0, x1, y1 = (int(t) for t in g.extreme_coords)
            gw, gh = x1 - x0, y1 - y0
            if o == 'line':
                k = e['kind']
                rd = case['r'] + 1
                ins = lambda s: int(rng.integers(rd, max(rd + 1, s - rd + 1)))
                a = [ins(gw), ins(gh)]
                if k < 5 or k == 14:            # straight lines on pixels away from the edge
                    dx, dy = [(1, 0), (0, 1), (1, 1), (1, -1), (-1, 1)][k if k < 5 else int(rng.integers(0, 5))]
                    t = int(rng.integers(1, 6))
                    while t > 0 and not (rd <= a[0] + dx * t <= gw - rd and rd <= a[1] + dy * t <= gh - rd):
                        t -= 1
                    q = [a[0], a[1], a[0] + dx * t, a[1] + dy * t]
                    q = [100 * s for s in (q if rng.random() < .5 else q[2:] + q[:2])]
                    if k == 14:                 # straight on pixels, not exactly
                        q = [s + int(rng.integers(0, 100)) for s in q]
                elif k == 13:                   # nearly upright
                    x, t = int(rng.integers(0, 100 * gw)), int(rng.integers(0, 150)) - 75
                    q = [x, int(rng.integers(0, 100)), min(max(0, x + t), 100 * gw), int(rng.integers(100 * gh - 150, 100 * gh))]
                    q = q if rng.random() < .5 else q[2:] + q[:2]
                else:
                    q = [int(rng.integers(0, 100 * gw)), int(rng.integers(0, 100 * gh)), int(rng.integers(0, 100 * gw)), int(rng.integers(0, 100 * gh))]
                    if 9 < k < 13 and g.points_list:    # close to a line drawn before
                        l = g.points_list[int(rng.integers(0, len(g.points_list)))][0]
                        q = [min(max(0, c100(s) + int(rng.integers(-40, 41))), 100 * (gw if i % 2 == 0 else gh)) for i, s in enumerate(l)]
                if q[:2] == q[2:]:
                    q[2] = q[2] + 100 if q[2] < 100 * gw else q[2] - 100
                e['drawn'] = q
                if e['how'] % 2:
                    for s, nm in ((q[:2], 'button_press_event'), (q[2:], 'button_release_event')):
                        px, py = data_xy(gi.grain_plot, s[0] / 100, s[1] / 100)
                        ok, _ = attempt(lambda: fire(gi.plot, nm, px, py, 1))
                    ok, _ = attempt(lambda: press_button(gi.plot, 0))
                else:
                    gi.grain_plot.p1, gi.grain_plot.p2 = (q[0] / 100, q[1] / 100), (q[2] / 100, q[3] / 100)
                    ok, _ = attempt(lambda: gi.save_line(None, gi.plot))
                if g.points_list:
                    e['p'], e['ang'] = [c100(s) for s in g.points_list[-1][0]], c100(g.points_list[-1][1])
                e['corr'] = c100(case['corr'])
            elif o == 'remove':
                ok, _ = attempt(lambda: gi.remove_line([e['k'], str(e['k'])][e['how'] % 2], gi.plot))
            elif o == 'clear':
                ok, _ = attempt(lambda: press_button(gi.plot, 4) if e['how'] % 2 else gi.clear_all_lines(None, gi.plot))
            elif o == 'goto':
                e['g'] = min(e['g'], n)
                ok, _ = attempt(lambda: gi.goto_grain([e['g'] - 1, str(e['g'] - 1)][e['how'] % 2], gi.plot))
            elif o == 'save':
                gi.update_filename(e['name'] + '.txt', gi.plot)
                ok, _ = attempt(lambda: press_button(gi.plot, 6) if e['how'] % 2 else gi.save_file(None, gi.plot))
            elif o == 'load':
                gi.update_filename(e['name'] + '.txt', gi.plot)
                ok, _ = attempt(lambda: gi.load_file(None, gi.plot))
            elif o == 'rdr':
                if e['how'] == 5 or e['of'] > n:      # the window's own button
                    e['of'] = gi.grain_id + 1
                g = m[e['of'] - 1]
                x0, y0, x1, y1 = (int(t) for t in g.extreme_coords)
                gw, gh = x1 - x0, y1 - y0
                bad = e['k'] >= len(g.groups_list)
                if not bad:
                    bad = any(min(l[0][0], l[0][2]) < case['r'] or min(l[0][1], l[0][3]) < case['r'] or max(l[0][0], l[0][2]) > gw - case['r']
                              or max(l[0][1], l[0][3]) > gh - case['r'] for l in g.points_list)
                    if bad or not 0 <= g.groups_list[e['k']][1] <= 180:
                        continue
                figs = set(plt.get_fignums())
                ok, _ = attempt(lambda: gi.run_rdr_group(str(e['k']), gi.plot) if e['how'] == 5 else gi.calc_rdr(g, e['k']) if e['how'] == 4 else gi.calc_rdr(g, e['k'], show_plot=False))
                e.update(u=cu.ravel().tolist(), v=cv.ravel().tolist(), off=[x0, y0], corr=c100(case['corr']))
                if e['k'] < len(g.groups_list):
                    e['slope'] = ri(float(g.groups_list[e['k']][4]) * 10000)
                new = [f for f in plt.get_fignums() if f not in figs]
                if ok and e['how'] in (4, 5) and len(new) == 1:
                    k2, t = attempt(lambda: window(plt.figure(new[0])))
                    e.update(win=t if k2 else NOWIN, opened=1)
                for f in new:
                    plt.close(f)
            elif o == 'sta':
                f = io.StringIO()
                with contextlib.redirect_stdout(f):
                    ok, _ = attempt(lambda: gi.batch_run_sta(None, gi.plot))
                k2, t = attempt(lambda: table(f.getvalue()))
                e.update(table=t if k2 else [], eul=eul)
            e['ok'] = ok
            k2, ob = attempt(lambda: observe(m, gi, n))
            if not k2:
                return {'ev': [], 'n': n, 'theo': theo, 'top': top, 'strain': strain, 'sch': sch, 'tr': tr, 'eul': eul, 'error': 'malformed lines'}
            e['o'] = ob
            e['cell'] = cells[-1] if cells else 0
            e['arrows'] = arrows(gi)
            e.pop('kind', 0), e.pop('how', 0)
            k2, t = attempt(lambda: shown(gi.plot.fig))
            e['shown'] = t if k2 else {'lines': [], 'groups': [], 'grain': [], 'strain': [], 'seen': [0, 0, 0]}
            ev.append(e)
        plt.close('all')
    return {'ev': ev, 'n': n, 'theo': theo, 'top': top, 'strain': strain, 'sch': sch, 'tr': tr, 'eul': eul}
