"""Drives deformation grains and the EBSD grains they belong to (C40)."""
import contextlib
import io
import re
import numpy as np
import matplotlib.pyplot as plt
import defdap.hrdic as hrdic
from defdap.ebsd import BoundarySet
import d_ebsd
from d_quat import ri, unit
from d_dic import Scratch, davis, attempt
from d_draw import quivers, rgb

SYMS = ['cubic', 'hexagonal']
LOADS = {1: [1, 0, 0], 2: [0, 1, 1]}
SUB = 4
TABLE = {}


def hund(v):
    return ri(v * 100) if np.isfinite(v) else 99999


def esc(s):
    return s.encode('unicode_escape').decode()


def table(p, q):
    """what a crystal of phase p turned as q says"""
    k = p, tuple(q)
    if k not in TABLE:
        m = d_ebsd.mkmap({'w': 2, 'h': 1, 'sym': 'cubic', 'ph': [p, p], 'ori': [1, 1], 'mode': 'q', 'pal': [q], 'min': 1})
        m.data.generate('grains', min_grain_size=1)
        g = m[0]
        g.calc_slip_traces()
        sf = []
        for v in LOADS.values():
            m.calc_average_grain_schmid_factors(np.array(v) / np.linalg.norm(v))
            sf.append([[ri(x * 1000) for x in r] for r in g.average_schmid_factors])
        TABLE[k] = [hund(np.degrees(t)) for t in g.slip_trace_angles], sf
    return TABLE[k]


def image(p):
    a = np.ma.filled(np.ma.asarray(p.img_layers[0].get_array(), dtype=float), np.nan)
    return [hund(v) for v in a.ravel()]


def parse(text):
    planes = []
    for ln in text.splitlines():
        if 'Angle' in ln:
            a, b, c = re.fullmatch(r'(.*?)\s*Colour:\s*(\S+)\s*Angle:\s*(\S+)\s*', ln).groups()
            planes.append({'label': esc(a.strip()), 'colour': b, 'angle': hund(float(c)), 'dirs': [], 'sf': []})
        elif 'SF' in ln:
            a, b = re.fullmatch(r'(.*?)\s*SF:\s*(\S+)\s*', ln).groups()
            planes[-1]['dirs'].append(esc(a.strip()))
            planes[-1]['sf'].append(ri(float(b) * 1000))
    return planes


def run(case):
    try:
        with Scratch() as d:
            return run1(case, d)
    finally:
        plt.close('all')


def run1(case, d):
    w, h = case['w'], case['h']
    ems = []
    for m, cols in enumerate(case['col']):
        k = [next(i for i, c in enumerate(cols) if c[0] <= x <= c[1]) for x in range(w)]
        em = d_ebsd.mkmap({'w': w, 'h': h, 'sym': 'cubic', 'ph': [case['ph'][m][k[x]] for y in range(h) for x in range(w)],
                           'ori': [case['o'][m][k[x]] for y in range(h) for x in range(w)], 'mode': 'q', 'pal': case['pal'], 'min': 1})
        bx = np.zeros((h, w), bool)
        bx[:, [c[1] for c in cols[:-1]]] = True
        em.data.grain_boundaries = BoundarySet.from_image(em, bx, np.zeros((h, w), bool))
        em.data.generate('grains', min_grain_size=1)
        ems.append(em)
    dm = hrdic.Map(davis(d, w, h, SUB, np.zeros((h, w)), np.zeros((h, w))), experiment=ems[0].experiment)
    pts = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)]
    for m in ems + [dm]:
        m.frame.set_homog_points(pts)
    sh = [np.array(s, float).reshape(h, w) for s in case['sh']]
    dm.data.max_shear = sh[0]
    phases = ems[0].phases[:2]
    r = {k: case[k] for k in ('w', 'h', 'o', 'ph', 'col', 'sh', 'mk')}
    r.update(sub=SUB, syms=SYMS, TR=[[table(p, q)[0] for q in case['pal']] for p in (1, 2)],
             SF=[[table(p, q)[1] for q in case['pal']] for p in (1, 2)],
             cols=[[rgb(c) for c in p.slip_trace_colours] for p in phases],
             lab=[[{'label': esc(s[0].slip_plane_label), 'colour': c, 'dirs': [esc(x.slip_dir_label) for x in s]}
                   for s, c in zip(p.slip_systems, p.slip_trace_colours)] for p in phases], ev=[])

    def token(q):
        if q is None:
            return 0
        hits = [i + 1 for i, p in enumerate(case['pal']) if abs(np.dot(unit(p, False).quat_coef, q.quat_coef)) > 1 - 1e-6]
        return hits[0] if len(hits) == 1 else -1

    found = False
    for o in case['script']:
        e = dict(o)

        def do():
            nonlocal found
            op = e['op']
            if op == 'link':
                dm.link_ebsd_map(ems[e['m'] - 1])
            elif op == 'find':
                dm.data.generate('grains', algorithm='warp')
                found = True
            elif op == 'setref':
                ems[e['m'] - 1][e['g'] - 1].ref_ori = unit(case['pal'][e['q'] - 1], False)
            elif op == 'avg':
                ems[e['m'] - 1].calc_grain_av_oris()
            elif op == 'trace':
                ems[e['m'] - 1][e['g'] - 1].calc_slip_traces()
            elif op == 'schmid':
                v = np.array(LOADS[e['v']])
                ems[e['m'] - 1].calc_average_grain_schmid_factors(v / np.linalg.norm(v))
            elif op == 'prim':
                ems[e['m'] - 1].primary_phase_id = e['p'] - 1
            elif op == 'scale':
                dm.set_scale(e['k'])
            elif op == 'shear':
                dm.data.max_shear = sh[e['k'] - 1]
            elif op == 'mask':
                dm.data.generate('mask', mask=np.array(case['mk'][e['k'] - 1], bool).reshape(h, w) if e['k'] else None)
            elif op == 'sym':
                e['sym'] = dm.crystal_sym
            elif op == 'av':
                e['img'] = image(dm.plot_grain_av_max_shear())
            elif op == 'map':
                e['img'] = image(dm.plot_default())
            else:
                if not found:
                    raise IndexError
                g = dm[e['d'] - 1]
                if op == 'dtrace':
                    g.calc_slip_traces()
                elif op == 'look':
                    e['ref'] = token(g.ref_ori)
                    e['crystal'] = [i for i, em in enumerate(ems, 1) if em is g.ebsd_map] + [g.ebsd_grain.grain_id + 1 if g.ebsd_grain in list(g.ebsd_map) else 0]
                    e['phase'] = [i for i, p in enumerate(g.ebsd_map.phases, 1) if p is g.phase][0]
                    e['tr'] = [hund(np.degrees(t)) for t in g.slip_traces]
                    e['n'], e['id'] = len(dm), int(g.grain_id)
                elif op == 'plotd':
                    p = g.plot_default()
                    e['img'] = image(p)
                    q = quivers(p.ax)
                    e['tr'] = [hund(np.degrees(np.arctan2(-a['uv'][0], a['uv'][1]))) for a in q]
                    e['cols'] = [a['col'] for a in q]
                elif op == 'print':
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        g.ebsd_grain.print_slip_traces()
                    e['planes'] = parse(out.getvalue())
        e['ok'], _ = attempt(do)
        s = dm.scale
        e['scale'] = 0 if s is None else ri(s)
        if not e['ok']:
            for k in ('ref', 'crystal', 'phase', 'tr', 'n', 'id', 'img', 'cols', 'planes', 'sym'):
                e.pop(k, None)
        r['ev'].append(e)
    return r
