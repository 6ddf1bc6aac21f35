"""Drives plots of maps and grains and reads back what they show (C31, C32)."""
import warnings
import numpy as np
import defdap.hrdic as hrdic
from defdap.experiment import Experiment
import d_ebsd
from d_dic import Scratch, davis, attempt
from d_exp import fire, data_xy
from d_quat import ri
from d_graindata import val

NAN = -99999
FIG = {'fig_params': {'figsize': (3, 2.5), 'dpi': 50}}
COLS = ['white', 'yellow', 'green', 'red', 'blue', 'black']


def shown(p, k=1, ax=None, i=0):
    """Values of the first image, rounded after scaling, masked or undefined ones as NAN."""
    im = (ax or p.ax).images[i].get_array()
    m = np.ma.getmaskarray(im)
    d = np.ma.getdata(im)
    if d.dtype == bool:
        d = d.astype(int)
    out = [NAN if q or not np.isfinite(x) else ri(x * k) for x, q in zip(d.ravel(), m.ravel())]
    return out, [int(v) for v in d.shape]


def bar(p):
    from matplotlib_scalebar.scalebar import ScaleBar
    return [a for a in p.ax.get_children() if isinstance(a, ScaleBar)]


def rgba(im, vals):
    return [[int(round(float(c) * 255)) for c in im.cmap(im.norm(v))] for v in vals]


def comp(c):
    return {'none': None, 'int': c['v'][0] if c['v'] else 0, 'tup': tuple(c['v']), 'str': c['s']}[c['k']]


def show(case):
    import matplotlib.pyplot as plt
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    w, h = case['w'], case['h']
    dic = case['dic']
    if dic:
        with Scratch() as d:
            # multiples that keep gradients and strains whole
            u, v = 16 * rng.integers(-1, 2, (2, h, w))
            m = hrdic.Map(davis(d, w, h, 4, u, v), experiment=Experiment())
        cl, cr, ct, cb = case['crop']
        m.set_crop(left=cl, right=cr, top=ct, bottom=cb)
        if case['scale']:
            m.set_scale(case['scale'] / 4000)
        msk = None
        if case['mask']:
            msk = rng.random((h, w)) < .2
            m.calc_mask(mask=msk[ct:h - cb, cl:w - cr])
        pp, ng = [], 0
    else:
        m = d_ebsd.mkmap(case)
        m.data.phase_boundaries     # generated together with the grain boundaries
        d_ebsd.getb(case, m)
        m.data.generate('grains', min_grain_size=case['min'])
        pp = [[[int(x), int(y)] for x, y in g.data.point] for g in m.grains]
        ng = len(pp)
    H, W = m.shape
    r = {'w': W, 'h': H, 'pp': pp, 'data': [], 'scale': 0 if m.scale is None else ri(m.scale * 1000),
         'ph': [], 'lab': [], 'gb': [], 'pb': [], 'lines': [], 'names': []}
    if not dic:
        r['ph'] = [int(v) for v in m.data.phase.ravel()]
        r['lab'] = [int(v) for v in m.data.grains.ravel()]
        r['gb'] = [int(v) for v in m.data.grain_boundaries.image.ravel()]
        r['pb'] = [int(v) for v in m.data.phase_boundaries.image.ravel()]
        r['lines'] = d_ebsd.lines(m.data.grain_boundaries.lines)
        r['names'] = [p.name for p in m.phases]
    for i, d in enumerate(case['data']):
        if d.get('name'):
            # loaded with the map
            a = m.data[d['name']]
            a = np.ma.array(a).reshape((-1, H, W))
            r['data'].append({'comps': [[NAN if q else ri(v) for v, q in zip(np.ma.getdata(c).ravel(), np.ma.getmaskarray(c).ravel())] for c in a],
                              'order': len(d['dims']), 'dims': d['dims'], 'dflt': d['dflt'], 'bin': 1, 'unit': m.data.get_metadata(d['name'], 'unit'),
                              'clabel': m.data.get_metadata(d['name'], 'plot_params').get('clabel', '')})
            continue
        a = rng.integers(-50, 50, tuple(d['dims']) + (h, w))
        flt = d['flt']
        full = a.astype(float) if flt else a
        kw = {}
        if d['dflt']['k'] != 'none':
            kw['default_component'] = comp(d['dflt'])
        if d['clabel'] or d['lim']:
            kw['plot_params'] = {**({'clabel': d['clabel']} if d['clabel'] else {}), **({'vmin': d['lim'][0], 'vmax': d['lim'][1]} if d['lim'] else {})}
        if d['unit'] or rng.random() < .3:
            kw['unit'] = d['unit']
        if d['bin'] > 1:
            kw['binning'] = d['bin']
        if dic:
            full = full if d['bin'] == 1 else np.kron(full, np.ones((d['bin'],) * 2, int))
            view = a[..., ct:h - cb, cl:w - cr]
            mk = msk[ct:h - cb, cl:w - cr] if msk is not None and d['bin'] == 1 else None
            if msk is not None and d['bin'] > 1:
                kw['apply_mask'] = False
        else:
            view, mk = a, None
            if d['hole']:
                # each component has holes of its own
                hl = rng.random(a.shape) < .15
                full = np.where(hl, np.nan, full) if d['hole'] == 'nan' else np.ma.array(full, mask=hl)
        m.data.add(f'd{i}', full, type='map', order=len(d['dims']), **kw)
        n = 1
        for x in d['dims']:
            n *= x
        cs = [[NAN if mk is not None and q else int(v) for v, q in zip(view.reshape((n,) + view.shape[-2:])[j].ravel(),
                                                                         mk.ravel() if mk is not None else np.zeros(H * W, bool))] for j in range(n)]
        if not dic and d['hole']:
            cs = [[NAN if q else v for v, q in zip(c, hh)] for c, hh in zip(cs, hl.reshape(n, -1))]
        r['data'].append({'comps': cs, 'order': len(d['dims']), 'dims': d['dims'], 'dflt': d['dflt'], 'clabel': d['clabel'], 'unit': d['unit'], 'bin': d['bin']})
    m.data.add('lst', [1, 2, 3], type='list', order=0)
    m.data.add('odd', np.zeros((H, W)), type='map')
    ev, last = [], None
    for op in case['ops']:
        e = dict(op)
        o = e['op']
        ok, p = True, None
        if 'g' in e:
            if not ng:
                continue
            e['g'] %= ng
            g = m[e['g']]
        if o in ('map', 'grain'):
            d = case['data'][e['d']]
            own = d.get('name') or f'd{e["d"]}'
            name = e.pop('name') or own
            if o == 'grain' and d['bin'] > 1:
                continue
            if e['c']['k'] == 'int' and len(d['dims']) == 2 and False:
                continue
            kw = {}
            if e['own']:
                kw['clabel'] = e['own']
            lim = e['lim'] or d['lim']
            if e['lim']:
                kw.update(vmin=e['lim'][0], vmax=e['lim'][1])
            kw['plot_colour_bar'] = True
            if r['scale']:
                kw['plot_scale_bar'] = True
            args = () if e['c']['k'] == 'none' and e['seed'] % 2 else (comp(e['c']),)
            if e['seed'] % 3 == 0 and args:
                args, kw = (), {**kw, 'component': args[0]}
            t = m if o == 'map' else g
            if e['ax']:
                ax = plt.figure(figsize=(3, 2.5), dpi=50).gca()
                kw['ax'] = ax
            else:
                kw.update(FIG)
            ok, p = attempt(lambda: t.plot_map(name, *args, **kw))
            q = d['dflt'] if e['c']['k'] == 'none' else e['c']
            e.update(img=[], shape=[], label='', lim=[v * 10 for v in lim], got=[], bar=0, known=name == own)
            e['d'] += 1
            e.pop('ax')
            if ok:
                if kw.get('ax') is not None and p.ax is not kw['ax']:
                    ok = False
                k = 100 if q['k'] == 'str' else 1
                e['img'], e['shape'] = shown(p, k)
                if d['bin'] > 1:
                    # a binned image is larger: every pixel must be repeated
                    a = np.array(e['img']).reshape(e['shape'])
                    b = d['bin']
                    s = a[::b, ::b]
                    if not (np.kron(s, np.ones((b, b), int)) == a).all():
                        e['img'] = []
                    else:
                        e['img'], e['shape'] = [int(v) for v in s.ravel()], [int(v) for v in s.shape]
                e['label'] = p.colour_bar.ax.get_ylabel()
                e['got'] = [ri(v * 10) for v in p.ax.images[0].get_clim()] if lim else []
                if r['scale']:
                    b = bar(p)
                    e['bar'] = ri(b[0].dx * 1e9) if len(b) == 1 else -1
        elif o == 'fill':
            ids = list(range(ng)) if e['all'] else list(dict.fromkeys(i % ng for i in e['ids'])) if ng else []
            e['ids'] = ids
            k = max(1, len(ids) + e.pop('extra'))
            rgb = e.pop('rgb')
            v = rng.integers(0, 255, (k, 3) if rgb else (k,))
            e['vals'] = [[int(x) for x in v[:, j]] for j in range(3)] if rgb else [[int(x) for x in v]]
            kw = {} if e['all'] else {'grain_ids': ids[0] if len(ids) == 1 and e['seed'] % 2 else ids}
            if e['given']:
                kw['grain_data'] = v if e['seed'] % 3 else v.tolist()
            if rgb:
                e['bg'] = abs(e['bg'])
            ok, p = attempt(lambda: m.plot_grain_data_map(bg=e['bg'], **kw, **FIG))
            e['img'] = []
            if ok:
                im = p.ax.images[0].get_array()
                e['img'] = [[ri(x) for x in im[..., j].ravel()] for j in range(3)] if im.ndim == 3 else [[ri(x) for x in im.ravel()]]
        elif o == 'avg':
            if not ng:
                continue
            ids = list(range(ng)) if e['all'] else list(dict.fromkeys(i % ng for i in e['ids']))
            e['ids'] = ids
            a = rng.integers(-50, 50, (H, W))
            e['src'] = [int(x) for x in a.ravel()]
            if e['seed'] % 5 < 2:
                hl = rng.random((H, W)) < .3
                e['src'] = [NAN if q else v for v, q in zip(e['src'], hl.ravel())]
                a = np.ma.array(a, mask=hl)
            kw = {} if e['all'] else {'grain_ids': ids}
            ok, p = attempt(lambda: m.plot_grain_data_map(map_data=a if e['seed'] % 2 else a.astype(float), bg=e['bg'], **kw, **FIG))
            e['img'] = shown(p, 10000)[0] if ok else []
        elif o == 'schmid':
            if not ng or any(g.phase is None for g in m):
                continue
            if e['seed'] % 4 == 0:
                for g in m:
                    g.average_schmid_factors = last = None
                ok, p = attempt(lambda: m.plot_average_grain_schmid_factors_map(**FIG))
                ev.append({'op': 'nogroup', 'ok': ok})
                ok = True
                plt.close('all')
            if last is None or e['seed'] % 2:      # else another map of the factors calculated before
                m.calc_average_grain_schmid_factors(np.array(e['load'], float) / np.linalg.norm(e['load']))
                last = [[[ri(x * 1e6) for x in grp] for grp in g.average_schmid_factors] for g in m]
            e['sf'] = last
            kw = {**({'planes': e['pl']} if e['pl'] else {}), **({'directions': e['di']} if e['di'] else {})}
            ok, p = attempt(lambda: m.plot_average_grain_schmid_factors_map(**kw, **FIG))
            e['img'] = shown(p, 1e6)[0] if ok else []
            e.pop('load')
            ev.append({'op': 'same', 'ok': True, 'a': [[[ri(x * 1e6) for x in grp] for grp in g.average_schmid_factors] for g in m], 'b': last})
        elif o == 'phase':
            ok, p = attempt(lambda: m.plot_phase_map(**FIG))
            if ok:
                im = p.ax.images[0]
                e['img'] = shown(p)[0]
                lg = p.ax.get_legend()
                e['names'] = [t.get_text() for t in lg.get_texts()]
                e['leg'] = [[int(round(c * 255)) for c in t.get_facecolor()] for t in lg.get_patches()]
                e['px'] = rgba(im, np.ma.getdata(im.get_array()).ravel())
        elif o == 'labels':
            ok, p = attempt(lambda: m.plot_grain_map(**FIG))
            e['img'] = shown(p)[0] if ok else []
        elif o == 'gb':
            ok, p = attempt(lambda: m.plot_boundary_map(**FIG, **({'dilate_boundaries': True} if e['dil'] else {})))
            if ok:
                im = p.ax.images[-1]
                c = np.array(rgba(im, np.ma.getdata(im.get_array()).astype(float).ravel()))
                # visible: opaque and darker than the white background
                e['img'] = [int(a[3] > 127 and a[0] < 128) for a in c]
        elif o == 'pb':
            ok, p = attempt(lambda: m.plot_phase_boundary_map(**({'dilate': True} if e['dil'] else {}), **FIG))
            e['img'] = shown(p)[0] if ok else []
        elif o == 'line':
            ok, p = attempt(lambda: m.plot_map('phase', plot_gbs='line', **FIG))
            e['segs'] = d_ebsd.lines(p.ax.collections[0].get_segments()) if ok else []
        elif o == 'outline':
            ok, p = attempt(lambda: g.plot_outline())
            e['img'] = shown(p)[0] if ok else []
        elif o == 'same':
            k = e['seed'] % 6
            D = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
            if k == 0:
                f1, f2 = lambda: m.plot_euler_map(**FIG), lambda: m.plot_map('euler_angle', 'all_euler', **FIG)
            elif k == 1:
                f1, f2 = lambda: m.plot_euler_map(**FIG), lambda: m.plot_map('euler_angle', **FIG)
            elif k == 4:
                f1, f2 = lambda: m.plot_map('orientation', **FIG), lambda: m.plot_map('orientation', 'IPF_x', **FIG)
            elif k == 5:
                nm, cc = [('euler_angle', 'all_euler'), ('orientation', 'IPF_x'), ('GROD_axis', 0)][e['seed'] // 6 % 3]
                t = m if not ng or e['seed'] // 18 % 2 else m[e['seed'] % ng]
                f1, f2 = (lambda: t.plot_map(nm, **FIG), lambda: t.plot_map(nm, cc, **FIG)) if nm != 'GROD_axis' or ng and all(g.phase is not None for g in m) else (lambda: m.plot_euler_map(**FIG),) * 2
            else:
                j = rng.integers(0, 3)
                f1 = lambda: m.plot_ipf_map(np.array(D[j], float), **FIG)
                f2 = lambda: m.plot_map('orientation', 'IPF_' + 'xyzXYZ'[j + 3 * (k - 2)], **FIG)
            ok, p = attempt(lambda: [[ri(v * 1e4) for v in np.nan_to_num(np.ma.filled(f().ax.images[0].get_array().astype(float), 7)).ravel()] for f in (f1, f2)])
            e['a'], e['b'] = p if ok else ([], [])
        e['ok'] = ok
        e.pop('seed', None)
        ev.append(e)
        plt.close('all')
    r['ev'] = ev
    r['_case'] = {k: v for k, v in case.items() if k != 'pal'}
    return r


def code(c):
    import matplotlib as mpl
    for i, n in enumerate(COLS):
        if all(abs(a - b) < 1e-3 for a, b in zip(mpl.colors.to_rgb(n), c[:3])):
            return i + 1
    return 99


def layers(p, kinds):
    """What the axis shows: images, collections, texts, arrow."""
    from matplotlib.collections import LineCollection
    imgs = []
    for i, im in enumerate(p.ax.images):
        a = np.ma.getdata(im.get_array())
        k = kinds[i] if i < len(kinds) else '?'
        if k == 'map':
            imgs.append({'k': 'map', 'px': shown(p, i=i)[0]})
        else:
            rows = im.cmap(im.norm(a.astype(float))).reshape(-1, 4)
            al = 1 if im.get_alpha() is None else im.get_alpha()
            if k == 'gb':
                imgs.append({'k': 'gb', 'px': [code(r) if r[3] * al > .5 else 0 for r in rows]})
            else:
                imgs.append({'k': 'hl', 'px': [code(r) * 1000 + int(round(r[3] * al * 100)) if r[3] * al > .005 else 0 for r in rows]})
    colls = []
    for o in p.ax.collections:
        if isinstance(o, LineCollection):
            colls.append({'k': 'lines', 'col': code(o.get_colors()[0]) if len(o.get_colors()) else 0, 'at': d_ebsd.lines(o.get_segments())})
        else:
            colls.append({'k': 'pts', 'col': 0, 'at': [[int(round(float(v))) for v in q] for q in np.ma.getdata(o.get_offsets())]})
    nums = [{'x': ri(t.get_position()[0]), 'y': ri(t.get_position()[1]), 's': int(t.get_text())} for t in p.ax.texts if t.get_text() != '']
    ann = [t for t in p.ax.texts if t.get_text() == '']
    arrow = [ri(v * 100) for t in ann for v in (*t.xy, *t.get_position())]
    return {'imgs': imgs, 'colls': colls, 'nums': nums, 'arrow': arrow}


def view(case):
    import matplotlib.pyplot as plt
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    em = d_ebsd.mkmap(case)
    em.data.phase_boundaries
    d_ebsd.getb(case, em)
    em.data.generate('grains', min_grain_size=case['min'])
    m = em
    w, h = case['w'], case['h']
    if case['dic']:
        with Scratch() as d:
            m = hrdic.Map(davis(d, w, h, 4, np.zeros((h, w)), np.zeros((h, w))), experiment=em.experiment)
        pts = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)]
        m.frame.set_homog_points(pts)
        em.frame.set_homog_points(pts)
        m.link_ebsd_map(em)
        m.data.generate('grains', algorithm='warp', min_grain_size=1)
    else:
        m.build_neighbour_network()
    ng = len(m)
    a = rng.integers(-50, 50, (h, w))
    m.data.add('d0', a.astype(float), type='map', order=0)
    m.plot_default = lambda *args, **kw: m.plot_map('d0', *args, **kw)
    for g in m:
        g.plot_default = lambda *args, g=g, **kw: g.plot_map('d0', *args, **kw)
    b = m.data.grain_boundaries
    gid = {id(g): i for i, g in enumerate(m)}
    M = {'w': w, 'h': h, 'n': ng, 'lab': [int(v) for v in np.asarray(m.data.grains).ravel()], 'gb': [int(v) for v in b.image.ravel()],
         'lines': d_ebsd.lines(b.lines), 'pp': [[[int(x), int(y)] for x, y in g.data.point] for g in m], 'val': [int(v) for v in a.ravel()],
         'adj': [[] if case['dic'] else sorted(gid[id(k)] for k in m.neighbour_network.neighbors(g)) for g in m]}
    plots, kinds, names, last, over = [], [], [], [], []
    ev = []
    fp = FIG
    m.highlight_alpha = .6

    def see(i):
        return layers(plots[i], kinds[i])

    for op in case['ops']:
        e = dict(op)
        o = e['op']
        ok = True
        e.update(disp=False, win={'n': 0, 'px': [], 'g': 0}, prof=[], dist=[], nlines=0, o={'imgs': [], 'colls': [], 'nums': [], 'arrow': []})
        k = -1
        if o == 'alpha':
            e['v'] = int(rng.integers(1, 101))
            m.highlight_alpha = e['v'] / 100
        elif o != 'open':
            if not plots:
                continue
            prof = [i for i in range(len(plots)) if names[i][0] == 'profile']
            one = lambda i: kinds[i][:1] == ['map'] and not over[i]       # the profile is of the layer drawn first
            like = {'drag': [i for i in prof if one(i)], 'map': [i for i in prof if kinds[i] == []],
                    'clear': [i for i in prof if plots[i].arrow is not None and rng.random() < .4]}.get(o)
            k = e['p'] = int(rng.choice(like)) if like else int(rng.integers(0, len(plots)))
        if o in ('open', 'high'):
            ids = [int(i) for i in rng.permutation(ng)[:int(rng.integers(1, 5))]]
            if rng.random() < .06:
                ids.append(ng + int(rng.integers(0, 2)))
            if o == 'open' and rng.random() < .6:
                ids = []
            cols = [int(v) + 1 for v in rng.integers(0, 6, int(rng.integers(1, 5)))] if rng.random() < .7 else []
            al = -1 if rng.random() < .5 else int(rng.integers(0, 101))
            e.update(ids=ids, cols=cols, al=al)
            cs = [COLS[v - 1] for v in cols] if cols else None
            keep = None if cs is None else list(cs)
            av = None if al == -1 else al / 100
        else:
            e['al'] = 0
        if o in ('open', 'bound', 'lines'):
            e['col'] = int(rng.integers(0, 6)) + 1
            e['dil'] = bool(rng.random() < .4)
            ck = {'colour': COLS[e['col'] - 1]}
            if rng.random() < .15:
                ck, e['col'] = {}, 1
        if o == 'open':
            kind = str(rng.choice(['plot', 'locate', 'locate', 'neigh', 'profile', 'nums', 'bare']))
            if kind == 'neigh' and case['dic']:
                kind = 'locate'
            gbs = str(rng.choice(['', 'pixel', 'line']))
            act = bool(rng.random() < .6)
            kw = {'fig_params': fp['fig_params'] if act or kind != 'x' else {}}
            if gbs:
                kw.update(plot_gbs=gbs if gbs == 'line' or rng.random() < .5 else True, **({'boundary_colour': ck['colour']} if ck else {}), **({'dilate_boundaries': True} if e['dil'] else {}))
            if ids:
                kw.update(highlight_grains=ids, **({'highlight_colours': cs} if cs else {}), **({'highlight_alpha': av} if av is not None else {}))
            disp = kind == 'locate' and bool(rng.random() < .3)
            nm = ['map'] + (['gb'] if gbs == 'pixel' else []) + (['hl'] if ids else [])
            if kind == 'plot':
                f = lambda: m.plot_map('d0', **({'make_interactive': True} if act else {}), **kw)
            elif kind == 'locate':
                act, f = True, lambda: m.locate_grain(**({'display_grain': True} if disp else {}), **kw)
            elif kind == 'neigh':
                act, f = True, lambda: m.display_neighbours(**kw)
            elif kind == 'profile':
                act, f = True, lambda: m.draw_line_profile(**kw)
            elif kind == 'nums':
                act, ids, gbs, nm = False, [], 'pixel', ['gb']
                e['col'] = 6
                f = lambda: m.plot_grain_numbers(**({'dilate_boundaries': True} if e['dil'] else {}))
            else:
                from defdap.plotting import MapPlot
                ids, gbs, nm = [], '', []
                f = lambda: MapPlot(m, **({'make_interactive': True} if act else {}), figsize=(3, 2.5), dpi=50)
            e.update(act=act, base=kind not in ('nums', 'bare'), gbs=gbs, ids=ids, nums=kind == 'nums')
            ok, p = attempt(f)
            if ok:
                plots.append(p)
                kinds.append(nm)
                names.append((kind, disp))
                last.append(None)
                over.append(False)
                k = len(plots) - 1
        elif o == 'map':
            ok, _ = attempt(lambda: m.plot_map('d0', plot=plots[k]) if rng.random() < .6 else plots[k].add_map(a.astype(float)))
            kinds[k] = kinds[k] + ['map']
        elif o == 'bound':
            ok, _ = attempt(lambda: plots[k].add_grain_boundaries(**ck, **({'dilate': True} if e['dil'] else {}), **({'kind': 'pixel'} if e['dil'] else {}),
                                                                  **({'boundaries': m.data.grain_boundaries} if rng.random() < .3 else {}),
                                                                  **({'draw': False} if rng.random() < .3 else {})))
            kinds[k] = kinds[k] + ['gb']
        elif o == 'lines':
            over[k] = over[k] or kinds[k] == []
            ok, _ = attempt(lambda: plots[k].add_grain_boundaries(kind='line', **ck))
        elif o == 'high':
            e['new'] = bool(rng.random() < .3)
            had = 'hl' in kinds[k]
            gi = ids if rng.random() < .6 else tuple(ids) if rng.random() < .5 else np.array(ids, int)
            ok, _ = attempt(lambda: plots[k].add_grain_highlights(gi, **({'grain_colours': cs} if cs else {}), **({'alpha': av} if av is not None else {}),
                                                                  **({'new_layer': True} if e['new'] else {})))
            if ok and (not had or e['new']):
                kinds[k] = kinds[k] + ['hl']
            if cs != keep:
                ok = False
        elif o == 'points':
            e['at'] = [[int(rng.integers(0, w)), int(rng.integers(0, h))] for _ in range(int(rng.integers(1, 4)))]
            e['upd'] = int(rng.integers(0, 4))
            over[k] = over[k] or kinds[k] == []
            xy = list(zip(*e['at']))
            ok, _ = attempt(lambda: plots[k].add_points(list(xy[0]), list(xy[1]), **({'update_layer': e['upd'] - 1} if e['upd'] else {})))
        elif o == 'nums':
            if any(names[k][0] == 'nums' or t for t in plots[k].ax.texts if t.get_text() != ''):
                continue
            ok, _ = attempt(lambda: plots[k].add_grain_numbers(**({'fontsize': 8} if rng.random() < .3 else {})))
        elif o == 'clear':
            ok, _ = attempt(lambda: plots[k].clear())
            if ok:
                kinds[k], over[k] = [], False
        elif o == 'click':
            if names[k][0] not in ('locate', 'neigh'):
                continue
            e['neigh'], e['disp'] = names[k][0] == 'neigh', names[k][1]
            e['z'] = [int(rng.integers(0, d)) * 100 + int(rng.integers(-47, 48)) for d in (w, h)]
            e['inside'] = bool(rng.random() < .9) and plots[k].ax.images != []
            p = plots[k]
            if not len(p.ax.images):
                continue
            if e['inside']:
                px, py = data_xy(p, e['z'][0] / 100, e['z'][1] / 100)
            else:
                bb = p.ax.bbox
                px, py = bb.x0 - 4, bb.y0 + 6
            had = 'hl' in kinds[k]
            s0 = m.sel_grain
            ok, _ = attempt(lambda: fire(p, 'button_press_event', px, py, 1))
            if len(p.ax.images) > len(kinds[k]):
                kinds[k] = kinds[k] + ['hl']
            gp = getattr(m, 'grain_plot', None)
            if e['disp'] and gp is not None:
                e['win'] = {'n': len(gp.ax.images), 'px': shown(gp)[0] if len(gp.ax.images) else [], 'g': gid.get(id(gp.calling_grain), -1) + 1}
                if rng.random() < .2:
                    plt.close(gp.fig)          # the user closes the window
        elif o == 'drag':
            if names[k][0] != 'profile' or not one(k):
                continue
            z = [int(rng.integers(0, s)) * 100 + (int(rng.integers(-47, 48)) if rng.random() < .6 else 0) for s in (w, h, w, h)]
            if z[:2] == z[2:]:
                continue
            e['z'] = z
            p = plots[k]
            for q, nm in ((z[:2], 'button_press_event'), (z[2:], 'button_release_event')):
                px, py = data_xy(p, q[0] / 100, q[1] / 100)
                ok, _ = attempt(lambda: fire(p, nm, px, py, 1))
                if not ok:
                    break
            pp = m.profile_plot
            if ok and pp is not None:
                e['nlines'] = len(pp.ax.lines)
                e['dist'], e['prof'] = ([ri(float(t) * 100) for t in q] for q in pp.ax.lines[0].get_data())
                if rng.random() < .2:
                    plt.close(pp.fig)
        e['ok'] = ok
        e['sel'] = 0 if m.sel_grain is None else gid[id(m.sel_grain)] + 1
        now = [see(i) for i in range(len(plots))]
        e['others'] = all(now[i] == last[i] for i in range(len(plots)) if i != k)
        last = now
        if k >= 0:
            e['o'] = now[k]
            e['p'] = k + 1
        ev.append(e)
    plt.close('all')
    return {'M': M, 'ev': ev}
