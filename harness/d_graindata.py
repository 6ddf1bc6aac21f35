"""Drives grain/map data movement of EBSD maps (C06) and proxigrams (C08)."""
import numpy as np
import defdap.ebsd as ebsd
import d_ebsd


def flat(a):
    return [val(v) for v in np.asarray(a).ravel()]


def val(v):
    v = float(v)
    if np.isnan(v):
        return -99999
    return int(v) if v == int(v) else int(round(v * 1000)) + 10 ** 7


def scal(v):
    v = float(v)
    return -99999 if np.isnan(v) else int(round(v * 10000))


def comps(a, order, tail):
    """Components of an array (component axes first) as flat lists."""
    a = np.asarray(a)
    n = a.ndim - tail
    if order != n:
        return [['bad-order', a.ndim]]
    return [flat(a[i]) for i in np.ndindex(a.shape[:n])]


def run(case):
    m = d_ebsd.mkmap(case)
    d_ebsd.getb(case, m)
    d_ebsd.getg(case, m)
    w, h = case['w'], case['h']
    pp = [[[int(x), int(y)] for x, y in g.data.point] for g in m.grains]
    ev = []
    ng = len(pp)
    rng = np.random.default_rng(case['seed'])
    n = 0
    for op in case['ops']:
        e = dict(op)
        k = [int(v) for v in rng.integers(1, 5, 3)]
        shp = {0: (), 1: (k[0],), 2: (k[1], k[2])}
        o = op['op']
        if 'g' in op:
            if ng == 0:
                continue
            e['g'] = op['g'] % ng
            g = m[e['g']]
        if o in ('gather', 'derived', 'gmapm'):
            order = e.pop('order')
            img = rng.integers(-50, 100, shp[order] + (h, w))
            e['imgs'] = comps(img, order, 2)
            if o == 'gather':
                e['r'] = comps(g.grain_data(img), order, 1)
            elif o == 'derived':
                n += 1
                name = f'd{n}'
                m.data.add(name, img, type='map', order=order)
                e['r'] = comps(g.data[name], order, 1)
            else:
                isf = e.pop('float')
                a = img.astype(float) if isf else img
                res = g.grain_map_data(map_data=a) if isf else g.grain_map_data(map_data=a, bg=-7)
                e['bg'] = -99999 if isf else -7
                e['shape'] = list(res.shape[:2])
                if res.ndim != 2 + order:
                    e['r'] = [['bad-order']]
                else:
                    e['r'] = [flat(res[(slice(None), slice(None)) + i]) for i in np.ndindex(res.shape[2:])]
        elif o == 'gmap':
            rgb = e.pop('rgb')
            v = rng.integers(-50, 100, (len(g), 3) if rgb else (len(g),)).astype(float)
            res = g.grain_map_data(grain_data=v, bg=op['bg'])
            e['vals'] = [flat(v[:, k]) for k in range(3)] if rgb else [flat(v)]
            e['r'] = [flat(res[..., k]) for k in range(3)] if rgb else [flat(res)]
            e['shape'] = list(res.shape[:2])
        elif o == 'scatter':
            if ng == 0:
                continue
            order = e.pop('order')
            n += 1
            name = f's{n}'
            vs = [rng.integers(-50, 100, shp[order] + (len(p),)) for p in pp]
            for gr, v in zip(m.grains, vs):
                gr.data.add(name, v, type='list', order=order)
            per = [comps(v, order, 1) for v in vs]
            e['vals'] = [[per[k][j] for k in range(ng)] for j in range(len(per[0]))]
            e['r'] = comps(m.data[name], order, 2)
        elif o == 'fill':
            ids = list(range(ng)) if op['all'] else list(dict.fromkeys(i % ng for i in op['ids'])) if ng else []
            e['ids'] = ids
            k = max(0, len(ids) + op['extra'])
            v = rng.integers(1, 100, (k, 3) if op['rgb'] else (k,))
            e.pop('rgb')
            e.pop('extra')
            e['vals'] = [flat(v[:, j]) for j in range(3)] if v.ndim == 2 else [flat(v)]
            kw = {} if op['all'] else {'grain_ids': ids[0] if (len(ids) == 1 and op.get('scalar')) else ids}
            try:
                res = m.grain_data_to_map_data(v if op.get('arr') else v.tolist(), bg=op['bg'], **kw)
                e['ok'] = True
                e['r'] = [flat(res[..., j]) for j in range(3)] if res.ndim == 3 else [flat(res)]
            except ValueError:
                e['ok'], e['r'] = False, []
            if k == 0:
                continue        # nothing to place: an empty list has no shape
        elif o == 'average':
            ids = list(range(ng)) if op['all'] else [i % ng for i in op['ids']] if ng else []
            e['ids'] = ids
            img = rng.integers(-50, 100, (h, w))
            e['img'] = flat(img)
            r = m.calc_grain_average(img) if op['all'] else m.calc_grain_average(img, grain_ids=ids)
            e['r'] = [scal(x) for x in r]
        elif o == 'coarse':
            img = rng.integers(-50, 100, (h, w))
            e['img'] = flat(img)
            kw = {'kernel_size': op['k']}
            if op.pop('dflt', False):
                e['k'], kw = 2, {}
            e.pop('dflt', None)
            res = g.grain_map_data_coarse(map_data=img.astype(float), bg=np.nan if op['bg'] == -99999 else op['bg'], **kw)
            e['bg'] = op['bg'] if op['bg'] == -99999 else op['bg'] * 10000
            e['shape'] = list(res.shape)
            e['r'] = [scal(x) for x in res.ravel()]
        elif o == 'extent':
            e['r'] = [int(x) for x in g.extreme_coords]
        elif o == 'centre':
            e['r'] = [int(x) for x in g.centre_coords('box' if op['box'] else 'com', grain_coords=op['local'])]
        elif o == 'outline':
            if op['dflt']:
                res = g.grain_outline()
                e['bg'], e['fg'] = -99999, 0
            else:
                res = g.grain_outline(bg=op['bg'], fg=op['fg'])
            e.pop('dflt')
            e['shape'] = list(res.shape)
            e['r'] = flat(res)
        elif o == 'size':
            e['r'] = len(g)
        ev.append(e)
    return {'w': w, 'h': h, 'pp': pp, 'ev': ev, '_case': {k: v for k, v in case.items() if k != 'pal'}}


def proxi(case):
    m = d_ebsd.mkmap(case)
    d_ebsd.getb(case, m)
    r = {'w': case['w'], 'h': case['h'], 'runs': []}
    r['pts'] = [[int(x), int(y)] for x, y in m.data.grain_boundaries.points]

    def add(a, how):
        a = np.asarray(a, dtype=float)
        r['runs'].append({'how': how, 'shape': list(a.shape), 'q': [int(round(400 * v * v)) for v in a.ravel()]})
    for t in case['trials']:
        if t == 0:
            add(m.data.proxigram, 'data')
        elif t == -1:
            add(m.proxigram, 'attr')
        else:
            add(m.calc_proxigram(num_trials=t), f'batch{t}')
    return r
