"""Drives DIC maps read from files written for the case (C09, C10, C21, C22)."""
import os, shutil, tempfile
import numpy as np
import defdap.hrdic as hrdic
import defdap.ebsd as ebsd
from defdap.experiment import Experiment
from d_quat import ri, rl

NONE = {'shape': [], 'v': []}


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def davis(d, w, h, b, u, v, name='dic.txt', x0=None):
    """A DaVis text file of a w by h grid."""
    x0 = b if x0 is None else x0
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        f.write(f'#DaVis 8.4.0 2D-vector {b} {h} {w} "" "pixel" "" "pixel" "displacement" "pixel"\n')
        for i in range(h):
            for j in range(w):
                f.write(f'{x0 + b * j}\t{x0 + b * i}\t{float(u[i][j])!r}\t{float(v[i][j])!r}\n')
    return p


def attempt(f):
    try:
        return True, f()
    except Exception as ex:
        if os.environ.get('VERR'):
            import traceback
            traceback.print_exc(file=open('/tmp/verr.txt', 'a'))
        return False, None


def arr(a, k=1):
    m = np.ma.getmaskarray(a) if isinstance(a, np.ma.MaskedArray) else np.zeros(np.shape(a), bool)
    d = np.ma.getdata(a)
    return {'shape': list(d.shape), 'v': [-999999 if q else ri(x * k) for x, q in zip(d.ravel(), m.ravel())]}


def view(case):
    w, h, b = case['w'], case['h'], case['b']
    rng = np.random.default_rng(case['seed'])
    with Scratch() as d:
        u, v = rng.integers(-40, 40, (2, h, w)) / 8
        m = hrdic.Map(davis(d, w, h, b, u, v), experiment=Experiment())
    k = case['bin']
    mk = lambda kk: np.arange(w * h * kk * kk).reshape(h * kk, w * kk) + 1
    m.data.add('um', mk(1).astype(float), type='map', order=0)
    m.data.add('uv', np.array([mk(1), mk(1) + 1000]), type='map', order=1, unit='px')
    m.data.add('ub', mk(k), type='map', order=0, binning=k, apply_mask=False)
    m.data.add('up', mk(1), type='map', order=0, apply_mask=False, cropped=False)
    pre = np.arange(case['cw'] * case['ch']).reshape(case['ch'], case['cw']) + 7
    m.data.add('uc', pre, type='map', order=0, cropped=True, apply_mask=False)
    get = {
        'um': lambda: arr(m.data.um), 'uv': lambda: arr(m.data['uv'][1]), 'ub': lambda: arr(m.data['ub']), 'up': lambda: arr(m.data.up),
        'uc': lambda: arr(m.data.uc), 'disp': lambda: arr(m.data.displacement[1], 1000), 'coord': lambda: arr(m.data.coordinate[0]),
        'f': lambda: arr(m.data.f[0, 1], 1000), 'e': lambda: arr(m.data.e[1, 1], 1000), 'ms': lambda: arr(m.data.max_shear, 1000),
    }
    items = {}
    for nm, g in get.items():
        a = g()
        items[nm] = {'bin': k if nm == 'ub' else 1, 'cropped': nm == 'uc', 'exempt': nm in ('ub', 'up', 'uc'), 'full': a['v'],
                     'fw': a['shape'][1], 'fh': a['shape'][0]}
    # not what the map reads back later but what was put in
    items['um']['full'] = mk(1).ravel().tolist()
    items['uv']['full'] = (mk(1) + 1000).ravel().tolist()
    items['ub']['full'] = mk(k).ravel().tolist()
    items['disp']['full'] = [ri(x * 1000) for x in v.ravel()]
    ev = []
    held = {}
    for op in case['ops']:
        e = dict(op)
        o = e['op']
        res, ok = NONE, True
        if o == 'crop':
            kw = {n: e[s] for n, s in (('left', 'l'), ('right', 'r'), ('top', 't'), ('bottom', 'b')) if e[s] >= 0}
            if e['upd']:
                kw['update_homog_points'] = True
            ok, _ = attempt(lambda: m.set_crop(**kw))
        elif o == 'mask':
            a = np.zeros(m.shape, bool)
            for x, y in e['px']:
                a[y, x] = True
            how = e.pop('how', 0)
            kw = {'dilation': e['dil']} if e['dil'] or how == 3 else {}
            before = a.copy()
            if how == 1:
                ok, _ = attempt(lambda: m.data.generate('mask', mask=a, **kw))
            else:
                ok, _ = attempt(lambda: m.calc_mask(mask=a, **kw))
            if not (a == before).all():
                ok = False
        elif o == 'unmask':
            how = e.pop('how', 0)
            ok, _ = attempt((lambda: m.data.generate('mask', mask=None)) if how == 1 else (lambda: m.calc_mask(None)) if how == 2 else (lambda: m.calc_mask()))
        elif o == 'badmask':
            s = m.shape
            a = [np.ones((s[0] + 1, s[1]), bool), np.ones((s[0], s[1] + 1), bool), np.ones(s[0] * s[1], bool), np.ones(s, bool).tolist(),
                 np.ones((1,) + tuple(s), bool), np.ones((s[1] + 1, s[0]), bool)][e.pop('how', 0) % 6]
            ok, _ = attempt(lambda: m.calc_mask(mask=a))
        elif o == 'read':
            ok, r = attempt(get[e['item']])
            res = r if ok else NONE
        elif o == 'cropof':
            it = items[e['item']]
            a = np.array(it['full']).reshape(it['fh'], it['fw'])
            ok, r = attempt(lambda: arr(m.crop(a, binning=k) if e['item'] == 'ub' else m.crop(a)))
            res = r if ok else NONE
        elif o == 'getmask':
            ok, r = attempt(lambda: m.data.mask)
            if ok and r is not None:
                res = arr(np.asarray(r).astype(int))
        elif o == 'shape':
            res = {'shape': [int(x) for x in m.shape], 'v': [int(m.x_dim), int(m.y_dim)]}
        elif o == 'setpts':
            m.frame.set_homog_points([tuple(p) for p in e['pts']])
        elif o == 'pts':
            res = {'shape': [], 'v': [[int(p[0]), int(p[1])] for p in m.frame.homog_points]}
        e['ok'], e['res'] = ok, res
        ev.append(e)
    return {'w': w, 'h': h, 'items': items, 'ev': ev}


def run(e):
    e = dict(e)
    o = e['op']
    if o == 'strain':
        w, h, b, div = e['w'], e['h'], e['b'], e['div']
        u, v = (np.array(e[k], dtype=float).reshape(h, w) / div for k in 'uv')
        with Scratch() as d:
            m = hrdic.Map(davis(d, w, h, b, u, v), experiment=Experiment())
        s = 2 * b * div
        f, ee, ms = m.data.f, m.data.e, m.data.max_shear
        e['fshape'], e['eshape'], e['mshape'] = list(f.shape), list(ee.shape), list(ms.shape)
        e['f'] = [[rl(f[i, j], 64 * s) for j in range(2)] for i in range(2)]
        e['e'] = [[rl(ee[i, j], 16 * s * s) for j in range(2)] for i in range(2)]
        e['m'] = [ri((4 * s * s * x) ** 2) for x in ms.ravel()]
    elif o == 'file':
        with Scratch() as d:
            p = write(d, e)
            e['ok'] = True
            e['shape'], e['dims'], e['rb2'], e['x'], e['y'], e['u'], e['v'] = [], [], 0, [], [], [], []
            try:
                m = hrdic.Map(p, data_type=e.pop('type'), experiment=Experiment())
            except Exception:
                e['ok'] = False
                return e
        e['shape'], e['dims'], e['rb2'] = [int(x) for x in m.shape], [int(m.ydim), int(m.xdim)], ri(2 * m.binning)
        e['x'], e['y'] = (rl(a, 2) for a in m.data.coordinate)
        e['u'], e['v'] = (rl(a, 8) for a in m.data.displacement)
    elif o == 'type':
        with Scratch() as d:
            p = davis(d, 2, 2, 4, np.zeros((2, 2)), np.zeros((2, 2)))
            e['ok'], _ = attempt(lambda: hrdic.Map(p if e['there'] else p + 'x', data_type=e['type'], experiment=Experiment()))
        e['type'] = str(e['type'])
    elif o == 'corr':
        w, h = e['w'], e['h']
        with Scratch() as d:
            m = hrdic.Map(davis(d, w, h, 4, np.zeros((h, w)), np.zeros((h, w))), experiment=Experiment())
            a = (np.arange(e['cw'] * e['ch']).reshape(e['ch'], e['cw']) * 7 + 3) % 101
            p = os.path.join(d, 'corr.txt')
            with open(p, 'w') as fh:
                fh.write('#header line\n' + '\n'.join('\t'.join(str(x / 4) for x in r) for r in a) + '\n')
            e['ok'], _ = attempt(lambda: m.load_corr_val_data(p))
            e['v'] = [int(x) for x in a.ravel()]
            e['r'] = rl(m.corr_val, 4) if e['ok'] else []
    return e


def write(d, e):
    p = os.path.join(d, 'file')
    rows = [(x / 2, y / 2, u / 8, v / 8) for x, y, u, v in e['rows']]
    fmt = e['fmt']
    num = lambda x: str(int(x)) if x == int(x) else repr(x)
    if fmt == 'davis':
        hh, ww = e['hshape']
        with open(p, 'w') as f:
            f.write(f'#DaVis 8.4.0 2D-vector {e["hb"]} {hh} {ww} "" "pixel" "" "pixel" "displacement" "pixel"\n')
            for r in rows:
                f.write('\t'.join(map(num, r)) + '\n')
    elif fmt == 'openpiv':
        with open(p, 'w') as f:
            f.write('# x\ty\tu\tv\tflags\tmask\n')
            for r in rows:
                f.write('\t'.join(f'{x:.4f}' for x in r) + '\t0\t0\n')
    elif fmt == 'openpivbinary':
        p += '.npz'
        a = np.array(rows).T.reshape(4, *e['gshape'])
        np.savez(p, x=a[0], y=a[1], u=a[2], v=a[3], binning=e['hb'], shape=np.array(e['hshape']), format='OpenPIV', version='1')
    else:
        dt = np.dtype([('x', 'i4'), ('y', 'i4'), ('u', 'f8'), ('v', 'f8'), ('displacement_mag', 'f8'), ('converged', 'u1'), ('cost', 'f8'),
                       ('ftol', 'f8'), ('xtol', 'f8'), ('num_iterations', 'i4')])
        if fmt == 'pyvale-csv':
            with open(p, 'w') as f:
                f.write('x,y,u,v,mag,converged,cost,ftol,xtol,iter\n')
                for x, y, u, v in rows:
                    f.write(f'{int(x)},{int(y)},{u!r},{v!r},{float(np.hypot(u, v))!r},1,0.1,0.001,0.002,7\n')
        else:
            a = np.zeros(len(rows), dt)
            for i, (x, y, u, v) in enumerate(rows):
                a[i] = (x, y, u, v, np.hypot(u, v), 1, .1, .001, .002, 7)
            a.tofile(p)
    return p


def linked(case, d, em, crop=True):
    """A DIC map whose pixels are transform t of the EBSD map's."""
    fw, fh, (cl, cr, ct, cb) = case['fw'], case['fh'], case['crop']
    m = hrdic.Map(davis(d, fw, fh, 4, np.zeros((fh, fw)), np.zeros((fh, fw))), experiment=em.experiment)
    m.set_crop(left=cl, right=cr, top=ct, bottom=cb)
    link_points(case['t'], case['dp'], m, em)
    return m


def link_points(t, dp, m, em):
    a, b, k = t['a'], t['b'], t['k']
    m.frame.set_homog_points([tuple(p) for p in dp])
    em.frame.set_homog_points([((a[0] * x + a[1] * y + b[0]) / k, (a[2] * x + a[3] * y + b[1]) / k) for x, y in dp])


def grains(case):
    from d_ebsd import mkmap, getb, getg
    em = mkmap(case['e'])
    getb(case['e'], em)
    getg(case['e'], em)
    cl, cr, ct, cb = case['crop']
    w, h = case['fw'] - cl - cr, case['fh'] - ct - cb
    r = {'op': 'grains', 'w': w, 'h': h, 'ew': case['e']['w'], 'eh': case['e']['h'], 't': case['t'], 'alg': case['alg'].lower(), 'min': case['min'],
         'elab': [int(x) for x in np.asarray(em.data.grains).ravel()], 'lab': [], 'bnd': [], 'bnd2': [], 'gr': [], 'n': 0, 'ok': True}
    with Scratch() as d:
        m = linked(case, d, em)
        if case['bnd'] is not None:
            m.data.add('grain_boundaries', hrdic.BoundarySet(m, [tuple(p) for p in case['bnd']], []))
        if case['relink']:
            o = mkmap({**case['e'], 'ph': [1 + (i // 2) % 2 for i in range(len(case['e']['ph']))], 'w': case['e']['w'], 'h': case['e']['h']})
            o.data.grains
            link_points(case['t'], case['dp'], m, o)
            m.link_ebsd_map(o, transform_type=case['type'])
            link_points(case['t'], case['dp'], m, em)
        m.link_ebsd_map(em, transform_type=case['type'])
        fresh = linked(case, d, em)
        if case['bnd'] is None:
            fresh.link_ebsd_map(em, transform_type=case['type'])
    m.data.add('um', np.arange(case['fw'] * case['fh']).reshape(case['fh'], case['fw']), type='map', order=0)
    try:
        B = lambda q: sorted([int(x), int(y)] for y, x in zip(*np.nonzero(q.data.grain_boundaries.image)))
        if r['alg'] == 'floodfill':
            r['bnd'] = B(m)
            r['bnd2'] = B(fresh) if case['bnd'] is None else case['bnd']
        if case['how'] == 0 and case['min'] == 10 and r['alg'] == 'floodfill':
            lab = m.data.grains
        else:
            if case['how'] == 2:
                m.data.generate('grains', algorithm='floodfill', min_grain_size=1)
            kw = {'min_grain_size': case['min']} if case['min'] != 10 or case['how'] == 1 else {}
            m.data.generate('grains', algorithm=case['alg'], **kw)
            lab = m.data.grains
    except Exception as ex:
        r['ok'] = False
        import traceback
        r['err'] = traceback.format_exc()[-700:]
        return r
    r['lab'] = [int(x) for x in np.asarray(lab).ravel()] if np.shape(lab) == (h, w) else []
    r['n'] = len(m)
    for g in m.grains:
        eg = g.ebsd_grain
        i = -1 if eg is None else [k for k, q in enumerate(em.grains) if q is eg]
        i = i[0] if i and i != -1 else i
        r['gr'].append({'id': int(g.grain_id), 'len': len(g), 'pts': [[int(x), int(y)] for x, y in g.data.point],
                        'um': [(int(v) // case['fw'] - ct) * w + int(v) % case['fw'] - cl for v in g.data.um],
                        'eg': -1 if i == [] else i + 1, 'same': eg is None or i != [], 'emap': g.ebsd_map is em, 'phase': eg is not None and g.phase is eg.phase})
    return r


def refuse(case):
    from d_ebsd import mkmap
    e = dict(case)
    with Scratch() as d:
        m = hrdic.Map(davis(d, 4, 3, 4, np.zeros((3, 4)), np.zeros((3, 4))), experiment=Experiment())
        if e['how'] == 'link':
            for f in (lambda: m.data.generate('grains', algorithm=e['alg']), lambda: m.check_ebsd_linked(), lambda: m.warp_to_dic_frame(np.zeros((3, 4)))):
                e['ok'], _ = attempt(f)
                if e['ok']:
                    break
        else:
            em = mkmap({'w': 4, 'h': 3, 'ph': [1] * 12, 'ori': [0] * 12, 'mode': 'z', 'sym': 'cubic'})
            em.data.generate('grains', min_grain_size=1)
            link_points({'a': [1, 0, 0, 1], 'b': [0, 0], 'k': 1}, [(0, 0), (3, 0), (0, 2), (3, 2)], m, em)
            m.data.add('grain_boundaries', hrdic.BoundarySet(m, [], []))
            m.link_ebsd_map(em)
            e['ok'], _ = attempt(lambda: m.data.generate('grains', algorithm=e['alg']))
    return e


def c10(case):
    return refuse(case) if case['op'] == 'refuse' else grains(case)


def frames(case):
    from d_ebsd import mkmap
    from defdap.experiment import Frame
    em = mkmap(case['e'])
    if case['min1']:
        em.data.generate('grain_boundaries', misori_tol=5)
    with Scratch() as d:
        m = hrdic.Map(davis(d, case['fw'], case['fh'], 4, np.zeros((case['fh'], case['fw'])), np.zeros((case['fh'], case['fw']))), experiment=em.experiment)
    ex = em.experiment
    F = {1: Frame(), 2: m.frame, 3: em.frame}
    ev = []
    for op in case['ops']:
        e = dict(op)
        o = e['op']
        pts0 = {k: [tuple(p) for p in f.homog_points] for k, f in F.items()}
        kept = lambda: all([tuple(p) for p in f.homog_points] == pts0[k] for k, f in F.items())
        if o == 'setpts':
            ps = [(x / 8, y / 8) for x, y in e['pts']]
            F[e['f']].set_homog_points(np.array(ps) if e.pop('nd') else ps)
        elif o == 'link':
            say, kw = e.pop('say'), e.pop('kw')
            how = e['how']
            ok = True
            try:
                if how == 'map':
                    m.link_ebsd_map(em, **({} if say is None else {'transform_type': say}), **kw)
                else:
                    ex.link_frames(F[e['f']], F[e['g']], {'type': e['type'], **kw})
            except Exception:
                ok = False
            e['ok'], e['known'] = ok, True
        elif o == 'query':
            def q():
                t = ex.get_frame_transform(F[e['f']], F[e['g']])
                f = lambda ps: [[ri(1000 * v) for v in p] for p in np.atleast_2d(t(np.array(ps, dtype=float)))] if len(ps) else []
                return f([tuple(p) for p in F[e['f']].homog_points]), f(e['probe'])
            e['ok'], r = attempt(q)
            e['at'], e['pr'] = r if e['ok'] else ([], [])
            e['kept'] = kept()
        elif o == 'warp':
            how = e['how']
            img = np.array(e['img'], dtype=float).reshape(e['ih'], e['iw'])
            if e['order'] == 1:
                a, b, cc = e['ramp']
                img = np.array([[a * x + b * y + cc for x in range(e['iw'])] for y in range(e['ih'])], dtype=float)
            i0 = img.copy()
            if how == 'map':
                e['ow'], e['oh'] = m.shape[1], m.shape[0]
                kw = {} if e['order'] == 1 else {'order': 0}
                e['ok'], r = attempt(lambda: m.warp_to_dic_frame(img, **kw))
            else:
                e['ok'], r = attempt(lambda: ex.warp_image(img, F[e['f']], F[e['g']], output_shape=(e['oh'], e['ow']), order=e['order']))
            e['out'] = rl(np.ravel(r), 1000) if e['ok'] and np.shape(r) == (e['oh'], e['ow']) else []
            e['kept'] = kept() and bool((img == i0).all())
        elif o == 'lines':
            ls = [((a / 2, b / 2), (cc / 2, dd / 2)) for a, b, cc, dd in e['lines']]
            e['ok'], r = attempt(lambda: ex.warp_lines(ls, F[e['f']], F[e['g']]))
            e['out'] = [[ri(2 * v) for p in ln for v in p] for ln in r] if e['ok'] else []
        elif o == 'bounds':
            gb = em.data[e['what']]
            e['lines'] = [[ri(2 * v) for p in ln for v in p] for ln in gb.lines]
            e['epts'] = [[int(x), int(y)] for x, y in gb.points]

            def q():
                b = m.data[e['what']]
                return ([[ri(2 * v) for p in ln for v in p] for ln in b.lines], sorted([int(x), int(y)] for x, y in b.points),
                        sorted([int(x), int(y)] for y, x in zip(*np.nonzero(b.image))))
            e['ok'], r = attempt(q)
            e['out'], e['pts'], e['img'] = r if e['ok'] else ([], [], [])
        ev.append(e)
    return {'ev': ev}
