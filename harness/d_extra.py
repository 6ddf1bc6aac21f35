"""Drives statistics, histograms (C36), correlation values and patterns (C37) of DIC maps."""
import contextlib, io, os, re
import numpy as np
import matplotlib.pyplot as plt
from PIL import Image
import defdap.hrdic as hrdic
from defdap.experiment import Experiment
from defdap.plotting import HistPlot
from d_quat import ri
from d_dic import Scratch, davis, attempt

NAN = -999999
EXT = ['png', 'tif']
NOIMG = {'w': 0, 'h': 0, 'v': []}


def a2(im):
    a = np.asarray(im)
    return {'w': int(a.shape[1]), 'h': int(a.shape[0]), 'v': [int(v) for v in a.ravel()]} if a.ndim == 2 else NOIMG


def grey(im):
    """pixel values of a pattern: png readers scale 16 bits to 0..1"""
    a = np.asarray(im)
    return a2(np.rint(a * 65535) if a.dtype.kind == 'f' else a)


def num(t):
    return NAN if t == 'nan' else ri(float(t) * 10000)


def parse(text, names):
    text = re.sub('\033\\[\\dm', '', text)
    lines = [x for x in text.split('\n') if x.strip()]
    head = [int(x) for x in re.findall(r'\d+', lines[0][lines[0].index('dimensions'):])]
    hps = [int(x) for x in lines[1].split()[1:]]
    rows = []
    for ln in lines[2:]:
        nm, *vals = ln.split()
        base = max((x for x in names if nm.startswith(x)), key=len)
        rows.append({'name': base, 'idx': nm[len(base):], 'vals': [num(v) for v in vals]})
    return head, hps, rows


def hist(m, e):
    if e['src'] == 'item':
        it = getattr(m.data, e['item']) if e['item'] != 'b' else m.data['b']
        d = it if it.ndim == 2 else it[np.unravel_index(e['j'] - 1, it.shape[:-2])]
    else:
        d = np.array([np.nan if v == NAN else v for v in e['raw']], dtype=float)
        if len(d) % 2 == 0:
            d = d.reshape(2, -1)
    kw = {} if e['dflt'] else {'range': (1, 10 ** ((e['bins'] - 1) / 2)) if e['logx'] else (e['lo'], e['hi'])}
    fig, ax = plt.subplots()
    if e['twice']:     # a second histogram in the same plot
        p = HistPlot.create(np.arange(4.), fig=fig, ax=ax, plot_type=e['type'], axes_type=e['axes'], density=e['density'], bins=3, range=(1, 3))
        HistPlot.create(d, plot=p, bins=e['bins'], **kw)
    elif e['split']:
        p = HistPlot(plot_type=e['type'], axes_type=e['axes'], density=e['density'], fig=fig, ax=ax)
        p.add_hist(d, bins=e['bins'], **kw)
    else:
        p = HistPlot.create(d, fig=fig, ax=ax, plot_type=e['type'], axes_type=e['axes'], density=e['density'], bins=e['bins'], **kw)
    ax = p.ax
    if e['type'] == 'scatter':
        x, y = ax.lines[-1].get_data()
    elif e['type'] == 'bar':
        bars = ax.patches[2:] if e['twice'] else ax.patches
        x = [r.get_x() + r.get_width() / 2 for r in bars]
        y = [r.get_height() for r in bars]
    else:
        v = ax.patches[-1].get_xy()
        k = (len(v) - 2) // 2
        x = [(v[2 * i + 1][0] + v[2 * i + 2][0]) / 2 for i in range(k)]
        y = [v[2 * i + 1][1] for i in range(k)]
    return [ri(t * 1000) for t in x], [ri(t * 10000) for t in y], [ax.get_ylabel(), ax.get_xscale(), ax.get_yscale()]


def run(case):
    m0 = case['m']
    w, h, b = m0['w'], m0['h'], m0['b']
    ev = []
    with Scratch() as d:
        z = [[0.] * w for _ in range(h)]
        m = hrdic.Map(davis(d, w, h, b, z, z), experiment=Experiment())
        for k, f in enumerate(m0['files'], 1):
            with open(os.path.join(d, f'corr{k}.txt'), 'w') as fh:
                fh.write(f'#DaVis 8.4.0 image {f["w"]} {f["h"]}\n')
                for y in range(f['h']):
                    fh.write('\t'.join(str(v) for v in f['v'][y * f['w']:(y + 1) * f['w']]) + '\n')
        for k, f in enumerate(m0['pats'], 1):
            Image.fromarray(np.array(f['v'], dtype=np.uint16).reshape(f['h'], f['w'])).save(os.path.join(d, f'pat{k}.{EXT[k % 2]}'))
        for nm, it in m0['items'].items():
            a = np.array([[np.nan if v == NAN else v for v in c] for c in it['comps']], dtype=float).reshape(-1, h, w)
            if nm == 'i':
                a = a.astype(int)
            a = a.reshape({1: (), 2: (2,), 4: (2, 2), 3: (3,)}[len(a)] + (h, w))
            m.data.add(nm, a, type='map', order=a.ndim - 2, apply_mask=True)
        for op in case['ops']:
            e = dict(op)
            o = e['op']
            e['ok'], e['im'] = True, NOIMG
            if o == 'crop':
                l, r, t, bt = e['d']
                m.set_crop(left=l, right=r, top=t, bottom=bt)
            elif o == 'mask':
                a = np.zeros(m.shape, bool)
                for x, y in e['px']:
                    a[y, x] = True
                m.calc_mask(a if e['px'] else None)
            elif o == 'corr':
                kw = {'ok': [{}, {'data_type': 'DavisImage'}][e['f'] % 2], 'other': {'data_type': 'Davis'}}[e['fmt']]
                e['ok'], _ = attempt(lambda: m.load_corr_val_data(os.path.join(d, f'corr{e["f"]}.txt'), **kw))
            elif o == 'getcorr':
                e['im'] = NOIMG if m.corr_val is None else a2(m.corr_val)
            elif o == 'setpat':
                e['ok'], _ = attempt(lambda: m.set_pattern(f'pat{e["f"]}.{EXT[e["f"] % 2]}', e['k']))
            elif o == 'readpat':
                e['ok'], r = attempt(lambda: grey(m.data.pattern))
                e['im'] = r if e['ok'] else NOIMG
            elif o == 'stats':
                buf = io.StringIO()

                def go():
                    with contextlib.redirect_stdout(buf):
                        m.print_stats_table(e['ps'], e['names'])
                e['ok'], _ = attempt(go)
                e['head'], e['hps'], e['rows'] = [], [], []
                if e['ok']:
                    e['head'], e['hps'], e['rows'] = parse(buf.getvalue(), list(m0['items']))
            elif o == 'hist':
                e['x'], e['y'], e['lab'] = [], [], []
                e['ok'], r = attempt(lambda: hist(m, e))
                if e['ok']:
                    e['x'], e['y'], e['lab'] = r
                plt.close('all')
            ev.append(e)
    return {'m': m0, 'ev': ev}
