"""Drives the EBSD file readers and writer on files written for the case (C19, C20, C30)."""
import hashlib, os, pathlib
import numpy as np
import defdap.ebsd as ebsd
from defdap import defaults
from defdap.crystal import Phase
from defdap.file_readers import EBSDDataLoader
from d_dic import Scratch, attempt
from d_quat import ri


def slip(p):
    if p.slip_systems is None:
        return 'none'
    for k in ('FCC', 'BCC', 'HCP'):
        if p.ss_file == defaults['slip_system_file'][k] and len(p.slip_systems) > 0:
            return k
    return str(p.ss_file)


def phase(p):
    return {'name': str(p.name), 'laue': int(p.laue_group), 'sym': p.crystal_structure.name, 'ss': slip(p),
            'lp': [ri(v * 1000) for v in p.lattice_params[:3]] + [ri(np.rad2deg(v) * 1000) for v in p.lattice_params[3:]]}


def ints(a, k=1):
    return [ri(float(x) * k) for x in np.asarray(a).ravel()]


def meta(m, stepk):
    return {'shape': [int(x) for x in m.shape], 'dims': [int(m.y_dim), int(m.x_dim)], 'step': ri(float(m.step_size) * stepk), 'phases': [phase(p) for p in m.phases],
            'ph': ints(m.data.phase)}


EMPTY = {'shape': [], 'dims': [], 'step': 0, 'phases': [], 'ph': [], 'bc': [], 'bs': [], 'mad': [], 'eul': [[], [], []], 'acq': [], 'edx': [], 'iq': [], 'ci': [], 'fit': []}


def lattice(lp):
    return [f'{v / 1000:.3f}' for v in lp]


# ---------------------------------------------------------------- CTF
def write_ctf(p, e):
    alt = e['alt']
    acq = e['acq']
    head = [f'Prj\t{["", "Two Phases", "C:/XStep/XCells.cpr"][alt % 3]}', 'Author\t[Unknown]', 'JobMode\tGrid', f'XCells\t{e["w"]}', f'YCells\t{e["h"]}',
            f'XStep\t{e["step"] / 10000:.4f}', f'YStep\t{e["step"] / 10000:.4f}']
    tail = [f'AcqE1\t{acq[0]:.4f}', f'AcqE2\t{acq[1]:.4f}', f'AcqE3\t{acq[2]:.4f}']
    if alt & 4:
        head = head[:3] + head[5:] + head[3:5]
    if alt & 8:
        tail = tail[::-1]
    if not (alt & 16 and acq == [0, 0, 0]):
        head = head + tail
    head.append('Euler angles refer to Sample Coordinate system (CS0)!\tMag\t200\tCoverage\t100\tDevice\t0\tKV\t20\tTiltAngle\t70\tTiltAxis\t0')
    with open(p, 'w') as f:
        f.write('Channel Text File\n')
        for x in head:
            f.write(x + '\n')
        f.write(f'Phases\t{len(e["phases"])}\n')
        for q in e['phases']:
            l = lattice(q['lp'])
            f.write(f'{";".join(l[:3])}\t{";".join(l[3:])}\t{q["name"]}\t{q["laue"]}\t{q["sg"]}' + ['\t\t\t\n', '\t3803863129_5.0.6.3\t-2102160418\tdb\n'][alt & 1])
        f.write('\t'.join(e['cols']) + '\n')
        for r in e['rows']:
            t = []
            for c, v in zip(e['cols'], r):
                t.append(f'{v / 1000:.3f}' if c.startswith('Euler') else f'{v / 10000:.4f}' if c in ('MAD', 'X', 'Y') else str(v))
            f.write('\t'.join(t) + '\n')


def ctf(e):
    with Scratch() as d:
        p = pathlib.Path(d) / 'm.ctf'
        write_ctf(p, e)
        how = e.pop('how')
        loaders = {}

        def load():
            m = ebsd.Map(p, data_type=[None, 'OxfordText', 'oxfordtext'][how % 3])
            ld = EBSDDataLoader.get_loader('OxfordText', p)
            ld.load(p)
            return m, ld
        ok, r = attempt(load)
    e['ok'], e['got'] = ok, dict(EMPTY)
    if ok:
        m, ld = r
        e['got'].update(meta(m, 10000), bc=ints(m.data.band_contrast), bs=ints(m.data.band_slope), mad=ints(m.data.mean_angular_deviation, 10000),
                        eul=[ints(np.rad2deg(np.asarray(a, float)), 1000) for a in m.data.euler_angle],
                        acq=ints(ld.loaded_metadata['acquisition_rotation'].quat_coef, 10000))
    e.pop('alt')
    return e


# ---------------------------------------------------------------- CPR / CRC
def write_cpr(p, e):
    alt = e['alt']
    acq = e['acq']
    g = [['General', ['Version=5.0', 'Description=a=b', 'Notes=', 'Author=AZtec']],
         ['Job', ['Coverage=94.1', f'GridDistX={e["step"] / 10000:.4f}', f'GridDistY={e["step"] / 10000:.4f}', f'xCells={e["w"]}', f'yCells={e["h"]}', 'kV=20']],
         ['Acquisition Surface', [f'Euler{i + 1}={acq[i]:.1f}' for i in range(3)]],
         ['Fields', [f'Count={len(e["fields"])}'] + [f'Field{i + 1}={k}' for i, k in enumerate(e['fields'])]],
         ['Phases', [f'Count={len(e["phases"])}']]]
    for i, q in enumerate(e['phases']):
        l = lattice(q['lp'])
        g.append([f'Phase{i + 1}', [f'StructureName={q["name"]}', 'Reference=none', 'Enabled=True'] + [f'{n}={v}' for n, v in zip(('a', 'b', 'c', 'alpha', 'beta', 'gamma'), l)]
                  + [f'LaueGroup={q["laue"]}'] + ([f'SpaceGroup={q["sg"]}'] if q['sg'] else []) + ['ID1=', 'ID2=']])
    g.append(['Maximum indices', [f'Phase{i + 1}=444' for i in range(len(e['phases']))]])
    if e['nedx'] or alt & 1:
        g.append(['EDX Windows', [f'Count={e["nedx"]}'] + [f'Window{i + 1}={n}' for i, n in enumerate(e['names'])]])
    if alt & 2:
        g = g[::-1]
    if alt & 4:
        for x in g:
            x[1].reverse()
    with open(p, 'w') as f:
        if alt & 8:
            f.write('; a comment\n\n')
        for n, ls in g:
            f.write(f'[{n}]\n')
            for i, x in enumerate(ls):
                if alt & 16 and i == 1:
                    f.write('; another = comment\n\n')
                f.write(x + '\n')
            if alt & 32:
                f.write('\n')


def crc(e):
    with Scratch() as d:
        p = pathlib.Path(d)
        write_cpr(p / 'm.cpr', e)
        (p / 'm.crc').write_bytes(bytes(e['bytes']))
        how = e.pop('how')
        n = p / ['m', 'm.crc', 'm.cpr'][how % 3]

        def load():
            m = ebsd.Map(n, data_type=[None, 'OxfordBinary'][how // 3 % 2])
            ld = EBSDDataLoader.get_loader(None, n)
            ld.load(n)
            return m, ld
        ok, r = attempt(load)
    e['ok'], e['got'] = ok, dict(EMPTY)
    if ok:
        m, ld = r
        edx = [ints(m.data['EDX ' + nm], 1024) if 100 + i + 1 in e['fields'] else [] for i, nm in enumerate(e['names'])]
        e['got'].update(meta(m, 10000), bc=ints(m.data.band_contrast), bs=ints(m.data.band_slope), mad=ints(m.data.mean_angular_deviation, 1024),
                        eul=[ints(a, 1024) for a in m.data.euler_angle], edx=edx,
                        acq=ints(ld.loaded_metadata['acquisition_rotation'].quat_coef, 10000))
    e.pop('alt')
    return e


# ---------------------------------------------------------------- ANG
def write_ang(p, e):
    alt = e['alt']
    sep = ['  ', '\t', ' '][alt % 3]
    with open(p, 'w') as f:
        f.write('# TEM_PIXperUM          1.000000\n# x-star                0.501\n# y-star                0.7\n# z-star                0.6\n# WorkingDistance       15\n#\n')
        for q in e['phases']:
            l = lattice(q['lp'])
            f.write(f'# Phase {q["no"]}\n')
            body = [f'# MaterialName  \t{q["name"]}', f'# Formula     \t{q["name"][:2]}', '# Info', f'# Symmetry              {q["sym"]}',
                    f'# LatticeConstants      {" ".join(l)}', '# NumberFamilies        2', '# hklFamilies   \t 1  1  1 1 0.000000 1', '# hklFamilies   \t 2  0  0 1 0.000000 1',
                    '# Categories 0 0 0 0 0']
            if alt & 4:
                body[0], body[4] = body[4], body[0]
            for x in body:
                f.write(x + '\n')
            f.write('#\n')
        g = [f'# GRID: {e["grid"]}', f'# XSTEP: {e["step"] / 10000:.6f}', f'# YSTEP: {e["step"] / 10000:.6f}', f'# NCOLS_ODD: {e["w"]}', f'# NCOLS_EVEN: {e["w"]}', f'# NROWS: {e["h"]}']
        if alt & 8:
            g.reverse()
        for x in g:
            f.write(x + '\n')
        f.write('#\n# OPERATOR:\tme\n#\n# SAMPLEID:\t\n#\n')
        for r in e['rows']:
            t = [f'{v / 10000:.4f}' for v in r[:3]] + [f'{v / 10000:.4f}' for v in r[3:5]] + [f'{r[5] / 1000:.3f}', f'{r[6] / 1000:.3f}', str(r[7]), str(r[8]), f'{r[9] / 1000:.3f}']
            f.write('  ' * (alt & 1) + sep.join(t) + sep.join([''] + ['0.5'] * e['extra']) + '\n')


def ang(e):
    with Scratch() as d:
        p = pathlib.Path(d) / 'm.ang'
        write_ang(p, e)
        how = e.pop('how')
        ok, m = attempt(lambda: ebsd.Map(p, data_type=[None, 'EdaxAng', 'edaxang'][how % 3]))
    e['ok'], e['got'] = ok, dict(EMPTY)
    if ok:
        e['got'].update(meta(m, 10000), iq=ints(m.data.image_quality, 1000), ci=ints(m.data.confidence_index, 1000), fit=ints(m.data.fit_factor, 1000),
                        eul=[ints(a, 10000) for a in m.data.euler_angle])
    e.pop('alt')
    return e


def ftype(e):
    """Which loader a file name or a type name selects."""
    ok, ld = attempt(lambda: EBSDDataLoader.get_loader(e['type'] or None, pathlib.Path('x' + e['suffix'])))
    e['ok'], e['got'] = ok, type(ld).__name__ if ok else ''
    return e


def load(e):
    return {'ctf': ctf, 'crc': crc, 'ang': ang, 'type': ftype}[e['op']](dict(e))


# ---------------------------------------------------------------- sessions
def observe(m):
    q = [[ri(float(x) * 10000) for x in o.quat_coef] for o in np.asarray(m.data.orientation).ravel()]
    r = meta(m, 10000)
    return {'shape': r['shape'], 'step': r['step'], 'phases': r['phases'], 'ph': r['ph'], 'bc': ints(m.data.band_contrast),
            'bs': ints(m.data.band_slope) if 'band_slope' in m.data else [], 'q': q}


def tokens(p):
    """The written file as text: scaled integers by column."""
    t = {'w': 0, 'h': 0, 'step': 0, 'ystep': 0, 'phases': [], 'cols': [], 'rows': []}
    ls = open(p).read().split('\n')
    i = 0
    while i < len(ls):
        x = ls[i].split('\t')
        i += 1
        if x[0] == 'XCells':
            t['w'] = int(x[1])
        elif x[0] == 'YCells':
            t['h'] = int(x[1])
        elif x[0] == 'XStep':
            t['step'] = ri(float(x[1]) * 10000)
        elif x[0] == 'YStep':
            t['ystep'] = ri(float(x[1]) * 10000)
        elif x[0] == 'Phases':
            for _ in range(int(x[1])):
                y = ls[i].split('\t')
                i += 1
                t['phases'].append({'name': y[2], 'laue': int(y[3]), 'sg': int(y[4]), 'lp': [ri(float(v) * 1000) for z in y[:2] for v in z.split(';')]})
            t['cols'] = ls[i].split('\t')
            i += 1
            break
    for l in ls[i:]:
        if l:
            t['rows'].append([ri(float(v) * (1 if c in ('Phase', 'Bands', 'Error', 'BC', 'BS') else 10000 if c == 'MAD' else 1000)) for c, v in zip(t['cols'], l.split('\t'))])
    return t


NOOBS = {'shape': [], 'step': 0, 'phases': [], 'ph': [], 'bc': [], 'bs': [], 'q': []}
NOTXT = {'w': 0, 'h': 0, 'step': 0, 'ystep': 0, 'phases': [], 'cols': [], 'rows': []}


def build(mp, ps, form, bad=0):
    w, h = mp['w'], mp['h']
    e = np.array(mp['eul'], float).reshape(h, w, 3).transpose(2, 0, 1)
    ph = [Phase(q['name'], q['laue'], q['sg'] or None, tuple(v / 1000 for v in q['lp'][:3]) + tuple(np.deg2rad(v / 1000) for v in q['lp'][3:])) for q in ps]
    if bad:
        e = [np.zeros((3, h, w + 1)), np.zeros((3, h + 1, w)), np.zeros((2, h, w)), e.reshape(3, -1), e[:, :, :0], e][bad - 1]
        ph = ph if bad < 6 else [q['name'] for q in ps]
    return ebsd.Map({'step_size': mp['step'] / 10000, 'phases': ph, 'phase': np.array(mp['ph'], [int, np.uint8, np.int32][form % 3]).reshape(h, w),
                     'euler_angle': np.deg2rad(e), 'band_contrast': np.array(mp['bc'], [int, np.uint8][form % 2]).reshape(h, w)}, data_type='PythonDict')


def store(case):
    maps, ev, digest, order = [], [], {}, []
    with Scratch() as d:
        for op in case['ops']:
            e = dict(op)
            o = e['op']
            obs, txt, m = NOOBS, NOTXT, None
            if o == 'dict':
                ok, m = attempt(lambda: build(e['map'], case['ps'][e['map']['phases'] - 1], e['form']))
                maps.append(m)
            elif o == 'baddict':
                ok, _ = attempt(lambda: build(e['map'], case['ps'][e['map']['phases'] - 1], 0, e['form'] + 1))
            elif o == 'save':
                m = maps[e['m'] - 1]
                kw = [dict(file_dir=d), dict(file_dir=pathlib.Path(d)), dict(data_type='OxfordText', file_dir=d)][e['form'] % 3]
                ok, _ = attempt(lambda: m.save(e['name'], **kw))
            elif o == 'badsave':
                ok, _ = attempt(lambda: maps[e['m'] - 1].save(e['name'], data_type=['OxfordBinary', 'badger', ''][e['form'] % 3], file_dir=d))
            elif o == 'load':
                ok, m = attempt(lambda: ebsd.Map(pathlib.Path(d) / (e['name'] + '.ctf'), data_type=[None, 'OxfordText'][e['form'] % 2]))
                if ok:
                    maps.append(m)
            elif o == 'turn':
                m = maps[e['m'] - 1]
                ok, _ = attempt(lambda: m.rotate_data())
            elif o == 'edit':
                m = maps[e['m'] - 1]
                k = np.unravel_index(e['k'] - 1, m.shape)

                def ed():
                    m.data.phase[k] = e['v']
                    if e['form'] % 2:
                        m.data.band_contrast[k] = e['b']
                    else:
                        b = np.array(m.data.band_contrast)
                        b[k] = e['b']
                        m.data.band_contrast = b
                ok, _ = attempt(ed)
            else:
                ok, m = True, maps[e['m'] - 1]
            if m is not None:
                k2, obs = attempt(lambda: observe(m))
                if not k2:
                    ok, obs = False, NOOBS
            e.pop('form', None)
            now = {n: hashlib.sha1(open(os.path.join(d, n), 'rb').read()).hexdigest() for n in os.listdir(d)}
            for n in sorted(now):
                if n not in digest:
                    order.append(n)
                    digest[n] = now[n]
            if o == 'save' and ok:
                k2, txt = attempt(lambda: tokens(os.path.join(d, e['name'] + '.ctf')))
                if not k2:
                    txt = NOTXT
            e.update(ok=ok, obs=obs, text=txt, names=[n[:-4] if n.endswith('.ctf') else n for n in order], same=[now.get(n) == digest[n] for n in order])
            ev.append(e)
            if not ok and o in ('dict',):
                break
    return {'ev': ev, 'ps': case['ps']}
