"""Drives crystal indices (C16), slip systems (C17), Schmid factors and traces (C18)."""
import os, shutil, tempfile
from pathlib import Path
import numpy as np
import defdap
import defdap.crystal_utils as cu
import defdap.ebsd as ebsd
from defdap.crystal import SlipSystem, Phase, crystalStructures
from defdap.quat import Quat
from d_quat import ri, rl, unit, comp, n, attempt

F = 10000


def ints(v):
    out = []
    for x in v:
        x = float(x)
        out.append(int(round(x)) if abs(x - round(x)) < 1e-6 else 99999)
    return out


def sysof(s):
    return [ints(s.plane_idc), ints(s.dir_idc)]


def shaped(v, how):
    return {'tuple': tuple, 'list': list, 'array': np.array}[how](v)


def folder():
    return Path(defdap.__file__).parent / 'slip_systems'


def rowsof(path, sym):
    w = 4 if sym == 'hexagonal' else 3
    out = []
    for line in Path(path).read_text().splitlines()[2:]:
        f = [int(x) for x in line.split()]
        if f:
            out.append([f[:w], f[w:]])
    return out


def mk(s, sym, ca, how='array'):
    return SlipSystem(shaped(s[0], how), shaped(s[1], how), crystalStructures[sym], c_over_a=ca / 1000 if sym == 'hexagonal' else None)


def run(e):
    e = dict(e)
    conv = e.get('conv')
    old = defdap.defaults['crystal_ortho_conv']
    try:
        if conv:
            defdap.defaults['crystal_ortho_conv'] = conv
        return _run(e)
    finally:
        defdap.defaults['crystal_ortho_conv'] = old


def _run(e):
    o = e['op']
    v = e.get('v')
    how = e.pop('how', 'tuple')
    if o == 'p_m_mb':
        e['r'] = ints(cu.convert_idc('m', plane=shaped(v, how)))
    elif o == 'p_mb_m':
        e['r'] = ints(cu.convert_idc('mb', plane=shaped(v, how)))
    elif o == 'd_m_mb':
        r = cu.convert_idc('m', dir=shaped(v, how))
        e['r3'] = ints(np.array(r, dtype=float) * 3)
        e['int'] = all(isinstance(x, (int, np.integer)) for x in r)
    elif o == 'd_mb_m':
        e['r'] = ints(cu.convert_idc('mb', dir=shaped(v, how)))
    elif o == 'pos':
        e['r'] = ints(cu.pos_idc(shaped(v, how)))
    elif o == 'reduce':
        e['r'] = ints(cu.reduce_idc(shaped(v, how)))
    elif o == 'str':
        b = e['left'] + e['right']
        a = [shaped(v, how)] + ([b] if b else [])
        e['r'] = cu.idc_to_string(*a, str_type='tex' if e['tex'] else 'unicode').replace('\u0305', '_')
    elif o == 'cast':
        d = np.array(e.pop('off'))
        e['ok'], e['r'] = True, []
        try:
            e['r'] = ints(cu.safe_int_cast(tuple(np.array(v) + d)))
        except ValueError:
            e['ok'] = False
    elif o == 'refuse':
        f = {
            'neither': lambda: cu.convert_idc('m'), 'both': lambda: cu.convert_idc('m', dir=(1, 0, 0), plane=(1, 0, 0)),
            'type': lambda: cu.convert_idc('x', dir=(1, 0, 0)), 'mdir4': lambda: cu.convert_idc('m', dir=(1, 0, -1, 0)),
            'mplane4': lambda: cu.convert_idc('m', plane=(1, 0, -1, 0)), 'mbdir3': lambda: cu.convert_idc('mb', dir=(1, 0, 0)),
            'mbplane3': lambda: cu.convert_idc('mb', plane=(1, 0, 0)), 'conv': lambda: cu.create_l_matrix(1, 1, 1, 1.5, 1.5, 1.5, 'foo'),
            'str': lambda: cu.idc_to_string((1.5, 0, 0)), 'orthneither': lambda: cu.project_to_orth(1.6),
            'orthboth': lambda: cu.project_to_orth(1.6, dir=(1, 0, 0), plane=(1, 0, 0), in_type='m'),
            'orthlen': lambda: cu.project_to_orth(1.6, dir=(1, 0, 0)), 'orthtype': lambda: cu.project_to_orth(1.6, dir=(1, 0, 0), in_type='q'),
            'eqneither': lambda: cu.equavlent_indicies('cubic', crystalStructures['cubic'].symmetries),
            'eqlen': lambda: cu.equavlent_indicies('cubic', crystalStructures['cubic'].symmetries, dir=(1, 0)),
            'noca': lambda: SlipSystem((0, 0, 0, 1), (2, -1, -1, 0), crystalStructures['hexagonal']),
            'groupby': lambda: SlipSystem.group([mk([[1, 1, 1], [0, 1, -1]], 'cubic', 0)], 'colour'),
            'nofile': lambda: SlipSystem.load('/nonexistent/x.txt', crystalStructures['cubic']),
        }[e['kind']]
        e['ok'] = attempt(f)
    elif o == 'equiv':
        kw = {'plane' if e['plane'] else 'dir': shaped(v, how)}
        e['r'] = [ints(x) for x in cu.equavlent_indicies(e['sym'], crystalStructures[e['sym']].symmetries, c_over_a=e['ca'] / 1000,
                                                        in_type=e['it'], **kw)]
    elif o == 'lattice':
        ang = [np.radians(e[k]) for k in ('al', 'be', 'ga')]
        l = cu.create_l_matrix(e['a'] / 1000, e['b'] / 1000, e['c'] / 1000, *ang, **({'convention': conv_} if (conv_ := e.pop('arg', None)) else {}))
        q = cu.create_q_matrix(l)
        e['L'] = [rl(x, F) for x in l]
        e['Q'] = [rl(x, F) for x in q]
    elif o == 'orth':
        kw = {'plane' if e['plane'] else 'dir': shaped(v, how)}
        e['r'] = rl(cu.project_to_orth(e['ca'] / 1000, in_type=e['it'], **kw), F)
    # ---- slip systems
    elif o == 'file':
        p = folder() / e['name']
        st = crystalStructures[e['sym']]
        ca = 1.6 if e['sym'] == 'hexagonal' else None
        get = lambda g: SlipSystem.load(e['name'][:-4], st, c_over_a=ca, group_by=g)
        ss, cols = get(None)
        e['ss'] = [sysof(s) for s in ss]
        e['cols'] = cols
        e['rows'] = rowsof(p, e['sym'])
        e['line2'] = p.read_text().splitlines()[1].strip().split(',')
        for k in ('plane', 'family'):
            e[k] = [[sysof(s) for s in g] for g in get(k)[0]]
    elif o == 'load':
        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, 'mine.txt')
            with open(p, 'w') as f:
                f.write('# Plane normal then slip direction\n' + ','.join(e['colin']) + '\n')
                for a, b in e['rows']:
                    f.write('\t'.join(map(str, a + b)) + '\n')
            st = crystalStructures[e['sym']]
            ca = 1.6 if e['sym'] == 'hexagonal' else None
            e['ok'] = True
            e['ss'] = e['plane'] = e['family'] = e['cols'] = []
            try:
                ss, e['cols'] = SlipSystem.load(p, st, c_over_a=ca, group_by=None)
                e['ss'] = [sysof(s) for s in ss]
                for k in ('plane', 'family'):
                    e[k] = [[sysof(s) for s in g] for g in SlipSystem.load(p, st, c_over_a=ca, group_by=k)[0]]
            except Exception:
                e['ok'] = False
        finally:
            shutil.rmtree(d)
    elif o == 'family':
        e['r'] = sorted(sysof(s) for s in mk(e['s'], e['sym'], e['ca'], how).generate_family())
    elif o == 'equal':
        a, b = mk(e['a'], e['sym'], 1600, how), mk(e['b'], e['sym'], 1600, how)
        e['r'] = bool(a == b)
        e['hash'] = hash(a) == hash(b)
        e['lab'] = [str(a).replace('\u0305', '_'), a.slip_plane_label.replace('\u0305', '_'), a.slip_dir_label.replace('\u0305', '_')]
    elif o == 'vectors':
        s = mk(e['s'], e['sym'], e['ca'], how)
        e['pl'], e['dr'] = rl(s.slip_plane, F), rl(s.slip_dir, F)
    elif o == 'phase':
        e['ok'], e['r'], e['rows'], e['file'], e['car'], e['struct'] = True, [], [], 'none', -1, 'none'
        try:
            p = Phase('x', e['laue'], e['sg'], (e['a'] / 1000, e['a'] / 1000, e['c'] / 1000, np.pi / 2, np.pi / 2, np.pi * (2 / 3 if e['laue'] == 9 else .5)))
        except ValueError:
            e['ok'] = False
            return e
        e['struct'] = p.crystal_structure.name
        e['car'] = -1 if p.c_over_a is None else ri(p.c_over_a * 1000)
        if p.ss_file is not None:
            e['file'] = str(p.ss_file)
            e['rows'] = rowsof(folder() / (e['file'] + '.txt'), e['struct'])
        if p.slip_systems is not None:
            e['r'] = [[sysof(s) for s in g] for g in p.slip_systems]
    elif o == 'schmid':
        return schmid(e, how)
    return e


def schmid(e, how):
    """A map of one or two grains of one uniform orientation each; one record per grain."""
    gs = e['gr']
    phases = [Phase('x', 9 if g['sym'] == 'hexagonal' else 11, g['sg'],
                    (1., 1., g['ca'] / 1000, np.pi / 2, np.pi / 2, np.pi * (2 / 3 if g['sym'] == 'hexagonal' else .5))) for g in gs]
    k = len(gs)
    ph = np.repeat(np.arange(k) + 1, 2)[None, :].repeat(2, 0)
    m = ebsd.Map({'step_size': 1., 'phases': phases, 'phase': ph, 'euler_angle': np.zeros((3, 2, 2 * k)),
                  'band_contrast': np.ones((2, 2 * k))}, data_type='PythonDict')
    o = np.empty((2, 2 * k), dtype=object)
    for x in range(2 * k):
        for y in range(2):
            o[y, x] = unit(gs[x // 2]['q'], False)
    m.data.orientation = o
    m.data.generate('grains', min_grain_size=1)
    l = np.array(e['load'], dtype=float)
    l /= n(l)
    l = l if how != 'list' else list(l)
    byph = {id(g.phase): g for g in m.grains}
    grains = [byph[id(p)] for p in phases]
    for g, c in zip(grains, gs):
        if c['set']:
            g.ref_ori = unit(c['q'], not c['set'] == 'north')
    own = [[[mk(s, gs[0]['sym'], gs[0]['ca']) for s in grp] for grp in e['own']]] if e['own'] else None
    if e['again']:                     # factors for another load were calculated before
        z = np.array([.6, 0, .8])
        m.calc_average_grain_schmid_factors(z) if e['mapwise'] else [g.calc_average_schmid_factors(z) for g in grains]
    if e['mapwise'] and not own:
        m.calc_average_grain_schmid_factors(l)
        m.calc_rdr()
    out = []
    for i, (g, c) in enumerate(zip(grains, gs)):
        if own and i:
            break
        ss = own[0] if own else g.phase.slip_systems
        arg = {'slip_systems': ss} if own else {}
        r = {'op': 'schmid', 'sym': c['sym'], 'conv': e['conv'], 'ca': c['ca'], 'q': c['q'], 'load': e['load'],
             'ss': [[sysof(s) for s in grp] for grp in ss]}
        if not e['mapwise'] or own:
            g.calc_average_schmid_factors(l, **arg)
        r['sf'] = [[ri(x * F) for x in grp] for grp in g.average_schmid_factors]
        if own or e['explicit']:
            g.calc_slip_traces(**arg)
        tr = g.slip_traces
        r['trp'] = [ri(np.degrees(t) * 1000) for t in tr]
        r['tr'] = [[ri(np.cos(t) * F), ri(np.sin(t) * F), ri(np.degrees(t) * 1000)] for t in g.slip_trace_angles]
        r['inc'] = [[ri(np.cos(t) * F), ri(np.degrees(t) * 1000)] for t in g.slip_trace_inclinations]
        r['rdr'] = []
        r['rdron'] = not own
        if not own:
            if not e['mapwise']:
                g.calc_rdr()
            r['rdr'] = [[int(np.clip(ri(x * 1000), -10 ** 5, 10 ** 5)) for x in grp] for grp in g.rdr]
        out.append(r)
    return {'many': out}
