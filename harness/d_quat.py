"""Drives Quat arithmetic and symmetry (C14, C15)."""
import copy
import numpy as np
from defdap.quat import Quat
from defdap.crystal import crystalStructures

K = 1000


def ri(v):
    v = float(v)
    if not np.isfinite(v):
        return 2 * 10 ** 8 if v > 0 else -2 * 10 ** 8
    return int(np.clip(round(v), -10 ** 9, 10 ** 9))


def rl(a, k=K):
    return [ri(float(x) * k) for x in np.asarray(a, dtype=float).ravel()]


def n(p):
    return float(np.sqrt(np.dot(p, p)))


def unit(p, south=True):
    return Quat(np.array(p, dtype=float) / n(p), allow_southern=south)


def comp(q):
    return np.array([q[0], q[1], q[2], q[3]], dtype=float)


def attempt(f):
    try:
        f()
        return True
    except Exception:
        return False


def run(e):
    e = dict(e)
    o = e['op']
    p = e.get('p')
    q = e.get('q')
    if p is not None and o not in ('norm', 'add', 'iadd', 'eq'):
        P = unit(p)
    if o == 'new':
        a = np.array(p, dtype=float)
        how = e['how']
        args = {'args': tuple(a), 'array': (a,), 'list': (list(a),), 'tuple': (tuple(a),)}[how]
        r = Quat(*args, allow_southern=True) if e['south'] else Quat(*args)
        if how == 'array':
            a[:] = 77
        e['r'] = rl(comp(r))
    elif o == 'mul':
        Q = unit(q)
        r = P.__mul__(Q, allow_southern=True) if e['south'] else P * Q
        e['r'] = rl(comp(r) * n(p) * n(q))
    elif o == 'unchanged':
        Q = unit(q)
        a, b = comp(P).copy(), comp(Q).copy()
        P * Q; P + Q; P.dot(Q); P.conjugate; P.rot_matrix(); P.euler_angles(); P.norm()
        v = np.array([1., 2, 3])
        P.transform_vector(v)
        P.mis_ori(Q, 'cubic', return_quat=2)
        Quat.multiply_many_quats([P, Q], Q)
        Quat.calc_sym_eqvs([P, Q], 'hexagonal')
        ax = np.array([1., 2, 2])
        Quat.from_axis_angle(ax, 1.)
        e['r'] = bool((comp(P) == a).all() and (comp(Q) == b).all() and v.tolist() == [1, 2, 3] and ax.tolist() == [1, 2, 2])
    elif o == 'conj':
        e['r'] = rl(comp(P.conjugate) * n(p))
    elif o == 'rot':
        e['r'] = [rl(row) for row in P.rot_matrix() * n(p) ** 2]
    elif o in ('vec', 'back'):
        v = e['v']
        v = {'list': list, 'tuple': tuple, 'array': np.array}[e['how']](v)
        if o == 'vec':
            e['r'] = rl(P.transform_vector(v) * n(p) ** 2)
        else:
            e['r'] = rl(P.conjugate.transform_vector(P.transform_vector(v)))
    elif o == 'dot':
        e['r'] = ri(P.dot(unit(q)) * n(p) * n(q) * K)
    elif o == 'norm':
        P = Quat(*p, allow_southern=True)
        nn = P.norm()
        e['r'] = ri(nn ** 2 * K)
        P.normalise()
        e['unit'] = ri(n(comp(P)) * K)
        e['n'] = rl(comp(P) * n(p))
    elif o == 'add':
        e['r'] = rl(comp(Quat(*p, allow_southern=True) + Quat(*q, allow_southern=True)))
    elif o == 'iadd':
        P = Quat(*p, allow_southern=True)
        P += Quat(*q, allow_southern=True)
        e['r'] = rl(comp(P))
    elif o == 'axis':
        # the axis and angle described by the integer quaternion p
        s = n(p[1:])
        ang = 2 * np.arctan2(s, p[0]) + 2 * np.pi * e['turns']
        ax = -np.array(p[1:], dtype=float) * e['len']
        e['r'] = rl(comp(Quat.from_axis_angle(list(ax) if e['lst'] else ax, ang)) * n(p))
    elif o == 'coordaxis':
        ax = np.zeros(3)
        ax[e['a'] - 2] = e['len']
        e['r'] = rl(comp(Quat.from_axis_angle(ax, np.radians(e['t']))), 10000)
    elif o == 'euler':
        e['r'] = rl(comp(Quat.from_euler_angles(*np.radians(e['e']))), 10000)
    elif o == 'toeuler':
        P = unit(p, e['south'])
        ang = P.euler_angles()
        e['ang'] = rl(np.degrees(ang))
        e['r'] = rl(comp(Quat.from_euler_angles(*ang)) * n(p))
    elif o == 'eulerstable':
        e['ang'] = rl(np.degrees(Quat.from_euler_angles(*np.radians(e['e'])).euler_angles()))
    elif o == 'many':
        arr = np.radians(np.array(e['e'], dtype=float).T.reshape([3] + e['shape']))
        r = Quat.create_many_quats(arr)
        e['rshape'] = list(r.shape)
        e['r'] = [rl(comp(x), 10000) for x in r.ravel()]
    elif o == 'mulmany':
        r = Quat.multiply_many_quats([unit(x) for x in e['ps']], unit(q))
        e['r'] = [rl(comp(x) * n(y) * n(q)) for x, y in zip(r, e['ps'])]
        if len(r) != len(e['ps']):
            e['r'] = []
    elif o == 'extract':
        a = np.empty(len(e['ps']), dtype=object)
        for i, x in enumerate(e['ps']):
            a[i] = unit(x)
        a = a.reshape(e['inshape'])
        r = Quat.extract_quat_comps(a.tolist() if e['lst'] else a)
        e['shape'] = list(r.shape)
        e['r'] = [rl(c * n(x)) for c, x in zip(r.reshape(4, -1).T, e['ps'])]
    elif o == 'eq':
        P, Q = Quat(*p, allow_southern=True), Quat(*q, allow_southern=True)
        e['r'] = bool(P == Q) and not (P != Q)
        e['hash'] = hash(P) == hash(Q)
    elif o == 'refuse':
        P = unit([1, 2, 3, 4])
        f = {
            'three': lambda: Quat(1, 2, 3), 'arr3': lambda: Quat([1, 2, 3]), 'arr5': lambda: Quat([1, 2, 3, 4, 5]),
            'none': lambda: Quat(), 'mulnum': lambda: P * 2, 'dotnum': lambda: P.dot([1, 0, 0, 0]), 'addnum': lambda: P + 1,
            'vec2': lambda: P.transform_vector([1, 2]), 'vecnum': lambda: P.transform_vector(3),
            'misnum': lambda: P.mis_ori([1, 0, 0, 0], 'cubic'), 'axisnum': lambda: P.mis_ori_axis(3),
        }[e['kind']]
        e['ok'] = attempt(f)
    elif o == 'group':
        src = Quat.sym_eqv(e['sym']) if e['src'] else crystalStructures[e['sym']].symmetries
        e['r'] = [rl(comp(s), 10000) for s in src]
    elif o == 'unknown':
        e['r'] = [rl(comp(s), 10000) for s in Quat.sym_eqv('triclinic')]
    elif o == 'eqvs':
        r = Quat.calc_sym_eqvs([unit(x) for x in e['ps']], e['sym'])
        e['r'] = [[rl(r[s, :, i] * n(x), 10000) for s in range(r.shape[0])] for i, x in enumerate(e['ps'])]
    elif o == 'mis':
        Q = unit(q)
        val = P.mis_ori(Q, e['sym'])
        eq = P.mis_ori(Q, e['sym'], return_quat=1)
        val2, eq2 = P.mis_ori(Q, e['sym'], return_quat=2)
        sc = 400 * n(p) ** 2 * n(q) ** 2
        e['val'] = ri(val ** 2 * sc)
        e['same'] = bool(abs(val2 - val) < 1e-9 and np.allclose(comp(eq), comp(eq2)))
        e['eq'] = rl(comp(eq) * n(q), 10000)
        e['att'] = ri(np.dot(comp(P), comp(eq)) ** 2 * sc)
    elif o == 'same':
        # orientations against themselves and their equivalents: how far above 1 is the largest value, and does its angle exist
        g = np.random.default_rng(e.pop('seed'))
        qs = [Quat.from_euler_angles(*g.uniform(0, [6.28, 3.14, 6.28])) for _ in range(e['n'])]
        eq = Quat.calc_sym_eqvs(qs, e['sym'])
        vs = []
        for i, a in enumerate(qs):
            b = a if g.random() < .5 else Quat(eq[int(g.integers(0, len(eq))), :, i])
            vs += [float(a.mis_ori(b, e['sym'])), float(Quat.calcMisOri(eq, b)[0][i])]
        e['over'] = ri(max(vs) * 1e16 - 1e16)
        e['nan'] = bool(np.isnan(2 * np.arccos(vs)).any())
        e['val'] = ri(min(vs) * 1e6)
    elif o == 'misz':
        P = Quat.from_euler_angles(np.radians(e['a']) - e['x'], 0., e['x'])
        Q = Quat.from_euler_angles(np.radians(e['b']), 0., 0.)
        e['deg'] = ri(np.degrees(2 * np.arccos(min(1., P.mis_ori(Q, e['sym'])))) * K)
        e.pop('x')
    elif o == 'calcmis':
        Q = unit(q)
        qs = [unit(x) for x in e['ps']]
        v, c = Quat.calcMisOri(Quat.calc_sym_eqvs(qs, e['sym']), Q)
        sc = [400 * n(x) ** 2 * n(q) ** 2 for x in e['ps']]
        e['val'] = [ri(a * a * b) for a, b in zip(v, sc)]
        e['eq'] = [rl(a * n(x), 10000) for a, x in zip(np.asarray(c).T, e['ps'])]
        e['att'] = [ri(np.dot(comp(Q), a) ** 2 * b) for a, b in zip(np.asarray(c).T, sc)]
    elif o == 'misaxis':
        Q = unit(q)
        a = P.mis_ori_axis(Q)
        t = n(a)
        e['half'] = ri(np.cos(t / 2) * n(p) * n(q) * K)
        e['vec'] = rl(a / t * np.sin(t / 2) * n(p) * n(q))
    return e
