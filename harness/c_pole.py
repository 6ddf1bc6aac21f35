"""C35 (pole figures)."""
import c_ebsd
import c_quat

DIRS = [[0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 1, 0], [1, 2, 3], [-1, 0, 2], [0, 0, -1], [3, -1, 1]]
HEX = [[0, 0, 0, 1], [-1, 2, -1, 0], [2, -1, -1, 0], [0, 1, -1, 0], [-1, 1, 0, 0], [1, 0, -1, 0], [1, 2, -3, 0], [-3, 1, 2, 0]]
CUB = [[0, 0, 1], [0, 1, 1], [-1, 1, 1], [1, 1, 0], [1, 2, 3], [1, 1, 2], [-1, 0, 0], [0, -2, 1], [3, 0, 1]]
NAMES = {'stereo': ['stereographic', 'Stereographic', 'stereo', 'equal angle', 'EqualAngle', 'own'],
         'lambert': ['lambert', 'Lambert', 'equal area', 'EQUALAREA', 'own']}


def proj(rng, c):
    c['kind'] = rng.choice(['stereo', 'lambert'])
    c['dproj'] = ''
    if rng.random() < 0.25:     # nothing or something unknown asked for: the default applies
        c['name'] = rng.choice(['none', 'perspective'])
        c['dproj'] = rng.choice(NAMES[c['kind']][:-1])
    else:
        c['name'] = rng.choice(NAMES[c['kind']])
    return c


def check_C35(ctx):
    ctx.model('MC_Pole', f'''SPECIFICATION Spec
INVARIANTS InvBack InvDisc InvOrder InvArea InvArc InvInside InvHex
CONSTANTS N = {2 if ctx.quick else 3}
CHECK_DEADLOCK FALSE
''', 'projection laws over small directions', coverage=False)
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    G = lambda: c_quat.q(rng, pal, 6)
    syms = ['cubic', 'hexagonal']
    cases = []
    for _ in range(150 if ctx.quick else 2000):
        vs = []
        for _ in range(rng.randint(1, 6)):
            v = [rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(-1, 5)]
            if v[2] <= 0 and not any(v[:2]):
                v = [0, 0, 1]
            vs.append(v)
        cases.append({'op': 'proj', 'kind': rng.choice(['stereo', 'lambert']), 'vs': vs, 'vec': rng.random() < 0.5, 'arr': rng.random() < 0.5})
    for _ in range(260 if ctx.quick else 3000):
        k = rng.randint(1, 6)
        c = proj(rng, {'op': 'ipf', 'sym': rng.choice(syms), 'up': rng.random() < 0.5, 'qs': [G() for _ in range(k)], 'd': rng.choice(DIRS),
                       'mark': rng.choice(['no', 'no', 'one', 'two']), 'listed': rng.random() < 0.5,
                       'grain': rng.choice(['', '', '', 'ref', 'spread']), 'twice': rng.random() < 0.3, 'cbar': False, 'single': False,
                       'ks': [rng.randrange(24) for _ in range(k)] if rng.random() < 0.5 else []})
        if k == 1 and not c['grain']:
            c['single'] = rng.random() < 0.5
        if c['mark'] == 'no' and not c['grain'] and k > 1:
            c['cbar'] = rng.random() < 0.5
        c['vals'] = [rng.randint(0, 40) for _ in range(k)]
        c['vals'][0] = 41
        cases.append(c)
    for _ in range(60 if ctx.quick else 600):
        k = rng.randint(1, 6)
        cases.append(proj(rng, {'op': 'ipf', 'sym': rng.choice(syms), 'up': rng.random() < 0.5, 'qs': [G() for _ in range(k)], 'd': rng.choice(DIRS),
                                'mark': 'no', 'listed': False, 'grain': 'data', 'twice': False, 'cbar': False, 'single': False, 'ks': [],
                                'vals': [rng.randint(0, 40) for _ in range(k)], 'bymap': rng.choice([True, True, False, None]), 'ids': rng.random() < 0.6,
                                'pick': [rng.randrange(k) for _ in range(rng.randint(1, k))]}))
    for _ in range(160 if ctx.quick else 2000):
        sym = rng.choice(syms)
        pts = CUB if sym == 'cubic' else HEX
        if rng.random() < 0.5:
            c = {'op': 'label', 'p': rng.choice([p for p in pts if p[-1] >= 0]), 'text': rng.choice(['', '', 'A'])}
        else:
            a, b = rng.sample(pts, 2)
            c = {'op': 'line', 'a': a, 'b': b, 'res': rng.choice([100, 7, 20])}
        c.update({'sym': sym, 'syms': rng.random() < 0.7, 'up': rng.random() < 0.5})
        cases.append(proj(rng, c))
    recs = ctx.drive('d_pole', 'run', cases)
    ctx.validate('Trace_Pole', recs, 'pole figures', stateful=False, batch=8000)
