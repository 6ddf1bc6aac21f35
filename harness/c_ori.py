"""C25 (turning a map), C26 (mean orientation), C27 (KAM), C28 (IPF colours)."""
import c_ebsd
import c_quat


def model(ctx, part, idx, n, inv):
    ctx.model('MC_Ori', f'''SPECIFICATION Spec
INVARIANTS {inv}
CONSTANTS Part = "{part}"
 Idx = {idx}
 N = {n}
CHECK_DEADLOCK FALSE
''', f'orientation laws ({part}), palette indices {idx}, up to {n} pixels', coverage=False)


def mul(p, r):
    return [p[0]*r[0]-p[1]*r[1]-p[2]*r[2]-p[3]*r[3], p[0]*r[1]+p[1]*r[0]+p[2]*r[3]-p[3]*r[2],
            p[0]*r[2]-p[1]*r[3]+p[2]*r[0]+p[3]*r[1], p[0]*r[3]+p[1]*r[2]-p[2]*r[1]+p[3]*r[0]]


HALF = [[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 1, 0], [0, 2, 1, -1], [1, 1, 1, 1], [1, 0, 0, 0]]


def cluster(rng, k):
    """integer orientations near one another; often about half a turn from the origin"""
    base = rng.choice(HALF) if rng.random() < 0.6 else [rng.randint(-4, 4) for _ in range(4)]
    if not any(base):
        base = [0, 3, 1, 0]
    m = rng.choice([6, 10, 20])
    sp = rng.choice([1, 1, 2])
    out = []
    for _ in range(k):
        v = [m * x + rng.randint(-sp, sp) for x in base]
        if not any(v):
            v = [m * x for x in base]
        out.append([-x for x in v] if rng.random() < 0.3 else v)
    return out


def check_C26(ctx):
    model(ctx, 'mean', '{1, 2, 7, 21, 16}' if ctx.quick else '{1, 2, 3, 7, 9, 14, 16, 21, 25}', 2 if ctx.quick else 3, 'InvMean')
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    cases = []
    for _ in range(500 if ctx.quick else 6000):
        k = rng.randint(1, 9)
        sym = rng.choice(['cubic', 'hexagonal'])
        r = rng.random()
        qs = cluster(rng, k) if r < 0.75 else [rng.choice(pal) for _ in range(min(k, 4))]
        if r < 0.1:
            qs = [qs[0]] * k
        cases.append({'op': 'avg', 'sym': sym, 'qs': qs, 'ks': [rng.randrange(24) for _ in qs] if rng.random() < 0.6 else [],
                      'south': rng.random() < 0.2})
    recs = ctx.drive('d_ori', 'run', cases)
    maps = c_ebsd.rnd(ctx, 250 if ctx.quick else 3000, wmax=5, hmax=5, user=0.8)
    for i, c in enumerate(maps):
        c['mode'] = 'q'
        c['pal'] = pal
        c['seed'] = ctx.seed * 10007 + i
        c['min'] = rng.choice([1, 2])
        sub = rng.choice([[1, 2, 3, 4, 5, 6, 7, 8], [21, 18, 25, 17], list(range(1, 29)), [23, 24, 25, 1, 2]])
        c['ori'] = c_ebsd.blobs(rng, c['w'], c['h'], sub, rng.randint(1, 6))
        c['mapwise'] = rng.random() < 0.4
        c['axis'] = rng.random() < 0.5
        if 'ux' in c:           # user supplied boundaries need not separate phases
            c['ph'] = [min(1, x) for x in c['ph']]
        else:
            c['tol2'] = 120
            c.pop('dflt', None)
    out = ctx.drive('d_ori', 'grains', maps)
    for r in out:
        recs += [r] if 'crash' in r else r['many']
    ctx.validate('Trace_Ori', recs, 'grain orientations', stateful=False, batch=8000)


def check_C27(ctx):
    model(ctx, 'mean', '{1, 2, 7, 21}' if ctx.quick else '{1, 2, 3, 7, 14, 21}', 4, 'InvKam InvTurn')
    model(ctx, 'small', '{1}', 2, 'InvSmall')
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    cases = []
    for _ in range(700 if ctx.quick else 8000):
        w, h = rng.randint(2, 6), rng.randint(2, 6)
        sub = rng.sample(pal, rng.randint(1, 6)) if rng.random() < 0.7 else cluster(rng, 6)
        img = c_ebsd.blobs(rng, w, h, list(range(len(sub))), 4)
        cases.append({'op': 'kam', 'w': w, 'h': h, 'img': [sub[i] if rng.random() < 0.8 else [-x for x in sub[i]] for i in img]})
    for _ in range(300 if ctx.quick else 4000):
        w, h = rng.randint(2, 6), rng.randint(2, 6)
        sp = rng.choice([1, 2, 4, 10])
        img = [[500] + [rng.randint(-sp, sp) for _ in range(3)] for _ in range(w * h)]
        cases.append({'op': 'kamf', 'w': w, 'h': h, 'img': [q if rng.random() < .8 else [-x for x in q] for q in img]})
    recs = ctx.drive('d_ori', 'run', cases)
    ctx.validate('Trace_Ori', recs, 'kernel averages', stateful=False, batch=8000)


def check_C28(ctx):
    model(ctx, 'ipf', '{1}', 1, 'InvFund InvColour InvCorner')
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    G = lambda: c_quat.q(rng, pal, 6)
    dirs = [[0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 1, 0], [1, 2, 3], [-1, 0, 2], [0, 0, -1], [3, -1, 1]]
    cases = []
    syms = ['cubic', 'hexagonal']
    for _ in range(500 if ctx.quick else 6000):
        sym = rng.choice(syms)
        k = rng.randint(1, 6)
        for o in ('fund', 'ipf'):
            c = {'op': o, 'sym': sym, 'qs': [G() for _ in range(k)], 'd': rng.choice(dirs),
                 'ks': [rng.randrange(24) for _ in range(k)] if rng.random() < 0.5 else [], 'south': rng.random() < 0.2}
            c.update({'up': rng.random() < 0.5, 'dflt': rng.random() < 0.3} if o == 'fund' else {'arr': rng.random() < 0.5})
            cases.append(c)
        cases.append({'op': 'same', 'sym': sym, 'q': G(), 'd': rng.choice(dirs), 'ks': [0] + [rng.randrange(24) for _ in range(6)],
                      'len': rng.choice([1, 0.1, 7])})
        cases.append({'op': 'corner', 'sym': sym, 'q': G(), 'k': rng.randint(1, 3), 's': rng.randrange(24)})
    recs = ctx.drive('d_ori', 'run', cases)
    maps = []
    for _ in range(150 if ctx.quick else 2000):
        w, h = rng.randint(1, 5), rng.randint(1, 4)
        np_ = rng.randint(1, 3)
        img = [G() for _ in range(w * h)]
        maps.append({'op': 'map', 'kind': rng.choice(['ipf', 'ipf', 'euler']), 'w': w, 'h': h, 'syms': [rng.choice(syms) for _ in range(np_)],
                     'ph': c_ebsd.blobs(rng, w, h, list(range(np_ + 1)), 4), 'img': img, 'd': rng.choice(dirs),
                     'eul': [[rng.randint(0, 359), rng.randint(0, 180), rng.randint(0, 359)] for _ in img],
                     'bgin': rng.choice([None, None, [1, 2, 3], [4, 4, 4]]),
                     'selin': None if rng.random() < 0.5 else rng.sample(range(np_), rng.randint(1, np_))})
    recs += ctx.drive('d_ori', 'colmap', maps)
    maps = []
    for _ in range(80 if ctx.quick else 800):
        w, h = rng.randint(1, 5), rng.randint(1, 4)
        cuts = sorted(rng.sample(range(w - 1), rng.randint(0, w - 1)))
        strip = [sum(x > c for c in cuts) for x in range(w)]
        np_ = rng.randint(1, 3)
        own = [rng.randint(1, np_) for _ in range(w)]
        maps.append({'kind': rng.choice(['ipf', 'ipf', 'euler']), 'w': w, 'h': h, 'syms': [rng.choice(syms) for _ in range(np_)], 'cuts': cuts,
                     'ph': [own[strip[x]] for y in range(h) for x in range(w)], 'img': [G() for _ in range(w * h)], 'axis': rng.randrange(3),
                     'eul': [[rng.randint(0, 359), rng.randint(0, 180), rng.randint(0, 359)] for _ in range(w * h)]})
    for r in ctx.drive('d_ori', 'graincol', maps):
        recs += r['many'] if 'many' in r else [r]
    ctx.validate('Trace_Ori', recs, 'pole figure directions and colours', stateful=False, batch=8000)


def check_C25(ctx):
    ctx.model('MC_Rotate', f'''SPECIFICATION Spec
INVARIANTS InvShown InvTwice
CONSTANTS Idx = {'{1, 7, 21, 14}' if ctx.quick else '{1, 2, 7, 14, 19, 21}'}
 N = 4
 MaxTurns = 3
CHECK_DEADLOCK FALSE
''', 'turning and reading maps of four pixels in any order')
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    cases = []
    for _ in range(600 if ctx.quick else 6000):
        w, h = rng.randint(1, 5), rng.randint(1, 5)
        n = w * h
        c = {'w': w, 'h': h, 'ph': [rng.randint(0, 1) for _ in range(n)], 'bc': [rng.randint(0, 255) for _ in range(n)],
             'bs': [rng.randint(0, 255) for _ in range(n)], 'mode': rng.choice('qee'),
             'eul': [[rng.randint(0, 359), rng.randint(0, 180), rng.randint(0, 359)] for _ in range(n)]}
        if c['mode'] == 'q':
            c['img'] = [rng.choice(pal) for _ in range(n)]
        for k, f in (('bs', lambda: rng.randint(0, 255)), ('mad', lambda: rng.randint(0, 9)), ('vec', lambda: [rng.randint(0, 99), rng.randint(0, 99)])):
            if rng.random() < (.15 if k == 'bs' else .5):
                c.pop(k, 0)
            else:
                c[k] = [f() for _ in range(n)]
        ops = []
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < 0.4:
                ops.append({'op': 'rotate'})
            elif r < 0.45:
                ops.append({'op': 'setori', 'img': [rng.choice(pal) for _ in range(n)]})
            else:
                ops.append({'op': 'read', 'what': rng.choice(['ph', 'bc', 'bs', 'eul', 'ori', 'ori', 'ori', 'mad', 'vec'])})
        ops.append({'op': 'read', 'what': 'ori'})
        ops += [{'op': 'read', 'what': k} for k in ('ph', 'bc', 'bs', 'eul', 'mad', 'vec')] if rng.random() < .3 else [{'op': 'read', 'what': rng.choice(['ph', 'bc', 'bs', 'eul', 'mad', 'vec', 'lst'])}]
        c['ops'] = ops
        cases.append(c)
    recs = ctx.drive('d_ori', 'rotate', cases)
    ctx.validate('Trace_Rotate', recs, 'turned maps')
