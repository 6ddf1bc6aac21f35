"""C06 (grain data) and C08 (proxigram)."""
import c_ebsd


def ops(rng):
    out = []
    for _ in range(rng.randint(4, 8)):
        o = rng.choice(['gather', 'derived', 'gmapm', 'gmap', 'scatter', 'fill', 'fill', 'average', 'coarse', 'extent',
                        'centre', 'outline', 'size'])
        e = {'op': o}
        g = rng.randrange(12)
        if o in ('gather', 'derived'):
            e.update(g=g, order=rng.choice([0, 1, 2]))
        elif o == 'gmapm':
            e.update(g=g, order=rng.choice([0, 0, 1, 2]), float=rng.random() < 0.5)
        elif o == 'gmap':
            e.update(g=g, rgb=rng.random() < 0.4, bg=rng.choice([0, -7, 5]))
        elif o == 'scatter':
            e.update(order=rng.choice([0, 1, 2]))
        elif o in ('fill', 'average'):
            ids = rng.sample(range(12), rng.randint(1, 5))
            e.update(all=rng.random() < 0.4, ids=ids)
            if o == 'fill':
                e.update(rgb=rng.random() < 0.3, bg=rng.choice([0, 0, -1, 7]), extra=rng.choice([0, 0, 0, 1, -1]),
                         scalar=rng.random() < 0.5, arr=rng.random() < 0.5)
        elif o == 'coarse':
            e.update(g=g, k=rng.choice([0, 1, 2, 3]), bg=rng.choice([-99999, 0, 7]), dflt=rng.random() < 0.3)
        elif o in ('extent', 'size'):
            e.update(g=g)
        elif o == 'centre':
            e.update(g=g, box=rng.random() < 0.5, local=rng.random() < 0.5)
        elif o == 'outline':
            e.update(g=g, dflt=rng.random() < 0.4, bg=rng.choice([0, 3]), fg=rng.choice([1, 9]))
        out.append(e)
    return out


def check_C06(ctx):
    runs = [(2, 2, '{0, 5}'), (3, 1, '{1, 2}')] if ctx.quick else [(3, 2, '{0, 5}'), (1, 4, '{1, 2, 3}'), (2, 3, '{1, 4}')]
    for w, h, v in runs:
        ctx.model('MC_GrainData', f'''SPECIFICATION Spec
INVARIANTS InvBack InvBg InvFill InvBox
CONSTANTS W = {w}
 H = {h}
 Vals = {v}
CHECK_DEADLOCK FALSE
''', f'grain data laws on every labelling of {w}x{h}')
    cases = c_ebsd.rnd(ctx, 1000 if ctx.quick else 15000, wmax=7, hmax=7, user=0.3)
    pal = c_ebsd.palette(ctx)
    for i, c in enumerate(cases):
        c['pal'] = pal
        c['min'] = ctx.rng.choice([1, 2, 3])
        c['seed'] = ctx.seed * 100000 + i
        c['ops'] = ops(ctx.rng)
        c.pop('twice', None)
        if ctx.rng.random() < 0.15:
            c['twice'] = ctx.rng.choice([1, 2])
    recs = ctx.drive('d_graindata', 'run', cases)
    ctx.validate('Trace_GrainData', recs, 'grain data movements')


def check_C08(ctx):
    for w, h, b in [(2, 2, '{1, 2, 3}')] if ctx.quick else [(3, 2, '{1, 2, 3, 5}'), (1, 4, '{1, 2, 3}')]:
        ctx.model('MC_Proxi', f'''SPECIFICATION Spec
INVARIANT InvDone
CONSTANTS W = {w}
 H = {h}
 MaxPts = 4
 Batches = {b}
CHECK_DEADLOCK FALSE
''', f'batched proxigram, every boundary set of {w}x{h}')
    cases = c_ebsd.rnd(ctx, 700 if ctx.quick else 8000, wmax=8, hmax=8, user=0.8)
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    for c in cases:
        c['trials'] = rng.sample([0, -1, 1, 2, 3, 5, 7, 500], 3)
        if rng.random() < 0.3:
            c['trials'].append(max(1, len(c.get('ux', [1])) + len(c.get('uy', []))))
        c['pal'] = pal
    for w, h in ((1, 1300), (1150, 1)) if ctx.quick else ((1, 1300), (1150, 1), (1040, 2), (2, 1030)):
        for u in ([[0, 0]], [[w - 1, h - 1]], [[min(w - 1, 3), min(h - 1, 5)]], []):
            cases.append({'w': w, 'h': h, 'sym': 'cubic', 'min': 1, 'ph': [1] * (w * h), 'mode': 'z', 'ori': [0] * (w * h),
                          'tol2': 19, 'ux': u, 'uy': [], 'trials': [0, 2]})
    recs = ctx.drive('d_graindata', 'proxi', cases)
    ctx.validate('Trace_Proxi', recs, 'proxigrams of maps', stateful=False)
