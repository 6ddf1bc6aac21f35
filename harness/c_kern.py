"""C33 (orientation filter), C34 (Nye tensor and GND density)."""
import c_ebsd
from c_ori import cluster


def model(ctx, part, idx, n, inv):
    ctx.model('MC_Kernel', f'''SPECIFICATION Spec
INVARIANT {inv}
CONSTANTS Part = "{part}"
 Idx = {idx}
 N = {n}
CHECK_DEADLOCK FALSE
''', f'{part} laws, palette indices {idx}', coverage=False)


def image(rng, pal, w, h):
    r = rng.random()
    sub = rng.sample(pal, rng.randint(2, 5)) if r < 0.4 else cluster(rng, 6)
    if r > 0.85:
        sub = cluster(rng, 4) + cluster(rng, 4)
    k = rng.random()
    if k < 0.4:         # regions
        img = c_ebsd.blobs(rng, w, h, list(range(len(sub))), rng.randint(1, 5))
    elif k < 0.6:       # one odd pixel here and there
        img = [rng.randrange(len(sub)) if rng.random() < 0.2 else 0 for _ in range(w * h)]
    else:
        img = [rng.randrange(len(sub)) for _ in range(w * h)]
    return [sub[i] if rng.random() < 0.8 else [-x for x in sub[i]] for i in img]


def check_C33(ctx):
    model(ctx, 'filter', '{1, 2, 21}' if ctx.quick else '{1, 2, 7, 14, 21, 25}', 6 if ctx.quick else 7, 'InvFilter')
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    cases = []
    for _ in range(300 if ctx.quick else 2500):
        w, h = rng.randint(1, 8), rng.randint(1, 8)
        if rng.random() < 0.6:
            w, h = max(w, 5), max(h, 5)
        d = rng.random() < 0.3
        cases.append({'op': 'filter', 'sym': 'cubic', 'w': w, 'h': h, 'step': 1., 'img': image(rng, pal, w, h), 'dflt': d, 'times': rng.choice([1, 1, 2]),
                      'tol2': 10 if d else rng.choice([10, 20, 40, 60, 90, 180])})
    recs = [x for r in ctx.drive('d_kern', 'run', cases) for x in r.get('many', [r])]
    ctx.validate('Trace_Kernel', recs, 'filtered orientation maps', stateful=False, batch=8000)


def check_C34(ctx):
    model(ctx, 'nye', '{1, 2, 7, 21}' if ctx.quick else '{1, 2, 3, 7, 14, 21}', 2, 'InvNye')
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    cases = []
    for _ in range(350 if ctx.quick else 3500):
        w, h = rng.randint(1, 6), rng.randint(1, 6)
        cases.append({'op': 'nye', 'sym': rng.choice(['cubic', 'hexagonal']), 'w': w, 'h': h, 'step': rng.choice([1., 0.1, 0.35, 2.]),
                      'img': image(rng, pal, w, h), 'order': rng.random() < 0.5, 'extra': rng.random() < 0.25})
    recs = ctx.drive('d_kern', 'run', cases)
    ctx.validate('Trace_Kernel', recs, 'Nye tensors', stateful=False, batch=8000)
