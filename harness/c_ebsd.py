"""C04, C05, C07: boundaries, grains and neighbour network of EBSD maps."""
NPAL = 28


def palette(ctx):
    r = ctx.tlc('Gen_Palette', 'SPECIFICATION Spec\nINVARIANT Out\nCHECK_DEADLOCK FALSE\n')
    return r.tagged('PALETTE')[0]


def design(ctx):
    runs = [(3, 2, '{1, 2}')] if ctx.quick else [(3, 2, '{1, 2, 3, 7}'), (2, 3, '{2, 4}'), (6, 1, '{1, 3}'), (1, 6, '{2}')]
    for w, h, ms in runs:
        ctx.model('MC_Grains', f'''SPECIFICATION Spec
INVARIANTS InvLabels InvInMap InvPartition InvContacts
CONSTANTS W = {w}
 H = {h}
 MinSizes = {ms}
 Users = TRUE
CHECK_DEADLOCK FALSE
''', f'grain finding, every layout of {w}x{h}, min sizes {ms}', coverage=False)


def small(ctx, limit, shapes=None):
    out = []
    sets = [('{11, 12, 21, 13, 31}', '{0, 1, 2}', '{0, 7, 21, 87}', '{19, 11}', '{1, 2}'),
            ('{22}', '{0, 1}', '{0, 9, 21}', '{19}', '{1, 2, 3}'),
            ('{14, 41, 15, 51}', '{1}', '{0, 3, 15}', '{19}', '{1, 2}')]
    for sh, ph, an, t, mn in sets:
        out += ctx.generate('Gen_Ebsd', f'''SPECIFICATION Spec
INVARIANT Out
CONSTANTS Shapes = {sh}
 Phs = {ph}
 Angs = {an}
 Tols = {t}
 Mins = {mn}
CHECK_DEADLOCK FALSE
''', f'every map of shapes {sh}', limit=limit)
    rng = ctx.rng
    for c in out:
        c['ori'] = c.pop('ang')
        c['mode'] = 'z'
        c['sym'] = rng.choice(['cubic', 'hexagonal'])
        if c['tol2'] == 20:
            c['dflt'] = True
    return out


def blobs(rng, w, h, vals, n):
    """Piecewise constant image with noise."""
    seeds = [(rng.randrange(w), rng.randrange(h), rng.choice(vals)) for _ in range(n)]
    noise = rng.choice([0, 0, 0.1, 0.4])
    out = []
    for y in range(h):
        for x in range(w):
            if rng.random() < noise:
                out.append(rng.choice(vals))
            else:
                out.append(min(seeds, key=lambda s: (s[0] - x) ** 2 + (s[1] - y) ** 2 * 1.01)[2])
    return out


def rnd(ctx, n, wmax=9, hmax=8, user=0.0):
    rng = ctx.rng
    out = []
    for _ in range(n):
        w, h = rng.randint(1, wmax), rng.randint(1, hmax)
        if rng.random() < 0.12:
            w = 1
        elif rng.random() < 0.12:
            h = 1
        k = rng.randint(1, 7)
        c = {'w': w, 'h': h, 'sym': rng.choice(['cubic', 'hexagonal']), 'min': rng.choice([1, 1, 2, 3, 4, 4, 5, 6, 7, 9, 10, 10, 100])}
        phv = rng.choice([[1], [1], [0, 1, 1, 1], [1, 2], [0, 1, 2, 3], [2], [0], [3, 1]])
        c['ph'] = blobs(rng, w, h, phv, rng.randint(1, 5))
        c['mode'] = rng.choice('zq')
        if c['mode'] == 'z':
            vals = rng.choice([[0, 9, 10, 11], list(range(0, 360, 7)), [5, 16, 95, 185, 59, 119], [0, 4, 8, 12, 16, 20], list(range(0, 100))])
            if rng.random() < 0.1:        # gradient: no large step anywhere
                g = rng.choice([3, 8])
                c['ori'] = [g * (i % w) + g * (i // w) for i in range(w * h)]
            else:
                c['ori'] = blobs(rng, w, h, vals, k)
            if rng.random() < 0.5 and all(abs(a - b) % 10 for a in set(c['ori']) for b in set(c['ori']) if a != b):
                c['tol2'], c['dflt'] = 20, True
            else:
                c['tol2'] = rng.choice([1, 9, 19, 19, 21, 31, 59, 89])
        else:
            c['ori'] = blobs(rng, w, h, rng.sample(range(1, NPAL + 1), rng.randint(1, 6)), k)
            c['tol2'] = rng.choice([10, 20, 20, 20, 30, 40, 60, 90, 120])
            if c['tol2'] == 20 and rng.random() < 0.6:
                c['dflt'] = True
        if rng.random() < user:
            d = rng.choice([0.1, 0.3, 0.5, 0.8])
            ph = c['ph']
            full = rng.random() < 0.3
            c['ux'] = [[x, y] for y in range(h) for x in range(w if full else w - 1)
                       if rng.random() < d or (x < w - 1 and (ph[y * w + x] == 0) != (ph[y * w + x + 1] == 0))]
            c['uy'] = [[x, y] for y in range(h if full else h - 1) for x in range(w)
                       if rng.random() < d or (y < h - 1 and (ph[y * w + x] == 0) != (ph[y * w + w + x] == 0))]
            c.pop('dflt', None)
        if rng.random() < 0.15:
            c['twice'] = rng.choice([1, 3, 1000])
        out.append(c)
    return out


def finish(ctx, cases, func, what):
    pal = palette(ctx)
    for c in cases:
        if c['mode'] == 'q':
            c['pal'] = pal
    recs = ctx.drive('d_ebsd', func, cases)
    ctx.validate('Trace_Ebsd', recs, what, stateful=False)


def flips(ctx, cases):
    for c in cases:
        if c.get('ux') is not None:
            c['flip'] = ctx.rng.random() < .35


def check_C04(ctx):
    ctx.assumptions.append('disorientations within 0.1 degree of the tolerance are not judged')
    design(ctx)
    cases = small(ctx, 300 if ctx.quick else 6000) + rnd(ctx, 900 if ctx.quick else 12000)
    finish(ctx, cases, 'boundaries', 'boundaries of maps')


def check_C05(ctx):
    design(ctx)
    cases = small(ctx, 300 if ctx.quick else 6000) + rnd(ctx, 1000 if ctx.quick else 12000, user=0.6)
    flips(ctx, cases)
    finish(ctx, cases, 'grains', 'grains of maps')


def check_C07(ctx):
    design(ctx)
    cases = [c for c in small(ctx, 100 if ctx.quick else 2000)] + \
        rnd(ctx, 1000 if ctx.quick else 12000, user=0.5)
    for c in cases:
        if c['min'] > 5:
            c['min'] = ctx.rng.choice([1, 2, 3])
    flips(ctx, cases)
    finish(ctx, cases, 'network', 'neighbour networks of maps')
