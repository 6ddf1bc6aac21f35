"""C09 (crop and mask), C10 (DIC grains), C21 (DIC files), C22 (strain)."""

ITEMS = ['um', 'uv', 'ub', 'up', 'uc', 'disp', 'coord', 'f', 'e', 'ms']


def viewcfg(w, h, steps, gen, inv):
    return f'''SPECIFICATION Spec
INVARIANTS {inv}
CONSTRAINT Bound
CONSTANTS W = {w}
 H = {h}
 MaxSteps = {steps}
 Gen = {gen}
CHECK_DEADLOCK FALSE
'''


def check_C09(ctx):
    inv = 'InvShape InvReset InvMask InvPoints InvDilate'
    for w, h, s in ((2, 2, 3),) if ctx.quick else ((2, 2, 4), (3, 2, 3), (1, 3, 4)):
        ctx.model('MC_DicView', viewcfg(w, h, s, 'FALSE', inv), f'every {s} crop/mask calls on a {w}x{h} map')
    rng = ctx.rng
    beh = []
    for w, h in ((6, 5), (5, 7), (2, 4)):
        for b in ctx.generate('MC_DicView', viewcfg(w, h, 8, 'TRUE', 'Stop').replace('CONSTRAINT Bound\n', ''), f'random crop/mask histories {w}x{h}',
                              simulate=120 if ctx.quick else 2500, depth=10):
            beh.append((w, h, b))
    cases = []
    for w, h, b in beh:
        ops = []
        if rng.random() < .8:
            ops.append({'op': 'setpts', 'pts': [[rng.randint(0, 9), rng.randint(0, 9)] for _ in range(rng.randint(1, 4))]})
        for o in b:
            o = dict(o)
            o['how'] = rng.randint(0, 5)
            if o['op'] == 'crop':
                o.pop('how')
            ops.append(o)
            for it in rng.sample(ITEMS, 3):
                ops.append({'op': 'read', 'item': it})
            ops += rng.sample([{'op': 'getmask'}, {'op': 'shape'}, {'op': 'pts'}, {'op': 'cropof', 'item': 'ub'}, {'op': 'cropof', 'item': 'um'}], 3)
        ops += [{'op': 'unmask'}, {'op': 'crop', 'l': 0, 'r': 0, 't': 0, 'b': 0, 'upd': rng.random() < .5}, {'op': 'pts'}, {'op': 'shape'}]
        ops += [{'op': 'read', 'item': it} for it in ITEMS]
        cases.append(dict(w=w, h=h, b=rng.randint(1, 12), bin=rng.choice([2, 3, 1]), cw=rng.randint(1, 4), ch=rng.randint(1, 4),
                          seed=rng.randrange(10**6), ops=ops))
    recs = ctx.drive('d_dic', 'view', cases)
    ctx.validate('Trace_DicView', recs, 'crop/mask histories', batch=3000)


def check_C22(ctx):
    for w, h in ((3, 3), (2, 4)) if ctx.quick else ((3, 3), (2, 4), (5, 2), (4, 4)):
        ctx.model('MC_Strain', f'''SPECIFICATION Spec
INVARIANTS InvUniform InvShift InvRigid InvTurn InvSym InvStretch
CONSTANTS W = {w}
 H = {h}
 K = 1
CHECK_DEADLOCK FALSE
''', f'every affine field on {w}x{h}', coverage=False)
    rng = ctx.rng
    cases = []
    for i in range(400 if ctx.quick else 5000):
        w, h = rng.choice([2, 2, 3, 4, 5, 7]), rng.choice([2, 2, 3, 4, 6])
        b, div = rng.choice([(1, 1), (2, 1), (4, 2), (4, 4), (8, 1), (12, 1), (2, 8), (3, 4), (16, 1)])
        kind = rng.choice(['rnd', 'rnd', 'one', 'aff', 'shift', 'turn', 'jump'])
        r = lambda: rng.randint(-9, 9)
        if kind == 'rnd':
            u, v = ([r() for _ in range(w * h)] for _ in range(2))
        elif kind == 'one':
            u, v = [0] * (w * h), [0] * (w * h)
            rng.choice([u, v])[rng.randrange(w * h)] = r()
        elif kind == 'jump':
            k, t = rng.randrange(1, w), r()
            u = [t if j >= k else 0 for i in range(h) for j in range(w)]
            v = [r() if j >= k else 1 for i in range(h) for j in range(w)]
        else:
            a, c = r(), r()
            p, q, s, t = {'shift': (0, 0, 0, 0), 'turn': (-b, -b, b, -b)}.get(kind, tuple(rng.randint(-1, 1) for _ in range(4)))
            if kind == 'turn':
                b, div = 1, 1
                p, q, s, t = -1, -1, 1, -1
            u = [a + p * j + q * i for i in range(h) for j in range(w)]
            v = [c + s * j + t * i for i in range(h) for j in range(w)]
        cases.append(dict(op='strain', w=w, h=h, b=b, div=div, u=u, v=v))
    recs = ctx.drive('d_dic', 'run', cases)
    ctx.validate('Trace_Dic', recs, 'strain fields', stateful=False, batch=3000)


def dicfile(rng, fmt):
    w, h = rng.choice([2, 3, 4, 5, 7]), rng.choice([2, 3, 4, 6])
    b = rng.choice([1, 2, 3, 4, 5, 8, 12])
    x0, y0 = (b, b) if fmt == 'openpiv' else (2 * rng.randint(0, 40), 2 * rng.randint(0, 40))     # doubled
    if fmt in ('davis', 'openpivbinary') and rng.random() < .3:
        x0, y0 = x0 + 1, y0 + 1
    bx, by = 2 * b, 2 * b
    e = dict(op='file', fmt=fmt, type=fmt, b2=2 * b, hb=b, hshape=[h, w], gshape=[h, w], badspacing=False, offgrid=False, disordered=False)
    kind = rng.choice(['good', 'good', 'good', 'yup', 'bin', 'shape', 'swap', 'spacing', 'offset', 'shuffle', 'sparse', 'count', 'offgrid'])
    pv = fmt.startswith('pyvale')
    if kind == 'yup' and fmt == 'davis':
        kind = 'good'
    if kind == 'spacing':
        by = bx + 2 * rng.randint(1, 5)
        e['badspacing'] = True
    if kind == 'offset' and fmt == 'openpiv':
        x0, y0 = rng.choice([(x0 + 2 * bx, y0), (x0, y0 + 3 * bx), (x0 + bx * 2, y0 + bx * 2)])
    rows = [[x0 + bx * j, y0 + by * (h - 1 - i if kind == 'yup' else i), rng.randint(-80, 80), rng.randint(-80, 80)] for i in range(h) for j in range(w)]
    if kind == 'bin':
        e['hb'] = b + rng.randint(1, 3)
    elif kind == 'shape':
        e['hshape'] = rng.choice([[h + 1, w], [h, w + 1], [h * w, 1] if h > 1 else [h + 1, w]])
    elif kind == 'swap':
        e['hshape'] = [w, h]
    elif kind == 'shuffle' and pv:
        rng.shuffle(rows)
    elif kind == 'sparse' and pv and w > 2 and h > 2:
        k = rng.randrange(len(rows))
        if rows[k][0] not in (x0, x0 + bx * (w - 1)) and rows[k][1] not in (y0, y0 + by * (h - 1)):
            del rows[k]
    elif kind == 'count' and not pv and fmt != 'openpivbinary':
        del rows[rng.randrange(len(rows))]
        if fmt == 'openpiv':
            e['disordered'] = True
    elif kind == 'offgrid' and pv and b > 1:
        rows[-1][0] += 2
        e['offgrid'] = True
        e['disordered'] = True
    e['rows'] = rows
    return e


def check_C21(ctx):
    for w, h in ((2, 2), (3, 2)):
        ctx.model('MC_DicFile', f'''SPECIFICATION Spec
INVARIANTS InvMap InvApart InvGood
CONSTANTS W = {w}
 H = {h}
CHECK_DEADLOCK FALSE
''', f'every row order of a {w}x{h} grid', coverage=False)
    rng = ctx.rng
    cases = []
    for _ in range(110 if ctx.quick else 1500):
        for fmt in ('davis', 'openpiv', 'openpivbinary', 'pyvale-csv', 'pyvale-binary'):
            e = dicfile(rng, fmt)
            e['type'] = rng.choice({'davis': ['davis', 'Davis', None], 'openpiv': ['openpiv', 'OpenPIV', 'openpivtext'], 'openpivbinary': ['OpenPivBinary'],
                                    'pyvale-csv': ['pyvale-csv', 'PyVale-CSV'], 'pyvale-binary': ['pyvale-binary']}[fmt])
            cases.append(e)
    for t, k in (('davis', True), (None, True), ('foo', False), ('', False), ('pyvale', False), ('pyvale-foo', False), ('davisimage', False)):
        cases.append(dict(op='type', type=t, known=k, there=True))
        cases.append(dict(op='type', type=t, known=False, there=False))
    for _ in range(20):
        w, h = rng.randint(2, 5), rng.randint(2, 5)
        cases.append(dict(op='corr', w=w, h=h, cw=rng.choice([w, w, w + 1, h]), ch=rng.choice([h, h, h + 1, w])))
    recs = ctx.drive('d_dic', 'run', cases)
    ctx.validate('Trace_Dic', recs, 'DIC files', stateful=False, batch=5000)


def transform(rng, w, h, ew, eh, exact=False):
    """A transform taking the w by h pixels roughly onto the ew by eh ones."""
    kind = rng.choice(['shift', 'shift', 'shift', 'frac', 'rot', 'flip', 'down', 'up', 'shear'])
    if kind in ('shift', 'frac'):
        k = 1 if kind == 'shift' else 4
        a = [k, 0, 0, k]
        b = [k * rng.randint(-3, max(ew - w + 3, -2)) + (rng.choice([1, -1]) if k == 4 else 0), k * rng.randint(-3, max(eh - h + 3, -2)) + (rng.choice([1, -1]) if k == 4 else 0)]
    elif kind == 'rot':
        k, (a, b) = 1, rng.choice([([0, 1, -1, 0], [rng.randint(-1, 2), w - 1 + rng.randint(-1, 2)]), ([0, -1, 1, 0], [h - 1 + rng.randint(-1, 2), rng.randint(-1, 2)]),
                                  ([-1, 0, 0, -1], [w - 1, h - 1])])
    elif kind == 'flip':
        k, (a, b) = 1, rng.choice([([-1, 0, 0, 1], [w, 1]), ([1, 0, 0, -1], [0, h - 1]), ([0, 1, 1, 0], [0, 1])])
    elif kind == 'down':        # a DIC step is several EBSD steps
        k, a, b = 4, [rng.choice([8, 12]), 0, 0, rng.choice([8, 4])], [rng.choice([1, 5, -3]), rng.choice([1, -3])]
    elif kind == 'up':          # several DIC pixels per EBSD pixel
        k, a, b = 8, [rng.choice([3, 4]), 0, 0, rng.choice([3, 4])], [rng.choice([1, 9]), rng.choice([1, 9, -7])]
    else:
        k, a, b = 8, [8, rng.choice([1, 2]), rng.choice([0, 1]), 8], [rng.choice([1, 3]), rng.choice([1, -1])]
    return {'a': a, 'b': b, 'k': k}


def check_C10(ctx):
    from c_ebsd import rnd, palette
    for w, h, ms in ((3, 3, '{1, 2, 4}'),) if ctx.quick else ((3, 3, '{1, 2, 3, 5}'), (4, 3, '{2}'), (1, 6, '{1, 2}')):
        ctx.model('MC_DicGrains', f"""SPECIFICATION Spec
INVARIANTS InvFlood InvLeft InvOrder
CONSTANTS W = {w}
 H = {h}
 MinSizes = {ms}
CHECK_DEADLOCK FALSE
""", f'flood fill of every boundary image {w}x{h}', coverage=False)
    ctx.model('MC_DicWarp', f"""SPECIFICATION Spec
INVARIANTS InvWarp InvLink InvBack
CONSTANTS W = 2
 H = 2
 EW = {2 if ctx.quick else 3}
 EH = 2
 Max = {3 if ctx.quick else 2}
CHECK_DEADLOCK FALSE
""", 'warp of every small label image', coverage=False)
    rng = ctx.rng
    pal = palette(ctx)
    cases = []
    for e in rnd(ctx, 900 if ctx.quick else 9000, wmax=11, hmax=9, user=0.6):
        if e['mode'] == 'q':
            e['pal'] = pal
        e['min'] = rng.choice([1, 1, 2, 4])
        e.pop('dflt', None)
        fw, fh = rng.randint(2, 10), rng.randint(2, 9)
        crop = [0, 0, 0, 0]
        if rng.random() < .6:
            crop = [rng.randint(0, (fw - 1) // 2), rng.randint(0, (fw - 1) // 2), rng.randint(0, (fh - 1) // 2), rng.randint(0, (fh - 1) // 2)]
        w, h = fw - crop[0] - crop[1], fh - crop[2] - crop[3]
        dp = [[0, 0], [w + 2, 1], [1, h + 3], [w + 3, h + 2]] + [[rng.randint(0, 12), rng.randint(0, 12)] for _ in range(rng.randint(0, 3))]
        alg = rng.choice(['warp', 'floodfill', 'floodfill', 'Warp', 'FLOODFILL'])
        bnd = None
        if alg.lower() == 'floodfill':
            if rng.random() < .85 or min(e['w'], e['h']) < 4:
                d = rng.choice([0, .1, .3, .5, .8, 1])
                bnd = [[x, y] for x in range(w) for y in range(h) if rng.random() < d]
                if rng.random() < .3:
                    x0 = rng.randrange(w)
                    bnd = [[x0, y] for y in range(h)] + [[x, h // 2] for x in range(w) if x != x0]
            else:
                fw, fh = rng.randint(10, 16), rng.randint(10, 14)
                w, h = fw - crop[0] - crop[1], fh - crop[2] - crop[3]
        cases.append(dict(op='grains', e=e, fw=fw, fh=fh, crop=crop, t=transform(rng, w, h, e['w'], e['h']), dp=dp, alg=alg, bnd=bnd, relink=rng.random() < .25,
                          type=rng.choice(['affine', 'affine', 'Affine']), min=rng.choice([1, 1, 2, 3, 5, 10]),
                          how=rng.randint(0, 1 if bnd is None and min(e['w'], e['h']) < 4 else 2)))
    for alg in ('warp', 'floodfill', 'foo', ''):
        cases.append(dict(op='refuse', how='link', alg=alg))
    for alg in ('foo', '', 'flood', 'warps'):
        cases.append(dict(op='refuse', how='alg', alg=alg))
    recs = ctx.drive('d_dic', 'c10', cases)
    ctx.validate('Trace_DicGrains', recs, 'DIC grains', stateful=False, batch=3000)


AFF = [([1, 0, 0, 1], 1), ([8, 0, 0, 8], 8), ([0, 1, -1, 0], 1), ([-1, 0, 0, -1], 1), ([1, 0, 0, -1], 1), ([0, 1, 1, 0], 1), ([2, 0, 0, 2], 1), ([1, 0, 0, 1], 2),
       ([8, 1, -1, 8], 8), ([9, 1, 0, 7], 8), ([2, 1, 0, 2], 4), ([3, 0, 0, 4], 2), ([5, 0, 1, 5], 4), ([4, 0, 0, 4], 8)]
TYPES = ['affine', 'projective', 'polynomial', 'piecewise_affine']


def check_C11(ctx):
    from c_ebsd import blobs
    ctx.model('MC_Frames', f"""SPECIFICATION Spec
INVARIANTS InvSym InvOnce InvLinked InvBack InvChain
CONSTANTS MaxLinks = {4 if ctx.quick else 6}
CHECK_DEADLOCK FALSE
""", 'every history of links of three frames', coverage=False)
    rng = ctx.rng
    cases = []
    for _ in range(500 if ctx.quick else 6000):
        kind = rng.choice(['affine', 'affine', 'affine', 'affine', 'four', 'three', 'six', 'grid'])
        types = {'affine': TYPES, 'four': ['projective'], 'three': ['affine'], 'six': ['polynomial'], 'grid': ['piecewise_affine']}[kind]
        jit = lambda n: rng.randint(-n, n)
        if kind == 'affine':
            base = [[-6, -7], [27, -6], [-5, 26], [28, 25], [-6, 9], [11, -4], [5, 6], [14, 17]] + [[rng.randint(0, 20), rng.randint(0, 20)] for _ in range(rng.randint(0, 4))]
            base = [list(p) for p in dict.fromkeys(map(tuple, base))]
            rng.shuffle(base)
        else:
            base = {'four': [[0, 0], [20, 0], [0, 20], [20, 20]], 'three': [[0, 0], [20, 0], [0, 20]], 'six': [[0, 0], [20, 0], [0, 20], [20, 20], [10, 4], [3, 11]],
                    'grid': [[10 * i, 10 * j] for i in range(3) for j in range(3)]}[kind]

        def mk(f):
            if kind == 'affine':
                a, k = rng.choice(AFF)
                b = [k * jit(4) + (jit(2) if k > 1 else 0), k * jit(4) + (jit(2) if k > 1 else 0)]
                t = {'a': a, 'b': b, 'k': k}
                if f == 1 and rng.random() < .5:
                    t = {'a': [1, 0, 0, 1], 'b': [0, 0], 'k': 1}
                a, b, k = t['a'], t['b'], t['k']
                ps = [[(a[0] * x + a[1] * y + b[0]) * 8 // k, (a[2] * x + a[3] * y + b[1]) * 8 // k] for x, y in base]
                return {'op': 'setpts', 'f': f, 'pts': ps, 't': t, 'nd': rng.random() < .3}
            return {'op': 'setpts', 'f': f, 'pts': [[8 * x + jit(16), 8 * y + jit(16)] for x, y in base], 't': [], 'nd': rng.random() < .3}
        w, h = rng.choice([(10, 10), (8, 14), (24, 7), (12, 9), (6, 30)])
        e = {'w': w, 'h': h, 'sym': 'cubic', 'mode': 'z', 'ph': blobs(rng, w, h, [1, 2], 3), 'ori': blobs(rng, w, h, [0, 20, 40], 4)}
        ops = [mk(f) for f in (1, 2, 3)]
        fg = [(1, 2), (2, 1), (2, 3), (3, 2), (1, 3), (3, 1)]

        def link():
            f, g = rng.choice(fg[:3] * 3 + [(2, 3)] * 8 + fg)
            ty = rng.choice(types)
            how = 'map' if (f, g) == (2, 3) and rng.random() < .8 else 'exp'
            say = {'affine': [None, 'affine', 'Affine'], 'projective': ['projective', 'Projective'], 'polynomial': ['polynomial', 'Polynomial'],
                   'piecewise_affine': ['piecewiseAffine', 'piecewise_affine']}[ty]
            kw = {'order': 2} if ty == 'polynomial' and rng.random() < .5 else {'order': 1} if ty == 'polynomial' and kind == 'affine' and rng.random() < .5 else {}
            return {'op': 'link', 'f': f, 'g': g, 'type': ty, 'say': rng.choice(say), 'kw': kw, 'how': how}
        for _ in range(rng.randint(6, 14)):
            f, g = rng.choice(fg)
            u = rng.random()
            if u < .2:
                ops.append(link())
            elif u < .3:
                ops.append(mk(rng.choice([1, 2, 3])))
            elif u < .6:
                ops.append({'op': 'query', 'f': f, 'g': g, 'probe': [[rng.randint(-3, 24), rng.randint(-3, 24)] for _ in range(4)]})
            elif kind == 'affine' and u < .8:
                order = rng.choice([0, 0, 1])
                iw, ih = rng.randint(2, 12), rng.randint(2, 12)
                how = 'exp'
                if rng.random() < .4:
                    how, f, g = 'map', 3, 2
                ops.append({'op': 'warp', 'f': f, 'g': g, 'order': order, 'iw': iw, 'ih': ih, 'ow': rng.randint(1, 12), 'oh': rng.randint(1, 12), 'how': how,
                            'ramp': [rng.randint(-5, 5), rng.randint(-5, 5), rng.randint(50, 99)], 'img': [rng.randint(1, 9) for _ in range(iw * ih)]})
            elif kind == 'affine' and u < .9:
                ops.append({'op': 'lines', 'f': f, 'g': g, 'lines': [[2 * rng.randint(0, 9) + 1, 2 * rng.randint(0, 9) - 1, 2 * rng.randint(0, 9) + 1, 2 * rng.randint(0, 9) + 1]
                                                                     for _ in range(rng.randint(1, 5))]})
            elif kind == 'affine':
                ops.append({'op': 'bounds', 'what': rng.choice(['grain_boundaries', 'phase_boundaries']), 'tol': 4})
        if kind == 'affine' and rng.random() < .7:
            ops.insert(3, {'op': 'link', 'f': 2, 'g': 3, 'type': 'affine', 'say': None, 'kw': {}, 'how': 'map'})
        cases.append({'e': e, 'fw': rng.randint(8, 20), 'fh': rng.randint(8, 20), 'ops': ops, 'min1': False})
    recs = ctx.drive('d_dic', 'frames', cases)
    ctx.validate('Trace_Frames', recs, 'frame histories', batch=3000)
