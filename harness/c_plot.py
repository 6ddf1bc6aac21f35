"""C31 (what plots show), C32 (layers and selections)."""
import c_ebsd

NONE = {'k': 'none', 'v': [], 's': ''}


def component(rng, dims, valid):
    r = rng.random()
    if not valid:
        return rng.choice([NONE, {'k': 'int', 'v': [rng.randint(0, 4)], 's': ''}, {'k': 'str', 'v': [], 's': rng.choice(['foo', 'norms', 'max', '', 'norm'])},
                           {'k': 'tup', 'v': [rng.randint(0, 4) for _ in range(rng.randint(1, 3))], 's': ''}])
    if not dims:
        return NONE
    if r < .25:
        return {'k': 'str', 'v': [], 's': rng.choice(['norm', 'norm', 'NORM', 'Norm'])}
    if len(dims) == 1 and r < .6:
        return {'k': 'int', 'v': [rng.randrange(dims[0])], 's': ''}
    return {'k': 'tup', 'v': [rng.randrange(d) for d in dims], 's': ''}


LOADED = [{'name': n, 'dims': d, 'dflt': c, 'clabel': '', 'unit': '', 'bin': 1, 'lim': [], 'flt': True, 'hole': ''}
          for n, d, c in (('coordinate', [2], {'k': 'str', 'v': [], 's': 'norm'}), ('displacement', [2], {'k': 'str', 'v': [], 's': 'norm'}),
                          ('f', [2, 2], {'k': 'tup', 'v': [0, 0], 's': ''}), ('e', [2, 2], {'k': 'tup', 'v': [0, 0], 's': ''}))]


def datum(rng, dic):
    dims = rng.choice([[], [rng.randint(1, 4)], [rng.randint(1, 3), rng.randint(1, 3)]])
    return {'dims': dims, 'dflt': component(rng, dims, rng.random() < .9) if dims and rng.random() < .5 else NONE, 'clabel': rng.choice(['', 'strain', 'Euler angle']),
            'unit': rng.choice(['', 'rad', 'um']), 'bin': rng.choice([2, 3]) if dic and rng.random() < .3 else 1, 'lim': rng.choice([[], [], [-3, 12]]),
            'flt': rng.random() < .5, 'hole': '' if dic else rng.choice(['', 'nan', 'mask'])}


def ops(rng, data, dic, n):
    out = []
    for _ in range(n):
        o = rng.choice(['map', 'map', 'map'] if dic else ['map', 'map', 'grain', 'grain', 'fill', 'avg', 'schmid', 'schmid', 'phase', 'labels', 'gb', 'pb', 'line', 'outline', 'same'])
        e = {'op': o, 'seed': rng.randrange(10**6)}
        if o in ('map', 'grain'):
            k = rng.randrange(len(data))
            e.update(d=k, c=component(rng, data[k]['dims'], rng.random() < .75), name=rng.choice(['lst', 'odd', 'nope']) if rng.random() < .08 else '',
                     own=rng.choice(['', '', '', 'mine']), lim=rng.choice([[], [], [-7, 5]]), ax=rng.random() < .25)
        if o in ('grain', 'outline'):
            e['g'] = rng.randrange(12)
        if o in ('fill', 'avg'):
            e.update(all=rng.random() < .4, ids=rng.sample(range(12), rng.randint(1, 4)), bg=rng.choice([0, 0, -7, 9]))
        if o == 'fill':
            e.update(rgb=rng.random() < .3, extra=rng.choice([0, 0, 0, 0, 1, -1]), given=rng.random() < .95)
        if o == 'schmid':
            e.update(load=rng.choice([[1, 0, 0], [0, 1, 0], [1, 1, 1], [1, 2, -1]]), pl=rng.sample(range(6), rng.choice([0, 0, 1, 2])), di=rng.sample(range(4), rng.choice([0, 0, 1, 2])))
        if o in ('gb', 'pb'):
            e['dil'] = rng.random() < .5
        out.append(e)
    return out


def check_C31(ctx):
    ctx.model('MC_Plots', '''SPECIFICATION Spec
INVARIANTS InvOne InvIn InvAll InvDflt InvNorm InvMask InvLabel
CONSTANT Vals = {0, 3}
CHECK_DEADLOCK FALSE
''', 'component selection on every small datum', coverage=False)
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    cases = []
    for c in c_ebsd.rnd(ctx, 260 if ctx.quick else 4000, wmax=8, hmax=7, user=.3):
        c.pop('twice', None)
        c.update(dic=False, min=rng.choice([1, 1, 2, 3]), pal=pal)
        cases.append(c)
    for _ in range(140 if ctx.quick else 2500):
        w, h = rng.randint(2, 9), rng.randint(2, 8)
        crop = [rng.randint(0, (w - 1) // 2), rng.randint(0, (w - 1) // 2), rng.randint(0, (h - 1) // 2), rng.randint(0, (h - 1) // 2)]
        cases.append({'w': w, 'h': h, 'dic': True, 'crop': crop if rng.random() < .6 else [0, 0, 0, 0], 'mask': rng.random() < .5, 'scale': rng.choice([0, 500, 2000])})
    for c in cases:
        c['data'] = [datum(rng, c['dic']) for _ in range(rng.randint(1, 3))] + (LOADED if c['dic'] else [])
        c['ops'] = ops(rng, c['data'], c['dic'], rng.randint(5, 10))
        c['seed'] = rng.randrange(10**6)
    recs = ctx.drive('d_plot', 'show', cases)
    ctx.validate('Trace_Plots', recs, 'plots of maps and grains', batch=1000)


def check_C32(ctx):
    def cfg(steps, gen, extra):
        return f"""SPECIFICATION Spec
{extra}
CONSTANTS MaxSteps = {steps}
 Gen = {gen}
CHECK_DEADLOCK FALSE
"""
    ctx.model('MC_MapPlot', cfg(3 if ctx.quick else 4, 'FALSE', 'VIEW View\nINVARIANTS InvOther InvHl InvPts InvClick InvNew InvBad InvClear InvBase InvMap InvTwo InvEnds InvCount'),
              'every history of a few operations on plots', coverage=False)
    n = 220 if ctx.quick else 4000
    beh = ctx.generate('MC_MapPlot', cfg(22, 'TRUE', 'INVARIANT Stop'), 'random histories of plots', simulate=n, depth=24, limit=n)
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    maps = [c for c in c_ebsd.rnd(ctx, 4 * n, wmax=9, hmax=8, user=.2) if c['w'] >= 2 and c['h'] >= 2]
    cases = []
    for b, c in zip(beh, maps):
        c.pop('twice', None)
        dic = c['w'] >= 4 and c['h'] >= 4 and rng.random() < .4
        if dic and c.get('ux') is not None:
            c.pop('ux'), c.pop('uy')
            c['dflt'] = True
        c.update(dic=dic, min=rng.choice([1, 1, 2, 3]), pal=pal, seed=rng.randrange(10**6), ops=[{'op': o['op']} for o in b])
        cases.append(c)
    recs = ctx.drive('d_plot', 'view', cases)
    ctx.validate('Trace_MapPlot', recs, 'histories of plots', batch=500)
