"""C16 (crystal indices), C17 (slip systems), C18 (Schmid factors, slip traces, RDR)."""
import os
from pathlib import Path
import c_ebsd, c_quat
from vlib import REPO

HOWS = ['tuple', 'list', 'array']
SYMS = ['cubic', 'hexagonal']


def model(ctx, b, n, inv):
    ctx.model('MC_Xtal', f'''SPECIFICATION Spec
INVARIANTS {inv}
CONSTANTS B = {b}
 N = {n}
CHECK_DEADLOCK FALSE
''', f'all index pairs up to {b}' if n == 0 else f'all lists of up to {n} of ten systems', coverage=False)


def v3(rng, b):
    while True:
        v = [rng.randint(-b, b) for _ in range(3)]
        if any(v):
            return v


def four(p):
    return [p[0], p[1], -p[0] - p[1], p[2]]


def check_C16(ctx):
    model(ctx, 1, 0, 'InvRound InvThird InvLies InvPos InvReduce InvImages InvDual')
    model(ctx, 2 if ctx.quick else 3, 0, 'InvRound InvThird InvLies InvPos InvReduce InvDual')
    if not ctx.quick:
        model(ctx, 2, 0, 'InvImages')
    rng = ctx.rng
    cases = []
    add = lambda **k: cases.append(dict(how=rng.choice(HOWS), **k))
    B = 4 if ctx.quick else 7
    R = range(-B, B + 1)
    for h in R:
        for k in R:
            for l in R:
                v = [h, k, l]
                if not any(v) or (ctx.quick and rng.random() < 0.3):
                    continue
                for o in ('p_m_mb', 'd_m_mb'):
                    add(op=o, v=v)
                    if rng.random() < .2:
                        add(op=o, v=[x * rng.choice([45, 99, 270]) for x in v])
                for o in ('p_mb_m', 'd_mb_m'):
                    add(op=o, v=four(v))
                w = rng.choice([v, four(v)])
                add(op='pos', v=w)
                m = rng.choice([1, 1, 2, 3, 6, 60, 127, 500])
                add(op='reduce', v=[m * x for x in w])
                add(op='reduce', v=[x + rng.choice([0, 130, -300]) for x in w])
                br = rng.choice(['', '()', '[]', '{}', '<>'])
                add(op='str', v=[rng.choice([1, 1, 1, 13]) * x for x in w], left=br[:1], right=br[1:], tex=rng.random() < .5)
                if rng.random() < .5:
                    far = rng.random() < .5
                    off = [rng.uniform(-9e-4, 9e-4) for _ in w]
                    if far:
                        off[rng.randrange(len(w))] = rng.choice([-1, 1]) * rng.uniform(1.1e-3, .499)
                    add(op='cast', v=w, off=off, far=far)
                if rng.random() < (.4 if ctx.quick else .7):
                    sym = rng.choice(SYMS)
                    it = 'm' if sym == 'cubic' else rng.choice(['m', 'mb'])
                    add(op='equiv', sym=sym, it=it, v=four(v) if it == 'mb' else v, plane=rng.random() < .5,
                        ca=rng.choice([1000, 1587, 1633, 1856, rng.randint(700, 2500)]), conv=rng.choice(['hkl', 'tsl']))
                it = rng.choice(['m', 'mb'])
                add(op='orth', it=it, v=four(v) if it == 'mb' else v, plane=rng.random() < .5, ca=rng.choice([1000, 1587, 1633, rng.randint(700, 2500)]),
                    conv=rng.choice(['hkl', 'tsl']))
    for _ in range(300 if ctx.quick else 3000):
        r = lambda: rng.randint(400, 2400)
        conv = rng.choice(['hkl', 'tsl'])
        a, b, c = r(), r(), r()
        al, be, ga = 90, 90, rng.choice([90, 120, rng.randint(60, 120)])
        if conv == 'hkl' or rng.random() < .3:
            b = a
        else:
            al, be = rng.randint(70, 110), rng.randint(70, 110)
        arg = rng.choice([None, conv, conv.upper()])
        add(op='lattice', a=a, b=b, c=c, al=al, be=be, ga=ga, arg=arg,
            conv=conv if arg is None or arg.lower() == conv else conv)
    for k in ('neither', 'both', 'type', 'mdir4', 'mplane4', 'mbdir3', 'mbplane3', 'conv', 'str', 'orthneither', 'orthboth', 'orthlen',
              'orthtype', 'eqneither', 'eqlen'):
        add(op='refuse', kind=k)
    recs = ctx.drive('d_xtal', 'run', cases)
    ctx.validate('Trace_Xtal', recs, 'index operations', stateful=False, batch=20000)


CUB = [[[1, 1, 1], [0, 1, -1]], [[1, 1, 0], [1, -1, 1]], [[1, 1, 2], [1, 1, -1]], [[1, 2, 3], [1, 1, -1]], [[1, 0, 0], [0, 1, 1]], [[1, 1, 0], [0, 0, 1]]]
HEX = [[[0, 0, 0, 1], [1, 1, -2, 0]], [[1, 0, -1, 0], [-1, 2, -1, 0]], [[1, 0, -1, 1], [-1, 2, -1, 0]], [[1, 0, -1, 1], [1, 1, -2, -3]],
       [[1, 1, -2, 2], [1, 1, -2, -3]], [[1, 0, -1, 2], [1, 0, -1, -1]]]


def img(rng, sym, s):
    """some image of a system, up to sign (for picking inputs only)"""
    p = [list(x) for x in s]
    if sym == 'cubic':
        perm = rng.sample(range(3), 3)
        sg = [rng.choice([1, -1]) for _ in range(3)]
        # a proper rotation up to an overall inversion, which signs absorb
        q = [[sg[i] * x[perm[i]] for i in range(3)] for x in p]
    else:
        perm = rng.sample(range(3), 3)
        c = rng.choice([1, -1])
        q = [[x[perm[0]], x[perm[1]], x[perm[2]], c * x[3]] for x in p]
    return [[rng.choice([1, -1]) * 1 * y for y in x] if False else x for x in q]


def sign(rng, s):
    out = []
    for x in s:
        k = rng.choice([1, -1])
        out.append([k * y for y in x])
    return out


def gcd(*a):
    import math
    return math.gcd(*[abs(x) for x in a])


def prim(rng, sym, b=3):
    while True:
        if sym == 'cubic':
            p, d = v3(rng, b), v3(rng, b)
        else:
            p, d = four(v3(rng, b)), four(v3(rng, b))
        if gcd(*p) == 1 and gcd(*d) == 1:
            return [p, d]


def check_C17(ctx):
    model(ctx, 1, 3 if ctx.quick else 5, 'InvGroup')
    rng = ctx.rng
    cases = []
    add = lambda **k: cases.append(dict(how='array', **k))
    for f in sorted((Path(REPO) / 'defdap' / 'slip_systems').glob('*.txt')):
        w = len(f.read_text().splitlines()[2].split())
        add(op='file', name=f.name, sym='hexagonal' if w == 8 else 'cubic')
    n = 150 if ctx.quick else 1500
    for _ in range(n):
        sym = rng.choice(SYMS)
        base = rng.sample(CUB if sym == 'cubic' else HEX, rng.randint(1, 2)) + [prim(rng, sym) for _ in range(rng.randint(0, 2))]
        rows = [sign(rng, img(rng, sym, rng.choice(base))) for _ in range(rng.randint(1, 8))]
        if rng.random() < .3:
            rows.append(sign(rng, rng.choice(rows)))
        wrong = rng.random() < .2
        if wrong:
            how = rng.choice(['more', 'less', 'other'])
            if how == 'more':
                rows = [[a, b + [1]] for a, b in rows]
            elif how == 'less':
                rows = [[a, b[:-1]] for a, b in rows]
            else:
                rows = [prim(rng, 'hexagonal' if sym == 'cubic' else 'cubic') for _ in rows]
        add(op='load', sym=sym, rows=rows, wrong=wrong, colin=[rng.choice(['red', 'blue', 'green']) for _ in range(rng.randint(1, 4))])
    for _ in range(2 * n):
        sym = rng.choice(SYMS)
        add(op='family', sym=sym, s=rng.choice([rng.choice(CUB if sym == 'cubic' else HEX), prim(rng, sym), sign(rng, img(rng, sym, rng.choice(CUB if sym == 'cubic' else HEX)))]),
            ca=rng.choice([1000, 1587, 1633, rng.randint(900, 2000)]), conv=rng.choice(['hkl', 'tsl']))
        a = prim(rng, sym, 2)
        b = rng.choice([sign(rng, a), sign(rng, a), [a[0], prim(rng, sym, 1)[1]], sign(rng, img(rng, sym, a)), [a[1], a[0]], prim(rng, sym, 1)])
        add(op='equal', sym=sym, a=a, b=b)
        add(op='vectors', sym=sym, s=prim(rng, sym), ca=rng.choice([1000, 1587, 1633, rng.randint(900, 2000)]), conv=rng.choice(['hkl', 'tsl']))
    for laue in (9, 11, 1, 10, 0):
        for sg in (225, 229, 194, 221, 0):
            add(op='phase', laue=laue, sg=sg, a=rng.randint(250, 350), c=rng.randint(400, 500))
    for k in ('noca', 'groupby', 'nofile'):
        add(op='refuse', kind=k)
    recs = ctx.drive('d_xtal', 'run', cases)
    ctx.validate('Trace_Xtal', recs, 'slip systems', stateful=False, batch=20000)


def check_C18(ctx):
    model(ctx, 1 if ctx.quick else 2, 0, 'InvDual InvLies')
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    cases = []
    n = 260 if ctx.quick else 3000
    for i in range(n):
        gr = []
        for k in range(rng.choice([1, 2])):
            gr.append(dict(sym=rng.choice(SYMS), sg=rng.choice([225, 229]), ca=rng.choice([1587, 1633, rng.randint(1000, 2000)]),
                           q=list(rng.choice(c_quat.DEG) if (i + k) % 3 == 0 else c_quat.q(rng, pal, 9)), set=rng.choice(['', '', 'south', 'north'])))
        sym = gr[0]['sym']
        own = []
        if rng.random() < .3:
            own = [[prim(rng, sym) for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(1, 3))]
            for g in own:
                for s in g:
                    s[0] = g[0][0]
        cases.append(dict(op='schmid', gr=gr, load=rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], v3(rng, 4)]), own=own,
                          mapwise=rng.random() < .5, again=rng.random() < .3, explicit=rng.random() < .5,
                          conv=rng.choice(['hkl', 'tsl']), how=rng.choice(['list', 'array'])))
    recs = [r for x in ctx.drive('d_xtal', 'run', cases) for r in x.get('many', [x])]
    ctx.validate('Trace_Xtal', recs, 'Schmid factors, traces, displacement ratios', stateful=False, batch=20000)
