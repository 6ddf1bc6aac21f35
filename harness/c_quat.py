"""C14 (quaternion algebra) and C15 (symmetry and misorientation)."""
import c_ebsd

DEG = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 1, 0], [1, 0, 0, 1], [0, 2, -1, 0], [3, 0, 0, -2],
       [-1, 0, 0, 0], [0, -1, 0, 0], [0, 0, -1, 0], [-2, 0, 0, 3], [0, -1, 2, 0], [1, 1, 0, 0], [1, 0, 1, 0], [0, 1, 0, 1],
       [1, 1, 1, 1], [-1, 1, 1, -1], [0, 0, 1, 1], [0, 0, 2, -1], [0, 3, 0, 1], [1, 0, 0, -1]]


def model(ctx, box, inv, half='FALSE'):
    ctx.model('MC_Quat', f'''SPECIFICATION Spec
INVARIANTS {inv}
CONSTANTS Lo = {box[0]}
 Hi = {box[1]}
 Half = {half}
CHECK_DEADLOCK FALSE
''', f'laws on every pair of quaternions from (-{box[0]}..{box[1]})^4')


def q(rng, pal, b=9):
    r = rng.random()
    if r < 0.25:
        return list(rng.choice(DEG))
    if r < 0.4:
        return list(rng.choice(pal)) if b >= 17 else list(rng.choice([x for x in pal if max(map(abs, x)) <= b]))
    while True:
        x = [rng.choice([0, rng.randint(-b, b)]) if rng.random() < 0.3 else rng.randint(-b, b) for _ in range(4)]
        if any(x):
            return x


def check_C14(ctx):
    model(ctx, (1, 1) if ctx.quick else (2, 1), 'InvNorm InvConj InvUndo InvRot InvSandwich InvCompose InvSign')
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    n = 400 if ctx.quick else 4000
    cases = []
    add = lambda **k: cases.append(k)
    G = lambda b=9: q(rng, pal, b)
    vec = lambda: [rng.randint(-5, 5) for _ in range(3)]
    eul = lambda: [rng.choice([0, 90, 180, 270, 360, rng.randint(0, 360), rng.randint(0, 360)]),
                   rng.choice([0, 180, 90, rng.randint(0, 180), rng.randint(0, 180), rng.randint(0, 180)]),
                   rng.choice([0, 90, 180, 360, rng.randint(0, 360), rng.randint(0, 360)])]
    for d in DEG:
        add(op='toeuler', p=d, south=True)
        add(op='toeuler', p=d, south=False)
        add(op='rot', p=d)
    for _ in range(n):
        add(op='new', p=G(), south=rng.random() < 0.5, how=rng.choice(['args', 'array', 'list', 'tuple']))
        for s in (True, False):
            add(op='mul', p=G(), q=G(), south=s)
        add(op='conj', p=G())
        add(op='rot', p=G())
        for o in ('vec', 'back'):
            add(op=o, p=G(), v=vec(), how=rng.choice(['list', 'tuple', 'array']))
        add(op='dot', p=G(), q=G())
        add(op='norm', p=G())
        add(op=rng.choice(['add', 'iadd']), p=G(), q=G())
        p = G()
        while not any(p[1:]):
            p = G()
        add(op='axis', p=p, turns=rng.choice([0, 0, 1, -1]), len=rng.choice([1, 2.5, 0.01, 100]), lst=rng.random() < 0.5)
        add(op='coordaxis', a=rng.choice([2, 3, 4]), t=rng.randint(-359, 720), len=rng.choice([1, 3, 0.5]))
        add(op='euler', e=eul())
        add(op='toeuler', p=G(), south=rng.random() < 0.5)
        add(op='eulerstable', e=[rng.randint(0, 359), rng.randint(1, 179), rng.randint(0, 359)])
    for _ in range(n // 4):
        sh = rng.choice([[1], [3], [0], [2, 3], [3, 2], [1, 4], [2, 2, 2]])
        k = 1
        for s in sh:
            k *= s
        if k:
            add(op='many', shape=sh, e=[eul() for _ in range(k)])
            add(op='extract', inshape=sh, ps=[G() for _ in range(k)], lst=rng.random() < 0.5)
        add(op='mulmany', ps=[G() for _ in range(rng.randint(1, 5))], q=G())
        a = G()
        add(op='eq', p=a, q=rng.choice([a, list(a), G(), [a[0], a[1], a[2], a[3] + 1], [-x for x in a]]))
        add(op='unchanged', p=G(), q=G())
    for k in ('three', 'arr3', 'arr5', 'none', 'mulnum', 'dotnum', 'addnum', 'vec2', 'vecnum', 'misnum', 'axisnum'):
        add(op='refuse', kind=k)
    recs = ctx.drive('d_quat', 'run', cases)
    ctx.validate('Trace_Quat', recs, 'quaternion operations', stateful=False, batch=20000)


def check_C15(ctx):
    model(ctx, (1, 1) if ctx.quick else (2, 1), 'InvDis InvHex', half='TRUE')
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    n = 700 if ctx.quick else 8000
    cases = []
    add = lambda **k: cases.append(k)
    G = lambda: q(rng, pal, 9)
    for s in ('cubic', 'hexagonal'):
        for src in (True, False):
            add(op='group', sym=s, src=src)
    add(op='unknown')
    # a, b integer quaternions; b often a true equivalent of a
    cub = [[1, 0, 0, 0], [1, 1, 0, 0], [0, 1, 0, 0], [1, 1, 1, 1], [0, 1, 1, 0], [1, -1, 1, 1], [1, 0, 0, -1], [0, 0, 1, 0], [1, 0, 1, 0]]

    def mul(p, r):
        return [p[0]*r[0]-p[1]*r[1]-p[2]*r[2]-p[3]*r[3], p[0]*r[1]+p[1]*r[0]+p[2]*r[3]-p[3]*r[2],
                p[0]*r[2]-p[1]*r[3]+p[2]*r[0]+p[3]*r[1], p[0]*r[3]+p[1]*r[2]-p[2]*r[1]+p[3]*r[0]]
    for _ in range(n):
        sym = rng.choice(['cubic', 'hexagonal'])
        a, b = G(), G()
        r = rng.random()
        if r < 0.25:
            a = q(rng, pal, 4)
            b = mul(rng.choice(cub), a)
            if r < 0.08:
                a = [-x for x in a]
        elif r < 0.35:
            b = mul(rng.choice(cub), a)
            b[rng.randrange(4)] += rng.choice([1, -1])
        if max(map(abs, a)) > 9 or max(map(abs, b)) > 9 or not any(b):
            b = list(a)
        add(op='mis', p=a, q=b, sym=sym)
        add(op='mis', p=b, q=a, sym=sym)
        add(op='misz', a=rng.randint(0, 359), b=rng.randint(0, 359), sym=sym, x=rng.uniform(0, 6))
        add(op='same', n=rng.choice([1, 4, 12]), seed=rng.randrange(10**6), sym=sym)
        add(op='calcmis', ps=[G() for _ in range(rng.randint(1, 4))] + [a], q=b, sym=sym)
        d = mul(b, [a[0], -a[1], -a[2], -a[3]])
        if any(d[1:]):
            add(op='misaxis', p=a, q=b)
    for _ in range(n // 4):
        add(op='eqvs', ps=[G() for _ in range(rng.randint(1, 3))], sym=rng.choice(['cubic', 'hexagonal']))
    recs = ctx.drive('d_quat', 'run', cases)
    ctx.validate('Trace_Quat', recs, 'symmetry and misorientation', stateful=False, batch=20000)
