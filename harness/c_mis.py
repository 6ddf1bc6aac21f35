"""C39 (views of the spread within grains and of the misorientation across boundaries)."""
import c_ebsd
import c_ori

CFG = '''SPECIFICATION Spec
{inv}
CONSTANTS N = {n}
 Depth = {d}
 Gen = {g}
CHECK_DEADLOCK FALSE
'''


def check_C39(ctx):
    ctx.model('MC_MisView', CFG.format(inv='INVARIANTS InvRef InvBoth InvFresh InvShown InvZero', n=2, d=3 if ctx.quick else 4, g='FALSE'),
              'references, calculations and views in any order, two grains')
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    scripts = []
    for d in (3, 6, 9):
        scripts += ctx.generate('MC_MisView', CFG.format(inv='INVARIANT Stop', n=3, d=d, g='TRUE'), f'{d} steps on three grains',
                                simulate=200 if ctx.quick else 2000, depth=d + 1, limit=120 if ctx.quick else 1200)
    cases = []
    for i, s in enumerate(scripts):
        w, h = rng.randint(2, 6), rng.randint(1, 5)
        k = rng.randint(1, 3)
        clusters = [c_ori.cluster(rng, rng.randint(1, 5)) for _ in range(k)]
        cols = sorted(rng.sample(range(1, w), min(w - 1, k - 1))) + [w]
        cl = [next(j for j, b in enumerate(cols) if x < b) for x in range(w)]
        flat, off = [], []
        for c in clusters:
            off.append(len(flat))
            flat += c
        ori = [off[cl[x]] + rng.randrange(len(clusters[cl[x]])) + 1 for y in range(h) for x in range(w)]
        ux = [[b - 1, y] for b in cols[:-1] for y in range(h)]
        refs = [rng.choice(rng.choice(clusters)) if rng.random() < 0.6 else rng.choice(pal) for _ in range(2)]
        cases.append({'w': w, 'h': h, 'sym': rng.choice(['cubic', 'hexagonal']), 'ph': [1] * (w * h), 'ori': ori, 'mode': 'q', 'pal': flat,
                      'ux': ux, 'uy': [], 'min': rng.choice([1, 1, 1, h + 1]), 'script': s, 'refs': refs, 'flag': rng.random() < 0.5})
    recs = []
    for r in ctx.drive('d_mis', 'run', cases):
        recs += r['many'] if 'many' in r else [r]
    ctx.validate('Trace_MisView', recs, 'misorientation views')
