"""C40 (deformation grains speak for their crystals)."""
import c_ebsd

CFG = '''SPECIFICATION Spec
{inv}
CONSTANTS Depth = {d}
 Gen = {g}
CHECK_DEADLOCK FALSE
'''


def check_C40(ctx):
    ctx.model('MC_Crystals', CFG.format(inv='INVARIANTS InvCrystal InvRef InvSame InvLook InvReport\nPROPERTY KeepCrystals\nVIEW View', d=4 if ctx.quick else 6, g='FALSE'),
              'links, searches, references, calculations and looks in any order, two maps')
    rng = ctx.rng
    pal = rng.sample(c_ebsd.palette(ctx), 12)
    scripts = []
    for d in (8, 14, 22):
        scripts += ctx.generate('MC_Crystals', CFG.format(inv='INVARIANT Stop', d=d, g='TRUE'), f'{d} steps on two maps of three grains',
                                simulate=150 if ctx.quick else 2000, depth=d + 1, limit=100 if ctx.quick else 1500)
    cases = []
    for s in scripts:
        w, h = rng.randint(3, 7), rng.randint(2, 4)
        col = []
        for _ in range(2):
            a, b = sorted(rng.sample(range(1, w), 2))
            col.append([[0, a - 1], [a, b - 1], [b, w - 1]])
        p4 = rng.sample(pal, 4)
        cases.append({'w': w, 'h': h, 'col': col, 'pal': p4, 'script': s,
                      'o': [[rng.randint(1, 4) for _ in range(3)] for _ in range(2)], 'ph': [[rng.randint(1, 2) for _ in range(3)] for _ in range(2)],
                      'sh': [[rng.randint(0, 9) for _ in range(w * h)] for _ in range(3)],
                      'mk': [[int(rng.random() < t) for _ in range(w * h)] for t in (.2, .5)]})
    ctx.validate('Trace_Crystals', ctx.drive('d_crys', 'run', cases), 'histories of deformation grains and crystals')
