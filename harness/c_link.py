"""C24 (linking EBSD maps)."""
from c_ebsd import blobs


def check_C24(ctx):
    def cfg(steps, gen, extra):
        return f"""SPECIFICATION Spec
{extra}
CONSTANTS MaxSteps = {steps}
 Gen = {gen}
CHECK_DEADLOCK FALSE
"""
    ctx.model('MC_Linker', cfg(3 if ctx.quick else 4, 'FALSE', 'VIEW View\nINVARIANTS InvOnce InvGrains InvLink InvKeep InvMaster InvFill InvOnly InvSame'),
              'every history of clicking, linking and taking over orientations', coverage=False)
    beh = ctx.generate('MC_Linker', cfg(24, 'TRUE', 'INVARIANT Stop'), 'random linking histories', simulate=160 if ctx.quick else 2500, depth=26, limit=160 if ctx.quick else 3000)
    rng = ctx.rng
    cases = []
    for b in beh:
        k = rng.choice([2, 2, 3, 3, 1])
        maps = []
        st = rng.choice([8, 4, 16])
        same = rng.random() < .3
        for i in range(k):
            w, h = rng.randint(3, 14), rng.randint(3, 11)
            if same and i:
                w, h = maps[0]['w'], maps[0]['h']
            ori = blobs(rng, w, h, [0, 15, 30, 45, 60, 75], rng.randint(2, 7))
            maps.append(dict(w=w, h=h, step=st if same or rng.random() < .4 else rng.choice([4, 8, 16, 12, 2]), ori=ori, min=rng.choice([1, 2, 4]),
                             ph=[0 if rng.random() < rng.choice([0, .1]) else 1 for _ in range(w * h)]))
        ops = []
        for o in b:
            o = {x: y for x, y in o.items() if x != 'k'}
            if o.get('m', 1) > k:
                o['m'] = rng.randint(1, k)
            if o['op'] == 'reset' and rng.random() < .7:
                o = {'op': rng.choice(['master', 'misori'])}
            ops.append(o)
        ops += [dict(op='click', m=i + 1, z=[0, 0], inside=True) for i in range(k)] + [{'op': 'link'}, dict(op='ref', m=1, g=1, v=1), {'op': 'master'},
                                                                                  dict(op='turn', g=1, v=1), {'op': 'misori'}]
        cases.append(dict(maps=maps, ops=ops, seed=rng.randrange(10**6), btn=rng.random() < .6, close=rng.random() < .5))
    recs = []
    for r in ctx.drive('d_link', 'link', cases):
        recs += r['many'] if 'many' in r else [r]
    ctx.validate('Trace_Linker', recs, 'linking histories', batch=500)
