"""C23 (grain inspector)."""


def check_C23(ctx):
    def cfg(steps, gen, angs, extra):
        return f"""SPECIFICATION Spec
{extra}
CONSTANTS MaxSteps = {steps}
 Gen = {gen}
 Angs = {angs}
CHECK_DEADLOCK FALSE
"""
    inv = 'VIEW View\nINVARIANTS InvOne InvFull InvMean InvRdr InvFirst InvOther InvDisk InvSaved InvTwice'
    for steps, angs in ((4, '{0, 901, 1500}'),) if ctx.quick else ((5, '{0, 901, 1500}'), (6, '{500, 1400}'), (4, '{0, 800, 1650, 2400, 17900}')):
        ctx.model('MC_Inspector', cfg(steps, 'FALSE', angs, inv), f'every history of {steps} inspector actions with angles {angs}', coverage=False)
    beh = ctx.generate('MC_Inspector', cfg(16, 'TRUE', '{0}', 'INVARIANT Stop'), 'random inspector histories', simulate=72 if ctx.quick else 1500, depth=18, limit=64 if ctx.quick else 1500)
    rng = ctx.rng
    cases = []
    for b in beh:
        ops = []
        for o in b:
            o = dict(o, how=rng.randrange(6))
            if o['op'] == 'line':
                o = dict(op='line', kind=rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]) if rng.random() < .6 else rng.randrange(5), how=o['how'])
            if o['op'] == 'rdr':
                o.pop('slope')
            ops.append(o)
        corr = rng.choice([0, 0, 0, 2.5, -3, 10])
        if corr:                                # beyond the range after the correction
            ops = [dict(o, kind=13) if o['op'] == 'line' and rng.random() < .3 else o for o in ops]
        elif rng.random() < .7:                 # measure straight lines only
            for o in ops:
                if o['op'] == 'line':
                    o['kind'] = rng.choice([0, 1, 2, 3, 4, 14, 14])
            ops = [x for o in ops for x in ([o, dict(op='rdr', k=rng.randint(0, 1), of=rng.choice([1, 2]), how=rng.choice([0, 0, 0, 4, 5]))] if o['op'] == 'line' and rng.random() < .5 else [o])]
        ops += [dict(op='save', name='a', how=0), dict(op='clear', how=0), dict(op='load', name='a', how=0), dict(op='sta', how=0)]
        if rng.random() < .5:                   # only a later grain has lines
            ops += [dict(op='goto', g=2, how=0), dict(op='line', kind=rng.randrange(5), how=0), dict(op='goto', g=1, how=0), dict(op='clear', how=0),
                    dict(op='save', name='b', how=0), dict(op='load', name='b', how=0)]
        eul = [[rng.randint(0, 359), rng.randint(1, 90), rng.randint(0, 359)] for _ in range(2)]
        if rng.random() < .2:
            eul[1] = [eul[0][0], eul[0][1], (eul[0][2] + 25) % 360]
        cases.append(dict(w=rng.choice([24, 30]), h=rng.choice([14, 20]), eul=eul, sym=rng.choice(['cubic', 'cubic', 'hexagonal']), crop=rng.choice([[0, 0], [3, 2]]),
                          corr=corr, r=rng.choice([1, 1, 2]), unit=rng.random() < .05, seed=rng.randrange(10**6), ops=ops))
    recs = ctx.drive('d_insp', 'inspect', cases)
    ctx.validate('Trace_Inspector', recs, 'inspector histories', batch=500)
