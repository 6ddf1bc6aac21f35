"""C01-C03: data stores."""
SHAPES = ({'grps': ['m', 'g', 'd'], 'crops': ['T', 'F', 'T']},
          {'grps': ['m', 'g', 'd', 'e'], 'crops': ['T', 'F', 'T', 'F']})


def model(ctx):
    inv = {'C01': 'InvLazy', 'C02': 'InvNames', 'C03': 'InvLinks'}[ctx.pid]
    for scen, steps in ((1, 4), (2, 5), (3, 2), (4, 2)) if ctx.quick else ((1, 6), (2, 8), (3, 5), (4, 4)):
        ctx.model('MC_Datastore', f'''SPECIFICATION SpecNV
INVARIANTS InvLazy InvNames InvLinks
CONSTRAINT RunBound
CONSTANTS MaxSteps = {steps}
 Scen = {scen}
 Rich = FALSE
 GenTrace = FALSE
CHECK_DEADLOCK FALSE
''', f'store design, scenario {scen}, {steps} calls; {inv}', coverage=scen == 3)


def behaviours(ctx):
    out = []
    for scen, steps in ((1, 2), (2, 2), (3, 2), (4, 2)):
        n0 = len(out)
        out += ctx.generate('MC_Datastore', f'''SPECIFICATION Spec
INVARIANT Stop
CONSTANTS MaxSteps = {1 if ctx.quick else steps}
 Scen = {scen}
 Rich = TRUE
 GenTrace = TRUE
CHECK_DEADLOCK FALSE
''', f'all call sequences, scenario {scen}', limit=(150 if scen == 4 else 900) if ctx.quick else 40000)
        out += ctx.generate('MC_Datastore', f'''SPECIFICATION Spec
INVARIANT Stop
CONSTANTS MaxSteps = 14
 Scen = {scen}
 Rich = TRUE
 GenTrace = TRUE
CHECK_DEADLOCK FALSE
''', f'random call sequences, scenario {scen}', simulate=(60 if scen == 4 else 150) if ctx.quick else 6000, depth=40)
        out[n0:] = [(SHAPES[scen == 4], b) for b in out[n0:]]
    return out


def observe(nodes, ops):
    """After every call look at everything the property talks about."""
    res = []
    for op in ops:
        res.append(op)
        if op['op'] not in ('addgen', 'link'):
            res.append({'op': 'keys', 'n': op['n']})
    for n in nodes:
        res.append({'op': 'keys', 'n': n})
        res.append({'op': 'len', 'n': n})
        for k in ('a', 'b', 'c', 'd', 'p', 'q', 'pt', 'zz'):
            res.append({'op': 'has', 'n': n, 'k': k})
            for a in ('type', 'unit', 'save'):
                res.append({'op': 'meta', 'n': n, 'k': k, 'a': a})
    for n in nodes:
        for k in ('a', 'b', 'c', 'd', 'p', 'q', 'pt', 'zz'):
            res += [{'op': 'get', 'n': n, 'k': k}, {'op': 'get', 'n': n, 'k': k}]
        res.append({'op': 'keys', 'n': n})
    return res


def check(ctx):
    model(ctx)
    beh = behaviours(ctx)
    cases = [{**s, 'ops': observe(range(1, len(s['grps']) + 1), b)} for s, b in beh]
    recs = ctx.drive('d_datastore', 'run_case', cases)
    ctx.validate('Trace_Datastore', recs, 'store call sequences', batch=3000)


check_C01 = check_C02 = check_C03 = check
