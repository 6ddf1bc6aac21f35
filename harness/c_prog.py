"""C29 (progress reporting)."""


def check_C29(ctx):
    def cfg(steps, gen, extra):
        return f"""SPECIFICATION Spec
{extra}
CONSTANTS MaxSteps = {steps}
 Gen = {gen}
CHECK_DEADLOCK FALSE
"""
    ctx.model('MC_Progress', cfg(7 if ctx.quick else 9, 'FALSE', 'INVARIANTS InvBottom InvStart InvFinal InvRise InvReach InvMsg InvWait'),
              'every run of up to two nested computations', coverage=not ctx.quick or True)
    n = 1500 if ctx.quick else 20000
    beh = ctx.generate('MC_Progress', cfg(40, 'TRUE', 'INVARIANT Stop'), 'random runs of nested computations', simulate=n, depth=42, limit=n)
    rng = ctx.rng
    cases = [dict(ops=b, seed=rng.randrange(10**6)) for b in beh]
    # one computation reporting a rising fraction, as the library's own do
    for _ in range(200 if ctx.quick else 2000):
        k, ops = 0, [dict(op='call', m=rng.choice(['a', 'b']), v=1, guard=True), dict(op='enter', v=1)]
        st = rng.choice([1, 3, 7, 11, 15, 60])
        while k < 1024 and len(ops) < 150:
            ops.append(dict(op='report', v=k) if rng.random() < .95 else dict(op='say', m=rng.choice('xy')))
            k += rng.randint(0, 2 * st)
        ops += [dict(op=rng.choice(['return', 'return', 'raise']), v=k)]
        cases.append(dict(ops=ops, seed=rng.randrange(10**6)))
    recs = ctx.drive('d_prog', 'run', cases)
    ctx.validate('Trace_Progress', recs, 'runs of reported computations')
