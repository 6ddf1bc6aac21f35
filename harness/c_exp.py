"""C12 (picking points), C13 (experiment bookkeeping)."""


def check_C12(ctx):
    def cfg(spec, w, h, steps, gen, extra):
        return f"""SPECIFICATION {spec}
{extra}
CONSTANTS W = {w}
 H = {h}
 MaxSteps = {steps}
 Gen = {gen}
CHECK_DEADLOCK FALSE
"""
    ctx.model('MC_Picking', cfg('Spec', 1, 1, 4 if ctx.quick else 5, 'FALSE', 'INVARIANTS InvRound InvShape InvShown\nPROPERTY Append1\nCONSTRAINT Bound'), 'every history of picking on two frames', coverage=False)
    beh = ctx.generate('MC_Picking', cfg('GenSpec', 12, 9, 24, 'TRUE', 'INVARIANT Stop'), 'random picking histories', simulate=400 if ctx.quick else 5000, depth=26, limit=450 if ctx.quick else 6000)
    cases = [{'w': 14, 'h': 11, 'ops': b, 'alt': ctx.rng.randint(0, 5)} for b in beh]
    recs = ctx.drive('d_exp', 'picking', cases)
    ctx.validate('Trace_Picking', recs, 'picking histories', batch=3000)


def check_C13(ctx):
    def cfg(steps, gen, extra):
        return f"""SPECIFICATION Spec
{extra}
CONSTANTS MaxSteps = {steps}
 Gen = {gen}
CHECK_DEADLOCK FALSE
"""
    ctx.model('MC_Book', cfg(3 if ctx.quick else 4, 'FALSE', 'INVARIANTS InvIncs InvMaps InvNames InvLast InvIter InvFrames'), 'every history of adding increments and maps', coverage=False)
    beh = ctx.generate('MC_Book', cfg(14, 'TRUE', 'INVARIANT Stop'), 'random bookkeeping histories', simulate=400 if ctx.quick else 4000, depth=16,
                       limit=1200 if ctx.quick else 12000)
    recs = ctx.drive('d_exp', 'book', [{'ops': b} for b in beh])
    ctx.validate('Trace_Book', recs, 'bookkeeping histories', batch=3000)
