"""C36 (statistics and histograms), C37 (correlation values and pattern images)."""
NAN = -999999


def cfg(w, h, n, gen, ks, crops, inv):
    return f'''SPECIFICATION Spec
INVARIANTS {inv}
CONSTANTS W = {w}
 H = {h}
 MaxLen = {n}
 Gen = {'TRUE' if gen else 'FALSE'}
 Ks = {ks}
 CropIds = {crops}
CHECK_DEADLOCK FALSE
'''


CROPS = '{1, 2, 3, 4, 5, 6, 7}'


def design(ctx):
    w, h = (3, 3) if ctx.quick else (4, 3)
    ctx.model('MC_DicExtra', cfg(w, h, 1, False, '{1, 2}', CROPS, 'InvPattern InvCorr InvStats InvCounts'),
              f'every state of crop, mask, correlation values and pattern of a {w}x{h} map', coverage=False)


def mapcase(rng, w, h):
    full = lambda a, b, o: {'w': a, 'h': b, 'v': [o + rng.randint(0, 99) for _ in range(a * b)]}
    def comp(nan):
        hi = rng.choice([3, 20, 50])
        v = [rng.randint(-hi, hi) for _ in range(w * h)]
        return [NAN if nan and rng.random() < 0.2 else x for x in v]
    items = {'a': {'comps': [comp(True), comp(True)], 'idx': ['1', '2']}, 'b': {'comps': [comp(True)], 'idx': ['']},
             't': {'comps': [comp(False) for _ in range(4)], 'idx': ['11', '12', '21', '22']}, 'i': {'comps': [comp(False)], 'idx': ['']}}
    return {'w': w, 'h': h, 'b': rng.choice([1, 2, 12]), 'items': items,
            'files': [full(w, h, 0), full(w, h, 100), full(h, w, 200), full(w + 1, h, 300)],
            'pats': [full(w, h, 0), full(2 * w, 2 * h, 0), full(w, h, 50), full(2 * w, h, 0), full(2 * w, 2 * h, 40)]}


def histop(rng, m, masked_all):
    src = 'raw' if rng.random() < 0.35 else 'item'
    e = {'op': 'hist', 'src': src, 'item': rng.choice(['a', 'b', 't', 'i']), 'axes': rng.choice(['linear', 'linear', 'Linear', 'logy', 'LogY', 'logx', 'loglog'] + ['symlog'] * (rng.random() < 0.2)),
         'type': rng.choice(['scatter', 'bar', 'step'] + ['pie'] * (rng.random() < 0.15)), 'twice': rng.random() < 0.25, 'density': rng.random() < 0.5, 'split': rng.random() < 0.4, 'dflt': rng.random() < 0.25,
         'lo': 0, 'hi': 0, 'bins': 2, 'raw': []}
    e['j'] = rng.randint(1, len(m['items'][e['item']]['comps']))
    e['logx'] = e['axes'] in ('logx', 'loglog')
    if e['logx']:
        e.update(src='raw', dflt=False, density=False, bins=rng.randint(2, 5))
    if e['src'] == 'raw':
        bad = (1, 10, 100) if e['logx'] else ()
        e['raw'] = [v for v in [rng.choice([NAN, rng.randint(1, 90), rng.randint(1, 12), rng.randint(0, 99)]) for _ in range(rng.randint(4, 40))] if v not in bad]
        e['raw'] += [5, 50]
    if not e['logx']:
        k = rng.randint(1, 9)
        e['bins'] = k + 1
        e['lo'] = rng.randint(-30, 3)
        e['hi'] = e['lo'] + k * rng.randint(1, 8)
        if rng.random() < 0.3:      # half-integer edges
            e['bins'] = 2 * (e['hi'] - e['lo']) + 1
    if e['dflt']:
        e['bins'] = 3
    return e


def numeric(m, crop, mask, item, j):
    """does anything count there (an empty histogram has no density and no default range)"""
    w, h = m['w'], m['h']
    c = m['items'][item]['comps'][j - 1]
    return [c[y * w + x] for y in range(crop[2], h - crop[3]) for x in range(crop[0], w - crop[1])
            if c[y * w + x] != NAN and [x - crop[0], y - crop[2]] not in mask]


def cases(ctx, n, depth, hists):
    rng = ctx.rng
    out = []
    for w, h in [(4, 3), (3, 5), (6, 4)]:
        gen = ctx.generate('MC_DicExtra', cfg(w, h, depth, True, '{1, 2}', CROPS, 'Stop'), f'random histories {w}x{h}',
                           simulate=n * 2, depth=depth + 1, limit=n)
        for ops in gen:
            m = mapcase(rng, w, h)
            res, crop, mask = [], [0, 0, 0, 0], []
            for op in ops:
                if op['op'] == 'mask' and op['px']:
                    cw, ch = w - crop[0] - crop[1], h - crop[2] - crop[3]
                    if rng.random() < 0.85:
                        op = {'op': 'mask', 'px': [[x, y] for y in range(ch) for x in range(cw) if rng.random() < 0.35]}
                if op['op'] == 'stats':
                    known = list(m['items'])
                    nm = rng.sample(known, rng.randint(1, 4)) if 'zz' not in op['names'] else op['names']
                    op = {'op': 'stats', 'names': nm, 'ps': rng.sample([0, 1, 5, 25, 33, 50, 75, 95, 99, 100], rng.randint(1, 5))}
                if op['op'] == 'crop':
                    crop = op['d']
                if op['op'] == 'mask':
                    mask = op['px']
                res.append(op)
                if hists and rng.random() < 0.5:
                    e = histop(rng, m, False)
                    v = e['raw'] if e['src'] == 'raw' else numeric(m, crop, mask, e['item'], e['j'])
                    v = [x for x in v if x != NAN]
                    inr = v if e['logx'] or e['dflt'] else [x for x in v if e['lo'] <= x <= e['hi']]
                    if e['logx']:
                        inr = [x for x in v if 1 <= x * x <= 10 ** (e['bins'] - 1)]
                    if inr and not (e['dflt'] and min(v) == max(v)):
                        res.append(e)
            out.append({'m': m, 'ops': res})
    return out


def check_C36(ctx):
    design(ctx)
    recs = ctx.drive('d_extra', 'run', cases(ctx, 70 if ctx.quick else 700, 16, True))
    ctx.validate('Trace_DicExtra', recs, 'statistics and histograms')


def check_C37(ctx):
    design(ctx)
    recs = ctx.drive('d_extra', 'run', cases(ctx, 90 if ctx.quick else 900, 20, False))
    ctx.validate('Trace_DicExtra', recs, 'correlation values and patterns')
