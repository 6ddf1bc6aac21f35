"""C38 (unit cells, slip traces and slip bands as drawn)."""
import c_ebsd
import c_quat


def model(ctx, part, idx, angs, n, inv):
    ctx.model('MC_Draw', f'''SPECIFICATION Spec
INVARIANTS {inv}
CONSTANTS Part = "{part}"
 Idx = {idx}
 As = {angs}
 MaxB = {n}
CHECK_DEADLOCK FALSE
''', f'{part} laws', coverage=False)


def apart(a, b):
    d = abs(a - b) % 180
    return min(d, 180 - d)


def check_C38(ctx):
    model(ctx, 'cell', '{1, 2, 7, 14, 21, 25}' if ctx.quick else '1..30', '{10}', 1, 'InvCell InvOI')
    model(ctx, 'bands', '{1}', '{10, 20, 45, 70, 130}' if ctx.quick else '{10, 20, 30, 45, 70, 100, 130}', 3, 'InvBands')
    rng = ctx.rng
    pal = c_ebsd.palette(ctx)
    G = lambda: c_quat.q(rng, pal, 6)
    C = ['red', 'blue', 'lime', 'black', 'yellow', 'c', '0.5', 'tab:orange']
    cases = []
    for _ in range(220 if ctx.quick else 2500):
        oi = rng.random() < 0.7
        cases.append({'op': 'cell', 'sym': rng.choice(['cubic', 'hexagonal', 'hexagonal']), 'q': G(), 'oi': oi, 'dflt': rng.random() < 0.6,
                      'mode': rng.choice(['quat', 'quat', 'grain', 'default'])})
    for _ in range(160 if ctx.quick else 1500):
        w, h = rng.randint(3, 9), rng.randint(1, 8)
        k = rng.randint(1, 5)
        cases.append({'op': 'traces', 'sym': 'cubic', 'w': w, 'h': h, 'x0': rng.randint(1, w - 1), 'q': [12, 5, 0, 1], 'listed': rng.random() < 0.5,
                      'angles': [rng.choice([0, 90, 180, 270, rng.randint(0, 359), rng.randint(-180, 180)]) for _ in range(k)], 'top': rng.random() < 0.4,
                      'names': [rng.choice(C) for _ in range(rng.randint(1, k + 1))], 'pos': [rng.randint(0, 9), rng.randint(0, 9)] if rng.random() < 0.4 else []})
    for _ in range(120 if ctx.quick else 1200):
        w, h = rng.randint(3, 7), rng.randint(1, 6)
        cases.append({'op': 'own', 'sym': rng.choice(['cubic', 'hexagonal']), 'w': w, 'h': h, 'x0': rng.randint(1, w - 1), 'q': rng.choice([[10, 4, 1, 0], [7, 3, -2, 2], [5, 1, 4, 1], [8, 0, 5, 1]]),
                      'flag': rng.random() < 0.5, 'names': [rng.choice(C) for _ in range(rng.randint(1, 6))] if rng.random() < 0.5 else []})
    for _ in range(90 if ctx.quick else 900):
        a = rng.randint(8, 172)
        bands, thres, dist = [[a, 100]], 30, 30
        r = rng.random()
        far = [b for b in range(8, 173) if apart(a, b) >= 48]
        if r < 0.25:
            b = rng.choice(far)
            bands.append([b, rng.choice([100, 85])])
            if rng.random() < 0.35:
                c = [x for x in far if apart(b, x) >= 48]
                if c:
                    bands.append([rng.choice(c), 100])
        elif r < 0.45:
            b = a + 18 if a < 150 else a - 18
            bands.append([b, 100])
            dist = rng.choice([30, 8])
        elif r < 0.6:
            bands.append([rng.choice(far), rng.choice([85, 40])])
            thres = rng.choice([30, 85])
        rng.shuffle(bands)
        cases.append({'op': 'bands', 'k': 61, 'bands': bands, 'thres': thres, 'dist': dist, 'neg': rng.random() < 0.2, 'nan': rng.random() < 0.4,
                      'disc': len(bands) > 1 or rng.random() < 0.7, 'drawn': rng.random() < 0.5, 'flag': rng.random() < 0.5})
    recs = ctx.drive('d_draw', 'run', cases)
    ctx.validate('Trace_Draw', recs, 'drawn crystals', stateful=False, batch=8000)
