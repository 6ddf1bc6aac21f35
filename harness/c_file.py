"""C19 (text round trip), C20 (binary records), C30 (EDAX text)."""
import struct

NAMES = ['Ni', 'Ni-superalloy', 'Titanium alpha', 'Iron (bcc)', 'Zr_2', 'Phase X']


def phases(rng, n, odd=False):
    out = []
    for i in range(n):
        hexa = rng.random() < .4
        a = rng.randint(2500, 5000)
        if hexa:
            p = dict(laue=9, sg=rng.choice([194, 0, 186]), lp=[a, a, rng.randint(4000, 8000), 90000, 90000, 120000])
        else:
            p = dict(laue=11, sg=rng.choice([225, 229, 225, 221, 0]), lp=[a, a, a, 90000, 90000, 90000])
        if odd and rng.random() < .5:
            p['laue'] = rng.choice([1, 7, 10, 0])
        p['name'] = rng.choice(NAMES) + (str(i) if rng.random() < .3 else '')
        out.append(p)
    return out


def shape(rng):
    return rng.choice([(1, 1), (1, 4), (4, 1), (2, 2), (3, 2), (2, 3), (4, 3), (5, 4), (3, 5)])


def layout(ctx):
    cfg = lambda ex, n: f'''SPECIFICATION Spec
INVARIANTS InvLen InvDecode InvShort InvCols
CONSTANTS Extra = {ex}
 N = {n}
CHECK_DEADLOCK FALSE
'''
    for ex, n in (('{99}', 2), ('{10}', 3)) if ctx.quick else (('{10, 99}', 3), ('{101, 99}', 2), ('{12, 101}', 2)):
        ctx.model('MC_EbsdLayout', cfg(ex, n), f'every order of the needed fields and {ex}, {n} pixels', coverage=False)


CTF = ['Phase', 'X', 'Y', 'Bands', 'Error', 'Euler1', 'Euler2', 'Euler3', 'MAD', 'BC', 'BS']


def ctf_case(rng):
    w, h = shape(rng)
    kind = rng.random()
    cols = list(CTF)
    if kind < .5:
        rng.shuffle(cols)
    if rng.random() < .4:
        for c in rng.sample(['X', 'Y', 'Bands', 'Error'], rng.randint(1, 4)):
            cols.remove(c)
    bad = rng.random()
    if bad < .05:
        cols.insert(rng.randint(0, len(cols)), rng.choice(['EDX', 'Grain', 'X2']))
    n = w * h + (rng.choice([-1, 1]) if .05 < bad < .1 and w * h > 1 else 0)
    ps = phases(rng, rng.randint(1, 3), odd=.1 < bad < .14)
    rows = []
    step = rng.choice([1200, 5000, 10000, 625, 12345, 20000])
    for k in range(n):
        v = {'Phase': rng.randint(0, len(ps)), 'X': k % w * step, 'Y': k // w * step, 'Bands': rng.randint(0, 12), 'Error': rng.randint(0, 6),
             'Euler1': rng.choice([rng.randint(0, 359999), 0, 359999]), 'Euler2': rng.randint(0, 179999), 'Euler3': rng.choice([rng.randint(0, 359999), 0]),
             'MAD': rng.randint(0, 20000), 'BC': rng.choice([rng.randint(0, 255), 255, 0]), 'BS': rng.randint(0, 255)}
        rows.append([v.get(c, 7) for c in cols])
    return dict(op='ctf', w=w, h=h, step=step, acq=rng.choice([[0, 0, 0], [0, 0, 0], [rng.randint(0, 359), rng.randint(0, 179), rng.randint(0, 359)], [90, 20, 10]]),
                phases=ps, cols=cols, rows=rows, alt=rng.randrange(32), how=rng.randrange(3))


def check_C19(ctx):
    layout(ctx)

    def cfg(steps, gen, npx, extra):
        return f'''SPECIFICATION Spec
{extra}
CONSTANTS MaxSteps = {steps}
 Gen = {gen}
 NPx = {npx}
CHECK_DEADLOCK FALSE
'''
    ctx.model('MC_EbsdStore', cfg(4 if ctx.quick else 6, 'FALSE', 1 if ctx.quick else 2, 'VIEW View\nINVARIANTS InvKept InvWritten InvOnce InvLoad InvTurn'),
              'every history of building, editing, turning, saving and loading', coverage=False)
    beh = ctx.generate('MC_EbsdStore', cfg(10, 'TRUE', 3, 'INVARIANT Stop'), 'random save/load sessions', simulate=200 if ctx.quick else 3000, depth=12,
                       limit=260 if ctx.quick else 5000)
    rng = ctx.rng
    cases = []
    for b in beh:
        ps = [phases(rng, rng.randint(1, 3)) for _ in range(2)]
        dims, ops, has, disk = [], [], [], {}
        first = True
        for o in b:
            o = dict(o, form=rng.randrange(6))
            if o['op'] in ('dict', 'baddict'):
                k = o.pop('k')
                w, h = shape(rng)
                n = w * h
                eul = [[rng.choice([rng.randint(0, 359), 0, 90, 180, 270]), rng.choice([rng.randint(0, 180), 0, 180, 90]), rng.choice([rng.randint(0, 359), 0])] for _ in range(n)]
                o['map'] = dict(w=w, h=h, step=rng.choice([1200, 5000, 10000, 12345, 625, 3333]), phases=k, ph=[rng.randint(0, len(ps[k - 1])) for _ in range(n)],
                                eul=eul, bc=[rng.choice([rng.randint(0, 255), 255]) for _ in range(n)], bs=[0] * n, mad=[0] * n, hasbs=False)
                if o['op'] == 'dict':
                    dims.append((w * h, len(ps[k - 1])))
            elif o['op'] == 'save':
                disk.setdefault(o['name'], dims[o['m'] - 1])
            elif o['op'] == 'load':
                if o['name'] in disk:
                    dims.append(disk[o['name']])
            elif o['op'] == 'edit':
                n, p = dims[o['m'] - 1]
                o.update(k=rng.randint(1, n), v=rng.randint(0, p), b=rng.randint(0, 255))
            ops.append(o)
        cases.append(dict(ps=ps, ops=ops))
    recs = ctx.drive('d_file', 'store', cases)
    ctx.validate('Trace_EbsdStore', recs, 'sessions of saving and loading', batch=500)
    recs = ctx.drive('d_file', 'load', [ctf_case(rng) for _ in range(500 if ctx.quick else 8000)] + types(rng))
    ctx.validate('Trace_EbsdFile', recs, 'text files in any layout', stateful=False, batch=500)


def types(rng):
    t = {'': 'OxfordBinaryLoader', '.crc': 'OxfordBinaryLoader', '.cpr': 'OxfordBinaryLoader', '.ctf': 'OxfordTextLoader', '.ang': 'EdaxAngLoader'}
    by = {'oxfordbinary': 'OxfordBinaryLoader', 'OxfordBinary': 'OxfordBinaryLoader', 'OxfordText': 'OxfordTextLoader', 'EDAXANG': 'EdaxAngLoader', 'EdaxAng': 'EdaxAngLoader',
          'PythonDict': 'PythonDictLoader', 'badger': '', 'Oxford': ''}
    out = [dict(op='type', type='', suffix=s, known=True, want=v) for s, v in t.items()]
    out += [dict(op='type', type=k, suffix=s, known=bool(v), want=v) for k, v in by.items() for s in t]
    return out


KNOWN = [3, 4, 5, 6, 7, 8, 10, 11, 12]


def crc_case(rng):
    w, h = shape(rng)
    nedx = rng.choice([0, 0, 1, 2, 3])
    names = rng.sample(['Ni', 'Ti', 'O', 'Al K', 'Fe'], nedx)
    fields = [3, 4, 5, 6, 7, 8] + rng.sample([10, 11, 12], rng.randint(0, 3)) + [100 + i + 1 for i in range(nedx) if rng.random() < .8]
    fields += rng.sample([13, 21, 50, 99, 110, 2, 9], rng.choice([0, 1, 1, 2, 3]))
    if rng.random() < .75:
        rng.shuffle(fields)
    bad = rng.random()
    ps = phases(rng, rng.randint(1, 3), odd=bad < .04)
    by = bytearray()
    for k in range(w * h):
        by.append(rng.randint(0, len(ps)))
        for f in fields:
            if f in (7, 8, 10, 11):
                by.append(rng.choice([rng.randint(0, 255), 255, 0]))
            else:
                v = rng.randint(0, 6433) if f in (3, 5) else rng.randint(0, 3216) if f == 4 else rng.randint(0, 2048) if f == 6 else rng.randint(-2**20, 2**20)
                by += struct.pack('<f', v / 1024)
    if .04 < bad < .08:
        by = by[:-rng.randint(1, 30)] if len(by) > 30 else by[:-1]
    elif .08 < bad < .11:
        by = by + by[:len(by) // (w * h)]
    return dict(op='crc', w=w, h=h, step=rng.choice([1200, 5000, 10000, 625, 12345]), acq=rng.choice([[0, 0, 0], [rng.randint(0, 359), rng.randint(0, 179), rng.randint(0, 359)]]),
                phases=ps, fields=fields, nedx=nedx, names=names, bytes=list(by), alt=rng.randrange(64), how=rng.randrange(6))


def check_C20(ctx):
    layout(ctx)
    rng = ctx.rng
    recs = ctx.drive('d_file', 'load', [crc_case(rng) for _ in range(900 if ctx.quick else 12000)] + types(rng))
    ctx.validate('Trace_EbsdFile', recs, 'binary files in any layout', stateful=False, batch=400)


def ang_case(rng):
    w, h = shape(rng)
    ps = []
    bad = rng.random()
    for i in range(rng.randint(1, 4)):
        q = phases(rng, 1)[0]
        hexa = q['laue'] == 9
        sym = '6/mmm' if hexa else rng.choice(['43', 'm3m'])
        if bad < .05 and rng.random() < .5:
            sym = rng.choice(['62', '1', '-3m', 'm3', '4/mmm'])
        ps.append(dict(no=i + 1, name=q['name'], sym=sym, lp=q['lp']))
    if .05 < bad < .1:
        ps[rng.randrange(len(ps))]['no'] += 1
    n = w * h + (rng.choice([-1, 1]) if .1 < bad < .14 and w * h > 1 else 0)
    rows = []
    step = rng.choice([1200, 5000, 10000])
    for k in range(n):
        rows.append([rng.choice([rng.randint(0, 62830), rng.randint(0, 15700), 15700, 15716, 0, 62830]), rng.randint(0, 31415), rng.randint(0, 62831), k % w * step, k // w * step,
                     rng.randint(0, 9000000), rng.choice([rng.randint(0, 1000), -1000]), rng.randint(0, len(ps) - 1), rng.randint(0, 5), rng.randint(0, 3000)])
    return dict(op='ang', w=w, h=h, step=step, phases=ps, grid='HexGrid' if bad > .96 else 'SqrGrid', rows=rows, extra=rng.choice([0, 0, 1, 3]), alt=rng.randrange(16), how=rng.randrange(3))


def check_C30(ctx):
    ctx.model('MC_Ang', '''SPECIFICATION Spec
INVARIANTS InvPlace InvRange InvPhase InvRefuse
CHECK_DEADLOCK FALSE
''', 'every small EDAX file', coverage=False)
    rng = ctx.rng
    recs = ctx.drive('d_file', 'load', [ang_case(rng) for _ in range(900 if ctx.quick else 12000)] + types(rng))
    ctx.validate('Trace_EbsdFile', recs, 'EDAX files', stateful=False, batch=500)
