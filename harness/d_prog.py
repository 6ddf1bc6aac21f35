"""Drives report_progress with computations that follow a given history (C29)."""
import contextlib, re
import numpy as np
from defdap.utils import report_progress


class Oops(Exception):
    pass


class Stop(BaseException):
    pass


class Out:
    def __init__(self):
        self.buf = ''

    def write(self, s):
        self.buf += s
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def tokens(text):
    """What has been printed: lines replacing each other (carriage return) or followed by a new line."""
    r = []
    for t in re.split('[\r\n]', text):
        if not t.strip():
            continue
        m = re.fullmatch(r'Starting (.*?)\.\. *(?:(-?\d+) ?%)? *', t)
        f = re.fullmatch(r'Finished (.*) \(\d+:\d\d:\d\d\) *', t)
        if m and m[2]:
            r.append({'k': 'percent', 'm': m[1], 'n': int(m[2])})
        elif m:
            r.append({'k': 'start', 'm': m[1], 'n': 0})
        elif f:
            r.append({'k': 'final', 'm': f[1], 'n': 0})
        else:
            r.append({'k': 'said', 'm': t.strip(), 'n': 0})
    return r


def run(case):
    rng = np.random.default_rng(case['seed'])
    ops = iter([o for o in case['ops'] if o['op'] not in ('enter', 'got')])
    out, ev, kept = Out(), [], []
    vals, excs, owner = {}, {}, {}
    cnt = [0]

    def log(**e):
        if ev:
            ev[-1]['out'] = tokens(out.buf)
        out.buf = ''
        ev.append(dict(e, out=[]))

    def number(v):
        k = int(rng.integers(0, 4))
        if v == 10 and k < 2:
            return 0.01   # one percent exactly: not more than one percent
        return [v / 1024, np.float64(v / 1024), np.float32(v / 1024), v // 1024 if v % 1024 == 0 else v / 1024][k]

    def body(args, key):
        log(op='enter', v=args if key is kept else -1)
        for o in ops:
            p = o['op']
            if p == 'call':
                call(o)
            elif p == 'report':
                log(op='report', v=o['v'])
                yield number(o['v'])
            elif p == 'say':
                log(op='say', m=o['m'])
                yield o['m']
            elif p == 'keep':
                log(op='keep', v=o['v'])
                key.append(o['v'])
            elif p == 'return':
                log(op='return', v=o['v'])
                vals[o['v']] = [None, object(), 'text', (1, 2), StopIteration()][int(rng.integers(0, 5))]
                owner['last'] = o['v']
                return vals[o['v']]
            else:
                log(op='raise', v=o['v'])
                excs[o['v']] = [Oops, ValueError, Stop, KeyError][int(rng.integers(0, 4))](o['v'])
                owner['last'] = o['v']
                raise excs[o['v']]
        log(op='return', v=0)
        vals[0] = None
        owner['last'] = 0
        return None

    class Thing:
        """Computations as the library defines them: methods"""
    fs = {}
    for nm in ('a', 'b', ''):
        def f(self, args, key=None, _nm=nm):
            return (yield from body(args, key))
        setattr(Thing, 'f' + nm, report_progress(nm)(f))
        fs[nm] = getattr(Thing(), 'f' + nm)

    def call(o):
        log(op='call', m=o['m'], v=o['v'], guard=o['guard'])
        try:
            r = fs[o['m']](o['v'], key=kept) if rng.random() < .5 else fs[o['m']](o['v'], kept)
            k = owner['last']
            log(op='got', what='value', v=k if k in vals and r is vals[k] else -1, kept=list(kept))
        except BaseException as x:
            if not o['guard']:
                raise
            k = owner['last']
            log(op='got', what='exception', v=k if excs.get(k) is x else -1, kept=list(kept))

    with contextlib.redirect_stdout(out):
        for o in ops:
            if o['op'] == 'call':
                call(dict(o, guard=True))
        log(op='end')
    return {'ev': ev[:-1]}
