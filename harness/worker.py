"""Runs one driver function over cases read from stdin (one JSON per line)."""
import importlib, io, json, os, sys, traceback, warnings
warnings.simplefilter('ignore')
real = os.fdopen(os.dup(1), 'w', buffering=1)
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)
sys.stdout = open(os.devnull, 'w')


class Enc(json.JSONEncoder):
    def default(self, o):
        import numpy as np
        if isinstance(o, np.bool_):
            return bool(o)
        if isinstance(o, np.integer):
            return int(o)
        if isinstance(o, np.floating):
            return float(o)
        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, (set, frozenset)):
            return sorted(o)
        return super().default(o)


def main():
    mod = importlib.import_module(sys.argv[1])
    func = getattr(mod, sys.argv[2])
    real.write('\x01READY\n')
    for line in sys.stdin:
        case = json.loads(line)
        try:
            rec = func(case)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1]
            rec = {'crash': f'{type(e).__name__}: {e} at {os.path.basename(last.filename)}:{last.name}',
                   '_case': case}
        real.write('\x01' + json.dumps(rec, cls=Enc) + '\n')
        real.flush()


main()
