"""Drives real defdap Datastores with operation sequences; records results."""
from defdap.utils import Datastore


def norm(v):
    return 'None' if v is None else v if isinstance(v, str) else '?' + type(v).__name__ + repr(v)


def run_case(case):
    def crop_for(flag):
        if flag != 'T':
            return {}
        return dict(crop_func=lambda x, binning=1, **kw: f'c{binning}({norm(x)})',
                    mask_func=lambda x, **kw: f'm({norm(x)})')
    nodes = [None] + [Datastore(group_id=g, **crop_for(c))
                      for g, c in zip(case['grps'], case['crops'])]
    runs, funcs = {}, {}

    def conv(meta):
        meta = dict(meta)
        out = {}
        for a, v in meta.items():
            if a in ('save', 'cropped', 'apply_mask'):
                v = v == 'T'
            elif a == 'binning':
                v = int(v)
            out[a] = v
        return out

    def back(v):
        if v is True:
            return 'T'
        if v is False:
            return 'F'
        if isinstance(v, int):
            return str(v)
        return norm(v)

    def mkgen(op):
        def gen(**kw):
            runs[op['gid']] = r = runs.get(op['gid'], 0) + 1
            n = len(op['keys'])
            if op['mode'] == 'once' and r == 1:
                raise RuntimeError('generator failed')
            out = tuple(f"{op['gid']}.{r}.{i + 1}" for i in range(n))
            if n == 1:
                return out[0]
            return out[:-1] if op['mode'] == 'short' else out
        return gen

    def mkfun(op):
        # one function object per link name: re-linking with it updates the link
        key = op['f']
        if key not in funcs:
            funcs[key] = lambda x, key=key: f'{key}#{norm(x)}' if ref.get(key) == 'T' else f'{key}({norm(x)})'
        return funcs[key]
    ref = {}

    ev = []
    for op in case['ops']:
        ds = nodes[op['n']]
        o = op['op']
        e = dict(op)
        try:
            if o == 'get':
                v = [norm(ds[op['k']])]
            elif o == 'getattr':
                v = [norm(getattr(ds, op['k']))]
            elif o == 'item':
                v = [back(ds[(op['k'], op['a'])])]
            elif o == 'meta':
                v = [back(ds.get_metadata(op['k'], op['a'], 'dflt'))]
            elif o == 'set':
                ds[op['k']] = None if op['v'] == 'None' else op['v']
                v = []
            elif o == 'setattr':
                setattr(ds, op['k'], op['v'])
                v = []
            elif o == 'setm':
                ds[(op['k'], op['a'])] = conv({op['a']: op['v']})[op['a']]
                v = []
            elif o == 'add':
                ds.add(op['k'], op['v'], **conv(op['m']))
                v = []
            elif o == 'addgen':
                ks, ms = op['keys'], [conv(m) for m in op['ms']]
                if len(ks) == 1:
                    ds.add_generator(ks[0], mkgen(op), metadatas=ms[0])
                else:
                    ds.add_generator(tuple(ks), mkgen(op), metadatas=tuple(ms))
                v = []
            elif o == 'gen':
                v = [norm(ds.generate(op['k'], return_val=True))]
            elif o == 'has':
                v = ['T' if op['k'] in ds else 'F']
            elif o == 'keys':
                v = list(ds.keys())
            elif o == 'iter':
                v = [k for k in ds]
            elif o == 'star':
                v = [*ds]
            elif o == 'len':
                v = [str(len(ds))]
            elif o == 'update':
                if op['pri'] == 'self':
                    ds.update(nodes[op['o']], priority='self')
                else:
                    ds.update(nodes[op['o']])
                v = []
            elif o == 'link':
                f = mkfun(op)
                ref[op['f']] = op['ref']
                outp = {a: None if v == 'None' else v for a, v in conv(op['outp']).items()}
                ds.add_derivative(nodes[op['o']], f, in_props=conv(op['inp']),
                                  out_props=outp, pass_ref=op['ref'] == 'T')
                v = []
            else:
                raise SystemExit(f'unknown op {o}')
            e['ok'], e['r'] = True, [norm(x) for x in v]
        except Exception as x:
            e['ok'], e['r'], e['exc'] = False, [], type(x).__name__
        ev.append(e)
    return {'grps': case['grps'], 'crops': case['crops'], 'ev': ev}
