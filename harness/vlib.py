"""Shared machinery of the checks: TLC runs, driving the real code, evidence.

A check has three phases:
  model    -- TLC explores the design specification exhaustively in a small
              configuration (states/transitions counted from TLC's own report);
  generate -- behaviours of the specification are printed by TLC as JSON;
  conform  -- the real code is driven (with those behaviours and with seeded
              inputs), everything observable is recorded as ndjson, and TLC
              validates every recorded event against the specification.
Verdicts come from TLC only; Python never decides whether a result is right.
"""
import json, os, re, shutil, subprocess, sys, time, random, signal, threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
REPO = Path(os.environ.get('VREPO', '/repo'))   # VREPO: development only
PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        if not m:   # simulation mode
            m = re.findall(r'Progress: (\d+) states checked|The number of states generated: (\d+)', out)
            if m:
                self.generated = int(m[-1][0] or m[-1][1])
        self.lines = []
        for line in out.splitlines():
            if line.startswith('"'):
                try:
                    self.lines.append(json.loads(line))
                except ValueError:
                    pass

    def tagged(self, tag):
        pre = tag + ' '
        return [json.loads(s[len(pre):]) for s in self.lines if s.startswith(pre)]


class Ctx:
    def __init__(self, pid, tier, seed, keep_out=False):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.work = VERIF / '.work' / f'{pid}.{os.getpid()}'
        shutil.rmtree(self.work, ignore_errors=True)
        self.work.mkdir(parents=True)
        self.outdir = VERIF / 'out' / pid
        if not keep_out:
            shutil.rmtree(self.outdir, ignore_errors=True)
        self.outdir.mkdir(parents=True, exist_ok=True)
        self.rng = random.Random(f'{pid}-{seed}')
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.parts = []
        self.samples = []
        self.failures = []
        self.action_cov = {}
        self.assumptions = []
        self.n = 0

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=None, args=(), timeout=850):
        self.n += 1
        d = self.work / f'tlc{self.n}'
        d.mkdir()
        for f in SPEC.glob('*.tla'):
            shutil.copy(f, d / f.name)
        (d / 'run.cfg').write_text(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx12g', '-cp', JAR, 'tlc2.TLC',
               '-metadir', str(d / 'meta'), '-noGenerateSpecTE',
               '-workers', str(workers or NCPU), *args, '-config', 'run.cfg', module + '.tla']
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f'TLC timed out on {module}')
        out = p.stdout + p.stderr
        if os.environ.get('VTIME'):
            print(f'   tlc {module} {time.time() - t0:.1f}s', flush=True)
        (self.work / f'tlc{self.n}.log').write_text(out)
        shutil.rmtree(d, ignore_errors=True)
        return TlcResult(out, p.returncode)

    def model(self, module, cfg, what, min_states=2, coverage=True, **kw):
        """Exhaustive check of the design; any error here is not the code's."""
        args = list(kw.pop('args', ()))
        if coverage:
            args += ['-coverage', '1']
        r = self.tlc(module, cfg, args=args, **kw)
        if r.rc != 0 or 'No error has been found' not in r.out:
            raise MachineryError(f'model {module} failed:\n' + r.out[-4000:])
        if r.distinct < min_states:
            raise MachineryError(f'model {module}: only {r.distinct} states')
        zero = []
        for m in re.finditer(r'^<(\w+) line [^>]*>: (\d+):(\d+)', r.out, re.M):
            name, dist, tot = m.group(1), int(m.group(2)), int(m.group(3))
            a = self.action_cov.setdefault(f'{module}.{name}', 0)
            self.action_cov[f'{module}.{name}'] = max(a, tot)
            if tot == 0:
                zero.append(name)
        if zero:
            raise MachineryError(f'model {module}: actions never taken: {zero}')
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({'phase': 'model', 'what': what, 'module': module,
                           'distinct_states': r.distinct, 'states_generated': r.generated})
        return r

    def generate(self, module, cfg, what, tag='TRACE', simulate=None, depth=None, limit=None, **kw):
        """Behaviours of the specification, printed by TLC as JSON."""
        args = list(kw.pop('args', ()))
        if simulate:
            args += ['-simulate', f'num={simulate}', '-depth', str(depth), '-seed', str(self.seed)]
            kw.setdefault('workers', 1)
        r = self.tlc(module, cfg, args=args, **kw)
        if r.rc != 0:
            raise MachineryError(f'generator {module} failed:\n' + r.out[-4000:])
        out, seen = [], set()
        for s in r.lines:
            if s.startswith(tag + ' ') and s not in seen:
                seen.add(s)
                out.append(json.loads(s[len(tag) + 1:]))
        if not out:
            raise MachineryError(f'generator {module} printed nothing:\n' + r.out[-2000:])
        total = len(out)
        if limit and len(out) > limit:
            out = [out[i] for i in sorted(self.rng.sample(range(len(out)), limit))]
        self.parts.append({'phase': 'generate', 'what': what, 'module': module,
                           'behaviours': total, 'used': len(out),
                           'mode': 'simulate' if simulate else 'exhaustive'})
        if not simulate:
            self.states += r.distinct
            self.transitions += r.generated
        return out

    # --------------------------------------------------------------- driving
    def drive(self, mod, func, cases, procs=NCPU, stall=150, chunk=None):
        """Run func(case) on the real code for every case; list of records."""
        if not cases:
            return []
        n = len(cases)
        procs = max(1, min(procs, n))
        chunk = chunk or max(1, -(-n // (procs * 2)))
        chunks = [list(range(i, min(n, i + chunk))) for i in range(0, n, chunk)]
        res = [None] * n

        def run_chunk(idx):
            todo = list(idx)
            while todo:
                done, why = self._worker(mod, func, [cases[i] for i in todo], stall)
                for i, r in zip(todo, done):
                    res[i] = r
                k = len(done)
                if k < len(todo):
                    if why.startswith('import'):
                        raise MachineryError(why)
                    res[todo[k]] = {'crash': why}
                    k += 1
                todo = todo[k:]

        with ThreadPoolExecutor(procs) as ex:
            list(ex.map(run_chunk, chunks))
        for c, r in zip(cases, res):    # what a replay needs (never shown to the specification)
            for x in r.get('many', [r]):
                if isinstance(x, dict):
                    x['_drv'], x['_case'] = [mod, func], c
        return res

    def _worker(self, mod, func, cases, stall):
        env = dict(os.environ)
        env.update(PYTHONPATH=f'{REPO}:{VERIF}/harness', PYTHONDONTWRITEBYTECODE='1',
                   MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NUMBA_NUM_THREADS='1')
        env.setdefault('MPLCONFIGDIR', '/opt/vp/mplconfig')
        env['VWORK'] = str(self.work)
        p = subprocess.Popen([PY, str(VERIF / 'harness' / 'worker.py'), mod, func],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env, cwd=self.work,
                             start_new_session=True, text=True)
        last = [time.time()]
        out, err = [], []

        def feed():
            try:
                for c in cases:
                    p.stdin.write(json.dumps(c) + '\n')
                p.stdin.close()
            except BrokenPipeError:
                pass

        def read():
            for line in p.stdout:
                if line.startswith('\x01'):
                    last[0] = time.time()
                    if line.startswith('\x01READY'):
                        out.append('READY')
                    else:
                        out.append(json.loads(line[1:]))

        def rerr():
            for line in p.stderr:
                err.append(line)
                del err[:-40]

        ths = [threading.Thread(target=f, daemon=True) for f in (feed, read, rerr)]
        for t in ths:
            t.start()
        why = ''
        while True:
            try:
                p.wait(1)
                break
            except subprocess.TimeoutExpired:
                if time.time() - last[0] > stall:
                    why = 'hang'
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
        for t in ths[1:]:
            t.join(10)
        if 'READY' not in out:
            return [], 'import failed: ' + ''.join(err)[-3000:]
        out.remove('READY')
        if len(out) < len(cases) and not why:
            why = f'died rc={p.returncode}'
        return out, why

    # ------------------------------------------------------------ validation
    def validate(self, module, cases, what, cfg=None, batch=4000, keep=2, stateful=True, timeout=850):
        """Every recorded event of every case is judged by the trace spec.

        stateful: a case is {'ev': [...], ...}, one state per consumed event
        plus the initial one.  Otherwise a case is a single event: two states.
        The spec prints FAIL {case,l,bad} once per case, for its first event
        that violates a clause of this property.
        """
        cfg = cfg or 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n'
        nfail = nev = 0
        good = []
        for r in cases:
            if 'crash' in r:
                self.failures.append({'what': what, 'module': module, 'record': r, 'event': 0,
                                      'bad': ['driver-died: ' + str(r['crash'])]})
                nfail += 1
            else:
                good.append(r)
        for b0 in range(0, len(good), batch):
            part = good[b0:b0 + batch]
            fails = self._validate_part(module, cfg, part, stateful, timeout)
            for i, x in sorted(fails.items()):
                nfail += 1
                self.failures.append({'what': what, 'module': module, 'record': part[i],
                                      'stateful': stateful, 'cfg': cfg,
                                      'event': x['l'], 'bad': sorted(x['bad'])})
            nev += sum(len(r['ev']) if stateful else 1 for r in part)
        self.traces += len(cases)
        self.events += nev
        self.parts.append({'phase': 'conform', 'what': what, 'module': module,
                           'traces': len(cases), 'rejected': nfail, 'events': nev})
        for r in cases[:keep]:
            s = json.dumps({k: v for k, v in r.items() if k[:1] != '_'})
            if len(self.samples) < 8:
                self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000])
        return nfail

    def _validate_part(self, module, cfg, part, stateful, timeout, depth=0):
        f = self.work / f'trace{self.n}.ndjson'
        with open(f, 'w') as fh:
            for r in part:
                fh.write(json.dumps({k: v for k, v in r.items() if not k.startswith('_')}) + '\n')
        r = self.tlc(module, cfg, env={'TRACE': str(f), 'PID': self.pid}, timeout=timeout)
        if os.environ.get('VKEEP'):
            shutil.copy(f, self.outdir / 'last.ndjson')
        f.unlink()
        if r.rc == 0 and 'No error has been found' in r.out:
            want = sum(len(x['ev']) + 1 if stateful else 2 for x in part)
            if r.distinct != want:
                raise MachineryError(f'{module}: {r.distinct} trace states, expected {want}')
            self.states += r.distinct
            self.transitions += r.generated
            return {x['case'] - 1: x for x in r.tagged('FAIL')}
        m = re.search(r'Error:.*', r.out, re.S)
        msg = (m.group(0) if m else r.out)[:5000]
        if 'Computing initial states' not in r.out:
            raise MachineryError(f'trace spec {module} failed:\n' + msg)
        # A record the specification cannot even evaluate (a value of the wrong
        # kind): find it by bisection; it is rejected, the others are judged.
        if depth == 0:
            print(f'  note: {module} could not evaluate a batch: {msg[:700]}')
        if len(part) == 1:
            return {0: {'l': 0, 'bad': ['malformed-observation: ' + ' '.join(msg.split())[:300]]}}
        if depth > 14:
            raise MachineryError(f'trace spec {module} failed:\n' + msg)
        h = len(part) // 2
        out = self._validate_part(module, cfg, part[:h], stateful, timeout, depth + 1)
        if len([x for x in out.values() if 'malformed' in x['bad'][0]]) >= 1:
            return out          # one is enough for a verdict
        for i, x in self._validate_part(module, cfg, part[h:], stateful, timeout, depth + 1).items():
            out[h + i] = x
        return out

    # -------------------------------------------------------------- finishing
    def finish(self):
        known = load_known().get(self.pid, [])
        viol, kf = [], {}
        for fl in self.failures:
            k = match_known(known, fl)
            if k:
                kf.setdefault(k['key'], (k, fl))
            else:
                viol.append(fl)
        for k, fl in kf.values():
            print(f'KNOWN-FINDING: property={self.pid} {k["desc"]}')
        rc = 0
        for i, fl in enumerate(viol[:5]):
            path = self.outdir / f'replay-{i}.json'
            path.write_text(json.dumps({'property': self.pid, **fl}, indent=1))
            ev = fl['record'].get('ev', [])
            evs = json.dumps(ev[fl['event'] - 1])[:600] if 0 < fl['event'] <= len(ev) else json.dumps(fl['record'])[:600]
            print(f'  {fl["what"]}: failing clauses {fl["bad"]} at event {fl["event"]}: {evs}')
            print(f'VIOLATION property={self.pid} replay={path}')
            rc = 1
        if len(viol) > 5:
            print(f'  ... {len(viol)} rejected traces in total')
        ev = {
            'property': self.pid, 'tier': 'quick' if self.quick else 'thorough', 'seed': self.seed,
            'level': 'model_checking',
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'events_validated': self.events,
                'samples': self.samples or ['none'],
                'phases': self.parts,
                'action_coverage': self.action_cov,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol),
        }
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{self.pid}.json').write_text(json.dumps(ev, indent=1))
        print(f'{self.pid} {self.tier}: states={self.states} transitions={self.transitions} '
              f'traces={self.traces} events={self.events} violations={len(viol)} '
              f'known={len(kf)} wall={ev["wall_s"]}s')
        return rc

    def replay(self, path):
        """Drive the recorded case again on the current tree and judge it; a
        record the harness assembled from several runs is judged as recorded."""
        d = json.loads(Path(path).read_text())
        rec, recs = d['record'], []
        pub = {k for k in rec if k[:1] != '_'}
        if '_drv' in rec:
            for r in self.drive(*rec['_drv'], [rec['_case']]):
                recs += r.get('many', [r])
            recs = [r for r in recs if 'crash' in r or {k for k in r if k[:1] != '_'} == pub]
        print(f'replay of {d["what"]}: ' + (f'{len(recs)} record(s) driven again' if recs else 'record judged as recorded'))
        self.validate(d['module'], recs or [rec], 'replay of ' + d['what'], cfg=d.get('cfg'),
                      stateful=d.get('stateful', True))
        for fl in self.failures:
            print(f'  failing clauses {fl["bad"]} at event {fl["event"]}')
            print(f'VIOLATION property={self.pid} replay={path}')
        return 1 if self.failures else 0

    def cleanup(self):
        if not os.environ.get('VKEEP'):
            shutil.rmtree(self.work, ignore_errors=True)


def load_known():
    """known_findings.txt: `open: property=<id> key=<key> <description>` and
    `fixed: property=<id> <commit> <what failed>` (which suppresses nothing)."""
    res = {}
    p = VERIF / 'known_findings.txt'
    if p.exists():
        for line in p.read_text().splitlines():
            m = re.match(r'open: property=(\S+) key=(\S+) (.*)', line)
            if m:
                res.setdefault(m.group(1), []).append({'key': m.group(2), 'desc': m.group(3)})
    return res


def match_known(known, fl):
    """An open finding is identified by the case's own `_kf` key (set by the
    harness on the specific failing input) plus the failing clauses."""
    sig = fl['record'].get('_kf')
    if not sig:
        return None
    for k in known:
        if k['key'] == sig + ':' + '+'.join(sorted(fl['bad'])):
            return k
    return None
