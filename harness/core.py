"""Shared machinery: running TLC, recording traces, reporting, evidence.

Python never decides a property.  It drives the code under test, records what
it did as traces, hands these to TLC, and reports what TLC said.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar'


def _classpath():
    """The jars of the tlc wrapper (TLC and the CommunityModules)."""
    d = os.path.dirname(JARS)
    jars = [JARS] + [os.path.join(d, f) for f in sorted(os.listdir(d))
                     if f.endswith('.jar') and f != os.path.basename(JARS)]
    return ':'.join(jars)


class CheckError(Exception):
    """The check itself could not give an answer."""


class Work:
    """A scratch directory, removed at the end."""
    def __init__(self):
        self.path = tempfile.mkdtemp(prefix='verif_')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def file(self, name):
        return os.path.join(self.path, name)


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')
PRINTED = re.compile(r'^<<"(VERDICT|EDGE|INFO)", (.*)>>$')


def tlc(work, module, cfg, env=None, workers=4, timeout=600, extra=(),
        heap='3g', name=None):
    """Run TLC.  Returns (returncode, output, generated, distinct)."""
    meta = tempfile.mkdtemp(dir=work.path, prefix='tlc_')
    # TLC writes next to the module; give it a copy of the specifications
    for f in os.listdir(SPEC):
        if f.endswith('.tla') or f.endswith('.cfg'):
            shutil.copy(os.path.join(SPEC, f), meta)
    if '\n' in cfg:
        with open(os.path.join(meta, 'gen.cfg'), 'w') as w:
            w.write(cfg)
        cfg = 'gen.cfg'
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss16m',
           '-Dtlc2.TLC.stopAfter=' + str(int(timeout)),
           '-cp', _classpath(), 'tlc2.TLC', '-cleanup', '-deadlock',
           '-noGenerateSpecTE', '-metadir', os.path.join(meta, 'states'),
           '-workers', str(workers), '-config', cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, capture_output=True,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f'TLC ran out of time on {module}')
    out = p.stdout
    m = None
    for m in STATES.finditer(out):
        pass
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out, gen, dist


def model_check(work, module, cfg, **kw):
    """Exhaustively check a design model; it must hold."""
    rc, out, gen, dist = tlc(work, module, cfg, **kw)
    if rc != 0 or 'No error has been found' not in out:
        raise CheckError(f'design model {module} failed:\n' + out[-4000:])
    return out, gen, dist


def unescape(s):
    return json.loads(s)


EDGE = re.compile(r'^<<"EDGE", (".*")>>$')


def edges(out):
    """The transitions a model printed with <<"EDGE", ToJson(...)>>."""
    res = []
    for line in out.splitlines():
        m = EDGE.match(line)
        if m:
            res.append(json.loads(json.loads(m.group(1))))
    return res


BLAME = re.compile(r'^/\\ t = (\d+)$', re.M)
BLAME_EV = re.compile(r'^/\\ i = (\d+)$', re.M)
VERDICT = re.compile(
    r'^<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>$', re.M)


def check_traces(work, module, cfg, traces, env=None, batch=400, workers=4,
                 timeout=600, parallel=2):
    """Let TLC judge recorded traces against a specification.

    Returns a dict with the verdicts {trace index: (event number, clause)} of
    the traces the specification does not allow, and the state counts.
    """
    from concurrent.futures import ThreadPoolExecutor
    res = {'fail': {}, 'generated': 0, 'distinct': 0, 'validated': 0}
    if not traces:
        raise CheckError('no traces were recorded')
    # batches are balanced by number of events
    batches = [list(range(i, min(i + batch, len(traces))))
               for i in range(0, len(traces), batch)]

    def one(n_idx):
        n, idx = n_idx
        idx = list(idx)
        got, gen, dist, blamed = {}, 0, 0, 0
        while idx:
            f = work.file(f'traces_{module}_{n}_{os.getpid()}.ndjson')
            with open(f, 'w') as w:
                for i in idx:
                    w.write(json.dumps(traces[i]) + '\n')
            rc, out, g, d = tlc(work, module, cfg,
                                env={**(env or {}), 'TRACE_FILE': f},
                                workers=workers, timeout=timeout)
            os.remove(f)
            gen, dist = gen + g, dist + d
            this = {}
            # (long ones are spread over several lines)
            for m in VERDICT.finditer(out):
                this[idx[int(m.group(1)) - 1]] = (int(m.group(2)), m.group(3))
            if rc == 0 and len(this) == len(idx):
                got.update(this)
                break
            # an observation so odd that the specification cannot even be
            # evaluated on it: find its trace and go on with the others
            bad = BLAME.search(out)
            if not bad or blamed >= 12 or 'evaluat' not in out.lower():
                raise CheckError(f'TLC gave no verdict for every trace of '
                                 f'{module} ({len(this)} of {len(idx)}):\n'
                                 f'{out[-3000:]}')
            blamed += 1
            t = int(bad.group(1))
            ev = BLAME_EV.findall(out)
            got[idx[t - 1]] = (int(ev[-1]) if ev else 0,
                               'an observation that does not fit the specification')
            del idx[t - 1]
        return got, gen, dist

    with ThreadPoolExecutor(parallel) as ex:
        for got, gen, dist in ex.map(one, enumerate(batches)):
            res['generated'] += gen
            res['distinct'] += dist
            for i, (ev, clause) in got.items():
                if clause == 'ok':
                    res['validated'] += 1
                else:
                    res['fail'][i] = (ev, clause)
    return res


def run_driver(work, driver, jobs, timeout=300, procs=6, env=None):
    """Run the code under test in separate processes.

    ``jobs`` is a list of JSON-able jobs; the driver reads a list of jobs on
    stdin and prints one trace (a JSON object) per line, in order.  A job whose
    process dies or hangs yields a trace that says so, which no specification
    allows.
    """
    from concurrent.futures import ThreadPoolExecutor
    chunks = [jobs[i::procs] for i in range(min(procs, len(jobs)))]

    def one(n, chunk):
        # the order of sets differs between the processes, not between runs
        seed = {'PYTHONHASHSEED': str(1000 * int(os.environ.get('VERIF_SEED', '1')) + n)}
        return list(_drive(work, driver, chunk, timeout, {**seed, **(env or {})}))

    out = []
    with ThreadPoolExecutor(procs) as ex:
        for r in ex.map(one, range(len(chunks)), chunks):
            out += r
    return out


def driver_env(extra=None):
    e = {k: v for k, v in os.environ.items()
         if k not in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONHOME')}
    e.update({'PYTHONDONTWRITEBYTECODE': '1',
              'PYTHONPYCACHEPREFIX': '/nonexistent',
              'VERIF_REPO': REPO, 'PYTHONWARNINGS': 'ignore'})
    e.update(extra or {})
    return e


def _drive(work, driver, chunk, timeout, env):
    todo = list(chunk)
    while todo:
        scratch = tempfile.mkdtemp(dir=work.path, prefix='drv_')
        hang = False
        try:
            p = subprocess.run(
                [PY, '-B', os.path.join(VERIF, 'harness', driver)],
                input=json.dumps(todo), capture_output=True, text=True,
                timeout=timeout, cwd=scratch,
                env=driver_env({'VERIF_SCRATCH': scratch, **(env or {})}))
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as x:
            hang = True
            out = x.stdout or b''
            out = out.decode() if isinstance(out, bytes) else out
            err, rc = 'timeout', -1
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        done = 0
        for line in out.splitlines():
            if line.startswith('{'):
                try:
                    t = json.loads(line)
                except ValueError:
                    break
                if t.get('stop'):
                    return
                yield t
                done += 1
        if done >= len(todo):
            return
        if rc == 3:
            raise CheckError(f'driver {driver} failed:\n{err[-3000:]}')
        # the job after the last finished one took the process down
        job = todo[done]
        yield {'job': job, 'crash': True, 'cfg': job.get('cfg', {}),
               'ev': [],
               'why': ('the code under test did not come back'
                       if hang else f'driver exit {rc}: {err[-1500:]}')}
        todo = todo[done + 1:]


def corrupt_response(trace, rng):
    """Change one recorded response."""
    evs = [e for e in trace['ev'] if 'r' in e and
           e['op'] not in ('observe', 'start', 'keys', 'values', 'items')]
    if not evs:
        return False
    e = rng.choice(evs)
    if e['r']['vals'] and rng.random() < .5:
        e['r']['vals'][0]['n'] += 1
    else:
        e['r']['tag'] = 'corrupted'
    return True


class Report:
    """Collects what a run did and says how it ended."""

    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.extra, self.violations = [], {}, []
        self.assumptions = []
        self.known = self._load_known()
        self.known_hit = []

    def rng(self, salt=''):
        return random.Random(f'{self.seed}/{self.prop}/{salt}')

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def _load_known(self):
        known = []
        path = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith('{'):
                    k = json.loads(line)
                    if k.get('property') == self.prop and k.get('status') == 'known':
                        known.append(k)
        return known

    def count(self, gen, dist):
        self.transitions += gen
        self.states += dist

    def violation(self, trace, why):
        """Register a violation; ``trace`` is what to look at or replay."""
        sig = trace.get('signature') or why
        for k in self.known:
            if k['signature'] == sig:
                self.known_hit.append(k)
                return
        self.violations.append((trace, why))

    def judge(self, module, cfg, traces, work, corrupt=None, **kw):
        """Have TLC judge traces; crashed ones are violations outright.

        Copies of some traces are corrupted and judged as well: the
        specification has to refuse them, or it decides nothing.
        """
        good = []
        for t in traces:
            if t.get('crash'):
                self.violation(t, 'the code under test crashed or hung: '
                               + t.get('why', ''))
            else:
                good.append(t)
        if not good:
            return None
        slim = [{'cfg': t['cfg'], 'ev': t['ev']} for t in good]
        rng = self.rng('corrupt')
        bad = []
        for i in rng.sample(range(len(slim)), min(12, len(slim))):
            c = json.loads(json.dumps(slim[i]))
            if (corrupt or corrupt_response)(c, rng):
                bad.append((i, c))
        res = check_traces(work, module, cfg, slim + [c for _, c in bad], **kw)
        for n, (i, _) in enumerate(bad):
            j = len(slim) + n
            if i not in res['fail'] and j not in res['fail']:
                raise CheckError(f'{module} accepts a corrupted trace')
            if j not in res['fail']:
                res['validated'] -= 1
            res['fail'].pop(j, None)
        self.extra['corrupted_traces_refused'] = (
            self.extra.get('corrupted_traces_refused', 0) + len(bad))
        self.count(res['generated'], res['distinct'])
        self.validated += res['validated']
        for i, (ev, clause) in sorted(res['fail'].items()):
            self.violation({**good[i], 'event': ev, 'clause': clause,
                            'module': module},
                           f'event {ev}: {clause}')
        return res

    def sample(self, t, n=3):
        if len(self.samples) < n:
            s = json.dumps(t)
            self.samples.append(s if len(s) < 1500 else s[:1500] + '...')

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated,
               'samples': self.samples, **self.extra}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as w:
            json.dump({'property': self.prop, 'tier': self.tier,
                       'seed': self.seed, 'level': self.level,
                       'coverage': cov, 'assumptions': self.assumptions,
                       'wall_s': round(time.time() - self.t0, 2),
                       'violations': len(self.violations)}, w, indent=1)
        seen = set()
        for k in self.known:
            # every listed finding is reported on every run
            if k['signature'] not in seen:
                seen.add(k['signature'])
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if not self.violations:
            print(f'{self.prop} held: {self.validated} traces, '
                  f'{self.states} states, {time.time()-self.t0:.1f}s')
            return 0
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        for n, (t, why) in enumerate(self.violations[:20]):
            path = os.path.join(d, f'{self.prop}_{n}.json')
            with open(path, 'w') as w:
                json.dump({'property': self.prop, 'why': why, 'trace': t}, w,
                          indent=1)
            if n < 5:
                print(f'VIOLATION property={self.prop} replay={path}')
                print('  ' + why[:600])
        print(f'{self.prop}: {len(self.violations)} violating traces')
        return 1
