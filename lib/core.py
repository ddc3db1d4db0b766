"""Runner infrastructure: TLC, driver, comparison, evidence."""
import concurrent.futures as cf
import glob, json, os, re, selectors, shutil, subprocess, sys, tempfile, threading, time
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class CheckError(Exception):
    """The check itself could not give an answer."""


class TlcResult:
    def __init__(self, out, rc, cases, wall):
        self.out, self.rc, self.cases, self.wall = out, rc, cases, wall
        m = re.findall(r'^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out, re.M)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.ok = rc == 0 and 'No error has been found' in out

    def errors(self):
        i = self.out.find('Error:')
        return self.out[i:i + 3000] if i >= 0 else self.out[-3000:]


def tlc(module, cfg=None, env=None, workers=4, extra=(), heap='3g', emit=True, timeout=840, tool=False):
    """Runs TLC on spec/<module>.tla; returns the emitted cases (list of dicts)."""
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='tlc-', dir='/tmp')
    out = os.path.join(work, 'out.json')
    e = dict(os.environ, VERIF_SEED=str(SEED % 60000 + 1), CASES='100', OUT=out)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-Djava.io.tmpdir=' + work, '-Xmx' + heap, '-Xss512m' if tool else '-Xss128m', '-XX:+UseParallelGC',
           f'-XX:ParallelGCThreads={max(2, min(4, workers))}',
           '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(work, 'meta'),
           '-noGenerateSpecTE', '-config', os.path.join(SPEC, (cfg or module) + '.cfg'), *extra, os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace', timeout=timeout)
        cases = []
        for path in sorted(glob.glob(out + '*')) if emit else []:
            with open(path, errors='replace') as f:
                for line in f:
                    v = json.loads(line)
                    cases.append(json.loads(v) if isinstance(v, str) else v)
            cases.sort(key=lambda c: str(c['id']))
        return TlcResult(p.stdout, p.returncode, cases, time.time() - t0)
    except subprocess.TimeoutExpired:
        raise CheckError(f'TLC timed out on {module}')
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_driver_chunk(binary, lines, ids, stall, env, seen=None):
    """Feeds command lines to one driver process after another; a crash or a
    hang is attributed to the first command without an answer.  After a number
    of them (counted in seen) the rest is left out."""
    results = {}
    start = 0
    seen = seen if seen is not None else {'hang': 0, 'crash': 0}
    while start < len(lines):
        if seen['hang'] >= 2 or seen['crash'] >= 200:
            results.update((i, {'id': i, 'skipped': True}) for i in ids[start:])
            break
        fin = tempfile.TemporaryFile()
        fin.write('\n'.join(lines[start:]).encode() + b'\n')
        fin.seek(0)
        ferr = tempfile.TemporaryFile()
        p = subprocess.Popen([binary], stdin=fin, stdout=subprocess.PIPE, stderr=ferr, env=env)
        n = start
        buf = b''
        hang = False
        os.set_blocking(p.stdout.fileno(), False)
        sel = selectors.DefaultSelector()
        sel.register(p.stdout, selectors.EVENT_READ)
        waited = 0
        while True:
            if not sel.select(1):
                waited += 1
                if waited >= stall or seen['hang'] >= 2:
                    hang = True
                    p.kill()
                    break
                continue
            waited = 0
            data = os.read(p.stdout.fileno(), 1 << 16)
            if not data:
                break
            buf += data
            while True:
                i = buf.find(b'\n')
                if i < 0:
                    break
                results[ids[n]] = json.loads(buf[:i])
                buf = buf[i + 1:]
                n += 1
        sel.close()
        p.stdout.close()
        rc = p.wait()
        if n < len(lines):
            ferr.seek(0)
            err = ferr.read()[-3000:].decode(errors='replace')
            if hang and waited < stall:   # stopped because others hang
                results[ids[n]] = {'id': ids[n], 'skipped': True}
            else:
                results[ids[n]] = {'id': ids[n], 'crash': 'hang' if hang else f'exit status {rc}', 'stderr': err}
                seen['hang' if hang else 'crash'] += 1
            n += 1
        start = n
    return results


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.quick = tier == 'quick'
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.bins = {}
        self.lock = threading.Lock()
        self.pool = cf.ThreadPoolExecutor(16)
        self.replay_dir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(self.replay_dir, exist_ok=True)
        for f in os.listdir(self.replay_dir):
            if f.startswith(pid + '-'):
                os.unlink(os.path.join(self.replay_dir, f))
        self._build = {}
        self.build('plain')

    # ---- building --------------------------------------------------------
    def build(self, variant):
        with self.lock:
            if variant not in self._build:
                self._build[variant] = self.pool.submit(B.build, variant)
            return self._build[variant]

    def binary(self, variant='plain'):
        try:
            return self.build(variant).result()
        except B.BuildError as e:
            raise CheckError('build failed:\n' + str(e))

    # ---- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, must_pass=True, count=True, **kw):
        r = tlc(module, cfg, **kw)
        if must_pass and not r.ok:
            raise CheckError(f'TLC failed on {module}:\n' + r.errors())
        if count:
            with self.lock:
                self.states += r.distinct
                self.transitions += r.generated
        return r

    # ---- driver ------------------------------------------------------------
    def drive(self, cases, variant='plain', jobs=8, stall=60, env=None, per_process=None):
        """Runs the commands; returns {id: result}."""
        binary = self.binary(variant)
        e = dict(os.environ, MALLOC_PERTURB_='85', ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=0',
                 LC_ALL='C', TZ='UTC')
        e.update(env or {})
        ids = [str(c['id']) for c in cases]
        assert len(set(ids)) == len(ids), 'case ids not unique'
        lines = [json.dumps(c) for c in cases]
        jobs = max(1, min(jobs, (len(cases) + 19) // 20)) if per_process is None else jobs
        if per_process:
            chunks = [(lines[i:i + per_process], ids[i:i + per_process]) for i in range(0, len(lines), per_process)]
        else:
            n = (len(cases) + jobs - 1) // jobs if cases else 0
            chunks = [(lines[i:i + n], ids[i:i + n]) for i in range(0, len(lines), n)] if cases else []
        res = {}
        seen = {'hang': 0, 'crash': 0}
        with cf.ThreadPoolExecutor(jobs) as ex:
            for r in ex.map(lambda c: run_driver_chunk(binary, c[0], c[1], stall, e, seen), chunks):
                res.update(r)
        for i in ids:
            if i not in res:
                raise CheckError(f'driver gave no answer for {i}')
            if 'driver_error' in res[i]:
                raise CheckError(f'driver error for {i}: {res[i]["driver_error"]}')
        return res

    def replay(self, cases, compare, cmd=lambda c: c, variant='plain', jobs=8, stall=60, env=None, what='behaviour',
               max_report=int(os.environ.get("MAXREP", "5")), per_process=None):
        """Replays generated behaviours; compare(case, result) returns a list of
        differences.  A difference is reported only if it shows again when the
        case is run by itself, or at least when the whole batch is run again."""
        cmds = [cmd(c) for c in cases]
        res = self.drive(cmds, variant, jobs, stall, env, per_process)
        bad = []
        for c in cases:
            r = res[str(c['id'])]
            d = self._diff(c, r, compare)
            if d:
                bad.append((c, r, d))
        with self.lock:
            self.traces += len(cases) - len(bad)
        if not bad:
            return res
        confirmed = 0
        again = None
        for c, r, d in bad:
            if confirmed >= max_report or (confirmed and 'crash' in r):
                break
            r2 = self.drive([cmd(c)], variant, 1, stall, env)[str(c['id'])]
            d2 = self._diff(c, r2, compare)
            mode = 'alone'
            if not d2:
                if again is None:
                    again = self.drive(cmds, variant, jobs, stall, env, per_process)
                r2 = again[str(c['id'])]
                d2 = self._diff(c, r2, compare)
                mode = 'in the same batch'
            if d2:
                confirmed += 1
                self.violation(f'{what} {c["id"]} ({mode}): ' + '; '.join(map(str, d2[:6])),
                               {'case': c, 'command': cmd(c), 'result': r2, 'differences': d2, 'variant': variant, 'env': env or {}})
        self.notes['mismatching_cases'] = self.notes.get('mismatching_cases', 0) + len(bad)
        if not confirmed:
            raise CheckError('a difference did not show again: ' + str(bad[0][2]))
        return res

    @staticmethod
    def _diff(c, r, compare):
        if 'skipped' in r:
            return []
        if 'crash' in r:
            return [f'driver {r["crash"]}: {r.get("stderr", "")[-600:]}']
        try:
            return compare(c, r)
        except (KeyError, IndexError, TypeError) as e:
            return [f'result lacks {e!r}: {str(r)[:400]}']

    # ---- reporting -------------------------------------------------------------
    def violation(self, text, replay):
        with self.lock:
            path = os.path.join(self.replay_dir, f'{self.pid}-{len(self.violations) + 1}.json')
            replay['property'] = self.pid
            replay['what'] = text
            with open(path, 'w') as f:
                json.dump(replay, f, indent=1)
            self.violations.append(text)
            print(f'# {text[:1500]}')
            print(f'VIOLATION property={self.pid} replay={path}', flush=True)

    def sample(self, *items):
        for i in items:
            if len(self.samples) < 12:
                s = json.dumps(i)
                self.samples.append(i if len(s) < 3000 else s[:3000])

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples or ['(none)']}
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print(f'{self.pid} {self.tier}: states={self.states} transitions={self.transitions} '
              f'traces={self.traces} violations={len(self.violations)} wall={ev["wall_s"]}s')
        return 1 if self.violations else 0


def eq(name, want, got):
    return [] if want == got else [f'{name}: expected {str(want)[:700]!r}, got {str(got)[:700]!r}']
