#!/usr/bin/env python3
"""Runs the checks against automatically changed copies of /repo (development only).
mutate.py OUT SEED COUNT [WORKERS] [FILTER]"""
import glob, json, os, random, re, resource, shutil, signal, subprocess, sys, threading, time
OUT, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
WORKERS = int(sys.argv[4]) if len(sys.argv) > 4 else 4
FILTER = sys.argv[5] if len(sys.argv) > 5 else '.'
V = '/verif'
rnd = random.Random(SEED)
TOK = [(r'(?<![<-])<(?![<=])(?= )', ['<=']), (r'<=', ['<']), (r'(?<= )>(?![>=])', ['>=']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' << ', [' >> ']), (r' >> ', [' << ']),
       (r' & ', [' | ']), (r' \| ', [' & ']), (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r' \* ', [' + ']), (r' / ', [' * ']), (r' % ', [' / ']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\bstd::uint16_t\b', ['std::uint8_t']), (r'\bstd::uint32_t\b', ['std::uint16_t']), (r'\bstd::uint64_t\b', ['std::uint32_t']),
       (r'\bstd::int32_t\b', ['std::uint32_t']), (r'\bstd::int64_t\b', ['std::uint64_t', 'std::int32_t']), (r'\bstd::int16_t\b', ['std::uint16_t']),
       (r'\bbegin\b', ['end']), (r'\bfirst\b', ['second']), (r'\bback\(\)', ['front()']), (r'\bfront\(\)', ['back()']), (r'!(?=[a-zA-Z])', [''])]
NUM = re.compile(r'(?<![\w.:"])(0x[0-9a-fA-F]+|\d+)(?![\w.])')
CALL = re.compile(r'^\s*[\w>.\-:*\[\]()]+.*;\s*$')


def mutants(path):
    txt = open(path).read().split('\n')
    names = sorted(set(re.findall(r'\bm_\w+', '\n'.join(txt))))
    out = []
    for n, l in enumerate(txt):
        s = l.strip()
        if not s or s.startswith(('//', '#', 'using', 'namespace', '*', '/*')):
            continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + 'x' * (len(m.group(0)) - 2) + '"', l)
        if 'throw' in code or code.strip().startswith('"xxx'):
            continue
        for pat, reps in TOK:
            for m in re.finditer(pat, code):
                for r in reps:
                    out.append((n, l[:m.start()] + r + l[m.end():]))
        for m in NUM.finditer(code):
            v = int(m.group(1), 0)
            for w in ([v + 1, v - 1] if v else [1]):
                out.append((n, l[:m.start()] + (hex(w) if m.group(1).startswith('0x') else str(w)) + l[m.end():]))
        for m in re.finditer(r'\bm_\w+', code):
            o = [x for x in names if x != m.group(0)]
            if o:
                out.append((n, l[:m.start()] + rnd.choice(o) + l[m.end():]))
        if CALL.match(code) and not s.startswith(('return', 'break', 'continue', 'auto', 'const ', '}')):
            out.append((n, re.match(r'\s*', l).group(0) + ';'))
        m = re.match(r'^(\s*(?:\} else )?if \()(.*)(\) \{\s*)$', l)
        if m:
            out.append((n, m.group(1) + 'true' + m.group(3)))
            out.append((n, m.group(1) + 'false' + m.group(3)))
        if l.strip().startswith('return ') and re.search(r'[+*-]', code):
            pass
    return [(path, n + 1, txt[n].strip(), l) for n, l in out]


BOXES = 'C07 C09 C08 C14 C20 C12 C24 C10 C21 C06'.split()
MUX = 'C04 C01 C02 C03 C06 C17 C18 C05 C23 C19 C25'.split()


def order(f):
    if '/box/' in f or '/box.' in f or 'box_map' in f or 'box_type' in f or 'box_header' in f or 'box_info' in f:
        r = BOXES + 'C11 C01 C13 C04 C26'.split()
        if 'box_header' in f or 'box_info' in f:
            r = 'C11 C10'.split() + r + ['C05', 'C26']
        return r
    if '/bitio/' in f:
        return 'C15 C16 C26 C07 C08 C12 C14 C13'.split()
    if '/stream/' in f:
        return 'C26 C08 C12 C24'.split()
    if '/endian' in f or '/time' in f:  # C02, C06: durations and times of tracks
        return 'C22 C07 C14'.split()
    if '/reader/' in f:
        return 'C12 C24 C13 C26'.split()
    if '/writer/' in f or '/track/' in f:
        return MUX
    if '/cli/' in f:
        return ['C12', 'C13']
    return BOXES + MUX


def watchdog():
    while True:
        time.sleep(1)
        for p in glob.glob('/proc/[0-9]*/statm'):
            try:
                pid = p.split('/')[2]
                if open(f'/proc/{pid}/comm').read().strip() == 'driver' and int(open(p).read().split()[1]) * 4096 > 5 << 30:
                    os.kill(int(pid), signal.SIGKILL)
            except (OSError, ValueError, IndexError):
                pass


def worker(w, todo, lock, log):
    d = f'/tmp/mut/w{w}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', V, f'{d}/verif'], check=True)
    shutil.rmtree(f'{d}/verif/.build', ignore_errors=True)
    os.makedirs(f'{d}/repo')
    for x in ('src', 'include'):
        subprocess.run(['cp', '-a', f'/repo/{x}', f'{d}/repo/{x}'], check=True)
    env = dict(os.environ, VERIF_REPO=f'{d}/repo', VERIF_COPY=f'{d}/verif', TLC_CACHE='/tmp/tlccache', VERIF_SEED='1', PYTHONDONTWRITEBYTECODE='1', MAXREP='1')
    subprocess.run(['python3', f'{d}/verif/lib/build.py'], env=env, capture_output=True)
    while True:
        with lock:
            if not todo:
                break
            path, n, old, new = todo.pop()
        f = path.replace('/repo/', f'{d}/repo/')
        orig = open(f).read()
        lines = orig.split('\n')
        lines[n - 1] = new
        open(f, 'w').write('\n'.join(lines))
        r = {'file': path, 'line': n, 'old': old, 'new': new.strip()}
        t0 = time.time()
        b = subprocess.run(['python3', f'{d}/verif/lib/build.py'], env=env, capture_output=True, text=True)
        if b.returncode:
            r['res'] = 'nocompile'
        else:
            r['res'] = 'SURVIVED'
            r['quiet'] = []
            for c in order(path):
                try:
                    p = subprocess.run(['python3', f'{d}/verif/dev/runcheck.py', c, 'quick'], env=env, capture_output=True, text=True, timeout=600,
                                       preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (10 << 30, 10 << 30)), start_new_session=True)
                    rc = p.returncode
                    tail = (p.stdout + p.stderr)[-600:]
                except subprocess.TimeoutExpired:
                    rc, tail = 99, 'timeout'
                if rc == 1:
                    r['res'] = 'killed'
                    r['by'] = c
                    break
                if rc != 0:
                    r['res'] = 'ERROR'
                    r['by'] = c
                    r['tail'] = tail
                    break
                r['quiet'].append(c)
        r['t'] = round(time.time() - t0, 1)
        open(f, 'w').write(orig)
        with lock:
            log.write(json.dumps(r) + '\n')
            log.flush()
    shutil.rmtree(d, ignore_errors=True)


files = sorted(glob.glob('/repo/src/**/*.cpp', recursive=True) + glob.glob('/repo/include/**/*.hpp', recursive=True))
allm = [m for f in files if re.search(FILTER, f) for m in mutants(f)]
seen = set()
if os.path.exists(OUT):
    for l in open(OUT):
        x = json.loads(l)
        seen.add((x['file'], x['line'], x['new']))
allm = [m for m in allm if (m[0], m[1], m[3].strip()) not in seen]
rnd.shuffle(allm)
print(len(allm), 'possible', flush=True)
todo = allm[:COUNT]
lock = threading.Lock()
log = open(OUT, 'a')
threading.Thread(target=watchdog, daemon=True).start()
ts = [threading.Thread(target=worker, args=(w, todo, lock, log)) for w in range(WORKERS)]
for t in ts:
    t.start()
for t in ts:
    t.join()
