#!/usr/bin/env python3
"""Tries hand-written changes: devious.py LIST.py OUT.jsonl [workers] [names...].
LIST.py defines BUGS = [(name, property, file, old, new), ...]; a change may have
several edits: file/old/new are then lists."""
import json, os, resource, runpy, shutil, subprocess, sys, threading, time
LIST, OUT = sys.argv[1], sys.argv[2]
W = int(sys.argv[3]) if len(sys.argv) > 3 else 3
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
todo = [b for b in runpy.run_path(LIST)['BUGS'] if len(sys.argv) < 5 or b[0] in sys.argv[4:]]
seen = {json.loads(l)['name'] for l in open(OUT)} if os.path.exists(OUT) and len(sys.argv) < 5 else set()
todo = [b for b in todo if b[0] not in seen][::-1]
lock = threading.Lock()
log = open(OUT, 'a')


def worker(w):
    d = os.environ.get('DEVDIR', '/tmp/mut') + f'/d{w}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/repo')
    subprocess.run(['rsync' if shutil.which('rsync') else 'cp', '-a', V, f'{d}/'], check=True)
    shutil.rmtree(f'{d}/verif/.build', ignore_errors=True)
    for x in ('src', 'include'):
        subprocess.run(['cp', '-a', f'/repo/{x}', f'{d}/repo/{x}'], check=True)
    env = dict(os.environ, VERIF_REPO=f'{d}/repo', VERIF_COPY=f'{d}/verif', TLC_CACHE='/tmp/tlccache', VERIF_SEED='1', PYTHONDONTWRITEBYTECODE='1', MAXREP='1')
    while True:
        with lock:
            if not todo:
                break
            b = todo.pop()
        name, prop, fs, olds, news = b
        if isinstance(fs, str):
            fs, olds, news = [fs], [olds], [news]
        saved, r = {}, {'name': name, 'property': prop}
        for f, o, n in zip(fs, olds, news):
            p = f'{d}/repo/{f}'
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(o) != 1:
                r['res'] = f'NOTFOUND {s.count(o)}'
            open(p, 'w').write(s.replace(o, n, 1))
        t0 = time.time()
        if 'res' not in r:
            x = subprocess.run(['python3', f'{d}/verif/lib/build.py'], env=env, capture_output=True, text=True)
            if x.returncode:
                r['res'] = 'nocompile'
                r['tail'] = (x.stdout + x.stderr)[-800:]
            else:
                r['quiet'] = []
                for c in prop.split():
                    try:
                        q = subprocess.run(['python3', f'{d}/verif/dev/runcheck.py', c, 'quick'], env=env, capture_output=True, text=True, timeout=900,
                                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (10 << 30, 10 << 30)), start_new_session=True)
                        rc, tail = q.returncode, (q.stdout + q.stderr)
                    except subprocess.TimeoutExpired:
                        rc, tail = 99, 'timeout'
                    if rc == 1:
                        r['res'] = 'caught'
                        r['by'] = c
                        r['tail'] = tail[:300]
                        break
                    if rc:
                        r['res'] = 'ERROR'
                        r['tail'] = tail[-500:]
                        break
                    r['quiet'].append(c)
                else:
                    r['res'] = 'MISSED'
        r['t'] = round(time.time() - t0, 1)
        for p, s in saved.items():
            open(p, 'w').write(s)
        with lock:
            log.write(json.dumps(r) + '\n')
            log.flush()
    shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
