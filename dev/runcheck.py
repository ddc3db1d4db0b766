"""Runs a check with generated cases taken from a cache (development only)."""
import hashlib, json, os, pickle, runpy, sys
V = os.environ.get('VERIF_COPY') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import core
CACHE = os.environ['TLC_CACHE']
os.makedirs(CACHE, exist_ok=True)
real = core.tlc
SPEC = hashlib.sha1(b''.join(open(f'{V}/spec/{f}', 'rb').read() for f in sorted(os.listdir(V + '/spec')) if f.endswith(('.tla', '.cfg')))).hexdigest()


def tlc(module, cfg=None, env=None, **kw):
    if env and 'DIR' in env:
        return real(module, cfg, env=env, **kw)
    key = hashlib.sha1(json.dumps([SPEC, module, cfg, env, core.SEED], sort_keys=True, default=str).encode()).hexdigest()
    p = f'{CACHE}/{module}-{key}'
    if os.path.exists(p):
        return pickle.load(open(p, 'rb'))
    r = real(module, cfg, env=env, **kw)
    with open(p + f'.{os.getpid()}', 'wb') as f:
        pickle.dump(r, f)
    os.rename(p + f'.{os.getpid()}', p)
    return r


core.tlc = tlc
sys.argv = [V + '/bin/check'] + sys.argv[1:]
runpy.run_path(V + '/bin/check', run_name='__main__')
