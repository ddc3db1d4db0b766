"""Complete movies: histories generated by Mux.tla are run through the real
writers, and the recorded files are checked against Movie.tla."""
import json, os, shutil, tempfile

LONG = {'SCALE': 'large', 'MODE': 'long', 'DEPTH': 0}
HIST = ('id', 'w', 'dflt', 'mts', 'dur', 'now', 'major', 'minor', 'compat', 'tracks', 'ops')
FILE = ('len', 'segs', 't0', 't1', 'ids', 'refused', 'scales', 'err')


def judge(ctx, pid, pairs, workers=8, module='MuxTrace'):
    """Checks recorded runs against the specification: {id: complaints}."""
    if not pairs:
        return {}
    d = tempfile.mkdtemp(prefix='runs-', dir='/tmp')
    try:
        for n, (c, r) in enumerate(pairs):
            with open(f'{d}/{n + 1}.json', 'w') as f:
                json.dump({'h': {x: c[x] for x in HIST}, 'f': {x: r[x] for x in FILE}}, f)
        t = ctx.tlc(module, env=dict({'DIR': d, 'PID': pid, 'CASES': len(pairs)}, **(LONG if module == 'LongTrace' else {})), workers=min(workers, len(pairs)), heap='8g')
        res = {x['id']: x['bad'] for x in t.cases}
        missing = [c['id'] for c, r in pairs if c['id'] not in res]
        assert not missing, missing
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def describe(c):
    def op(o):
        if o['o'] in ('add', 'raw'):
            return f"{o['o']}({o.get('t', '')}:{o['data']['n']})"
        if o['o'] == 'rep':
            return f"{o['n']} samples({o['t']}:{o['sz']}+{o['m'] - 1} dt={o['dt']}+{o['dd']} chunk={o['c']} key={o['q']} end={o['e']})"
        return o['o'] + (f"({o['t']})" if 't' in o else '')
    return f"{c['w']} [{' '.join(t['kind'] for t in c['tracks'])}] " + ' '.join(op(o) for o in c['ops'])


def run(ctx, pid, cases, jobs=8, stall=60, per_process=None, variant='plain', module='MuxTrace'):
    res = ctx.drive(cases, jobs=jobs, stall=stall, per_process=per_process, variant=variant)

    def problems(cs, res):
        out = {}
        good = []
        for c in cs:
            r = res[c['id']]
            if 'skipped' in r:
                continue
            if 'crash' in r:
                out[c['id']] = [f'driver {r["crash"]}: {r.get("stderr", "")[-500:]}']
            else:
                good.append((c, r))
        bad = judge(ctx, pid, good, module=module)
        for c, r in good:
            b = list(bad[c['id']])
            if r['left'] and c['w'] == 'fast' and not r['err']:
                b.append('files left behind')
            if b:
                out[c['id']] = b
        return out
    bad = problems(cases, res)
    with ctx.lock:
        ctx.traces += len(cases) - len(bad)
    if not bad:
        return
    again = [c for c in cases if c['id'] in bad][:6]
    r2 = {}
    for c in again:
        r2.update(ctx.drive([c], jobs=1, stall=stall, variant=variant))
        if 'crash' in r2[c['id']]:
            again = [c]
            break
    again = [c for c in again if c['id'] in r2]
    b2 = problems(again, r2)
    if not b2:
        res = ctx.drive(cases, jobs=jobs, stall=stall, per_process=per_process, variant=variant)
        b2 = problems(cases, res)
        r2 = res
    ctx.notes['failing_histories'] = ctx.notes.get('failing_histories', 0) + len(bad)
    if not b2:
        from core import CheckError
        raise CheckError('a difference did not show again: ' + str(list(bad.items())[:1]))
    for c in cases:
        if c['id'] in b2 and len(ctx.violations) < 5:
            ctx.violation(f'{c["id"]} ({describe(c)[:400]}): ' + '; '.join(b2[c['id']][:6]),
                          {'case': c, 'result': {k: v for k, v in r2[c['id']].items() if k != 'segs' or len(json.dumps(v)) < 200000},
                           'complaints': b2[c['id']]})


def check(ctx, pid, quick, thorough, runs=(0, 0)):
    parts = quick if ctx.quick else thorough
    salt = int(pid[1:]) * 131
    from core import SEED
    futs = []
    nruns = runs[0 if ctx.quick else 1]
    seed = (SEED + salt) % 60000 + 1
    if nruns:
        long_ = ctx.pool.submit(ctx.tlc, 'Long', env=dict(LONG, CASES=nruns, PID=pid, VERIF_SEED=seed), workers=2)
        if pid == 'C01':   # the predicates on runs accept what the machine writes, and nothing else
            small = ctx.pool.submit(ctx.tlc, 'Long', env=dict(LONG, SCALE='small', CASES=5 if ctx.quick else 40, PID=pid, VERIF_SEED=seed), emit=False, workers=3, heap='6g')
    for mode, n, depth in parts:
        workers = 8 if len(parts) == 1 else 4
        futs.append((mode, ctx.pool.submit(ctx.tlc, 'Mux', env={'MODE': mode, 'CASES': n, 'DEPTH': depth, 'PID': pid,
                     'VERIF_SEED': (SEED + salt) % 60000 + 1}, workers=workers, heap='6g')))
    for mode, f in futs:
        cases = f.result().cases
        big = mode.startswith('big') or mode == 'chain'
        run(ctx, pid, cases, jobs=3 if mode in ('bigfast', 'chain') else 8, stall=120 if big else 60, per_process=4 if big else None)
        if ctx.violations:
            break
        ctx.notes['histories_' + mode] = len(cases)
        ctx.notes['operations_' + mode] = sum(len(c['ops']) for c in cases)
        for c in cases[:2]:
            ctx.sample({'id': c['id'], 'history': describe(c)[:600]})
    if nruns and not ctx.violations:
        cases = long_.result().cases
        run(ctx, pid, cases, stall=120, module='LongTrace')
        ctx.notes['histories_runs'] = len(cases)
        ctx.notes['samples_runs'] = sum(o['n'] for c in cases for o in c['ops'] if o['o'] == 'rep')
        ctx.sample({'id': cases[0]['id'], 'history': describe(cases[0])[:600]})
        if pid == 'C01':
            small.result()
    ctx.assumptions += ['the part of huge samples between their first and last bytes is zero and not compared byte for byte']


def C01(ctx):
    check(ctx, 'C01', [('small', 2, 2), ('walk', 200, 0), ('edge', 24, 0)], [('small', 2, 4), ('walk', 4000, 0), ('edge', 300, 0), ('long', 40, 0)], (30, 240))


def C02(ctx):
    check(ctx, 'C02', [('walk', 360, 0)], [('small', 2, 4), ('walk', 6000, 0), ('long', 40, 0)], (18, 240))


def C03(ctx):
    check(ctx, 'C03', [('small', 2, 2), ('walk', 240, 0)], [('small', 2, 4), ('walk', 5000, 0), ('long', 40, 0)], (18, 240))


def C04(ctx):
    check(ctx, 'C04', [('walk', 240, 0), ('edge', 32, 0)], [('small', 2, 4), ('walk', 5000, 0), ('edge', 400, 0), ('big', 100, 0)])


def C05(ctx):
    # the loop that settles the layout, by itself; one that gives up too early has to be found wrong
    n = {'TRACKS': 3, 'MAXN': 2, 'SPAN': 7} if ctx.quick else {'TRACKS': 4, 'MAXN': 3, 'SPAN': 9}
    ok = ctx.pool.submit(ctx.tlc, 'Settle', env=dict(n, LAX=99), emit=False, workers=2 if ctx.quick else 4, heap='6g')
    lax = ctx.pool.submit(ctx.tlc, 'Settle', env={'TRACKS': 3, 'MAXN': 2, 'SPAN': 7, 'LAX': 2}, must_pass=False, count=False, emit=False, workers=2)
    check(ctx, 'C05', [('big', 120, 0), ('bigfast', 60, 0), ('chain', 30, 0)], [('big', 1500, 0), ('bigfast', 300, 0), ('chain', 400, 0)])
    ok.result()
    if 'Invariant Fits is violated' not in lax.result().out:
        from core import CheckError
        raise CheckError('the specification accepts a layout that was given up: ' + lax.result().errors())


def C06(ctx):
    check(ctx, 'C06', [('walk', 360, 0), ('tracks', 2, 0)], [('walk', 6000, 0), ('tracks', 30, 0)])
