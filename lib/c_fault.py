"""Failing devices (C19)."""
import json, os, shutil, tempfile
from core import CheckError, SEED


def judge(ctx, cases, res):
    d = tempfile.mkdtemp(prefix='runs-', dir='/tmp')
    try:
        for n, c in enumerate(cases):
            r = res[c['id']]
            with open(f'{d}/{n + 1}.json', 'w') as f:
                json.dump({'id': c['id'], 'err': r['err'], 'groups': [[list(x) for x in g] for g in r['groups']]}, f)
        t = ctx.tlc('FaultTrace', env={'DIR': d, 'CASES': len(cases)}, workers=min(8, len(cases)), heap='8g')
        return {x['id']: x for x in t.cases}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sweeps(fast, most):
    l = [{'sweep': 'ow', 'how': h, 'perm': p, 'max': most} for h in ('short', 'refuse', 'throw') for p in (0, 1)]
    l += [{'sweep': 'ok', 'how': 'refuse', 'perm': p, 'max': most} for p in (0, 1)]
    if fast:
        l += [{'sweep': 'fw', 'how': h, 'perm': p, 'max': most} for h in ('short', 'refuse') for p in (0, 1)]
        l += [{'sweep': 'fr', 'how': h, 'perm': p, 'max': most} for h in ('refuse', 'eof') for p in (0, 1)]
        l += [{'sweep': 'fs', 'how': 'refuse', 'perm': p, 'max': most} for p in (0, 1)]
        l += [{'sweep': 'fc', 'how': 'refuse', 'perm': 1, 'max': 4}, {'sweep': 'fo', 'how': 'refuse', 'perm': 1, 'max': 4}]
        l += [{'disk': [0, 1, 2, 10, 50, 100, 300, 1000, 4095, 4096, 4097, 8192, 65536, 1048575, 1048576, 1048577, 2097152]},
              {'cut': [0, 1, 5, 40, 200, 1000, 4096, 8191, 65536, 1048575, 1048576, 1048577, 2097152, -1, -2, -100]}]
    return [dict(x, go_on=g) for x in l for g in ((0, 1) if x.get('sweep') in ('ow', 'fw') else (0,))]


def C19(ctx):
    # the specification tells writers apart that leave out a check
    lax = [ctx.pool.submit(ctx.tlc, 'Faults', must_pass=False, emit=False, workers=2, env={'FAULTS': 1, 'LAX': x})
           for x in ('write', 'lastwrite', 'tell', 'flush', 'count')]
    plans = ctx.pool.submit(ctx.tlc, 'Faults', workers=2, env={'FAULTS': 2 if ctx.quick else 3, 'LAX': 'none'})
    cases = ctx.tlc('Mux', env={'MODE': 'fault', 'CASES': 60 if ctx.quick else 600, 'DEPTH': 0, 'PID': 'C04',
                                'VERIF_SEED': (SEED + 19 * 131) % 60000 + 1}, workers=4, heap='6g').cases
    for f in lax:
        r = f.result()
        if 'Invariant Safe is violated' not in r.out:
            raise CheckError('the specification accepts a careless writer: ' + r.errors())
    plans = plans.result().cases
    single = [p for p in plans if len(p['faults']) < 2]
    more = [p for p in plans if len(p['faults']) >= 2]
    ctx.notes['failure_schedules'] = len(plans)
    cmds = []
    for n, c in enumerate(cases):
        big = sum(o['data']['n'] for o in c['ops'] if 'data' in o) > 100000
        fast = c['w'] == 'fast'
        # every schedule of one failure with every history, the others dealt out
        pl = [{'faults': p['faults'], 'go_on': p['go_on']} for p in single if p['w'] == c['w']]
        mine = [p for p in more if p['w'] == c['w']]
        pl += [{'faults': p['faults'], 'go_on': p['go_on']} for p in mine[(n // 2) % 12::12]]
        if big:
            pl = pl[n % 7::7]
        most = (60 if big else 300) if ctx.quick else (400 if big else 5000)
        cmds.append(dict(c, op='fault', plans=pl + sweeps(fast, most)))
    res = ctx.drive(cmds, per_process=2, jobs=8, stall=120)
    cmds = [c for c in cmds if 'skipped' not in res[c['id']]]
    crashed = [c for c in cmds if 'crash' in res[c['id']]]
    good = [c for c in cmds if 'crash' not in res[c['id']]]
    verdict = judge(ctx, good, res) if good else {}
    bad = crashed + [c for c in good if verdict[c['id']]['bad']]
    ctx.traces += sum(v['runs'] for v in verdict.values()) if not bad else 0
    for k in ('runs', 'fired', 'reported'):
        ctx.notes[k] = sum(v[k] for v in verdict.values())
    ctx.notes['histories'] = len(cases)
    for c in bad[:4]:
        if ctx.violations and 'crash' in res[c['id']]:
            break
        r = ctx.drive([c], jobs=1, stall=120)[c['id']]
        if 'crash' in r:
            text = [f'driver {r["crash"]}: {r.get("stderr", "")[-500:]}']
        else:
            text = judge(ctx, [c], {c['id']: r})[c['id']]['bad']
        if text:
            which = [int(t.split()[1]) for t in text if t.startswith('plan ')]
            ctx.violation(f'{c["id"]} ({c["w"]}): ' + '; '.join(text[:4]) +
                          ''.join('; plan %d: %s' % (g, json.dumps(c['plans'][g - 1])[:300]) for g in which[:2]),
                          {'case': dict(c, plans=[c['plans'][g - 1] for g in which] or c['plans']), 'complaints': text})
    if bad and not ctx.violations:
        raise CheckError('a difference did not show again: ' + bad[0]['id'])
    for c in good[:4]:
        r = res[c['id']]
        ctx.sample({'id': c['id'], 'writer': c['w'], 'device_use': r['total'], 'plan': c['plans'][len(c['plans']) // 2], 'runs': r['groups'][len(c['plans']) // 2][:5]})
    ctx.assumptions += ['data accepted by the output stream counts as written: a buffered std::ofstream that fails later, when it is flushed or closed by its owner, is outside']
