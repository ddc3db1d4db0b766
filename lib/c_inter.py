"""Several parts at work at the same time (C25)."""
import os
from core import CheckError, SEED
import c_mux


def groups(cases, per):
    """One command per group of schedules of the same parts."""
    by = {}
    for c in cases:
        by.setdefault(c['k'], []).append(c)
    out = []
    for k, cs in sorted(by.items()):
        first = next(c for c in cs if c['parts'])
        for i in range(0, len(cs), per):
            part = cs[i:i + per]
            out.append({'id': f'k{k}_{i}', 'op': 'inter', 'parts': first['parts'], 'bits': first['bits'],
                        'scheds': [c['sched'] for c in part]})
    return out


def problems(ctx, cmds, res):
    bad, pairs, owner = {}, [], {}
    for c in cmds:
        r = res[c['id']]
        if 'skipped' in r:
            continue
        if 'crash' in r:
            bad[c['id']] = [f'driver {r["crash"]}: {r.get("stderr", "")[-1500:]}']
            continue
        b = []
        for x in r['bad']:
            who = ', '.join(f'part {p["part"]} ({c["parts"][p["part"] - 1]["kind"]})' for p in x['parts'])
            b.append(f'schedule {c["scheds"][x["sched"]]}: {who} not what it is alone')
        if c['bits'] != r['bits']:
            b.append(f'bit writers alone: expected {c["bits"]}, got {r["bits"]}')
        b += list(r.get('threads_wrong', []))
        if b:
            bad[c['id']] = b
        for x in r['last']:
            p = c['parts'][x['part'] - 1]
            if p['kind'] == 'movie':
                i = f'{c["id"]}.{x["part"]}'
                owner[i] = (c['id'], x['part'])
                pairs.append((dict(p['m'], id=i), x))
    for i, complaints in c_mux.judge(ctx, 'all', pairs).items():
        if complaints:
            cid, part = owner[i]
            bad.setdefault(cid, []).append(f'part {part} at the end: ' + '; '.join(map(str, complaints[:4])))
    return bad


def weight(c):
    """Bytes of media data, many times over where they are read again (bit by bit)."""
    w = [sum(o['data']['n'] for o in p['m']['ops'] if 'data' in o) if p['kind'] == 'movie' else 0 for p in c['parts']]
    return sum(w) + 50 * sum(w[p['of'] - 1] for p in c['parts'] if p['kind'] == 'reader')


def run(ctx, cmds, variant='plain', jobs=8, per_process=1):
    env = {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'}
    go = lambda l, j, n: ctx.drive(l, variant=variant, jobs=j, stall=120, env=env, per_process=n)
    res = go(cmds, jobs, per_process)
    bad = problems(ctx, cmds, res)
    ctx.traces += sum(len(c['scheds']) for c in cmds if c['id'] not in bad)
    if bad:
        again = [c for c in cmds if c['id'] in bad][:4]
        b2, r2 = {}, {}
        for _ in range(3 if any('threads' in c for c in again) else 1):
            r2 = go(again, 2, 1)
            b2 = problems(ctx, again, r2)
            if b2:
                break
        for c in again:
            if c['id'] in b2:
                ctx.violation(f'{c["id"]} ({variant}): ' + '; '.join(map(str, b2[c['id']][:5])),
                              {'case': c, 'variant': variant, 'result': {k: v for k, v in r2[c['id']].items() if k != 'last'}})
        if not b2:
            raise CheckError('a difference did not show again: ' + str(list(bad.items())[:1]))
    return res


def C25(ctx):
    tsan = ctx.build('tsan')
    short = ctx.pool.submit(ctx.tlc, 'Inter', env={'MODE': 'all', 'CASES': 5, 'DEPTH': 0, 'PID': 'all'}, workers=4, heap='6g')
    long = ctx.pool.submit(ctx.tlc, 'Inter', env={'MODE': 'walk', 'CASES': 60 if ctx.quick else 1500, 'DEPTH': 0, 'PID': 'all',
                           'VERIF_SEED': (SEED + 25 * 131) % 60000 + 1}, workers=4, heap='6g')
    short, long = short.result().cases, long.result().cases
    ctx.notes['schedules_all'] = len(short)
    ctx.notes['schedules_walk'] = len(long)
    run(ctx, groups(short, 600))
    if ctx.violations:
        return
    walk = groups(long, 1)
    run(ctx, walk, per_process=4)
    ctx.notes['parts_walk'] = sum(len(c['parts']) for c in walk)
    if ctx.violations:
        return
    # the same parts on threads
    n = 8 if ctx.quick else 200
    light = [c for c in walk if weight(c) < 4000000]
    some = [dict(c, id='t' + c['id'], threads=4, repeats=6 if ctx.quick else 40) for c in light[:n]]
    r = run(ctx, some, jobs=2)
    if ctx.violations:
        return
    tsan.result()
    more = [dict(c, id='s' + c['id'], threads=4, repeats=2 if ctx.quick else 6) for c in light[:n]]
    more += [dict(groups(short, 10 ** 9)[i], scheds=[c['scheds'][0]], id='p' + c['id'], threads=4, repeats=4) for i, c in enumerate(groups(short, 10 ** 9))]
    r.update(run(ctx, more, variant='tsan', jobs=2))
    ctx.notes['runs_on_threads'] = sum(x.get('threads_done', 0) for x in r.values())
    for c in walk[:3]:
        ctx.sample({'id': c['id'], 'parts': [p['kind'] for p in c['parts']], 'schedule': ''.join(str(x) for x in c['scheds'][0])})
    ctx.assumptions += ['each part uses objects of its own (streams, tracks, writers, readers)']
