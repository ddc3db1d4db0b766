"""Reading and writing boxes on streams that fail (C26)."""
from core import CheckError, SEED
from c_fault import judge
from c_box import cmd as box_cmd

READ = [('rd', h, p) for h in ('eof', 'throw') for p in (0, 1)]
WRITE = [('ow', h, p) for h in ('refuse', 'short', 'throw') for p in (0, 1)]
PLACE = [('ok', 'refuse', p) for p in (0, 1)]
USES = {'file': READ + PLACE, 'decode': READ + PLACE, 'encode': WRITE + PLACE, 'tree': WRITE + PLACE, 'find': PLACE,
        'take': READ + PLACE, 'give': WRITE}


def C26(ctx):
    lax = [ctx.pool.submit(ctx.tlc, 'Streams', must_pass=False, emit=False, workers=1, env={'FAULTS': 2, 'LAX': x})
           for x in ('head', 'body', 'pos', 'tell', 'wr')]
    plans = ctx.pool.submit(ctx.tlc, 'Streams', workers=1, env={'FAULTS': 2, 'LAX': 'none'})
    q = ctx.quick
    files = ctx.pool.submit(ctx.tlc, 'Reader', workers=4, heap='4g', env={'CASES': 160 if q else 3000, 'MODE': 'io', 'VERIF_SEED': SEED + 26})
    boxes = ctx.pool.submit(ctx.tlc, 'BoxCases', workers=4, heap='4g', env={'CASES': 12 if q else 200, 'VERIF_SEED': SEED * 10 + 26})
    trees = ctx.tlc('TreeCases', workers=2, heap='3g', env={'CASES': 120 if q else 2000, 'VERIF_SEED': SEED + 27}).cases
    files, boxes = files.result().cases, boxes.result().cases
    for f in lax:
        r = f.result()
        if 'Invariant Safe is violated' not in r.out:
            raise CheckError('the specification accepts careless streams: ' + r.errors())
    plans = plans.result().cases
    ctx.notes['failure_schedules'] = len(plans)
    jobs = [('file', c) for c in files if c['hex']]
    for c in boxes:
        if c['op'] != 'box':
            continue
        c = box_cmd(c)
        c.pop('prev', None)
        jobs.append(('decode', dict(c, op='sdecode', id='d' + c['id'])))
        if 'fields' in c:
            jobs.append(('encode', dict(c, op='sencode', id='e' + c['id'])))
    for c in trees:
        c = dict(c, rounds=c['rounds'][:1], op='stree')
        jobs += [('tree', dict(c, what='tree', id='w' + c['id'])), ('find', dict(c, what='find', id='f' + c['id']))]
    for n, c in enumerate(files[:40 if q else 400]):
        h = c['hex'][:400]
        jobs += [(w, {'id': w + c['id'], 'op': 'sbits', 'what': w, 'hex': h, 'from': n}) for w in ('take', 'give') if h]
    cmds = []
    for job, c in jobs:
        most = {'file': 250, 'decode': 60, 'encode': 60, 'tree': 200, 'find': 60, 'take': 200, 'give': 200}[job] * (1 if q else 20)
        pl = [{'faults': p['faults']} for p in plans if p['job'] == job and p['faults']]
        cmds.append(dict(c, plans=pl + [{'sweep': d, 'how': h, 'perm': p, 'max': most} for d, h, p in USES[job]]))
    res = ctx.drive(cmds, jobs=8, stall=120)
    cmds = [c for c in cmds if 'skipped' not in res[c['id']]]
    crashed = [c for c in cmds if 'groups' not in res[c['id']]]
    good = [c for c in cmds if 'groups' in res[c['id']]]
    verdict = judge(ctx, good, res) if good else {}
    bad = crashed + [c for c in good if verdict[c['id']]['bad']]
    for k in ('runs', 'fired', 'reported'):
        ctx.notes[k] = sum(v[k] for v in verdict.values())
    ctx.traces += ctx.notes['runs'] if not bad else 0
    for job in USES:
        ctx.notes[job + '_jobs'] = sum(j == job for j, _ in jobs)
    for c in bad[:4]:
        if ctx.violations and c in crashed:
            break
        r = ctx.drive([c], jobs=1, stall=120)[c['id']]
        text = judge(ctx, [c], {c['id']: r})[c['id']]['bad'] if 'groups' in r else [f'no answer: {str(r)[:600]}']
        if text:
            which = [int(t.split()[1]) for t in text if t.startswith('plan ')]
            ctx.violation(f'{c["op"]} {c["id"]}: ' + '; '.join(text[:4]) +
                          ''.join('; plan %d: %s' % (g, str(c['plans'][g - 1])[:300]) for g in which[:2]),
                          {'case': dict(c, plans=[c['plans'][g - 1] for g in which] or c['plans']), 'complaints': text})
    if bad and not ctx.violations:
        raise CheckError('a difference did not show again: ' + bad[0]['id'])
    for op in ('sfile', 'sdecode', 'sencode', 'stree', 'sbits'):
        c = next(c for c in good if c['op'] == op)
        ctx.sample({'id': c['id'], 'op': op, 'use': res[c['id']]['total'], 'plan': c['plans'][3], 'runs': res[c['id']]['groups'][3], 'sweep': res[c['id']]['groups'][-1]})
