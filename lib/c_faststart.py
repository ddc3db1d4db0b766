from core import eq


def cmp(c, r):
    d = eq('steps', len(c['steps']), len(r['steps']))
    for i, (s, o) in enumerate(zip(c['steps'], r['steps'])):
        n = f'step {i + 1} ({s["op"]} {s["arg"]} of writer {s["w"]}): '
        d += eq(n + 'error', s['err'], o['err']) + eq(n + 'writers with a file', s['files'], o['files']) + eq(n + 'odd', [], o['odd'])
        if s['out']:
            d += eq(n + 'all bytes copied', 1, o['out'])
    return d


def C18(ctx):
    cmd = lambda c: dict(c, steps=[{k: s[k] for k in ('w', 'op', 'arg')} for s in c['steps']])
    f = ctx.pool.submit(ctx.tlc, 'FastFile', env={'LEN': 6 if ctx.quick else 7, 'CASES': 0}, workers=4)
    s = ctx.tlc('FastFile', env={'LEN': 0, 'CASES': 500 if ctx.quick else 6000}, workers=4).cases
    ctx.replay(s, cmp, cmd=cmd, what='history', per_process=200)
    a = f.result().cases
    for i, c in enumerate(a):
        c['id'] = f's{i}'
    ctx.replay(a, cmp, cmd=cmd, what='history', per_process=200)   # writers that never copy keep a descriptor
    ctx.notes['histories_small_scope'] = len(a)
    ctx.notes['histories_seeded'] = len(s)
    ctx.sample(*s[:2], a[0], a[-1])
