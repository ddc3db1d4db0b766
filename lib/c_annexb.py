from core import eq


def find_cmp(c, r):
    d = eq('error', c['err'], r['err'])
    return d + (eq('units', c['found'], r['found']) if not c['err'] else [])


def track_cmp(c, r):
    d = eq('errors', [a['err'] for a in c['adds']], r['errs']) + eq('samples', c['samples'], r['samples'])
    if not c['refused']:
        for k, v in c['boxes'].items():
            d += eq(k, v, r['boxes'][k])
    return d


def big_cmp(c, r):
    d = eq('units', c['found'], r['found']) + eq('refused', c['refused'], r['refused'])
    if not d and not c['refused']:
        d = eq('samples', c['samples'], r['samples'])
        for k, v in c['boxes'].items():
            d += eq(k, v, r['boxes'][k])
    return d


def C17(ctx):
    asan = ctx.build('asan')
    b = ctx.pool.submit(ctx.tlc, 'BigNal', env={'CASES': 130 if ctx.quick else 1500}, workers=4)
    f = ctx.pool.submit(ctx.tlc, 'AnnexB', env={'SMALL': 12 if ctx.quick else 14, 'CASES': 0}, workers=4)
    h = ctx.pool.submit(ctx.tlc, 'H264Track', env={'SMALL': 0, 'CASES': 1500 if ctx.quick else 20000}, workers=4)
    small = f.result().cases
    long = ctx.tlc('AnnexB', env={'SMALL': 0, 'CASES': 2000 if ctx.quick else 20000}, workers=4).cases
    for n, cs in (('s', small), ('l', long)):
        for i, c in enumerate(cs):
            c['id'] = f'{n}{i}'
    cmd = lambda c: dict(c, found=None)
    ctx.replay(small + long, find_cmp, cmd=cmd, what='byte stream')
    cases = h.result().cases
    tcmd = lambda c: dict(c, boxes=None, samples=None)
    ctx.replay(cases, track_cmp, cmd=tcmd, what='track history')
    big = b.result().cases
    bcmd = lambda c: {k: c[k] for k in ('id', 'op', 'runs')}
    ctx.replay(big, big_cmp, cmd=bcmd, what='large units')
    ctx.notes['large_unit_streams'] = len(big)
    ctx.notes['largest_stream'] = max(sum(n for _, n in c['runs']) for c in big)
    asan.result()
    ctx.replay(long + small[:len(small) // 4], find_cmp, cmd=cmd, variant='asan', what='byte stream (address sanitizer)')
    ctx.replay(cases[:len(cases) // 4], track_cmp, cmd=tcmd, variant='asan', what='track history (address sanitizer)')
    ctx.notes['streams_small_scope'] = len(small)
    ctx.notes['streams_seeded'] = len(long)
    ctx.notes['track_histories'] = len(cases)
    ctx.notes['refused_at_the_end'] = sum(c['refused'] for c in cases)
    ctx.sample(small[0], small[-1], *cases[:2])
