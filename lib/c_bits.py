from core import eq


def bitio_cmp(c, r):
    return eq('bits reported by each write', [o[4] for o in c['w']], r['w']) + \
        eq('bytes written', c['hex'], r['hex']) + \
        eq('values read', [[o[3] if o[4] >= 0 else o[3], o[4]] for o in c['r']], r['r'])


def C15(ctx):
    r = ctx.tlc('BitIO', env={'CASES': 4000 if ctx.quick else 60000}, workers=6, heap='6g')
    ctx.replay(r.cases, bitio_cmp, what='bit stream')
    ctx.sample(*r.cases[:2], *r.cases[-3:])
    ctx.notes['behaviours'] = len(r.cases)


def strings_cmp(c, r):
    return eq('bits reported by each write', [o[3] for o in c['w']], r['w']) + \
        eq('bytes written', c['hex'], r['hex']) + \
        eq('values read and bits consumed', [[o[2], o[3]] for o in c['r']], r['r']) + \
        eq('announced sizes', [1, 4, 8], r['uvsize'])


def C16(ctx):
    r = ctx.tlc('Strings', env={'CASES': 6000 if ctx.quick else 30000}, workers=6, heap='6g')
    ctx.replay(r.cases, strings_cmp, what='string stream')
    ctx.sample(*r.cases[:4])
    ctx.notes['behaviours'] = len(r.cases)
