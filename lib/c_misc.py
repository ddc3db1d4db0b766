from core import eq


def flags_cmp(c, r):
    d = []
    for i, (s, o) in enumerate(zip(c['steps'], r['steps'])):
        n = f'step {i} {s["op"]} {s["arg"]}: '
        d += eq(n + 'flags', s['flags'], o['flags']) + eq(n + 'version', s['ver'], o['ver'])
        if s['op'] == 'check' and s['has'] != 2:
            d += eq(n + 'check', s['has'], o['has'])
        if s['op'] == 'read':
            d += eq(n + 'bits', 32, o['bits'])
    d += eq('steps', len(c['steps']), len(r['steps'])) + eq('has version and flags', c['full'], r['full'])
    if c['full']:
        last = c['steps'][-1]
        d += eq('text', c['text'], r['text']) + eq('wire', c['wire'], r['wire']) + eq('bits', 32, r['bits']) + \
            eq('read bits', 32, r['rbits']) + eq('read back', f'{last["flags"]}/{last["ver"]}', r['back']) + \
            eq('size', 4, r['base_size'])
    return d


def C20(ctx):
    r = ctx.tlc('Flags', env={'CASES': 3000 if ctx.quick else 20000}, workers=6)
    ctx.replay(r.cases, flags_cmp, what='flag history')
    ctx.sample(r.cases[0], r.cases[-1])


RAW = '0001726177ff80'
RAWTEXT = '(unsupported) Data=[0x0, 0x1, 0x72, 0x61, 0x77, 0xff, 0x80]'
ANYTYPE = {'IlstMeta', 'PixelAspectRatio', 'VisualSampleEntry', 'AudioSampleEntry', 'AVCDecoderConfiguration'}


def look_cmp(what, want, got, std):
    d = eq(what + ' answers', len(want), len(got))
    for w, g in zip(want, got):
        n = f'{what} code {w["code"]}: '
        if not g['kind_ok']:
            d.append(n + f'kind expected {w["kind"]}, got {g["kind"]}')
        if not g['kind2_ok']:
            d.append(n + 'kind of the box made from a header differs')
        d += eq(n + 'supported', w['sup'], g['sup']) + eq(n + 'versions', w['vers'], g['vers']) + \
            eq(n + 'supports versions', w['ok'], g['ok']) + eq(n + 'size from header', 100, g['size2'])
        if w['kind'] == 'Unsupported':
            d += eq(n + 'raw', [RAW, 7, 56, 56, RAWTEXT],
                    [g['raw'], g['rawsize'], g['rbits'], g['wbits'], g['text']])
        elif std or w['kind'] in ANYTYPE:
            d += eq(n + 'type reported', w['code'], g['type']) + eq(n + 'type reported (header)', w['code'], g['type2'])
    return d


def registry_cmp(c, r):
    if c['op'] == 'boxtype':
        want = c['text'] or c['raw'].encode().hex()
        d = eq('text', want, r['text']) + eq('accepted lengths', c['lens'], r['lens']) + eq('any', '00000000', r['any'])
        for w, g in zip(c['others'], r['others']):
            n = f'{c["code"]} vs {w["code"]}: '
            d += eq(n + 'order', w['cmp'], g['cmp']) + eq(n + 'match', w['match'], g['match']) + \
                eq(n + 'match (swapped)', w['match'], g['match2']) + eq(n + 'same value by every constructor', True, g['same']) + \
                eq(n + 'differs', w['cmp'] != 0, g['neq'])
        return d
    d = look_cmp('final', c['look'], r['look'], c['std'])
    for i, (w, g) in enumerate(zip(c['steps'], r['steps'])):
        d += look_cmp(f'after registration {i + 1}', w['look'], g, c['std'])
    return d + eq('steps', len(c['steps']), len(r['steps']))


def C21(ctx):
    r = ctx.tlc('Registry', env={'CASES': 300 if ctx.quick else 4000}, workers=6)
    ctx.replay(r.cases, registry_cmp, what='registry history')
    ctx.sample(*[c for c in r.cases if c['id'] in ('types1', 'types13')])
    ctx.notes['codes_looked_up'] = sum(len(c.get('look', [])) for c in r.cases)


def time_cmp(c, r):
    return eq('text', c['text'], r['text']) + eq('1904 time', c['unix'], r['unix']) + \
        eq('64-bit bytes', c['hex'], r['hex']) + eq('32-bit bytes', c['hex32'], r['hex32']) + \
        eq('64-bit value', [c['n'], c['n']], [r['back'], r['back_b']]) + \
        eq('32-bit value', [c['n32'], c['n32']], [r['back32'], r['back32_b']])


def C22(ctx):
    r = ctx.tlc('TimeCases', env={'CASES': 2000 if ctx.quick else 20000}, workers=6)
    ctx.replay(r.cases, time_cmp, what='time/byte order')
    ctx.sample(*r.cases[:3], *r.cases[-2:])


def tables_cmp(c, r):
    return eq('duration entries', bytes(c['stts']).hex(), r['stts']) + \
        eq('samples-per-chunk entries', bytes(c['stsc']).hex(), r['stsc']) + \
        eq('chunk box', c['chunkbox'], r['chunkbox']) + eq('chunk offsets', bytes(c['chunks']).hex(), r['chunks'])


def C23(ctx):
    r = ctx.tlc('Tables', env={'CASES': 5000 if ctx.quick else 40000}, workers=6)
    ctx.replay(r.cases, tables_cmp, what='table')
    ctx.sample(*r.cases[:2], *r.cases[-2:])
