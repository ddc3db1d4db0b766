"""Codec properties: one family of behaviours (BoxCases.tla), four questions."""
from core import eq, SEED

DECODED = ('fresh', 'twice', 'inside', 'dirty')


def cmd(c):
    c = dict(c)
    if 'big' in c:
        g = c.pop('big')
        inner = g.get('inner')
        c['fields'] = dict(c['fields'], **{g['list']: [dict(g['item'], **{inner: [90] * g['n']})] if inner else [g['item']] * g['n']})
    if c['op'] != 'box':
        return c
    if not c['build']:
        del c['fields']
    if not c['dirty']:
        del c['prev']
    return c


def decodes(c, r):
    for n in DECODED:
        if n != 'dirty' or c['dirty']:
            if n == 'twice' and 'error' in r['fresh']:
                continue
            yield n, r[n]
    if c['build'] and c['code'] != '756e6b6e':
        yield 'own bytes', r['own']


def big(c, r):
    g = c['big']
    want = g['head'] + g['each'] * g['n'] + g['tail']
    return want, len(want) // 2


def encode_cmp(c, r):
    if c['op'] == 'boxrefuse':
        return eq('refused', True, r['refused'])
    if c['op'] == 'boxbig':
        want, n = big(c, r)
        if want != r['hex']:
            i = next((i for i, (x, y) in enumerate(zip(want, r['hex'])) if x != y), 0)
            return [f'encoding of {c["big"]["n"]} entries differs at byte {i // 2}: expected {want[i // 2 * 2:][:16]}, got {r["hex"][i // 2 * 2:][:16]}']
        return eq('bits', n * 8, r['bits'])
    if not c['build']:
        return []
    return eq('kind made', True, r['made_kind']) + eq('type made', c['code'] if c['kind'] != 'Unsupported' else r['made_type'], r['made_type']) + eq('encoded', c['hex'], r['made']['hex']) + \
        eq('bits written', len(r['made']['hex']) * 4, r['made']['bits']) + \
        eq('encoded a second time', r['made'], r['made2'])


def decode_cmp(c, r):
    if c['op'] == 'boxrefuse':
        return []
    if c['op'] == 'boxbig':
        if 'failed' in r:
            return ['not decoded: ' + r['failed']]
        return eq('bits read', len(r['hex']) * 4, r['rbits']) + eq('encoded again', True, r['same'])
    d = eq('kind', True, r['fresh_kind'])
    text = r['made']['text'] if c['build'] and c['freshtext'] else None
    for n, x in decodes(c, r):
        if 'error' in x:
            d.append(f'{n}: {x["error"]}')
            continue
        own = n == 'own bytes'
        size = len(r['made']['hex'] if own else c['hex']) // 2
        a = x['again']
        d += eq(n + ': bits read', size * 8, x['bits']) + eq(n + ': bytes consumed', size, x['consumed']) + \
            eq(n + ': encoded again', r['made']['hex'] if own else c.get('canon', c['hex']), a['hex'])
        if text is None:
            text = a['text']
        d += eq(n + ': text', text, a['text'])
    return d


def size_cmp(c, r):
    d = []
    if c['op'] == 'boxrefuse':
        return d
    if c['op'] == 'boxbig':
        n = big(c, r)[1]
        return eq('size', n, r['size']) + eq('bytes', n, len(r['hex']) // 2) + eq('bits', n * 8, r['bits']) + \
            ([] if 'failed' in r else eq('size of the decoded box', n, r['rsize']) + eq('bits of the decoded box', n * 8, r['wbits']))
    if c['op'] == 'boxnul':
        m = r['made']
        return eq('size', c['size'], m['size']) + eq('bytes', m['size'], len(m['hex']) // 2) + eq('bits', m['size'] * 8, m['bits'])
    if c['op'] == 'boxodd':
        m = r.get('made')
        return eq('bytes', m['size'], len(m['hex']) // 2) + eq('bits', m['size'] * 8, m['bits']) if m else []
    if c['build']:
        m = r['made']
        d += eq('made: size', c['size'], m['size']) + eq('made: bytes', m['size'], len(m['hex']) // 2) + eq('made: bits', m['size'] * 8, m['bits'])
    for n, x in decodes(c, r):
        if 'error' not in x:
            a = x['again']
            d += eq(n + ': bytes', a['size'], len(a['hex']) // 2) + eq(n + ': bits', a['size'] * 8, a['bits'])
    return d


def text_cmp(c, r):
    d = []
    if c['build'] and c['freshtext']:
        d += eq('made: text', c['text'], r['made']['text'])
    if 'error' not in r['fresh'] and r['fresh']['again']['hex'] == c.get('canon', c['hex']):
        d += eq('decoded: text', c['text'], r['fresh']['again']['text'])
    return d


def run(ctx, compare, k):
    n = 60 if ctx.quick else 1200
    r = ctx.tlc('BoxCases', env={'CASES': n, 'VERIF_SEED': SEED * 10 + k}, workers=8, heap='6g')
    skip = {encode_cmp: {'boxnul', 'boxodd'}, decode_cmp: {'boxnul', 'boxodd', 'boxrefuse'}, size_cmp: {'boxrefuse'},
            text_cmp: {'boxnul', 'boxodd', 'boxrefuse', 'boxbig'}}[compare]
    cases = [c for c in r.cases if c['op'] not in skip]
    ctx.replay(cases, compare, what='box', cmd=cmd)
    ctx.sample(*[c for c in r.cases if c['id'] in ('b1x3', 'b11x8', 'b60x12', 'b45x30')][:4])
    ctx.notes['tables_beyond_16_bits'] = sum(c['op'] == 'boxbig' for c in cases)
    ctx.notes['kinds'] = len({c['kind'] for c in r.cases})
    ctx.notes['codes'] = len({c['code'] for c in r.cases})


def C07(ctx):
    run(ctx, encode_cmp, 1)


def C08(ctx):
    run(ctx, decode_cmp, 2)


def C09(ctx):
    run(ctx, size_cmp, 3)


def C14(ctx):
    run(ctx, text_cmp, 4)
