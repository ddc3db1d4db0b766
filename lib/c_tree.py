from core import eq, SEED


def dotted(code):
    b = bytes.fromhex(code)
    return ''.join('\\xc2\\xa9' if x == 0xa9 else '\\x5c' if x == 0x5c else chr(x) for x in b)


def tree_cmp(c, r):
    d = []
    nodes = c['nodes']
    for n, (w, g) in enumerate(zip(c['rounds'], r['rounds'])):
        p = f'layout {n + 1}: '
        d += eq(p + 'size returned', [w['boxes'][0]['size']] * 2, [g['ret'], g['ret2']])
        kids = {i: [] for i in range(len(nodes) + 1)}
        for i, x in enumerate(nodes):
            kids[x['par']].append(i)
        order, lines, writes = [], [], []

        def walk(i):
            order.append(i)
            for j in kids[i + 1]:
                walk(j)
        walk(0)
        for i in order:
            b, x = w['boxes'][i], nodes[i]
            lines.append('  ' * x['depth'] + f'[{x["text"] or dotted(x["code"])}] Offset={b["off"]} Size={b["size"]}' +
                         (f' Own={b["own"]}' if b['own'] != '0' else ''))
            mark = bytes([0x80 | ((i + 1) & 0x7f)] * min(int(b['own']), 3)).hex()
            writes.append([b['off'], b['head'] + mark])
        runs = []
        for off, h in sorted(writes, key=lambda x: int(x[0])):
            if runs and int(runs[-1][0]) + len(runs[-1][1]) // 2 == int(off):
                runs[-1][1] += h
            else:
                runs.append([off, h])
        text = '\\x0a'.join(lines)
        d += eq(p + 'text', text, g['text']) + eq(p + 'text after laying out again', text, g['text2']) + \
            eq(p + 'written', runs, g['writes'])
        for i, (b, y) in enumerate(zip(w['boxes'], g['boxes'])):
            q = f'{p}box {i + 1}: '
            d += eq(q + 'size', [b['size']] * 2, [y['size'], y['isize']]) + eq(q + 'header', b['hdr'], y['hdr']) + \
                eq(q + 'path', [nodes[i]['depth'] + 1, nodes[i]['code']], [y['path'], y['last']]) + \
                eq(q + 'data at', str(int(b['off']) + b['hdr']), y['data']) + \
                eq(q + 'ends at', str(int(b['off']) + int(b['size'])), y['end'])
    return d + eq('rounds', len(c['rounds']), len(r['rounds']))


def C10(ctx):
    f = ctx.pool.submit(ctx.tlc, 'Tree', workers=4, heap='3g') if ctx.quick else \
        ctx.pool.submit(ctx.tlc, 'Tree', 'TreeDeep', workers=4, heap='8g')
    r = ctx.tlc('TreeCases', env={'CASES': 1500 if ctx.quick else 30000}, workers=6, heap='6g')
    ctx.replay(r.cases, tree_cmp, what='tree')
    ctx.sample(*r.cases[:2])
    f.result()


def header_cmp(c, r):
    if not c['ok']:
        return eq('refused', True, r.get('refused', False))
    if r.get('refused'):
        return ['a header that is complete was refused']
    d = eq('read', c['read'], r['read'])
    for i, (w, g) in enumerate(zip(c['steps'], r['steps'])):
        for f in ('at', 'ret', 'writes', 'back', 'now'):
            if f in w:
                d += eq(f'step {i + 1} {w["op"]}: {f}', w[f], g.get(f))
    return d + eq('steps', len(c['steps']), len(r['steps']))


def C11(ctx):
    r = ctx.tlc('Header', env={'CASES': 12000 if ctx.quick else 150000}, workers=8, heap='6g')
    ctx.replay(r.cases, header_cmp, what='header')
    ctx.sample(*[c for c in r.cases if c['ok']][:3])
