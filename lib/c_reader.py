"""Reading files: reports (C12), damage (C13), QuickTime variants (C24)."""
import json, os, subprocess, tempfile, shutil
import build as B
from core import eq, SEED, CheckError


def read_cmp(c, r):
    d = []
    if r['kind'] != 'R':
        return [f'refused: {r.get("what")}']
    if c['text'] != r['text']:
        a, b = c['text'].split('\\x0a'), r['text'].split('\\x0a')
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        d += eq(f'line {i + 1}', (a + ['(end)'])[i], (b + ['(end)'])[i])
    d += eq('same when read again', True, r['same']) + eq('same beside another reader', True, r['beside'])
    for i, (w, g) in enumerate(zip(c['raws'], r['raws'])):
        n = len(w['hex']) // 2
        d += eq(f'entry {i + 1} in wave', {'bits': 8 * n, 'size': n, 'wbits': 8 * n, 'hex': w['hex']}, g)
    return d


def stats(ctx, cases):
    ctx.notes['files'] = len(cases)
    ctx.notes['bytes_of_files'] = sum(len(c['hex']) // 2 for c in cases)
    ctx.notes['boxes'] = sum(c['boxes'] for c in cases)


def C12(ctx):
    odd = ctx.pool.submit(ctx.tlc, 'Reader', env={'CASES': 10 if ctx.quick else 60, 'MODE': 'shape'}, workers=3, heap='6g')
    mux = ctx.pool.submit(ctx.tlc, 'Mux', env={'MODE': 'walk', 'CASES': 100 if ctx.quick else 1500, 'DEPTH': 0, 'PID': 'C04', 'VERIF_SEED': SEED + 5}, workers=2, heap='3g')
    r = ctx.tlc('Reader', env={'CASES': 700 if ctx.quick else 12000, 'MODE': 'iso'}, workers=6, heap='6g')
    ctx.replay(r.cases, read_cmp, what='file')
    if not ctx.violations:
        movies(ctx, mux.result())
    shapes = odd.result().cases
    ctx.replay(shapes, read_cmp, what='file of unusual shape')
    ctx.notes['files_of_unusual_shape'] = len(shapes)
    ctx.notes['most_boxes_in_a_file'] = max(c['boxes'] for c in shapes)
    stats(ctx, r.cases)
    ctx.sample(*r.cases[:2])
    tool(ctx, r.cases[:150 if ctx.quick else 1500])


def movies(ctx, hist):
    """Finished movies: what the machine reads out of the recorded file, the real reader must print."""
    res = ctx.drive(hist.cases)
    d = tempfile.mkdtemp(prefix='given-', dir='/tmp')
    files = []
    try:
        for c in hist.cases:
            r = res[c['id']]
            if 'crash' in r or 'skipped' in r or r['err']:
                continue         # for the checks of movies to say
            n = int.from_bytes(bytes(r['len']), 'big')
            if n > 40000:
                continue
            b = bytearray(n)
            for s in r['segs']:
                o = int.from_bytes(bytes(s['o']), 'big')
                b[o:o + len(s['b'])] = bytes(s['b'])
            files.append({'id': c['id'], 'op': 'read', 'hex': b.hex(), 'raws': []})
            with open(f'{d}/{len(files)}.json', 'w') as f:
                json.dump({'id': c['id'], 'b': list(b)}, f)
        if len(files) < len(hist.cases) // 2:
            ctx.notes['movies_too_few'] = len(files)
            return
        told = {x['id']: x for x in ctx.tlc('Reader', env={'CASES': len(files), 'MODE': 'given', 'DIR': d}, workers=6, heap='6g').cases}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.replay([dict(f, **told[f['id']]) for f in files if told[f['id']]['done']], read_cmp, cmd=lambda c: {k: c[k] for k in ('id', 'op', 'hex', 'raws')},
               what='finished movie')
    ctx.notes['finished_movies'] = len(files)
    ctx.notes['boxes_in_movies'] = sum(x['boxes'] for x in told.values())


def tool(ctx, cases):
    """The command line tool prints the same report of a real file."""
    exe = B.tool()
    d = tempfile.mkdtemp(prefix='dump-', dir='/tmp')

    def one(c):
        p = os.path.join(d, c['id'] + '.mp4')
        with open(p, 'wb') as f:
            f.write(bytes.fromhex(c['hex']))
        try:
            # whatever it logs goes elsewhere
            level = (['-l', 'trace'], [], ['--log-level', 'off'], ['-l', 'DEBUG'])[sum(c['id'].encode()) % 4]
            q = subprocess.run([exe, *level, 'dump', *(['-f'] if level else ['--file']), p], capture_output=True, timeout=60)
            out = ''.join(chr(x) if 32 <= x <= 126 and x != 0x5c else '\\x%02x' % x for x in q.stdout)
            return eq('exit status', 0, q.returncode) + eq('report', c['text'], out)
        except subprocess.TimeoutExpired:
            return ['no answer within 60 s']
        finally:
            os.unlink(p)
    try:
        bad = [(c, d_) for c, d_ in zip(cases, ctx.pool.map(one, cases)) if d_]
        for c, _ in bad[:3]:
            again = one(c)
            if again:
                ctx.violation(f'mp4-tool dump {c["id"]}: ' + '; '.join(again)[:800], {'case': c, 'differences': again, 'tool': True})
        ctx.traces += len(cases) - len(bad)
        ctx.notes['files_through_mp4_tool'] = len(cases)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def C24(ctx):
    r = ctx.tlc('Reader', env={'CASES': 600 if ctx.quick else 10000, 'MODE': 'qt'}, workers=8, heap='6g')
    ctx.replay(r.cases, read_cmp, what='file')
    stats(ctx, r.cases)
    ctx.notes['raw_entries_in_wave'] = sum(len(c['raws']) for c in r.cases)
    ctx.sample(*r.cases[:2])


ROOM, PER_BYTE, SECONDS = 4 << 20, 3000, 20


def damage_cmd(c):
    n = len(c['hex']) // 2
    return dict(c, room=ROOM + PER_BYTE * n, seconds=SECONDS, at_ends=None, text=None)


def damage_cmp(c, r):
    d = eq('report of the whole file', c['text'], r['ok'])
    d += [f'altered: {o}' for o in r['odd'][:5]]
    n = len(c['hex']) // 2
    ends = [0] + c['ends']
    for i, x in enumerate(r['cuts']):
        if i in ends:
            if x != 'R':
                d.append(f'cut between boxes at {i}: outcome {x}')
        elif c['to_end'] and i >= ([0] + c['ends'])[-2]:
            pass                     # the last box takes whatever is there
        elif x != 'E':
            d.append(f'cut inside a box at {i} of {n}: outcome {x}')
    d += eq('reports when cut between boxes', c['at_ends'][:-1], r['texts'])
    return d


def C13(ctx):
    asan = ctx.build('asan')
    deep = ctx.pool.submit(ctx.tlc, 'Reader', env={'CASES': 7 if ctx.quick else 28, 'MODE': 'deep'}, workers=1)
    r = ctx.tlc('Reader', env={'CASES': 130 if ctx.quick else 1500, 'MODE': 'hit'}, workers=8, heap='6g')
    cases = [c for c in r.cases if c['hex']]
    res = ctx.replay(cases, damage_cmp, cmd=damage_cmd, what='damaged file', stall=120, per_process=2)
    if ctx.violations:
        return
    for k in ('reads', 'reports', 'errors'):
        ctx.notes['damaged_' + k] = sum(x.get(k, 0) for x in res.values())
    ctx.notes['largest_heap'] = max(x.get('peak', 0) for x in res.values())
    ctx.notes['longest_cpu_s'] = max(x.get('longest', 0) for x in res.values())
    kf1(ctx, cases)
    pits = deep.result().cases
    ctx.replay(pits, lambda c, r: [f'deep nesting: {o}' for o in r['odd'][:5]], stall=150, per_process=1, what='deeply nested file',
               cmd=lambda c: dict(damage_cmd(c), ends=[], kf1=[], runs=[]))
    ctx.notes['deepest_nesting'] = max(c['boxes'] for c in pits)
    small = sorted(cases, key=lambda c: len(c['hex']))[:len(cases) // 3 if ctx.quick else len(cases)]
    asan.result()
    res = ctx.replay(small, damage_cmp, cmd=damage_cmd, what='damaged file (address sanitizer)', variant='asan', stall=300, per_process=2)
    ctx.notes['damaged_reads_with_asan'] = sum(x.get('reads', 0) for x in res.values())
    stats(ctx, cases)
    ctx.sample(*cases[:2])


def kf1(ctx, cases):
    """Known finding KF1: a run without fields per sample takes any sample count at its word."""
    cs = [dict(damage_cmd(c), only={'pos': c['kf1'][0], 'hex': 'ffffffff'}, id='k' + c['id']) for c in cases if c['kf1']][:2]
    if not cs:
        return
    res = ctx.drive(cs, stall=300)
    for c in cs:
        if 'crash' in res[c['id']] or res[c['id']]['odd']:
            print('KNOWN-FINDING: property=C13 KF1 trun without per-sample fields: sample_count 0xffffffff makes the reader allocate one '
                  'entry per claimed sample')
            break
