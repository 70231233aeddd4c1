"""C26: GPS dump extraction reproduces the raw byte streams."""
import os
import struct

from vlib import gen, tools, ulogfmt as uf
from vlib.harness import Check


def make(ctx, count=None):
    r = ctx.rng
    n = r.choice([79, 79, 10, 1, 127])
    fields = [('uint64_t', 0, 'timestamp')]
    instance = r.choice([True, True, False])
    rest = [('uint8_t', 0, 'len'), ('uint8_t', n, 'data')]
    if instance:
        rest.append(('uint8_t', 0, 'instance'))
    if r.random() < .5:
        r.shuffle(rest)
    if r.random() < .3:
        rest.insert(r.randrange(len(rest) + 1), ('uint32_t', 0, 'device_id'))
    fields += rest
    if r.random() < .3:
        fields.append(('uint8_t', r.randint(1, 7), '_padding0'))
    bad = None
    if not count and r.random() < .1:
        bad = r.choice(['len', 'data'])
        fields = [(t, s, 'other' if f == bad else f) for t, s, f in fields]
    streams = {}
    mid = r.choice([0, 5, 65535])
    others = gen.Gen(r, gen.Cfg(topics=(0, 2), samples=(0, 10), max_fields=3, nesting=False))
    base = others.log()
    if any(x[0] == 'A' and x[2] == mid for x in base.records):
        mid = 77 if not any(x[0] == 'A' and x[2] == 77 for x in base.records) else 78
    recs = []
    steps = r.choice([[0, 1, 1000], [0], [1]])
    t = r.choice([1000, 0])
    for _ in range(count or r.choice([0, 1, 5, 40])):
        inst = r.choice([0, 0, 1, 1, 2, 255])
        out = bool(r.randrange(2))
        size = r.choice([0, 1, n, n, r.randint(0, n)])
        data = bytes(r.choice([0, 10, 13, 255, r.randrange(256)]) for _ in range(size))
        filler = bytes(r.randrange(256) for _ in range(n - size))
        raw = b''
        for typ, count, name in fields:
            if name == 'timestamp':
                raw += struct.pack('<Q', t)
            elif name in ('len', 'other') and count == 0:
                raw += bytes([size | (128 if out else 0)])
            elif name == 'instance':
                raw += bytes([inst])
            elif name == 'device_id':
                raw += bytes(4)
            elif name == '_padding0':
                if r.random() < .5:
                    raw += bytes(count)
            else:
                raw += data + filler
        recs.append(('D', mid, raw))
        key = (inst if instance else 0, out)
        streams.setdefault(key, bytearray()).extend(data)
        t += r.choice(steps)
    log = base
    first = [k for k, x in enumerate(log.records) if x[0] in 'ALC']
    at = first[0] if first else len(log.records)
    has = bool(count) or r.random() < .9
    if has:
        body = log.records[at:]
        slots = sorted(r.randint(0, len(body)) for _ in recs)
        if count:
            body += recs
        else:
            for pos, rec in reversed(list(zip(slots, recs))):
                body.insert(pos, rec)
        log.records = log.records[:at] + [('F', 'gps_dump', fields), ('A', 0, mid, 'gps_dump')] + body
    return log, streams, bad, has and bool(recs), instance


def case(ctx, count=None):
    r = ctx.rng
    log, streams, bad, present, instance = make(ctx, count)
    folder = ctx.dir()
    name = r.choice(['log.ulg', 'LOG.ULG', 'log', 'a.b.ulg', 'flight.1', 'x.ulg.ulg', 'a.ulg.b'])
    path = tools.write(folder, name, log)
    target = os.path.join(folder, 'out')
    cwd = os.path.join(folder, 'cwd')
    os.mkdir(target)
    os.mkdir(cwd)
    wanted = r.choice([0, 0, 1, 2, 255])
    argv = [path, '-x']
    to_dir = r.random() < .5
    if to_dir:
        argv += [r.choice(['-o', '--output']), target]
    if wanted or r.random() < .5:
        argv += [r.choice(['-i', '--instance']), str(wanted)]
    if r.random() < .05:        # somewhere that does not exist
        try:
            tools.run_tool('extract_gps_dump', path, '-x', '-o', os.path.join(folder, 'nowhere'))
        except tools.Exit:
            ctx.count('missing directories refused')
        else:
            ctx.fail('no error for an output directory that does not exist')
    old = os.getcwd()
    os.chdir(cwd)
    failed = False
    try:
        tools.run_tool('extract_gps_dump', *argv)
    except tools.Exit:
        failed = True
    finally:
        os.chdir(old)
    base = name[:-4] if name.lower().endswith('.ulg') else name
    want = {}
    if present and not bad:
        want = {f'{base}_{wanted}_to_device.dat': streams.get((wanted, True), b''),
                f'{base}_{wanted}_from_device.dat': streams.get((wanted, False), b'')}
        ctx.expect(not failed, 'the extraction failed')
        ctx.count('extractions')
        ctx.count('bytes compared', sum(map(len, want.values())))
        if not instance:
            ctx.count('logs without an instance field')
        if any(k[0] != wanted for k in streams):
            ctx.count('logs with other instances')
    else:
        ctx.count('logs with an unsuitable format' if present else 'logs without GPS communication')
    got = {}
    used, other = (target, cwd) if to_dir else (cwd, target)
    for file in os.listdir(used):
        with open(os.path.join(used, file), 'rb') as f:
            got[file] = f.read()
    ctx.expect(not os.listdir(other) and sorted(os.listdir(folder)) == sorted([name, 'out', 'cwd']),
               f'files at the wrong place: {os.listdir(other)} {os.listdir(folder)}')
    ctx.expect(sorted(got) == sorted(want), f'files {sorted(got)} instead of {sorted(want)}')
    for file, data in want.items():
        ctx.expect(got[file] == data, lambda: f'{file}: {len(got[file])} bytes {got[file][:60]!r} instead of {len(data)} '
                   f'bytes {data[:60]!r}')
    ctx.nontrivial(uf.encode(log), argv[1:])
    ctx.sample(f'instance {wanted}: ' + ', '.join(f'{k}: {len(v)} bytes' for k, v in want.items()))


CHECK = Check(
    'C26', case, quick=6000, thorough=60000,
    rule='case = one extraction for one instance from a log with random GPS traffic of several instances in both '
         'directions; distinct by file bytes and arguments',
    required=['missing directories refused', 'extractions', 'bytes compared', 'logs without an instance field', 'logs with other instances',
              'logs with an unsuitable format', 'logs without GPS communication'],
    probes=[('many', lambda ctx: case(ctx, 70000))],
    assumptions=['records never claim more bytes than the data array has', 'one dataset of topic gps_dump per log'])
