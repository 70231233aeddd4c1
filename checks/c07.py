"""C07: arbitrary damage never hangs loading and never invents or repeats samples."""
import re
import struct
from collections import Counter

from pyulog import ULog
from vlib import gen, ulogfmt as uf
from vlib.harness import Check
from vlib.monfile import MonFile


def mutate(r, data, other, spans):
    """One random change; may hit anything."""
    buf = bytearray(data)
    n = len(buf)
    k = r.choice(['flip', 'flip', 'byte', 'overwrite', 'zero', 'remove', 'repeat', 'splice', 'insert', 'header',
                  'header', 'swap', 'cut', 'offsets', 'type', 'id', 'sync', 'copy record', 'copy record', 'move'])
    pos = r.randrange(n) if r.random() < .15 else r.randrange(min(16, n - 1), n)
    ln = r.choice([1, 2, 3, r.randint(1, 20), r.randint(1, 300)])
    spans = [x for x in spans if x[1] <= n and x[1] - x[0] >= 5]
    if spans and k in ('header', 'type', 'id', 'copy record', 'remove', 'repeat', 'move') and r.random() < .8:
        s, e = r.choice(spans)
        if k == 'header':
            v = r.choice([0, 1, e - s - 3 + r.choice([-2, -1, 1, 2, 8]), r.randrange(65536), 10000, 10001, 65535,
                          r.randrange(300)]) % 65536
            buf[s:s + 2] = struct.pack('<H', v)
        elif k == 'type':
            buf[s + 2] = r.choice([0, 255, ord('D'), ord('A'), ord('S'), ord('F'), ord('Z'), r.randrange(256)])
        elif k == 'id':
            buf[s + 3:s + 5] = struct.pack('<H', r.choice([0, 1, 2, 65535, r.randrange(65536)]))
        elif k == 'copy record':
            t = r.choice(spans)[r.randrange(2)]
            buf[t:t] = buf[s:e]
        elif k == 'remove':
            del buf[s:e]
        elif k == 'move':
            rec = bytes(buf[s:e])
            del buf[s:e]
            t = min(r.choice(spans)[0], len(buf))
            buf[t:t] = rec
        else:
            buf[e:e] = buf[s:e] * r.randint(1, 3)
        return k, buf
    if k == 'flip':
        for _ in range(r.choice([1, 1, 4, 30])):
            buf[r.randrange(n)] ^= 1 << r.randrange(8)
    elif k in ('byte', 'header', 'type', 'id'):
        buf[pos] = r.randrange(256)
    elif k == 'overwrite':
        buf[pos:pos + ln] = bytes(r.randrange(256) for _ in range(min(ln, n - pos)))
    elif k == 'zero':
        buf[pos:pos + ln] = bytes(min(ln, n - pos))
    elif k in ('remove', 'move'):
        del buf[pos:pos + ln]
    elif k in ('repeat', 'copy record'):
        buf[pos:pos] = buf[pos:pos + ln] * r.randint(1, 2)
    elif k == 'splice':
        a = r.randrange(len(other))
        buf[pos:pos + ln * r.randrange(2)] = other[a:a + r.choice([ln, 2000])]
    elif k == 'insert':
        buf[pos:pos] = bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(ln))
    elif k == 'swap':
        other_pos = r.randrange(n)
        a, b = bytes(buf[pos:pos + ln]), bytes(buf[other_pos:other_pos + ln])
        if len(a) == len(b):
            buf[pos:pos + ln], buf[other_pos:other_pos + ln] = b, a
    elif k == 'cut':
        del buf[max(pos, 1):]
    elif k == 'sync':
        buf[pos:pos] = r.choice([uf.SYNC, uf.encode_record(('S',)), uf.SYNC[:5]])
    elif k == 'offsets' and n > 16 + 43 and buf[18] == ord('B'):
        buf[16 + 3 + 8] |= 1
        for i in range(r.randint(1, 3)):
            v = r.choice([0, 16, 59, n, n + 5, 1 << 63, r.randrange(n), r.choice(spans)[0] if spans else 7])
            buf[16 + 3 + 16 + 8 * i:16 + 3 + 24 + 8 * i] = struct.pack('<Q', v)
    return k, buf


def provenance(ctx, data, ulog, what):
    """Every row must be the payload of a 'D' record at some offset of the file, each offset used once."""
    candidates = {}
    for m in re.finditer(b'D', data):
        pos = m.start() - 2
        if pos < 0 or pos + 5 > len(data):
            continue
        size, _, mid = struct.unpack_from('<HBH', data, pos)
        if size >= 2 and pos + 3 + size <= len(data):
            candidates.setdefault(mid, []).append(data[pos + 5:pos + 3 + size])
    groups = {}
    total = Counter()
    for d in ulog.data_list:
        lengths = {len(a) for a in d.data.values()}
        if any(not f.field_name for f in d.field_data):
            ctx.expect(len(lengths) == 1, f'{what}: {d.name}[{d.multi_id}] has fields of different lengths')
            continue        # damaged format: the fields cannot be told by their names
        ctx.expect(len(lengths) == 1 and set(d.data) == {f.field_name for f in d.field_data},
                   f'{what}: {d.name}[{d.multi_id}] has fields of different lengths or without data')
        arrays = [d.data[f.field_name] for f in d.field_data]
        n = lengths.pop()
        size = sum(a.itemsize for a in arrays)
        rows = [b''.join(a[i].tobytes() for a in arrays) for i in range(n)]
        groups.setdefault((d.msg_id, size), Counter()).update(rows)
        total[d.msg_id] += n
        ctx.count('samples traced to their record', n)
    for (mid, size), rows in groups.items():
        have = Counter(c[:size] for c in candidates.get(mid, []) if len(c) >= size)
        for row, n in rows.items():
            ctx.expect(n <= have[row], lambda: f'{what}: a sample of message id {mid} is reported {n} times but '
                                               f'{have[row]} times in the file: {row.hex()[:80]}')
    for mid, n in total.items():
        ctx.expect(n <= len(candidates.get(mid, [])), f'{what}: more samples of id {mid} than records')


def large(r, log):
    """Damage in front of tens of kilobytes without sync markers (but maybe some before): a header that claims most of them."""
    at = r.randint(min(1, len(log.records)), len(log.records))
    keep = r.choice([[], [], [('S',)]])
    head = [x for x in log.records[:at] if x[0] != 'S' or keep] + keep
    records = head + [x for x in log.records[at:] if x[0] != 'S']
    at = len(head)
    size = r.choice([10001, 32768, 60001, 65535, r.randint(10001, 65535)])
    fill = r.choice([b'\0', b'aaa', b'\1\0?', bytes(r.randrange(256) for _ in range(1000))])
    body = (fill * 70000)[:size + r.randint(0, 5000)]
    bad = ('X', struct.pack('<HB', size, r.choice([0, 1, ord('z'), ord('D'), ord('I'), 255])) + body)
    return uf.encode(uf.Log(log.start, log.version, records[:at] + [bad] + records[at:]))


def huge_formats(r, log):
    """Formats whose expansion would be far larger than any message: large arrays, arrays of nested types, endless nesting."""
    number = lambda: r.choice([65536, 100000, 10 ** 6, 10 ** 9, 10 ** 12, 1 << 31, 1 << 64, r.randint(1000, 70000)])
    new = [('F', 'huge_array', [('uint64_t', 0, 'timestamp'), (r.choice(['uint8_t', 'float', 'char']), number(), 'x')]),
           ('F', 'huge_nested', [('uint64_t', 0, 'timestamp'), ('huge_array', number(), 'x')]),
           ('F', 'chain_1', [('uint64_t', 0, 'timestamp'), ('chain_2', r.randint(500, 60000), 'a')]),
           ('F', 'chain_2', [('chain_3', r.randint(500, 60000), 'b')]),
           ('F', 'chain_3', [r.choice([('chain_4', r.randint(500, 60000), 'c'), ('uint8_t', r.randint(500, 60000), 'c')])]),
           ('F', 'chain_4', []),
           ('F', 'endless', [('uint64_t', 0, 'timestamp'), ('endless', number() if r.random() < .5 else 0, 'x')])]
    at = next((k for k, x in enumerate(log.records) if x[0] in 'ALC'), len(log.records))
    head, body = log.records[:at] + new, list(log.records[at:])
    for name in ('huge_array', 'huge_nested', 'chain_1', 'chain_2', 'endless'):
        if r.random() < (.1 if name == 'endless' else .6):
            mid = r.choice([900, 901, r.randrange(4)])
            for rec in (('A', 0, mid, name), ('D', mid, bytes(r.randrange(256) for _ in range(r.choice([8, 20, 1000]))))):
                body.insert(r.randint(0, len(body)), rec)
    return uf.encode(uf.Log(log.start, log.version, head + body))


def load(ctx, data, what):
    f = MonFile(data, budget=8 * len(data) + 20000)
    try:
        ulog = ULog(f)
    except RecursionError:
        ulog = None
    except Exception as exc:  # pylint: disable=broad-except
        ctx.count(f'ended with {type(exc).__name__}')
        ulog = None
    ctx.count('reads and seeks observed', f.reads + f.seeks)
    if ulog is None:
        return False
    ctx.count('damaged files loaded')
    if ulog.file_corruption:
        ctx.count('reported as corrupt')
    provenance(ctx, data, ulog, what)
    return bool(ulog.data_list)


def case(ctx):
    r = ctx.rng
    kw = dict(samples=(5, 40), topics=(1, 3), max_fields=3, nesting=r.random() < .2, unknown=r.random() < .3,
              time=r.choice(['any', 'global']), text='ascii', extra_flags=False)
    if r.random() < .25:
        log, _ = gen.make_appended(r, **kw)
    else:
        log = gen.make(r, flags=r.choice(['yes', 'maybe']), **kw)
    data, spans = uf.encode_with_offsets(log)
    other = uf.encode(gen.make(r, **kw))
    if r.random() < .02:
        load(ctx, large(r, log), 'a header that claims tens of kilobytes')
        ctx.count('headers that claim tens of kilobytes')
        return
    if r.random() < .02:
        load(ctx, huge_formats(r, log), 'formats larger than any message')
        ctx.count('formats larger than any message')
        return
    for _ in range(4):
        ctx.tick()
        if r.random() < .02:
            buf = bytes(r.randrange(256) for _ in range(r.randrange(200)))
            if r.random() < .7:
                buf = uf.encode_header(log) + buf
            what = 'random bytes'
        else:
            buf, kinds = data, []
            for _ in range(r.choice([1, 1, 2, 3, 6])):
                if len(buf) < 2:
                    break
                kind, buf = mutate(r, buf, other, spans)
                kinds.append(kind)
            what = ', '.join(kinds)
            for kind in kinds:
                ctx.count('mutation ' + kind)
        buf = bytes(buf)
        if re.search(rb'\[\d{4,}[^;]{1000}', buf):
            continue
        if load(ctx, buf, what):
            ctx.nontrivial(buf)
    ctx.sample(what + ': ' + gen.describe(log))


CHECK = Check(
    'C07', case, quick=13500, thorough=120000,
    rule='case = four mutants (1-6 random mutations each) of a random log, or random bytes; non-trivial = the mutant was '
         'loaded and its samples were traced to records; distinct by bytes',
    required=['damaged files loaded', 'reported as corrupt', 'samples traced to their record', 'mutation header',
              'mutation splice', 'mutation repeat', 'mutation offsets', 'mutation sync',
              'headers that claim tens of kilobytes', 'formats larger than any message'],
    assumptions=['reads and seeks are counted by the in-memory file; no damaged formats with large arrays of fields with very long names'])
