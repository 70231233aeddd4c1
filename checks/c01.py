"""C01: every logged sample is decoded exactly once, bit-exact and in file order."""
import io
import os
import struct

from pyulog import ULog
from vlib import gen, observe, ulogfmt as uf
from vlib.harness import Check, REPO
from vlib.monfile import MonFile

SAMPLES = ['sample.ulg', 'sample_appended_multiple.ulg', 'sample_log_small.ulg',
           'sample_logging_tagged_and_default_params.ulg', 'sample_px4_events.ulg']


def check_datasets(ctx, exp, ulog):
    want = observe.expected_obs(exp)['datasets']
    got = observe.observe(ulog)
    ctx.expect(not got['repeated_datasets'], f'datasets reported more than once: {got["repeated_datasets"]}')
    ctx.no_diff(observe.diff(want, got['datasets'], 'datasets'), 'decoded samples differ from the logged ones')
    names = {n for n, _ in want}
    for (name, multi) in want:
        d = ulog.get_dataset(name, multi)
        ctx.expect((d.name, d.multi_id) == (name, multi), f'lookup of {name} {multi} gave {d.name} {d.multi_id}')
        ctx.expect(any(d is e for e in ulog.data_list), f'lookup of {name} {multi} gave something not in the list')
        if multi == 0:
            ctx.expect(ulog.get_dataset(name) is d, f'lookup of {name} without instance gave another one')
    missing = [(n, m) for n in sorted(names) for m in (0, 1, 4, 255) if (n, m) not in want]
    missing += [(n + x, 0) for n in sorted(names) for x in ('x', '_') if (n + x, 0) not in want] + [('', 0)]
    for name, multi in missing[:12]:
        try:
            d = ulog.get_dataset(name, multi)
        except (KeyError, IndexError, ValueError):
            ctx.count('failed lookups')
            continue
        ctx.fail(f'lookup of the unknown {name!r} {multi} gave {d.name} {d.multi_id}')


def sample_file(ctx, name):
    path = os.path.join(REPO, 'test', name)
    if not os.path.exists(path):
        return
    with open(path, 'rb') as f:
        data = f.read()
    log, _ = uf.decode(data)
    exp = uf.interpret(log)
    ulog = ULog(io.BytesIO(data))
    check_datasets(ctx, exp, ulog)
    ctx.count('records of sample logs', len(log.records))


def case(ctx):
    r = ctx.rng
    big = r.random() < .03
    log = gen.make(r, samples=(300, 1500) if big else (0, 80), topics=(1, 16 if r.random() < .1 else 6), removal=False, extreme=r.random() < .15,
                   max_fields=r.choice([2, 7, 14]))
    data = uf.encode(log)
    exp = uf.interpret(log)
    f = MonFile(data)
    ulog = ULog(f)
    check_datasets(ctx, exp, ulog)
    samples = sum(len(d.rows) for d in exp.datasets.values())
    ctx.count('samples compared', samples)
    ctx.count('field arrays compared', sum(len(d.fields) for d in exp.datasets.values()))
    ctx.count('datasets compared', len(exp.datasets))
    ctx.count('bytes read by the library', f.bytes_read)
    for d in exp.datasets.values():
        if len(d.fields) != len(d.all_fields):
            ctx.count('datasets with trailing padding')
        if '.' in ''.join(n for n, _ in d.fields):
            ctx.count('datasets with nested fields')
        if d.fields[0][0] != 'timestamp':
            ctx.count('datasets whose timestamp is not first')
    if samples:
        ctx.nontrivial(data)
        ctx.sample(gen.describe(log))


def large_topic(ctx, count, width):
    """A topic whose samples take several megabytes, between samples of another one."""
    r = ctx.rng
    log = uf.Log(7, 1, [('F', 'big', [('uint64_t', 0, 'timestamp'), ('uint32_t', width, 'v')]),
                        ('F', 'small', [('uint16_t', 0, 'v'), ('uint64_t', 0, 'timestamp')]),
                        ('A', 0, 3, 'big'), ('A', 1, 4, 'small')])
    block = r.randbytes(4 * width)
    for i in range(count):
        raw = struct.pack('<Q', 1000 + i) + struct.pack('<I', i) + block[4:]
        log.records.append(('D', 3, raw))
        if i % 100 == 0:
            log.records.append(('D', 4, struct.pack('<HQ', i % 65536, 1000 + i)))
    data = uf.encode(log)
    ulog = ULog(MonFile(data))
    for name, raws in (('big', [x[2] for x in log.records if x[0] == 'D' and x[1] == 3]),
                       ('small', [x[2] for x in log.records if x[0] == 'D' and x[1] == 4])):
        found = [d for d in ulog.data_list if d.name == name]
        ctx.expect(len(found) == 1, f'{name} reported {len(found)} times')
        cols = [found[0].data[f.field_name] for f in found[0].field_data]
        size = sum(c.dtype.itemsize for c in cols)
        ctx.expect(size == len(raws[0]) and all(len(c) == len(raws) for c in cols),
                   f'{name}: {[len(c) for c in cols][:3]} samples of {size} bytes instead of {len(raws)} of {len(raws[0])}')
        want = b''.join(raws)
        pos = 0
        for c, f in zip(cols, found[0].field_data):
            n = c.dtype.itemsize
            got = c.tobytes()
            for i in (range(len(raws)) if width < 10 or pos < 12 else range(0, len(raws), 97)):
                if got[i * n:i * n + n] != want[i * size + pos:i * size + pos + n]:
                    ctx.fail(f'{name} {f.field_name}: sample {i} of {len(raws)} differs')
            pos += n
    ctx.count('bytes of large topics', len(data))


CHECK = Check(
    'C01', case, quick=10000, thorough=120000,
    rule='case = random well-formed log (formats, nesting, instances, interleaving, values) encoded by the independent '
         'encoder; non-trivial = at least one sample was decoded and compared; distinct by file bytes',
    required=['samples compared', 'datasets with trailing padding', 'datasets with nested fields',
              'datasets whose timestamp is not first', 'failed lookups'],
    probes=[('sample-' + n, lambda ctx, n=n: sample_file(ctx, n)) for n in SAMPLES] + [
        ('largest-samples', lambda ctx: large_topic(ctx, 5, 16380)),
        ('large-samples', lambda ctx: large_topic(ctx, 4400, 1000)),
        ('many-samples', lambda ctx: large_topic(ctx, 130000, 2))],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py'])
