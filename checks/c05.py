"""C05: a log cut off at any byte still yields everything logged before the cut."""
from pyulog import ULog
from vlib import gen, observe, ulogfmt as uf
from vlib.harness import Check
from vlib.monfile import MonFile


def case(ctx):
    r = ctx.rng
    log = gen.make(r, samples=(0, 25), topics=(1, 2), max_fields=4, nesting=r.random() < .2,
                   unknown=r.random() < .3, huge=.04)
    # small: all offsets are enumerated (but see below)
    log.records = [x for x in log.records if x[0] != '?' or len(x[2]) < 40]
    data, spans = uf.encode_with_offsets(log)
    ctx.count('logs')
    k = 0
    want = None
    offsets = range(16, len(data) + 1)
    if len(data) > 6000:
        # one very large record or very many: a part of the offsets, in each kind of record
        some = {r.randint(16, len(data)) for _ in range(60)}
        for a, b in [spans[-1]] + r.sample(spans, min(15, len(spans))) + sorted(spans, key=lambda x: x[0] - x[1])[:1]:
            some |= {a, a + 1, a + 3, a + 4, b - 1, b} | {x for x in (a + 10000, a + 10003, a + 32767) if x < b}
        offsets = sorted(some)
        ctx.count('large logs')
    for cut in offsets:
        ctx.tick()
        while k < len(spans) and spans[k][1] <= cut:
            k += 1
            want = None
        if want is None:
            want = observe.expected_obs(uf.interpret(uf.Log(log.start, log.version, log.records[:k])))
        ulog = ULog(MonFile(data[:cut]))
        ctx.no_diff(observe.compare(want, observe.observe(ulog)),
                    f'cut at byte {cut} of {len(data)}, in record {k} '
                    f'({log.records[k] if k < len(spans) else "end"!r:.80})')
        ctx.count('cuts')
        if k < len(spans):
            off = cut - spans[k][0]
            kind = 'between records' if off == 0 else 'inside a record header' if off < 3 else 'inside a record payload'
            ctx.count('cuts ' + kind)
            first = next((i for i, x in enumerate(log.records) if x[0] in 'ALC'), len(spans))
            ctx.count('cuts in the definitions' if k < first else 'cuts in the data section')
        ctx.nontrivial(data, cut)
    bad = [data[:n] for n in range(16)]
    for pos in range(7):
        bad.append(data[:pos] + bytes([data[pos] ^ (1 << r.randrange(8))]) + data[pos + 1:])
    bad += [b'', bytes(200), data[1:], data[16:] + data]
    for b in bad:
        try:
            with ctx.capture():
                ULog(MonFile(b))
        except Exception:  # pylint: disable=broad-except
            ctx.count('files refused')
            continue
        ctx.fail(f'a file of {len(b)} bytes starting with {b[:16]!r} was accepted')
    ctx.sample(f'{len(data)} bytes, all {len(data) - 15} offsets; ' + gen.describe(log))


CHECK = Check(
    'C05', case, quick=450, thorough=3000, level='fault_enumeration',
    rule='case = random small log, cut at every byte offset from the end of its header on; every (log, offset) is one '
         'non-trivial execution compared with the reference of the complete records',
    required=['cuts inside a record header', 'cuts inside a record payload', 'cuts between records',
              'cuts in the definitions', 'cuts in the data section', 'files refused', 'large logs'],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py'])
