"""C09: data appended after an interrupted log is read completely and only once."""
from pyulog import ULog
from vlib import gen, observe, ulogfmt as uf
from vlib.harness import Check
from vlib.monfile import MonFile


def case(ctx):
    r = ctx.rng
    log, starts = gen.make_appended(r, samples=(0, 30), topics=(0, 3), max_fields=4, unknown=r.random() < .2,
                                    nesting=r.random() < .3)
    if r.random() < .02:        # sections further than a megabyte into the file
        log, starts = far(r, log, starts)
        ctx.count('logs with sections behind a megabyte')
    if r.random() < .08:        # marked as appended, but there are no sections
        nothing_appended(ctx, r, log, starts)
    if r.random() < .15 and starts[0] < 1000:        # every way to tear the record before an appended section
        variants = tear_everywhere(r, log, starts)
    else:
        variants = [(log, starts)]
    for log, starts in variants:
        ctx.tick()
        data = uf.encode(log)
        exp = uf.interpret(log)
        exp.corrupt = False         # an interrupted section is no corruption
        f = MonFile(data)
        with ctx.capture():
            ulog = ULog(f)
        ctx.no_diff(observe.compare(observe.expected_obs(exp), observe.observe(ulog)),
                    f'log with {len(starts)} appended sections')
        ctx.expect(bool(ulog.has_data_appended), 'a log with appended data does not say so')
        ctx.count(f'logs with {len(starts)} appended sections')
        ctx.count('incomplete records before appended sections', sum(x[0] == 'X' for x in log.records))
        if not any(x[0] in 'ALC' for x in log.records[:starts[0]]):
            ctx.count('logs interrupted before their data section')
        first = {}
        bounds = starts + [len(log.records)]
        for k, x in enumerate(log.records):
            if x[0] == 'A' and x[2] not in first:
                first[x[2]] = k
            elif x[0] == 'A':
                ctx.count('renewed subscriptions')
            elif x[0] == 'D' and k >= starts[0] and first[x[1]] < starts[0]:
                ctx.count('appended samples of earlier subscriptions')
        appended = sum(x[0] not in 'XS' for x in log.records[bounds[0]:])
        ctx.count('appended records', appended)
        if appended:
            ctx.nontrivial(data)
    ctx.sample(f'sections at {starts} ' + gen.describe(log))


def very_far(ctx):
    """Appended sections behind 16 megabytes."""
    for _ in range(2):
        records, starts = [], [0]
        while len(records) < starts[-1] + 5:        # something in the last section
            log, starts = gen.make_appended(ctx.rng, samples=(5, 30), topics=(1, 3), max_fields=4)
            records = log.records
        log, starts = far(ctx.rng, log, starts, 1750)
        data = uf.encode(log)
        exp = uf.interpret(log)
        exp.corrupt = False
        ctx.no_diff(observe.compare(observe.expected_obs(exp), observe.observe(ULog(MonFile(data)))),
                    f'log of {len(data)} bytes with {len(starts)} appended sections')
        ctx.count('logs with sections behind 16 megabytes')


def far(r, log, starts, n=None):
    """The same log with megabytes of other records before an appended section."""
    at = r.choice(starts)
    n = n or r.randint(110, 250)
    kind = r.choice(['L', '?'])
    filler = ('L', 54, log.start, b'x' * 9900) if kind == 'L' else ('?', ord('z'), bytes(9990))
    pos = at - 1 if log.records[at - 1][0] == 'X' else at
    records = log.records[:pos] + [filler] * n + log.records[pos:]
    starts = [s + n if s >= at else s for s in starts]
    return gen.fix_offsets(uf.Log(log.start, log.version, records), starts), starts


def nothing_appended(ctx, r, log, starts):
    """The flag is set but all offsets are zero: there is one section."""
    first = [x for x in log.records[:starts[0]] if x[0] != 'X']
    b = first[0]
    one = uf.Log(log.start, log.version, [('B', b[1], b[2], [0, 0, 0])] + first[1:])
    exp = uf.interpret(one)
    ulog = ULog(MonFile(uf.encode(one)))
    ctx.no_diff(observe.compare(observe.expected_obs(exp), observe.observe(ulog)), 'log with no appended section')
    ctx.expect(bool(ulog.has_data_appended), 'a log marked as appended does not say so')
    ctx.count('logs marked as appended without sections')


def tear_everywhere(r, log, starts):
    """The same log with the record before the first appended section cut off at every byte."""
    k = starts[0]
    records = list(log.records)
    if records[k - 1][0] == 'X':
        del records[k - 1]
        starts = [s - 1 for s in starts]
        k -= 1
    victims = [x for x in records if x[0] in 'DLCOIMP'] or [('O', 5)]
    full = uf.encode_record(r.choice(victims))
    out = []
    for n in range(1, min(len(full), 80)):
        new = records[:k] + [('X', full[:n])] + records[k:]
        st = [s + 1 for s in starts]
        out.append((gen.fix_offsets(uf.Log(log.start, log.version, new), st), st))
    return out


CHECK = Check(
    'C09', case, quick=10500, thorough=100000, level='fault_enumeration',
    probes=[('very-far', very_far)],
    rule='case = random log with 1-3 appended sections, earlier sections ending in an incomplete record (in a part of the '
         'cases cut at every byte); non-trivial = something was appended; distinct by bytes',
    required=['logs with 1 appended sections', 'logs with 2 appended sections', 'logs with 3 appended sections',
              'incomplete records before appended sections', 'logs marked as appended without sections',
              'logs with sections behind a megabyte', 'logs interrupted before their data section', 'renewed subscriptions',
              'appended samples of earlier subscriptions'],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py'])
