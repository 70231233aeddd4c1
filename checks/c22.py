"""C22: extracting one topic returns exactly its samples in the window."""
from vlib import gen, tools, ulogfmt as uf
from vlib.harness import Check

from pyulog.extract_message import extract_message


def records(ctx, got, ds, start, end, what):
    want = [i for i, t in enumerate(ds.timestamps()) if tools.inside(t, start, end)]
    ctx.expect(len(got) == len(want), f'{what}: {len(got)} records instead of {len(want)} of {len(ds.rows)}')
    cols = tools.columns(ds)
    names = [c[0] for c in cols]
    for rec, i in zip(got, want):
        ctx.expect(list(rec) == names, lambda: f'{what}: fields {list(rec)} instead of {names}')
        for name, typ, values in cols:
            ctx.expect(tools.same_scalar(typ, values[i], rec[name]),
                       f'{what}, sample {i}, {name} ({typ}): {rec[name]!r} instead of {values[i]!r}')
    ctx.count('records compared', len(want))
    ctx.count('values compared', len(want) * len(cols))
    if any(t in ((start or -1) * 10 ** 6, (end or -1) * 10 ** 6) for t in ds.timestamps()):
        ctx.count('windows that begin or end at a sample')
    if want and want[-1] - want[0] >= len(want):
        ctx.count('windows that leave out samples in between')
    if start is not None or end is not None:
        ctx.count('windows without records' if not want else 'windows with all records' if len(want) == len(ds.rows)
                  else 'windows with some records')


def refused(ctx, path, message, why):
    try:
        got = extract_message(path, message, disable_str_exceptions=True)
    except AttributeError:
        ctx.count('refused: ' + why)
    else:
        ctx.fail(f'extracting {message!r} ({why}) gave {len(got)} records')


def case(ctx, log=None, window=None):
    r = ctx.rng
    if window is None:
        window = log is not None or r.random() < .7
    log = log or gen.make(r, samples=(0, 60), topics=(1, 4), max_fields=7, nesting=r.random() < .4,
                   time=r.choice(['topic', 'global', 'any']) if window else 'mixed', ts_limit=1 << 53 if window else 1 << 64,
                   multi_ids=(0, 0, 0, 1, 2))
    if window and len(log.records) < 1000 and r.random() < .8:
        log = tools.spread_times(r, log, (1 << 53) - 1)
    exp = uf.interpret(log)
    path = tools.write(ctx.dir(), r.choice(['log.ulg', 'x']), log)
    names = {n for n, m in exp.datasets}
    for (name, multi), ds in exp.datasets.items():
        if multi != 0:
            continue
        start, end = tools.window(r, exp) if window else (None, None)
        kw = {'disable_str_exceptions': True}
        if start is not None:
            kw['time_s'] = start
        if end is not None:
            kw['time_e'] = end
        got = extract_message(path, name, **kw)
        records(ctx, got, ds, start, end, f'{name} in {start} {end}')
        ctx.count('topics extracted')
        if (name, 1) in exp.datasets:
            ctx.count('topics with several instances')
        for other in (name + '_more', name[:-1], 'more_' + name, name[1:], name + ',' + name, name + ' '):
            if other and other not in names and r.random() < .3:
                refused(ctx, path, other, 'part of or more than a logged name')
    refused(ctx, path, 'no_such_topic', 'unknown')
    silent = {x[3] for x in log.records if x[0] == 'A'} - names
    for name in sorted(silent)[:1]:
        refused(ctx, path, name, 'no samples')
    for name in sorted(names - {n for n, m in exp.datasets if m == 0}):
        refused(ctx, path, name, 'other instances only')
    bad = r.choice([None, 7, [next(iter(names))] if names else [], b'sensor', ('a',), {'a': 1}, 1.5])
    refused(ctx, path, bad, 'no text')
    ctx.nontrivial(uf.encode(log))
    ctx.sample(gen.describe(log))


CHECK = Check(
    'C22', case, quick=18000, thorough=80000,
    rule='case = a random log; each topic extracted in a random window, and topics that do not exist; distinct by file bytes',
    required=['windows that leave out samples in between', 'windows that begin or end at a sample', 'topics extracted', 'topics with several instances', 'records compared', 'windows without records',
              'windows with some records', 'windows with all records', 'refused: unknown', 'refused: no text',
              'refused: no samples', 'refused: other instances only', 'refused: part of or more than a logged name'],
    probes=[('many', lambda ctx: case(ctx, gen.many(ctx.rng, topics=8))),
            ('many-whole', lambda ctx: case(ctx, gen.many(ctx.rng, topics=8), False))],
    assumptions=['windows only for times below 2^53',
                 'the first instance is the one with number 0'])
