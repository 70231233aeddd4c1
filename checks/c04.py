"""C04: loading selected topics or only the header returns the same data, only less."""
from pyulog import ULog
from vlib import gen, observe, ulogfmt as uf
from vlib.harness import Check
from vlib.monfile import MonFile


def case(ctx, log=None):
    r = ctx.rng
    kw = dict(samples=(0, 60), topics=(1, 6), max_fields=4, unknown=r.random() < .1)
    if log is None and r.random() < .2:
        log, _ = gen.make_appended(r, p_torn=.4, **kw)
        ctx.count('logs with appended sections')
    else:
        log = log or gen.make(r, **kw)
    data = uf.encode(log)
    names = sorted({x[3] for x in log.records if x[0] == 'A'})
    full = uf.interpret(log)
    k = r.random()
    topics = r.sample(names, r.randint(0, len(names)))
    if k < .3 and names:      # names that are not logged, or only resemble logged ones
        topics += r.sample(['nothing', names[0] + 'x', names[0][:-1], names[-1] + '_status', '', 'sensor'],
                           r.randint(1, 3))
    if r.random() < .2:
        topics = topics + topics[:1]
    r.shuffle(topics)
    with ctx.capture() as out:
        ulog = ULog(MonFile(data), topics)
    exp = uf.interpret(log, topics=topics)
    exp.corrupt = False         # incomplete records of interrupted sections are no corruption
    want, got = observe.expected_obs(exp), observe.observe(ulog)
    sel = {key: observe.expected_dataset(d) for key, d in full.datasets.items() if key[0] in topics}
    ctx.expect(not got['repeated_datasets'], 'a dataset is reported twice')
    ctx.no_diff(observe.diff(sel, got['datasets'], 'datasets'), f'filter {topics}')
    for o in (want, got):
        o['changed'] = [(k, v) for _, k, v in o['changed']]
        o['dropouts'] = [d for _, d in o['dropouts']]
    ctx.no_diff(observe.compare(want, got, ignore=('datasets', 'last')), f'filter {topics}')
    if exp.version <= 1:
        ctx.expect(out.getvalue() == '', f'filter {topics}: warning {out.getvalue()!r}')
    dropped = len(full.datasets) - len(sel)
    ctx.count('filtered loads compared')
    ctx.count('datasets left out', dropped)
    ctx.count('datasets kept', len(sel))

    with ctx.capture() as out:
        head = ULog(MonFile(data), topics if r.random() < .3 else None, parse_header_only=True)
    want = observe.expected_obs(uf.interpret(log, header_only=True))
    want['corrupt'] = False
    ctx.no_diff(observe.compare(want, observe.observe(head)), 'header-only load')
    ctx.expect(out.getvalue() == '', f'header-only load: warning {out.getvalue()!r}')
    ctx.count('header-only loads compared')
    if full.datasets:
        ctx.nontrivial(data, topics)
        ctx.sample(f'filter {topics} on ' + gen.describe(log))


CHECK = Check(
    'C04', case, quick=42000, thorough=150000,
    rule='case = random log, a random filter list (subset, unknown, resembling or repeated names) and a header-only '
         'load; non-trivial = the full log has datasets; distinct by (bytes, filter)',
    required=['datasets left out', 'logs with appended sections', 'datasets kept', 'header-only loads compared'],
    probes=[('many', lambda ctx: case(ctx, gen.many(ctx.rng)))],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py'])
