"""C03: log times, parameter changes and dropouts carry the right timestamps."""
from pyulog import ULog
from vlib import gen, observe, ulogfmt as uf
from vlib.harness import Check
from vlib.monfile import MonFile


def case(ctx, log=None):
    r = ctx.rng
    log = log or gen.make(r, samples=(0, 60), topics=(1, 3), max_fields=3, nesting=False,
                   text='ascii', time=r.choice(['any', 'any', 'topic', 'global']))
    if r.random() < .3:         # dense mix of what gets a time
        log.records = [x for x in log.records if x[0] not in 'IMQ']
    names = sorted({x[3] for x in log.records if x[0] == 'A'})
    topics = r.sample(names, r.randrange(len(names) + 1)) if r.random() < .3 and names else None
    data = uf.encode(log)
    with ctx.capture():
        ulog = ULog(MonFile(data), topics)
    exp = uf.interpret(log, topics=topics)
    want, got = observe.expected_obs(exp), observe.observe(ulog, with_data=False)
    for aspect in ('start', 'last', 'changed', 'dropouts', 'logs', 'tagged'):
        ctx.no_diff(observe.diff(want[aspect], got[aspect], aspect), 'wrong times')
    for name in ('start', 'last'):
        value = getattr(ulog, name + '_timestamp')
        ctx.expect(value == want[name], f'{name} time is {value!r}')
    ctx.count('time-stamped parameter changes', len(exp.changed))
    ctx.count('time-stamped dropouts', len(exp.dropouts))
    ctx.count('messages', len(exp.logs) + sum(map(len, exp.tagged.values())))
    if exp.last > 1 << 63:
        ctx.count('logs with times above 2^63')
    if topics is not None:
        ctx.count('filtered loads')
    times = {t for t, _ in exp.dropouts} | {t for t, _, _ in exp.changed}
    ctx.count('distinct attribution times', len(times))
    if exp.changed or exp.dropouts:
        ctx.nontrivial(data, topics)
        ctx.sample(gen.describe(log) + f' -> dropouts {exp.dropouts[:4]}')


CHECK = Check(
    'C03', case, quick=72000, thorough=300000,
    rule='case = random interleaving of samples (increasing, equal, decreasing, extreme times), parameter changes, '
         'dropouts and messages; non-trivial = at least one parameter change or dropout was attributed; distinct by bytes',
    required=['time-stamped parameter changes', 'time-stamped dropouts', 'logs with times above 2^63', 'filtered loads'],
    probes=[('many', lambda ctx: case(ctx, gen.many(ctx.rng, samples=40000, changes=30000, messages=30000)))],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py'])
