"""C02: definitions and metadata are decoded completely and correctly."""
from pyulog import ULog
from vlib import gen, observe, ulogfmt as uf
from vlib.harness import Check
from vlib.monfile import MonFile


def texts(log):
    """All byte strings of a log that are decoded as text."""
    for rec in log.records:
        if rec[0] in 'LC':
            yield rec[-1]
        elif rec[0] == 'I' and rec[1].startswith('char['):
            yield rec[3]
        elif rec[0] == 'M' and rec[2].startswith('char['):
            yield rec[4]
        elif rec[0] in 'PQ' and rec[-3].startswith('char['):
            yield rec[-1]


def valid_utf8(raw):
    try:
        raw.decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


def no_times(obs):
    obs = dict(obs)
    obs['changed'] = [(k, v) for _, k, v in obs['changed']]
    obs['dropouts'] = [d for _, d in obs['dropouts']]
    return obs


def case(ctx, log=None):
    r = ctx.rng
    params = ['int32_t', 'float'] if r.random() < .6 else gen.ALL_TYPES
    log = log or gen.make(r, samples=(0, 60), topics=(0, 3), max_fields=3, param_types=params,
                   multi_types=r.sample(gen.ALL_TYPES + ['char[', 'uint8_t[', 'float['], 5))
    if len(log.records) < 1000 and r.random() < .1:         # a very long text / array
        raw = bytes(r.randrange(32, 127) for _ in range(r.choice([255, 256, 300, 5000, 20000])))
        log.records.insert(1, r.choice([('I', f'char[{len(raw)}]', 'long', raw), ('I', f'uint8_t[{len(raw)}]', 'long', raw),
                                        ('M', 0, f'char[{len(raw)}]', 'longm', raw)]))
    if log.records and log.records[0][0] == 'B' and r.random() < .3:
        log.records[0] = ('B', log.records[0][1], [1] + [0] * 7, [0, 0, 0])
    data = uf.encode(log)
    invalid = [t for t in texts(log) if not valid_utf8(t)]
    strict = r.random() < .4
    for disable in ([False, True] if strict else [True]):
        try:
            ulog = ULog(MonFile(data), disable_str_exceptions=disable)
        except ValueError as exc:       # UnicodeDecodeError
            ctx.expect(not disable and invalid, f'loading failed: {exc!r}')
            ctx.count('strict loads refused')
            continue
        if invalid and not disable:
            ctx.fail(f'strict string handling accepted invalid UTF-8 {invalid[0]!r}')
        exp = uf.interpret(log, errors='ignore')
        want, got = no_times(observe.expected_obs(exp)), no_times(observe.observe(ulog, with_data=False))
        ctx.no_diff(observe.compare(want, got, ignore=('datasets', 'repeated_datasets', 'start', 'last', 'corrupt')),
                    'metadata differs from what was logged')
        for i, key in enumerate(['default', 'system default']):
            for k in exp.defaults[i]:
                ctx.count(f'{key} parameters compared')
        ctx.count('information values compared', len(exp.info))
        ctx.count('multi-part lists compared', sum(map(len, exp.multi.values())))
        ctx.count('initial parameters compared', len(exp.init))
        ctx.count('parameter changes compared', len(exp.changed))
        ctx.count('messages compared', len(exp.logs) + sum(map(len, exp.tagged.values())))
        ctx.count('dropouts compared', len(exp.dropouts))
        ctx.count('formats compared', len(exp.formats))
        if invalid:
            ctx.count('logs with invalid UTF-8')
        if not disable:
            ctx.count('strict loads compared')
    ctx.nontrivial(data)
    ctx.sample(gen.describe(log))


CHECK = Check(
    'C02', case, quick=40000, thorough=200000,
    rule='case = random log rich in metadata of all value types, in both sections, loaded with lenient and sometimes '
         'strict string handling; non-trivial = loaded and compared; distinct by file bytes',
    required=['strict loads refused', 'strict loads compared', 'information values compared',
              'multi-part lists compared', 'parameter changes compared', 'default parameters compared',
              'dropouts compared', 'logs with invalid UTF-8'],
    probes=[('many', lambda ctx: case(ctx, gen.many(ctx.rng, samples=2000, changes=40000, messages=9000)))],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py'])
