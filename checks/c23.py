"""C23: parameter export lists every parameter with its exact values."""
import os

from vlib import gen, tools, ulogfmt as uf
from vlib.harness import Check


def value_of(canon):
    """('i', n) or ('f', bytes) -> (type, value)"""
    import struct
    kind, v = canon
    if kind == 'i':
        return 'int64_t', v
    return 'double', float('nan') if v == 'nan' else struct.unpack('<d', v)[0]


def same(canon, text):
    return tools.same_number(*value_of(canon), text)


def parse_csv(ctx, out, delimiter, stamped):
    """-> [(name, [values], [times] or None)]"""
    lines = out.split('\n')
    ctx.expect(lines[-1] == '', f'the output ends with {lines[-1]!r}')
    lines = lines[:-1]
    res = []
    if not stamped:
        for line in lines:
            cells = line.split(delimiter)
            res.append((cells[0], cells[1:], None))
        return res
    ctx.expect(len(lines) % 2 == 0, f'{len(lines)} lines with timestamps')
    for a, b in zip(lines[::2], lines[1::2]):
        cells, times = a.split(delimiter), b.split(delimiter)
        ctx.expect(times[0] == 'timestamp' and len(times) == len(cells), f'time line {b!r} of {a!r}')
        res.append((cells[0], cells[1:], times[1:]))
    return res


def parse_octave(ctx, out):
    res = []
    lines = out.split('\n')
    k = 0
    while k < len(lines):
        if not lines[k].strip():
            k += 1
            continue
        ctx.expect(lines[k].startswith('# name '), f'line {lines[k]!r} instead of a name')
        name = lines[k][7:]
        typ = lines[k + 1]
        if typ == '# type: scalar':
            values = lines[k + 2].split()
            ctx.expect(len(values) == 1, f'{name}: scalar {values}')
            k += 3
        else:
            ctx.expect(typ == '# type: matrix' and lines[k + 2] == '# rows: 1' and lines[k + 3].startswith('# columns: '),
                       f'{name}: header {lines[k:k + 4]}')
            values = lines[k + 4].split()
            ctx.expect(int(lines[k + 3][11:]) == len(values), f'{name}: {lines[k + 3]} but {len(values)} values')
            k += 5
        res.append((name, values, None))
    return res


def case(ctx, log=None):
    r = ctx.rng
    log = log or gen.make(r, samples=(0, 40), topics=(0, 3), max_fields=3, nesting=False, param_nan=r.random() < .3,
                   time=r.choice(['global', 'any']))
    if len(log.records) < 1000 and r.random() < .6:     # more changes
        extra = gen.Gen(r, gen.Cfg(param_nan=False))
        at = [k for k, x in enumerate(log.records) if x[0] in 'ALC']
        for _ in range(r.randint(0, 15)):
            if at:
                log.records.insert(r.randint(at[0] + 1, len(log.records)), extra.param())
    if r.random() < .04:    # one parameter over and over
        names = [x for x in log.records if x[0] == 'P']
        at = [k for k, x in enumerate(log.records) if x[0] in 'ALC']
        if names and at:
            p = r.choice(names)
            for _ in range(r.randint(60, 300)):
                log.records.insert(r.randint(at[0] + 1, len(log.records)), p[:3] + (bytes([r.randrange(256), 0, 0, 60]),))
            ctx.count('parameters with dozens of changes')
    folder = ctx.dir()
    path = tools.write(folder, 'log.ulg', log)
    for _ in range(3):
        fmt = r.choice(['csv', 'csv', 'csv', 'octave', 'qgc'])
        initial, stamped = r.random() < .3, r.random() < .4
        default = r.choice([None, None, 'system', 'current_setup'])
        delimiter = r.choice([',', ',', ';', '\t', '|', ' '])
        argv = [path, '--ignore']
        if fmt != 'csv' or r.random() < .3:
            argv += [r.choice(['-f', '--format']), fmt]
        if initial:
            argv += [r.choice(['-i', '--initial'])]
        if stamped:
            argv += [r.choice(['-t', '--timestamps'])]
        if default:
            argv += [r.choice(['-d', '--default']), default]
        if delimiter != ',':
            argv += [r.choice(['-l', '--delimiter']), delimiter]
        exp = uf.interpret(log)
        what = ' '.join(argv[1:])
        if default and not exp.compat[0] & 1:
            try:
                out = tools.run_tool('params', *argv)
            except (AssertionError, ValueError, KeyError, tools.Exit):
                ctx.count('logs without defaults refused')
            else:
                ctx.fail(f'{what}: no failure without defaults in the log: {out[:200]!r}')
            continue
        if r.random() < .05:
            choice = r.choice(['both', 'System', 'current', ''])
            try:
                out = tools.run_tool('params', *argv, '--default', choice)
            except (AssertionError, ValueError, KeyError, tools.Exit):
                ctx.count('unknown selections refused')
            else:
                ctx.fail(f'{what}: no failure with --default {choice!r}: {out[:200]!r}')
        out = tools.run_tool('params', *argv)
        file = os.path.join(folder, 'out.txt')
        shown = tools.run_tool('params', path, file, *argv[1:])
        with open(file, encoding='utf-8', newline='') as f:
            stored = f.read()
        ctx.expect(stored == out, f'{what}: the file differs from standard output: {stored[:200]!r} {out[:200]!r}')
        ctx.expect(shown == '', f'{what}: printed {shown[:100]!r} beside the file')
        changes = exp.changed
        params = exp.init
        if default:
            params = exp.defaults[0 if default == 'system' else 1]
            initial = True
        if fmt == 'qgc':
            got = []
            for line in out.split('\n')[:-1]:
                cells = line.split('\t')
                ctx.expect(len(cells) == 5 and cells[:2] == ['1', '1'], f'{what}: line {line!r}')
                got.append((cells[2], [cells[3]], None))
                kind = '9' if params.get(cells[2], ('i',))[0] == 'f' else '6'
                ctx.expect(cells[4] == kind, f'{what}: type code in {line!r}')
        elif fmt == 'octave':
            got = parse_octave(ctx, out)
        else:
            got = parse_csv(ctx, out, delimiter, stamped)
        ctx.expect([g[0] for g in got] == sorted(params), f'{what}: parameters {[g[0] for g in got]} instead of {sorted(params)}')
        per_name = {}
        for t, n, v in changes:
            per_name.setdefault(n, []).append((t, v))
        for name, values, times in got:
            want, wtimes = [params[name]], [0]
            if not initial and fmt != 'qgc':
                want += [v for _, v in per_name.get(name, ())]
                wtimes += [t for t, _ in per_name.get(name, ())]
            ctx.expect(len(want) == len(values) and all(same(w, v) for w, v in zip(want, values)),
                       f'{what}: {name} is {values} instead of {[value_of(w)[1] for w in want]}')
            if times is not None:
                ctx.expect(times == [str(t) for t in wtimes], f'{what}: {name} changed at {times} instead of {wtimes}')
                ctx.count('lists of times')
            ctx.count('values compared', len(want))
            if len(want) > 1:
                ctx.count(f'parameters with changes, {fmt}')
        ctx.count(f'exports, {fmt}')
        if default:
            ctx.count(f'exports of defaults, {default}')
        if initial and changes and not default:
            ctx.count('changes left out on request')
        ctx.nontrivial(uf.encode(log), what)
        ctx.sample(f'{what}: {out[:200]!r}')


CHECK = Check(
    'C23', case, quick=12000, thorough=100000,
    rule='case = three exports of the parameters of a random log with random options, parsed and compared, to standard '
         'output and to a file; distinct by file bytes and arguments',
    required=['parameters with dozens of changes', 'unknown selections refused', 'exports, csv', 'exports, octave', 'exports, qgc', 'exports of defaults, system',
              'exports of defaults, current_setup', 'logs without defaults refused', 'parameters with changes, csv',
              'parameters with changes, octave', 'lists of times', 'changes left out on request', 'values compared'],
    probes=[('many', lambda ctx: case(ctx, gen.many(ctx.rng, samples=9000, changes=66000)))],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py'])
