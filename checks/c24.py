"""C24: the info tool reports the true contents of a log."""
import re

from vlib import gen, observe, tools, ulogfmt as uf
from vlib.harness import Check

NAMES = {'__builtins__': {}, 'bytearray': bytearray, 'nan': float('nan'), 'inf': float('inf')}


def read_value(text):
    return uf.canon(eval(text, dict(NAMES)))    # pylint: disable=eval-used


def clock(us):
    s = us // 1000000
    return f'{s // 3600}:{s // 60 % 60:02d}:{s % 60:02d}'


def version_text(v):
    kind = v & 255
    if kind < 64:
        return None
    name = '' if kind == 255 else ' (RC)' if kind >= 192 else ' (beta)' if kind >= 128 else ' (alpha)'
    return f'v{v >> 24 & 255}.{v >> 16 & 255}.{v >> 8 & 255}{name}'


def tool_lines(out):
    """Output without what the parser prints about damaged data."""
    return [line for line in out.split('\n') if not line.startswith('Warning: no subscription found')]


def section(ctx, out, start, ends):
    at = out.find(start)
    ctx.expect(at >= 0, f'no {start!r} in {out[:200]!r}')
    rest = out[at + len(start):]
    stop = min([rest.find(e) for e in ends if rest.find(e) >= 0], default=len(rest))
    return rest[:stop]


def overview(ctx, out, exp, verbose):
    head = out.split('Info Messages:\n')[0]
    m = re.search(r'start time: (\d+:\d\d:\d\d), duration: (\d+:\d\d:\d\d)', head)
    ctx.expect(m is not None, f'no start time in {head!r}')
    ctx.expect(m.group(1) == clock(exp.start) and m.group(2) == clock(exp.last - exp.start),
               f'{m.group(0)!r} instead of {clock(exp.start)} and {clock(exp.last - exp.start)}')
    warned = any(re.search('(?i)warning.*corrupt', line) for line in tool_lines(head))
    ctx.expect(warned == exp.corrupt, f'corruption warning: {warned}, corruption: {exp.corrupt}')
    if warned:
        ctx.count('corrupt logs')
    durations = [d for _, d in exp.dropouts]
    m = re.search(r'count: (\d+), total duration: ([\d.]+) s, max: (\d+) ms, mean: (\d+) ms', head)
    if durations:
        ctx.expect(m is not None, f'no dropouts in {head!r}')
        n, total, top, mean = m.groups()
        ctx.expect(int(n) == len(durations) and abs(float(total) - sum(durations) / 1000) < .0501 and
                   int(top) == max(durations) and abs(int(mean) - sum(durations) / len(durations)) < 1,
                   f'{m.group(0)!r} for the dropouts {durations}')
        ctx.count('dropout statistics')
    else:
        ctx.expect(m is None and 'No Dropouts' in head, f'{head!r} without dropouts')
    want = version_text(exp.info['ver_sw_release'][1]) if 'ver_sw_release' in exp.info else None
    m = re.search(r'SW Version: (.*)', head)
    ctx.expect((m.group(1) if m else None) == want, f'version {m and m.group(1)} instead of {want}')
    if want:
        ctx.count('release versions')

    # information
    info = section(ctx, out, 'Info Messages:\n', ['\nInfo Multiple Messages:', '\n\nName (', 'Info Multiple Messages:',
                                                  '\nName ('])
    keys = sorted(k for k in exp.info if verbose or not k.startswith('perf_'))
    got = [line for line in info.split('\n') if line]
    ctx.expect(len(got) == len(keys), f'information {got} instead of {keys}')
    for line, k in zip(got, keys):
        ctx.expect(line.startswith(f' {k}: '), f'information {line!r} instead of {k}')
        text = line[len(k) + 3:]
        v = exp.info[k]
        if v[0] == 's':
            ctx.expect(text == v[1], f'information {k}: {text!r} instead of {v}')
        else:
            ctx.expect(read_value(text) == v, f'information {k}: {text!r} instead of {v}')
        ctx.count('information values compared')
    if any(k.startswith('perf_') for k in exp.info):
        ctx.count('performance values ' + ('shown' if verbose else 'left out'))

    # multi-part information
    if exp.multi:
        if verbose:
            part = section(ctx, out, 'Info Multiple Messages:\n', ['\n\nName (', '\nName ('])
            lines = [line for line in part.split('\n') if line]
            ctx.expect(len(lines) == len(exp.multi), f'multi-part information {lines}')
            for line, k in zip(lines, sorted(exp.multi)):
                ctx.expect(line.startswith(f' {k}: '), f'multi-part information {line[:100]!r} instead of {k}')
                value = [[uf.canon(v) for v in x] for x in eval(line[len(k) + 3:], dict(NAMES))]    # pylint: disable=eval-used
                ctx.no_diff(observe.diff(exp.multi[k], value, k), 'multi-part information')
                ctx.count('multi-part lists with contents')
        else:
            line = section(ctx, out, 'Info Multiple Messages: ', ['\n'])
            want = [f'{k}: {len(v)}' for k, v in sorted(exp.multi.items())]
            ctx.expect(re.findall(r'\[([^\[\]]*)\]', line) == want, f'multi-part information {line!r} instead of {want}')
            ctx.count('multi-part lists with counts')
    else:
        ctx.expect('Info Multiple' not in out, 'multi-part information without any')

    # datasets
    table = out[out.index('Name (multi id'):].split('\n')[1:]
    got = {}
    for line in table:
        if not line.strip():
            continue
        m = re.fullmatch(r' (\S+) \((\d+), (\d+)\)\s+(\d+)\s+(\d+)', line)
        ctx.expect(m is not None, f'dataset line {line!r}')
        key = (m.group(1), int(m.group(2)))
        ctx.expect(key not in got, f'dataset {key} is listed twice')
        got[key] = tuple(int(x) for x in m.groups()[2:])
    want = {k: (d.size, len(d.rows), d.size * len(d.rows)) for k, d in exp.datasets.items()}
    ctx.no_diff(observe.diff(want, got, 'size, number, bytes of dataset '), 'datasets')
    ctx.count('datasets compared', len(want))


def message(ctx, path, exp, options):
    r = ctx.rng
    key = r.choice(sorted(exp.multi) + ['no_such_message']) if exp.multi else 'no_such_message'
    newline = r.random() < .5
    argv = [path, '-m', key] + options + ([r.choice(['-n', '--newline'])] if newline else [])
    out = '\n'.join(tool_lines(tools.run_tool('info', *argv)))
    if key not in exp.multi:
        ctx.expect('not found' in out and key in out and len(out) < 100, f'unknown message: {out!r}')
        ctx.count('unknown messages')
        return
    sep = '\n' if newline else ''
    want = ''
    for i, parts in enumerate(exp.multi[key]):
        if parts and parts[0][0] == 'b':
            want += f'# {key} {i} (len: {sum(len(p[1]) for p in parts)}):\n'
            want += sep.join(' '.join(f'{b:02x}' for b in p[1]) for p in parts) + '\n'
            ctx.count('parts of bytes')
        else:
            if any(p[0] == 'f' for p in parts):
                return
            want += f'# {key} {i}:\n' + sep.join(str(p[1]) for p in parts) + '\n'
            ctx.count('parts of text' if parts[0][0] == 's' else 'parts of numbers')
    ctx.expect(out == want, f'message {key}: {out[:300]!r} instead of {want[:300]!r}')


def case(ctx, log=None):
    r = ctx.rng
    log = log or gen.make(r, samples=(0, 40), topics=(0, 4), ts_limit=1 << 50, text='ascii', info_nan=False,
                   time=r.choice(['global', 'any']), max_fields=5)
    if len(log.records) < 1000 and r.random() < .3:
        log.records = [x for x in log.records if x[0] != 'O']
    if r.random() < .15 and log.records and any(x[0] in 'ALC' for x in log.records):
        used = {x[2] for x in log.records if x[0] == 'A'}
        log.records.append(('D', next(k for k in range(65536) if k not in used), bytes(8)))
    exp = uf.interpret(log)
    path = tools.write(ctx.dir(), 'log.ulg', log)
    options = ['-i'] if r.random() < .5 else []
    verbose = r.random() < .5
    out = tools.run_tool('info', path, *options, *([r.choice(['-v', '--verbose'])] if verbose else []))
    overview(ctx, out, exp, verbose)
    ctx.count('verbose overviews' if verbose else 'short overviews')
    message(ctx, path, exp, options)
    ctx.nontrivial(uf.encode(log), verbose)
    ctx.sample(out)


CHECK = Check(
    'C24', case, quick=9000, thorough=80000,
    rule='case = the overview of a random log (short or verbose) and one of its multi-part messages, parsed and compared; '
         'distinct by file bytes',
    required=['verbose overviews', 'short overviews', 'corrupt logs', 'dropout statistics', 'release versions',
              'information values compared', 'performance values shown', 'performance values left out',
              'multi-part lists with contents', 'multi-part lists with counts', 'datasets compared', 'unknown messages',
              'parts of bytes', 'parts of text', 'parts of numbers'],
    probes=[('many', lambda ctx: case(ctx, gen.many(ctx.rng, messages=66000)))],
    assumptions=['times below 2^50 and single-line ASCII texts, so that the output can be read back'])
