"""C21: CSV export contains exactly the loaded samples."""
import csv
import os
import re

from vlib import gen, tools, ulogfmt as uf
from vlib.harness import Check

from pyulog.ulog2csv import convert_ulog2csv

DELIMITERS = [',', ',', ',', ';', '\t', '|', ' ', ':', '#']


def csv_columns(ds):
    """What has to be in the file: [(header, kind, values)]"""
    out, texts = [], {}
    for name, typ in ds.fields:
        if name.startswith('_padding'):
            continue
        m = re.fullmatch(r'(.*)\[(\d+)\]', name)
        if typ == 'char' and m:
            if m.group(1) not in texts:
                texts[m.group(1)] = []
                out.append((m.group(1), 'text', texts[m.group(1)]))
            texts[m.group(1)].append(ds.column(name))
        else:
            out.append((name, typ, ds.column(name)))
    out.sort(key=lambda c: c[0] != 'timestamp')
    return out


def text_of(parts, i, errors):
    raw = bytes(p[i] & 255 for p in parts)
    return raw.split(b'\0')[0].decode('utf-8', errors)


def check_file(ctx, path, ds, delimiter, start, end, errors):
    what = f'{ds.name} {ds.multi}'
    cols = csv_columns(ds)
    with open(path, encoding='utf-8', newline='') as f:
        rows = list(csv.reader(f, delimiter=delimiter, strict=True))
    ctx.expect(rows and rows[0] == [c[0] for c in cols],
               lambda: f'{what}: header {rows[:1]} instead of {[c[0] for c in cols]}')
    want = [i for i, t in enumerate(ds.timestamps()) if tools.inside(t, start, end)]
    ctx.expect(len(rows) - 1 == len(want), f'{what}: {len(rows) - 1} rows instead of {len(want)} (window {start} {end})')
    for row, i in zip(rows[1:], want):
        ctx.expect(len(row) == len(cols), f'{what}: a row of {len(row)} cells instead of {len(cols)}: {row}')
        for cell, (name, kind, values) in zip(row, cols):
            if kind == 'text':
                text = text_of(values, i, errors)
                ctx.expect(cell == text, f'{what} {name}: {cell!r} instead of {text!r}')
                ctx.count('texts compared')
                if any(c in text for c in (delimiter, '"', '\n', '\r')):
                    ctx.count('texts that need quotes')
            else:
                ctx.expect(tools.same_number(kind, values[i], cell), f'{what} {name} ({kind}): {cell!r} instead of {values[i]!r}')
                ctx.count('numbers compared')
    ctx.count('rows compared', len(want))
    n = len(ds.rows)
    if any(t in ((start or -1) * 10 ** 6, (end or -1) * 10 ** 6) for t in ds.timestamps()):
        ctx.count('windows that begin or end at a sample')
    if any(x is not None and x != int(x) for x in (start, end)):
        ctx.count('windows with fractions of seconds')
    times = ds.timestamps()
    if want and want[-1] - want[0] >= len(want):
        ctx.count('windows that leave out samples in between')
    if times != sorted(times):
        ctx.count('topics that are not in time order')
    if start is not None or end is not None:
        ctx.count('windows without rows' if not want else 'windows with all rows' if len(want) == n else 'windows with some rows')


def text_samples(r, log):
    """Put readable text (or anything) into the character arrays."""
    exp = uf.interpret(log)
    subs = exp.subs
    arrays = {}
    for mid, ds in subs.items():
        arrays[mid] = []
        pos, run = 0, []
        for name, typ in ds.fields:
            m = re.fullmatch(r'(.*)\[(\d+)\]', name)
            if typ == 'char' and m:
                if m.group(2) == '0':
                    run = [pos, 0]
                    arrays[mid].append(run)
                run[1] += 1
            pos += uf.BASIC[typ][0]
    for k, rec in enumerate(log.records):
        if rec[0] == 'D' and arrays.get(rec[1]):
            raw = bytearray(rec[2])
            for pos, n in arrays[rec[1]]:
                text = ''.join(r.choice('abc XYZ019,;|\t"\'\n\r:#%\\äß漢😀') for _ in range(r.randint(0, n))).encode()
                text = text[:n] if r.random() < .3 else text[:n].decode(errors='ignore').encode()
                raw[pos:pos + n] = text.ljust(n, r.choice([b'\0', b'\0', b'\0x', b'\0'])[:1])[:n]
            log.records[k] = ('D', rec[1], bytes(raw))
    return any(arrays.values())


def case(ctx, log=None, window=None):
    r = ctx.rng
    if window is None:
        window = log is not None or r.random() < .7
    nesting = r.random() < .4
    log = log or gen.make(r, samples=(0, 50), topics=(0, 4), max_fields=7, nesting=nesting, padding=not nesting,
                   time=r.choice(['topic', 'global', 'any']) if window else 'mixed', ts_limit=1 << 53 if window else 1 << 64,
                   text='utf8', ts_anywhere=True, field_types=gen.ALL_TYPES + ['char'] * r.choice([0, 0, 10]))
    if len(log.records) < 1000 and r.random() < .2:
        names = [x[1] for x in log.records if x[0] == 'F' and not x[1].startswith('nested')]
        slashes = r.choice([1, 2, -1])
        log = tools.rename_topics(log, {n: n.replace('_', '/', slashes) for n in names if '_' in n})
    if window and len(log.records) < 1000 and r.random() < .8:
        log = tools.spread_times(r, log, (1 << 53) - 1)
    strict = False
    if r.random() < .7:
        text_samples(r, log)
    exp = uf.interpret(log)
    topics = None
    if r.random() < .3:
        names = sorted({x[3] for x in log.records if x[0] == 'A'})
        topics = [n for n in names if r.random() < .5] + ['not_there', names[0][:-1] if names else 'x']
        r.shuffle(topics)
        exp = uf.interpret(log, topics=topics)
    cli = r.random() < .4
    start, end = tools.window(r, exp, not cli and r.random() < .3) if window else (None, None)
    delimiter = r.choice(DELIMITERS)
    folder = ctx.dir()
    name = r.choice(['log.ulg', 'log.ulg', 'LOG.ULG', 'log', 'a.b.ulg', 'log.txt'])
    path = tools.write(folder, name, log)
    out = r.choice([None, None, os.path.join(folder, 'out')])
    errors = 'ignore'
    if not any(typ == 'char' for ds in exp.datasets.values() for _, typ in ds.fields):
        strict = r.random() < .5
    messages = ','.join(topics) if topics is not None else None
    if cli:
        argv = [path]
        if messages is not None:
            argv += [r.choice(['-m', '--messages']), messages]
        if delimiter != ',' or r.random() < .3:
            argv += [r.choice(['-d', '--delimiter']), delimiter]
        if out:
            argv += [r.choice(['-o', '--output']), out]
        if not strict:
            argv += [r.choice(['-i', '--ignore'])]
        if start is not None:
            argv += [r.choice(['-ts', '--time_s']), str(start)]
        if end is not None:
            argv += [r.choice(['-te', '--time_e']), str(end)]
        tools.run_tool('ulog2csv', *argv)
        ctx.count('exports from the command line')
    else:
        if out:
            os.mkdir(out)
        convert_ulog2csv(path, messages, out, delimiter, start, end, disable_str_exceptions=not strict)
    base = name[:-4] if name.lower().endswith('.ulg') else name
    want = {f"{base}_{n.replace('/', '_')}_{m}.csv": ds for (n, m), ds in exp.datasets.items()}
    if len(want) != len(exp.datasets):      # see the probe
        return
    target = out or folder
    got = set(os.listdir(target)) - {name, 'out'}
    ctx.expect(got == set(want), f'files {sorted(got)} instead of {sorted(want)}')
    if out:
        ctx.expect(set(os.listdir(folder)) == {name, 'out'}, 'files were written beside the output directory')
        ctx.count('exports to a directory')
    for file, ds in want.items():
        check_file(ctx, os.path.join(target, file), ds, delimiter, start, end, errors)
        ctx.count('files compared')
    if topics is not None:
        ctx.count('exports of selected topics')
    with open(path, 'rb') as f:
        ctx.expect(f.read() == uf.encode(log), 'the log file was changed')
    ctx.nontrivial(uf.encode(log), delimiter, start, end, topics)
    ctx.sample(f'delimiter {delimiter!r}, window {start} {end}, topics {topics}; ' + gen.describe(log))


def collision(ctx):
    """Topics whose names differ in a slash and an underscore."""
    fields = [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'x')]
    log = uf.Log(1, 1, [('F', 'a/b', fields), ('F', 'a_b', fields), ('A', 0, 0, 'a/b'), ('A', 0, 1, 'a_b'),
                        ('D', 0, bytes(8) + b'\1'), ('D', 1, bytes(8) + b'\2')])
    folder = ctx.dir()
    path = tools.write(folder, 'log.ulg', log)
    convert_ulog2csv(path, None, None, ',')
    ctx.expect(len(os.listdir(folder)) == 3, f'files {sorted(os.listdir(folder))} for two datasets')


CHECK = Check(
    'C21', case, quick=18000, thorough=80000,
    rule='case = one export of a random log (function or command line, window, delimiter, topics, directory), all files read '
         'back; distinct by file bytes and arguments',
    required=['windows that leave out samples in between', 'topics that are not in time order', 'windows with fractions of seconds', 'windows that begin or end at a sample', 'files compared', 'rows compared', 'numbers compared', 'texts compared', 'texts that need quotes',
              'windows without rows', 'windows with some rows', 'windows with all rows', 'exports of selected topics',
              'exports to a directory', 'exports from the command line'],
    probes=[('file-name-collision', collision), ('many', lambda ctx: case(ctx, gen.many(ctx.rng))),
            ('many-whole', lambda ctx: case(ctx, gen.many(ctx.rng, samples=20000), False))],
    assumptions=['Python\'s csv module', 'windows only for times below 2^53',
                 'no padding inside of nested types', 'delimiters that occur in no number or field name'])
