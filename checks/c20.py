"""C20: the JSON copy of a stored log carries the same data as the log."""
import json
import os

from vlib import dbkit, gen, observe, ulogfmt as uf
from vlib.harness import Check

from pyulog.db import DatabaseULog


def want_value(typ, v):
    """What the JSON text has to give for a value."""
    if typ in ('float', 'double'):
        return None if v != v or v in (float('inf'), float('-inf')) else v
    return v


def same(want, got):
    if isinstance(want, float):
        # 1e22 may be written as an integer; -0.0 is equal to 0
        return isinstance(got, (int, float)) and not isinstance(got, bool) and float(got) == want
    if want is None:
        return got is None
    return type(got) is int and got == want    # pylint: disable=unidiomatic-typecheck


def bad_constant(text):
    raise ValueError(f'{text} is no JSON')


def check_field(ctx, ds, name, text, what):
    typ = dict(ds.fields)[name]
    ctx.expect(isinstance(text, str), f'{what}: no JSON text but {text!r:.100}')
    try:
        pairs = json.loads(text, object_pairs_hook=list, parse_constant=bad_constant)
    except ValueError as exc:
        ctx.fail(f'{what}: no valid JSON ({exc}): {text[:200]}')
    times = ds.timestamps()
    want = [want_value(typ, v) for v in ds.column(name)]
    ctx.expect([k for k, _ in pairs] == [str(t) for t in times],
               lambda: f'{what}: times {[k for k, _ in pairs][:10]} instead of {times[:10]}')
    for t, w, (_, g) in zip(times, want, pairs):
        ctx.expect(same(w, g), f'{what} ({typ}) at {t}: {g!r} instead of {w!r}')
        if w is None:
            ctx.count('nulls')
        elif isinstance(w, float):
            ctx.count('floating-point values')
        else:
            ctx.count('integers')


def check_log(ctx, log, handle_json, path_json, handle_plain, path_plain, name, options):
    exp = uf.interpret(log)
    pks = []
    for handle, flag in ((handle_json, True), (handle_plain, False)):
        dbulog = DatabaseULog(handle, log_file=name, **options)
        before = observe.observe(dbulog)
        dbulog.save(append_json=flag)
        ctx.no_diff(observe.compare(before, observe.observe(dbulog)), 'saving changed the log object')
        pks.append(dbulog.primary_key)
    con = dbkit.raw(path_json)
    try:
        for (topic, multi), ds in exp.datasets.items():
            times = ds.timestamps()
            rows = con.execute('SELECT f.TopicName, f.ValueJson, json_valid(f.ValueJson), '
                               '(SELECT COUNT(*) FROM json_each(f.ValueJson)) FROM ULogField f JOIN ULogDataset d '
                               'ON f.DatasetId = d.Id WHERE d.ULogId = ? AND d.DatasetName = ? AND d.MultiId = ? '
                               'ORDER BY f.Id', (pks[0], topic, multi)).fetchall()
            ctx.expect([r[0] for r in rows] == [n for n, _ in ds.fields], f'{topic} {multi}: fields {[r[0] for r in rows]}')
            if len(set(times)) != len(times):
                ctx.expect(all(r[2] == 1 for r in rows), f'{topic} {multi}: JSON not valid')
                ctx.count('datasets with repeated times')
                continue
            for field, text, valid, n in rows:
                what = f'{topic} {multi} {field}'
                ctx.expect(valid == 1 and n == len(times), f'{what}: valid for SQLite: {valid}, {n} entries of {len(times)}')
                check_field(ctx, ds, field, text, what)
                ctx.count('fields compared')
    finally:
        con.close()
    return exp, pks


def case(ctx):
    r = ctx.rng
    folder = ctx.dir()
    kw = dict(dbkit.PROFILE, samples=(0, 60), topics=(0, 4), max_fields=6, nesting=r.random() < .4,
              time=r.choice(['topic', 'topic', 'global', 'any']), strict_time=True)
    paths = [dbkit.new_db(os.path.join(folder, n)) for n in ('json', 'plain')]
    monitor = dbkit.Monitor()
    with monitor:
        handles = [dbkit.fast_handle(p) for p in paths]
        datas = []
        for k in range(r.choice([1, 1, 2])):
            log = gen.make(r, **kw)
            data = uf.encode(log)
            if data in datas:
                continue
            name = os.path.join(folder, f'log{k}.ulg')
            with open(name, 'wb') as f:
                f.write(data)
            check_log(ctx, log, handles[0], paths[0], handles[1], paths[1], name, {})
            datas.append(data)
        monitor.close()
    a, b = (dbkit.dump(p) for p in paths)
    for d, has in ((a, True), (b, False)):
        cols, rows = d['ULogField']
        at = cols.index('ValueJson')
        ctx.expect(all((row[at][1] is not None) == has for row in rows), 'JSON is not stored exactly where requested')
        d['ULogField'] = (cols, [row[:at] + row[at + 1:] for row in rows])
        d['ULogField'][1].sort(key=repr)
    ctx.no_diff(dbkit.dump_diff(b, a), 'saving with JSON against saving without it')
    ctx.count('databases compared')
    ctx.nontrivial(*datas)
    ctx.sample(gen.describe(log))


def single(ctx, log):
    folder = ctx.dir()
    paths = [dbkit.new_db(os.path.join(folder, n)) for n in ('json', 'plain')]
    name = os.path.join(folder, 'x.ulg')
    with open(name, 'wb') as f:
        f.write(uf.encode(log))
    check_log(ctx, log, dbkit.fast_handle(paths[0]), paths[0], dbkit.fast_handle(paths[1]), paths[1], name, {})


def special(ctx):
    """All special values of all types next to each other."""
    fields = [('uint64_t', 0, 'timestamp'), ('float', 0, 'f'), ('double', 0, 'd'), ('int64_t', 0, 'i'), ('uint64_t', 0, 'u')]
    import struct
    values = [0.0, -0.0, float('nan'), float('inf'), float('-inf'), 1e-45, 3.4e38, 1e22, 0.1, -1e-7]
    recs = [('F', 't', fields), ('A', 0, 0, 't')]
    for k, v in enumerate(values):
        recs.append(('D', 0, struct.pack('<Qfdqq', 1000 + k, v, v * 1e10 if v == v else -v, -2 ** 63 + k, -1 - k)))
    single(ctx, uf.Log(1, 1, recs))


CHECK = Check(
    'C20', case, quick=7500, thorough=60000,
    rule='case = one or two random logs saved with the JSON copy in one database and without it in another one; all JSON '
         'texts are parsed and compared with the samples, all rows of both databases with each other; distinct by file bytes',
    required=['fields compared', 'integers', 'floating-point values', 'nulls', 'databases compared'],
    probes=[('special-values', special), ('many', lambda ctx: single(ctx, gen.many(ctx.rng)))],
    assumptions=['Python\'s json module', 'datasets in which a time occurs twice are only checked for valid JSON'])
