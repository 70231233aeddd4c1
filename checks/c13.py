"""C13: a log saved to the database is read back without loss."""
import io
import os
import struct

from vlib import dbkit, gen, observe, ulogfmt as uf
from vlib.harness import Check, REPO
from vlib.monfile import MonFile

from pyulog import ULog
from pyulog.db import DatabaseULog
from checks import c10


def make_log(r):
    kw = dict(dbkit.PROFILE, samples=(0, 40), topics=(0, 5), max_fields=r.choice([3, 8]), nesting=r.random() < .4)
    kw['time'] = r.choice(['topic', 'global', 'any', 'any'])
    if r.random() < .3:
        kw['bools'] = '01'
    if r.random() < .1:
        log, _ = gen.make_appended(r, **kw)
    else:
        log = gen.make(r, **kw)
    return log, kw


def case(ctx):
    r = ctx.rng
    folder = ctx.dir()
    path = dbkit.new_db(os.path.join(folder, 'db'))
    stored = []
    monitor = dbkit.Monitor()
    with monitor:
        handle = dbkit.fast_handle(path)
        for k in range(r.choice([1, 2, 2, 3])):
            if stored and r.random() < .3:      # other contents under the same names
                log, kw = stored[0][0].copy(), stored[0][1]
                log.start = (log.start + 1) % (1 << 63)
            else:
                log, kw = make_log(r)
            data = uf.encode(log)
            if any(data == s[2] for s in stored):
                continue
            name = os.path.join(folder, f'log{k}.ulg')
            with open(name, 'wb') as f:
                f.write(data)
            options = {}
            topics = None
            if r.random() < .1:
                topics = sorted({x[3] for x in log.records if x[0] == 'A'})[:1]
                options['message_name_filter_list'] = topics
            how = r.choice(['name', 'name', 'file', 'memory'])
            source = name if how == 'name' else open(name, 'rb') if how == 'file' else MonFile(data)
            dbulog = DatabaseULog(handle, log_file=source, **options)
            before = observe.observe(dbulog)
            json = r.random() < .2
            dbulog.save(append_json=json)
            if how == 'file':
                source.close()
            ctx.no_diff(observe.compare(before, observe.observe(dbulog)), 'saving changed the log object')
            ctx.count('logs saved, given as ' + how)
            if json:
                ctx.count('logs saved with JSON')
            stored.append((log, kw, data, dbulog.primary_key, topics, dbulog))
        r.shuffle(stored)
        for log, kw, data, pk, topics, dbulog in stored:
            exp = uf.interpret(log, topics=topics)
            exp.corrupt = False
            again = DatabaseULog(handle, primary_key=pk, lazy=False)
            what = f'log with primary key {pk} of {len(stored)}'
            ctx.no_diff(observe.compare(observe.expected_obs(exp), observe.observe(again), ignore=('corrupt',)), what)
            ctx.expect(again.sha256sum == dbulog.sha256sum and again.primary_key == pk, what + ': other key or digest')
            if topics is None:
                plain = ULog(MonFile(data))
                if not plain.file_corruption:
                    ctx.expect(again == plain and plain == again and not plain != again, what + ' is not equal to the file')
                    ctx.expect(again == dbulog and dbulog == again, what + ' is not equal to the object saved')
                    ctx.count('logs compared with the library\'s equality')
            want = c10.expectation(log)
            if kw['time'] in ('topic', 'global') and topics is None and c10.can_start(want):
                out = io.BytesIO()
                again.write_ulog(out)
                c10.check_written(ctx, want, out.getvalue(), what + ' written')
                ctx.count('logs written from the database')
            ctx.count('logs read back')
            ctx.count('samples compared', sum(len(d.rows) for d in exp.datasets.values()))
            if any(x[0] == 'B' and x[2][0] & 1 for x in log.records):
                ctx.count('logs with appended sections')
            ctx.nontrivial(data, topics)
        ctx.count('SQL statements observed', len(monitor.events))
    ctx.sample(f'{len(stored)} logs, ' + gen.describe(stored[0][0]))
    monitor.close()


def round_trip(ctx, log):
    folder = ctx.dir()
    handle = dbkit.fast_handle(dbkit.new_db(os.path.join(folder, 'db')))
    name = os.path.join(folder, 'log.ulg')
    with open(name, 'wb') as f:
        f.write(uf.encode(log))
    dbulog = DatabaseULog(handle, log_file=name)
    dbulog.save()
    again = DatabaseULog(handle, primary_key=dbulog.primary_key, lazy=False)
    ctx.no_diff(observe.compare(observe.expected_obs(uf.interpret(log)), observe.observe(again)), 'read back')


FMT = ('F', 'topic', [('uint64_t', 0, 'timestamp')])
NAN = b'\0\0\xc0\x7f'
FINDINGS = {
    'numeric-multi': uf.Log(1, 1, [('M', 0, 'int32_t', 'm', b'\1\0\0\0')]),
    'corruption-flag': uf.Log(1, 1, [FMT, ('A', 0, 0, 'topic'), ('D', 0, bytes(8)), ('D', 9, bytes(8))]),
    'info-2-63': uf.Log(1, 1, [('I', 'uint64_t', 'k', b'\xff' * 8)]),
    'nan-values': uf.Log(1, 1, [('I', 'float', 'k', NAN), ('P', 'float', 'p', NAN)]),
    'multi-values': uf.Log(1, 1, [('M', 0, 'double', 'd', struct.pack('<d', v)) for v in
                                  (.1 + .2, 5e-324, -1.7976931348623157e308, float('inf'), float('-inf'), float('nan'), -0.)] +
                           [('M', k % 2, 'uint64_t', 'u', b'\xff' * 8) for k in range(3)] +
                           [('M', k % 2, 'float', 'f', NAN) for k in range(3)] +
                           [('M', 0, 'int8_t', 'z', b'\1'), ('M', 0, 'char[3]', 'z', b'abc'), ('M', 1, 'bool', 'b', b'\1'),
                            ('M', 1, 'char', 'c', b'7'), ('M', 0, 'char[1]', 't', b'7'), ('M', 0, 'int8_t[1]', 'a', b'7')]),
    'empty-format': uf.Log(1, 1, [('F', 'nothing', [])]),
}


def open_file(ctx):
    folder = ctx.dir()
    handle = dbkit.fast_handle(dbkit.new_db(os.path.join(folder, 'db')))
    log = gen.make(ctx.rng, **dbkit.PROFILE)
    f = io.BytesIO(b'xyz' + uf.encode(log))
    f.seek(3)
    dbulog = DatabaseULog(handle, log_file=f)
    ctx.no_diff(observe.compare(observe.expected_obs(uf.interpret(log)), observe.observe(dbulog)), 'open file')


def sample_file(ctx, name):
    path = os.path.join(REPO, 'test', name)
    if not os.path.exists(path):
        return
    handle = dbkit.fast_handle(dbkit.new_db(os.path.join(ctx.dir(), 'db')))
    dbulog = DatabaseULog(handle, log_file=path)
    dbulog.save()
    with open(path, 'rb') as f:
        exp = uf.interpret(uf.decode(f.read())[0])
    again = DatabaseULog(handle, primary_key=dbulog.primary_key, lazy=False)
    ctx.no_diff(observe.compare(observe.expected_obs(exp), observe.observe(again), ignore=('corrupt',)), name)
    ctx.count('sample logs read back')


CHECK = Check(
    'C13', case, quick=2400, thorough=20000,
    rule='case = one to three random logs saved to one database (in part with JSON, filtered, from open files) and loaded '
         'from it in full; distinct by (file bytes, filter)',
    required=['logs saved, given as name', 'logs saved, given as file', 'logs saved, given as memory',
              'logs saved with JSON', 'logs read back', 'logs written from the database', 'logs with appended sections',
              'SQL statements observed', 'logs compared with the library\'s equality'],
    probes=[(k, lambda ctx, v=v: round_trip(ctx, v)) for k, v in FINDINGS.items()] +
           [('open-file', open_file), ('many', lambda ctx: round_trip(ctx, gen.many(ctx.rng))), ('sample-small', lambda ctx: sample_file(ctx, 'sample_log_small.ulg')),
            ('sample-appended', lambda ctx: sample_file(ctx, 'sample_appended_multiple.ulg'))],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py', 'times below 2^63 (what SQLite can hold)'])
