"""C12: loading is deterministic and logs are independent of each other."""
import io
import os
import sys
import threading

from pyulog import ULog
from pyulog.db import DatabaseULog
from pyulog.px4 import PX4ULog
from vlib import dbkit, gen, observe, ulogfmt as uf
from vlib.harness import Check
from vlib.monfile import MonFile


class Job:
    """A log with load options and what loading it has to give."""

    def __init__(self, r, logs):
        log, self.data = r.choice(logs)
        self.options = {}
        names = sorted({x[3] for x in log.records if x[0] == 'A'})
        if r.random() < .3:
            self.options['message_name_filter_list'] = r.sample(names, r.randint(0, len(names))) + ['unknown']
        if r.random() < .15:
            self.options['parse_header_only'] = True
        exp = uf.interpret(log, topics=self.options.get('message_name_filter_list'),
                           header_only='parse_header_only' in self.options)
        self.want = observe.expected_obs(exp)

    def load(self, f):
        options = dict(self.options)
        given = options.get('message_name_filter_list')
        if given is not None:
            options['message_name_filter_list'] = list(given)
        ulog = ULog(f, **options)
        if given is not None and options['message_name_filter_list'] != given:
            raise AssertionError('loading changed the filter list')
        return ulog

    def diff(self, ulog):
        return observe.compare(self.want, observe.observe(ulog))


def make_logs(r, n):
    out = []
    for _ in range(n):
        log = gen.make(r, samples=(0, 25), topics=(0, 4), max_fields=4, nesting=r.random() < .3,
                       text=r.choice(['ascii', 'mixed']))
        out.append((log, uf.encode(log)))
    # a log that shares message ids, names and keys with the first, with other contents
    twin = out[0][0].copy()
    twin.records = [('D', x[1], bytes(len(x[2]))) if x[0] == 'D' else ('P', x[1], x[2], bytes(len(x[3])))
                    if x[0] == 'P' else x for x in twin.records]
    out.append((twin, uf.encode(twin)))
    if r.random() < .4:     # one with samples of a topic that it does not subscribe to
        subscribed = [x for x in out[0][0].records if x[0] == 'A']
        if subscribed:
            orphan = out[0][0].copy()
            mid = r.choice(subscribed)[2]
            orphan.records = [x for x in orphan.records if not (x[0] == 'A' and x[2] == mid)]
            if any(x[0] in 'ALC' for x in orphan.records):
                out.append((orphan, uf.encode(orphan)))
    return out


def sources(ctx, r, logs):
    job = Job(r, logs)
    path = os.path.join(ctx.dir(), 'log.ulg')
    with open(path, 'wb') as f:
        f.write(job.data)
    loaded = []
    kinds = ['name', 'file', 'unbuffered', 'memory', 'name', 'instrumented']
    handle = None
    if r.random() < .3 and 'parse_header_only' not in job.options:
        kinds += ['name, for a database', 'file, for a database']
        db_file = os.path.join(ctx.dir(), 'db.sqlite3')
        dbkit.new_db(db_file)
        handle = DatabaseULog.get_db_handle(db_file)
    for kind in kinds:
        if kind.startswith('name'):
            f = path
        elif kind.startswith('file'):
            f = open(path, 'rb')    # pylint: disable=consider-using-with
        elif kind == 'unbuffered':
            f = open(path, 'rb', buffering=0)    # pylint: disable=consider-using-with
        elif kind == 'memory':
            f = io.BytesIO(job.data)
        else:
            f = MonFile(job.data)
        if kind.endswith('database'):
            ulog = DatabaseULog(handle, log_file=f, **job.options)
        else:
            ulog = job.load(f)
        if kind.startswith('file') or kind == 'unbuffered':
            f.close()
        ctx.no_diff(job.diff(ulog), f'loaded from {kind}')
        ctx.count('loads from ' + kind)
        loaded.append(ulog)
    for other in loaded[1:]:
        ctx.expect(loaded[0] == other, 'the same bytes loaded in different ways are not equal')
    with open(path, 'rb') as f:
        ctx.expect(f.read() == job.data, 'loading changed the file')


def history(ctx, r, logs):
    """Loads, failed loads, changes and writes in a row; every log has to stay what it was."""
    alive = []
    for _ in range(r.randint(3, 9)):
        k = r.random()
        if k < .55 or not alive:
            job = Job(r, logs)
            if r.random() < .3:
                strict_load(ctx, r, logs)
            ulog = job.load(MonFile(job.data))
            alive.append((job, ulog))
            ctx.count('loads in a history')
        elif k < .7:
            strict_load(ctx, r, logs)
        elif k < .8:
            r.choice(alive)[1].write_ulog(io.BytesIO())
            ctx.count('writes in a history')
        else:
            i = r.randrange(len(alive))
            _, ulog = alive.pop(i)
            spoil(r, ulog)
            ctx.count('logs changed')
        for job, ulog in alive:
            ctx.no_diff(job.diff(ulog), 'a log changed while others were loaded, written or changed')


def strict_load(ctx, r, logs):
    """A load with other options or of a damaged file, which may fail."""
    _, data = r.choice(logs)
    k = r.random()
    if k < .2:
        bad_text(ctx, r)
        return
    try:
        if k < .4:
            ULog(MonFile(data), disable_str_exceptions=False)
        elif k < .7:
            ULog(MonFile(data[:r.randrange(len(data))]))
        else:
            bad = bytearray(data)
            for _ in range(5):
                bad[r.randrange(len(bad))] = r.randrange(256)
            ULog(MonFile(bytes(bad)))
    except Exception:  # pylint: disable=broad-except
        ctx.count('failing loads in a history')


def bad_text(ctx, r):
    """Loads of a log with text that is not UTF-8, each with its own option, whatever came before."""
    data = uf.encode(uf.Log(1, 1, [('I', 'char[4]', 'key', r.choice([b'a\xffbc', b'\x80abc', b'abc\xc3']))]))
    for _ in range(r.randint(1, 4)):
        strict = r.random() < .5
        try:
            text = ULog(MonFile(data), disable_str_exceptions=not strict).msg_info_dict['key']
        except UnicodeDecodeError:
            text = None
        ctx.expect(text == (None if strict else 'abc'), f'text that is not UTF-8 loaded with '
                   f'disable_str_exceptions={not strict} gives {text!r}')
        ctx.count('loads of invalid text, ' + ('strict' if strict else 'lenient'))


def spoil(r, ulog):
    """Change everything in a log object that can be changed."""
    for d in ulog.data_list:
        for name, arr in d.data.items():
            if arr.flags.writeable:
                arr[:] = arr[::-1] + 1 if arr.dtype.kind != 'f' else 7
        d.field_data.reverse()
        d.field_data[:1] = []
        for f in d.field_data:
            f.field_name += '_spoiled'
        if r.random() < .5:
            d.data.clear()
        d.name += 'x'
        d.multi_id += 1
    for part in (ulog.msg_info_dict, ulog.initial_parameters, ulog.get_default_parameters(0),
                 ulog.get_default_parameters(1)):
        part['spoiled'] = 1
        part.pop(next(iter(part)))
    for values in ulog.msg_info_multiple_dict.values():
        values[0].append('spoiled')
        values.append(['spoiled'])
    ulog.msg_info_multiple_dict['spoiled'] = [['x']]
    for f in ulog.message_formats.values():
        f.fields.append(('float', 0, 'spoiled'))
    for m in ulog.logged_messages + ulog.dropouts + [m for ms in ulog.logged_messages_tagged.values() for m in ms]:
        m.timestamp += 1
    for part in (ulog.data_list, ulog.changed_parameters, ulog.dropouts, ulog.logged_messages):
        part.append(None)
        part.reverse()
    ulog.logged_messages_tagged[99999] = []
    if r.random() < .3:
        try:
            PX4ULog(ulog).add_roll_pitch_yaw()
        except Exception:  # pylint: disable=broad-except
            pass


def nested(ctx, r, logs, depth=2):
    """Other logs are loaded, completely, while a log is being loaded (between two of its reads)."""
    job = Job(r, logs)
    done = []
    n = max(2, len(uf.decode(job.data)[0].records))
    at = {r.randint(1, 2 * n + 2) for _ in range(r.choice([1, 1, 3, 10]))}

    def on_read(k):
        if k in at:
            if depth > 1 and r.random() < .3:
                done.extend(nested(ctx, r, logs, depth - 1))
            else:
                inner = Job(r, logs)
                done.append((inner, inner.load(MonFile(inner.data))))
            ctx.count('loads nested between two reads')
    ulog = job.load(MonFile(job.data, on_read=on_read))
    done.append((job, ulog))
    for j, u in done:
        ctx.no_diff(j.diff(u), f'{len(done)} interleaved loads')
    return done


def threads(ctx, r, logs):
    jobs = [Job(r, logs) for _ in range(6)]
    results = [None] * len(jobs)
    start = threading.Barrier(3)

    def run(first):
        start.wait()
        for i in range(first, len(jobs), 3):
            try:
                results[i] = jobs[i].load(MonFile(jobs[i].data))
            except BaseException as exc:  # pylint: disable=broad-except
                results[i] = exc
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        pool = [threading.Thread(target=run, args=(k,)) for k in range(3)]
        for t in pool:
            t.start()
        for t in pool:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for job, res in zip(jobs, results):
        if isinstance(res, BaseException):
            raise res
        ctx.no_diff(job.diff(res), 'loads in several threads')
        ctx.count('loads in concurrent threads')


def case(ctx):
    r = ctx.rng
    logs = make_logs(r, r.randint(1, 3))
    k = r.choice(['sources', 'history', 'history', 'nested', 'nested', 'nested', 'threads'])
    {'sources': sources, 'history': history, 'nested': nested, 'threads': threads}[k](ctx, r, logs)
    ctx.count('cases of kind ' + k)
    ctx.nontrivial(k, *[d for _, d in logs])
    ctx.sample(f'{k} with ' + gen.describe(logs[0][0]))


def string_mode(ctx):
    """Two loads with different string handling, one started while the other runs."""
    log = uf.Log(1, 1, [('I', 'char[3]', 'a', b'abc'), ('I', 'char[3]', 'b', b'a\xff\xffc')])
    data = uf.encode(log)

    def on_read(k):
        if k == 2:
            ULog(MonFile(uf.encode(uf.Log(1, 1, []))), disable_str_exceptions=False)
    ulog = ULog(MonFile(data, on_read=on_read))
    ctx.expect(ulog.msg_info_dict['b'] == 'ac', 'text decoded differently')


def many(ctx):
    """Sources and selections of a log with tens of thousands of records."""
    log = gen.many(ctx.rng)
    for _ in range(2):
        sources(ctx, ctx.rng, [(log, uf.encode(log))])


CHECK = Check(
    'C12', case, quick=12000, thorough=100000,
    rule='case = a set of random logs loaded from different sources, in histories of loads, changes and writes, nested '
         'between the reads of other loads, or in threads; distinct by (kind, file bytes)',
    required=['loads from name', 'loads from file', 'loads from unbuffered', 'loads from memory',
              'loads from file, for a database', 'loads in a history',
              'failing loads in a history', 'loads of invalid text, strict', 'loads of invalid text, lenient', 'logs changed', 'writes in a history', 'loads nested between two reads',
              'loads in concurrent threads'],
    probes=[('string-mode', string_mode), ('many', many)],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py', 'interleaved and concurrent loads use the same '
                 'string-handling option (see the known finding)'])
