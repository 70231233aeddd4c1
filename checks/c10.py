"""C10: writing a log back to ULog format preserves its contents."""
import io
import os
import sqlite3

from pyulog import ULog
from pyulog.db import DatabaseULog
from vlib import gen, observe, ulogfmt as uf
from vlib.harness import Check, REPO
from vlib.monfile import MonFile

#: what a log has to look like to be written back without changes (see the statement and DESIGN.md)
PROFILE = dict(nan='bits', bools='any', param_nan=True)


def profile(r, **kw):
    out = dict(PROFILE, time=r.choice(['topic', 'topic', 'global']), nesting=r.random() < .4,
               max_fields=r.choice([2, 5, 10]), samples=(0, 50), topics=(1, 6))
    out.update(kw)
    return out


class Handle:
    """A database handle that is enough for a log that is not stored."""

    def __init__(self):
        self.con = sqlite3.connect(':memory:')
        self.con.execute(f'PRAGMA user_version = {DatabaseULog.SCHEMA_VERSION}')

    def __call__(self):
        return self.con


def expectation(log, topics=None):
    """What the rewritten log has to report."""
    exp = uf.interpret(log, topics=topics)
    exp.syncs = 0
    exp.incompat[0] &= 0xfe
    exp.offsets = []
    exp.corrupt = False
    return exp


def can_start(exp):
    """
    Whether there is something to start the data section of the written file with, if it needs one (the opposite
    is a known finding: a log without samples, messages and simple formats, interrupted before its data section).
    """
    return bool(not (exp.changed or exp.dropouts) or exp.datasets or exp.logs or exp.tagged or
                any(all(t in uf.BASIC for t, _, _ in fields) for fields in exp.formats.values()))


def check_written(ctx, exp, raw, what):
    want = observe.expected_obs(exp)
    again = ULog(MonFile(raw))
    ctx.no_diff(observe.compare(want, observe.observe(again)), f'{what}: read back by the library')
    try:
        log, _ = uf.decode(raw)
    except uf.FormatError as exc:
        ctx.fail(f'{what}: not a well-formed file: {exc}')
    ctx.expect(log.version == exp.version, f'{what}: version {log.version} instead of {exp.version}')
    ctx.expect(not any(x[0] == '?' for x in log.records), f'{what}: unknown records written')
    second = uf.interpret(log)
    ctx.expect(second.compat == list(exp.compat) and second.incompat == list(exp.incompat),
               f'{what}: flags {second.compat} {second.incompat} instead of {exp.compat} {exp.incompat}')
    ctx.no_diff(observe.compare(want, observe.expected_obs(second)), f'{what}: read back by the independent reader')
    kinds = [x[0] for x in log.records]
    in_data = next((i for i, k in enumerate(kinds) if k in 'ALC'), len(kinds))
    ctx.expect(not any(k in 'FB' for k in kinds[in_data:]), f'{what}: definitions in the data section')
    types = {x[2]: x[1] for x in log.records if x[0] == 'I'}
    for key, typ in exp.info_types.items():
        ctx.expect(types.get(key) == typ, f'{what}: type of information {key} changed from {typ} to {types.get(key)}')
    seen = set()
    for rec in log.records:
        if rec[0] != 'M':
            continue
        typ, key, part = rec[2:]
        if key not in seen:         # its type is the one that the log reports
            seen.add(key)
            ctx.expect(typ == exp.multi_types[key], f'{what}: type of {key} changed from {exp.multi_types[key]} to {typ}')
        elif uf.type_size(typ) is not None:
            ctx.expect(uf.type_size(typ) == len(part), f'{what}: a part of {key} declared as {typ} has {len(part)} bytes')
            ctx.count('continuing parts of declared length')
    return again


def write(ctx, ulog, to_file):
    if to_file:
        path = os.path.join(ctx.dir(), 'out.ulg')
        if ctx.rng.random() < .5:       # replaces what is there
            with open(path, 'wb') as f:
                f.write(bytes(ctx.rng.choice([10, 100000])))
            ctx.count('files replaced')
        ulog.write_ulog(path)
        with open(path, 'rb') as f:
            return f.read()
    f = io.BytesIO()
    ulog.write_ulog(f)
    return f.getvalue()


def case(ctx):
    r = ctx.rng
    kw = profile(r)
    if r.random() < .15:
        log, _ = gen.make_appended(r, **kw)
        ctx.count('logs with appended sections')
    else:
        log = gen.make(r, **kw)
    data = uf.encode(log)
    topics = None
    if r.random() < .2:
        names = sorted({x[3] for x in log.records if x[0] == 'A'})
        topics = r.sample(names, r.randint(1, len(names))) if names else []
    exp = expectation(log, topics)
    if not can_start(exp):
        ctx.count('not applicable: changes with nothing before them')
        return
    if not exp.datasets and (exp.changed or exp.dropouts):
        ctx.count('logs with changes but without samples')
    handle = None
    if r.random() < .15:
        handle = Handle()
        ulog = DatabaseULog(handle, log_file=MonFile(data), message_name_filter_list=topics)
        ctx.count('written from a database log object')
    else:
        ulog = ULog(MonFile(data), message_name_filter_list=topics)
    before = observe.observe(ulog)
    raw = write(ctx, ulog, r.random() < .1)
    ctx.no_diff(observe.compare(before, observe.observe(ulog)), 'writing changed the log')
    again = check_written(ctx, exp, raw, 'filtered log' if topics is not None else 'log')
    if topics is None and not any(x[0] in 'SX' for x in log.records) and not exp_appended(log) and \
            not uf.interpret(log, topics=topics).corrupt:
        ctx.expect(again == ulog and ulog == again and not again != ulog, 'the log read back is not equal')
        ctx.count('compared with the library\'s equality')
    if r.random() < .1:
        raw2 = write(ctx, again, False)
        check_written(ctx, exp, raw2, 'log written twice')
        ctx.count('written twice')
    ctx.count('bytes written', len(raw))
    ctx.count('samples written', sum(len(d.rows) for d in exp.datasets.values()))
    for typ in {t.split('[')[0] + ('[]' if '[' in t else '') for t in exp.info_types.values()}:
        ctx.count('information of type ' + typ)
    if topics is not None:
        ctx.count('filtered logs')
    if exp.changed:
        ctx.count('logs with parameter changes')
    if exp.dropouts:
        ctx.count('logs with dropouts')
    if exp.datasets:
        ctx.nontrivial(data, topics)
        ctx.sample(gen.describe(log))
    if handle is not None:
        handle.con.close()


def exp_appended(log):
    return any(x[0] == 'B' and x[2][0] & 1 for x in log.records)


def sample_file(ctx, name):
    path = os.path.join(REPO, 'test', name)
    if not os.path.exists(path):
        return
    with open(path, 'rb') as f:
        data = f.read()
    log, _ = uf.decode(data)
    exp = expectation(log)
    ulog = ULog(io.BytesIO(data))
    out = io.BytesIO()
    ulog.write_ulog(out)
    second, _ = uf.decode(out.getvalue())
    ctx.no_diff(observe.diff(observe.expected_obs(exp)['datasets'], observe.expected_obs(uf.interpret(second))['datasets'],
                             'datasets'), name)
    ctx.count('sample logs written')


def directed(log, note):
    def probe(ctx):
        raw = io.BytesIO()
        ULog(MonFile(uf.encode(log))).write_ulog(raw)
        check_written(ctx, expectation(log), raw.getvalue(), note)
    return probe


def large_samples(ctx):
    """Samples of nearly the largest size, and many of everything."""
    r = ctx.rng
    log = uf.Log(2, 1, [('F', 'topic', [('uint64_t', 0, 'timestamp'), ('uint8_t', 30000, 'x'), ('int32_t', 8800, 'y')]),
                        ('A', 0, 3, 'topic')] +
                 [('D', 3, (k + 1).to_bytes(8, 'little') + r.randbytes(65200)) for k in range(3)])
    directed(log, 'large samples')(ctx)
    directed(gen.many(r, samples=3000), 'many of everything')(ctx)


def many_samples(ctx):
    """More samples of one topic than 16 bits can count."""
    r = ctx.rng
    n = 66000
    fmt = [('F', 'topic', [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'x')]), ('A', 0, 3, 'topic')]
    t, records = 5, []
    for _ in range(n):
        t += r.choice([0, 1, 1000])
        records.append(('D', 3, t.to_bytes(8, 'little') + bytes([r.randrange(256)])))
        if r.random() < .001:
            records.append(('O', r.randrange(1000)))
    log = uf.Log(2, 1, fmt + records)
    directed(log, f'{n} samples')(ctx)
    ctx.count('logs with more than 65535 samples')


FMT = ('F', 'topic', [('uint64_t', 0, 'timestamp'), ('char', 3, 'c')])


def sample_of(ts, text):
    return ('D', 0, ts.to_bytes(8, 'little') + text)


HIGH_CHARS = uf.Log(1, 1, [FMT, ('A', 0, 0, 'topic'), sample_of(5, b'\x80\xff\x00')])
ARRAY_INFO = uf.Log(1, 1, [FMT, ('I', 'float[2]', 'cal', bytes(8)), ('I', 'int32_t[1]', 'one', b'abcd'),
                           ('M', 0, 'int16_t[2]', 'many', b'abcd'), ('A', 0, 0, 'topic'), sample_of(5, b'abc')])
NO_DATA = uf.Log(100, 1, [FMT, ('A', 0, 0, 'topic'), ('O', 5), ('P', 'int32_t', 'A', b'\1\0\0\0')])
NO_DATA_TEXT = uf.Log(100, 1, [('L', 54, 300, b'b'), ('C', 54, 3, 200, b'c'), ('O', 5), ('P', 'int32_t', 'A', b'\1\0\0\0'),
                               ('L', 54, 350, b'a')])
NESTED_ONLY = uf.Log(100, 1, [('F', 'whole', [('topic', 2, 'part'), ('uint64_t', 0, 'timestamp')]), FMT,
                              ('A', 0, 0, 'whole'), ('O', 5), ('P', 'int32_t', 'A', b'\1\0\0\0')])
NOTHING = gen.fix_offsets(uf.Log(100, 1, [('B', bytes(8), b'\1' + bytes(7), (0, 0, 0), b''), ('O', 5),
                                          ('P', 'int32_t', 'A', b'\1\0\0\0')]), [1])


CHECK = Check(
    'C10', case, quick=15000, thorough=150000,
    rule='case = random log (some appended, some filtered) written to a file or file object and read back by the library '
         'and by the independent reader; non-trivial = the written log has samples; distinct by (bytes, filter)',
    required=['filtered logs', 'written from a database log object', 'written twice', 'logs with parameter changes',
              'logs with dropouts', 'files replaced', 'logs with appended sections', 'samples written', 'information of type float[]',
              'compared with the library\'s equality', 'continuing parts of declared length'],
    probes=[('many-samples', many_samples), ('large-samples', large_samples),
            ('high-chars', directed(HIGH_CHARS, 'characters above 127')),
            ('array-info', directed(ARRAY_INFO, 'array information')),
            ('changes-without-samples', directed(NO_DATA, 'parameter changes and dropouts but no samples')),
            ('changes-with-messages', directed(NO_DATA_TEXT, 'parameter changes and messages but no samples')),
            ('changes-nested-format', directed(NESTED_ONLY, 'parameter changes and nested formats but no samples')),
            ('changes-without-anything', directed(NOTHING, 'parameter changes and dropouts and nothing else')),
            ('sample-small', lambda ctx: sample_file(ctx, 'sample_log_small.ulg')),
            ('sample-appended', lambda ctx: sample_file(ctx, 'sample_appended_multiple.ulg'))],
    assumptions=['independent encoder, reader and interpreter in vlib/ulogfmt.py'])
