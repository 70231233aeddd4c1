"""C08: unknown record types and flags are handled as the format promises."""
from pyulog import ULog
from vlib import gen, observe, ulogfmt as uf
from vlib.harness import Check
from vlib.monfile import MonFile

KNOWN = {ord(c) for c in 'BFIMPQARDLCOS'}


def unknown(r):
    kind = ord('R') if r.random() < .1 else r.choice([k for k in range(1, 256) if k not in KNOWN])
    n = r.choice([1, 2, 3, 4, 7, 8, 9, 16, r.randint(1, 40), r.randint(1, 700), r.choice([511, 512, 513, 9999, 10000])])
    how = r.random()
    if how < .3:
        body = bytes(r.randrange(256) for _ in range(n))
    elif how < .5:
        body = bytes([r.choice([0, 255, 1])]) * n
    elif how < .75:         # looks like records
        body = b''
        while len(body) < n:
            body += uf.encode_record(r.choice([('D', r.randrange(3), bytes(8)), ('L', 54, 5, b'fake'), ('O', 9),
                                               ('I', 'int32_t', 'sys_name', b'abcd'), ('P', 'float', 'A', bytes(4)),
                                               ('A', 0, 0, 'sensor')]))
        body = body[:n]
    else:                   # nearly a sync marker
        body = (uf.SYNC[:r.randint(1, 7)] * n)[:n]
    if uf.SYNC in body:
        body = bytes(n)
    return ('?', kind, body)


def case(ctx):
    r = ctx.rng
    log = gen.make(r, samples=(0, 25), max_fields=4, nesting=r.random() < .2, flags=r.choice(['yes', 'yes', 'maybe']),
                   removal=False)
    first = next((i for i, x in enumerate(log.records) if x[0] in 'ALC'), len(log.records))
    want = observe.expected_obs(uf.interpret(log))
    if log.records and log.records[0][0] == 'B' and r.random() < .25:       # incompatible flags
        b = log.records[0]
        bits = list(b[2])
        at = r.randrange(64)
        while at == 0:
            at = r.randrange(64)
        bits[at // 8] |= 1 << at % 8
        if r.random() < .3:
            bits[r.randrange(8)] |= r.randrange(256)
        early = [unknown(r) for _ in range(r.choice([0] * 8 + [1, 2]))]
        changed = uf.Log(log.start, log.version, early + [('B', b[1], bits, b[3])] + log.records[1:])
        options = r.choice([{}, {'parse_header_only': True}, {'message_name_filter_list': []}])
        try:
            ULog(MonFile(uf.encode(changed)), **options)
        except Exception:  # pylint: disable=broad-except
            ctx.count('incompatible flags refused' + (' behind unknown records' if early else ''))
            ctx.nontrivial('incompat', bytes(bits), options)
            return
        ctx.fail(f'incompatible flags {bits} did not stop the log from being loaded {options}')
    new = log.copy()
    n_def = n_data = 0
    lo = 1 if log.records and log.records[0][0] == 'B' and r.random() < .9 else 0
    for _ in range(r.choice([0, 1, 2, 5, 12])):
        pos = r.randint(lo, len(new.records))
        rec = unknown(r)
        if pos <= first + n_def:
            n_def += 1
        else:
            n_data += 1
        if pos == 0 and new.records and new.records[0][0] == 'B':
            ctx.count('unknown records before the flags')
        new.records.insert(pos, rec)
        ctx.count('removal records' if rec[1] == ord('R') else 'unknown records')
    if r.random() < .5 and new.records and new.records[0][0] == 'B':
        b = new.records[0]
        compat = list(b[1])
        for _ in range(r.randint(1, 3)):
            at = r.randrange(1, 64)
            compat[at // 8] |= 1 << at % 8
        new.records[0] = ('B', compat, b[2], b[3])
        ctx.count('unknown compatible flags')
    if r.random() < .15 and new.records and new.records[0][0] == 'B':
        # newer loggers may append to the flags record
        body = uf.payload(new.records[0]) + bytes(r.randrange(256) for _ in range(r.choice([1, 8, 40, r.randint(1, 300)])))
        new.records[0] = ('?', ord('B'), body)
        ctx.count('longer flags records')
    if r.random() < .5:
        new.version = r.choice([2, 3, 100, 255])
        ctx.count('newer versions')
    data = uf.encode(new)
    with ctx.capture():
        ulog = ULog(MonFile(data))
    ctx.no_diff(observe.compare(want, observe.observe(ulog)),
                f'with {[(x[1], len(x[2])) for x in new.records if x[0] == "?"]} unknown records (type, size), version '
                f'{new.version}')
    ctx.expect(not ulog.file_corruption, 'reported as corrupt')
    ctx.count('unknown records in the definitions', n_def)
    ctx.count('unknown records in the data section', n_data)
    if n_def + n_data:
        ctx.nontrivial(data)
    ctx.sample(f'{n_def}+{n_data} unknown records: ' + gen.describe(log))


CHECK = Check(
    'C08', case, quick=27000, thorough=300000,
    rule='case = random log with unknown records inserted anywhere, unknown compatible flags and newer versions, or with '
         'unknown incompatible flags; non-trivial = unknown records inserted or incompatible flag set; distinct by bytes',
    required=['unknown records in the definitions', 'unknown records in the data section', 'removal records',
              'unknown compatible flags', 'longer flags records', 'newer versions', 'incompatible flags refused',
              'incompatible flags refused behind unknown records', 'unknown records before the flags'],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py'])
