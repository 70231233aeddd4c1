"""C06: damage costs only the data between it and the next sync marker."""
import struct

from pyulog import ULog
from vlib import gen, observe, ulogfmt as uf
from vlib.harness import Check
from vlib.monfile import MonFile


def subsequence(small, big):
    it = iter(big)
    return all(any(x == y for y in it) for x in small)


def sequences(exp):
    """Everything reported as a list, without times that depend on other records."""
    out = {('samples',) + k + (d.msg_id,): [r for r in d.rows] for k, d in exp.datasets.items()}
    out[('logs',)] = exp.logs
    for tag, msgs in exp.tagged.items():
        out[('tagged', tag)] = msgs
    out[('dropouts',)] = [d for _, d in exp.dropouts]
    out[('changed',)] = [(k, v) for _, k, v in exp.changed]
    for k, v in exp.multi.items():
        out[('multi', k)] = [x for part in v for x in part]
    return out


def observed_sequences(ulog):
    out = {}
    for d in ulog.data_list:
        key = ('samples', d.name, d.multi_id, d.msg_id)
        arrays = [d.data[f.field_name] for f in d.field_data]
        n = {len(a) for a in arrays}
        if len(n) != 1 or key in out:
            raise AssertionError(f'{key} reported twice or with uneven fields')
        out[key] = [b''.join(a[i].tobytes() for a in arrays) for i in range(n.pop())]
    obs = observe.observe(ulog, with_data=False)
    out[('logs',)] = obs['logs']
    for tag, msgs in obs['tagged'].items():
        out[('tagged', tag)] = [(lv, ts, m) for lv, _, ts, m in msgs]
    out[('dropouts',)] = [d for _, d in obs['dropouts']]
    out[('changed',)] = [(k, v) for _, k, v in obs['changed']]
    for k, v in obs['multi'].items():
        out[('multi', k)] = [x for part in v for x in part]
    return out, obs


def value_maps(exp):
    return {'info': exp.info, 'default0': exp.defaults[0], 'default1': exp.defaults[1]}


def classify(log, spans, ranges, first, data):
    """
    ranges: [(a, b)] zeroed byte ranges. -> (required records, permitted records), as record lists
    """
    state = {}                  # index -> 'lost' | 'torn' | 'maybe'
    for a, b in ranges:
        synced = None
        for i in range(first, len(log.records)):
            s, e = spans[i]
            if e <= a:
                continue
            if s < b and a < e:         # overlaps
                state[i] = 'lost' if a < s + 3 else 'torn'
                if a <= s and e <= b:
                    state[i] = 'lost'
                continue
            if log.records[i][0] == 'S' and state.get(i) is None:
                synced = i
                break
            state.setdefault(i, 'maybe')
        if synced is None:
            return None         # no intact sync marker after the damage
    required, permitted = [], []
    for i, rec in enumerate(log.records):
        st = state.get(i)
        if st is None:
            required.append(rec)
            permitted.append(rec)
        elif st == 'maybe':
            permitted.append(rec)
        elif st == 'torn':
            s, e = spans[i]
            try:
                alt = uf.parse_record(data[s + 2], bytes(data[s + 3:e]), errors='ignore')
            except uf.FormatError:
                continue
            if alt[0] == 'A' and alt[3] not in {x[1] for x in log.records if x[0] == 'F'}:
                continue
            permitted.append(alt)
    return required, permitted


def judge(ctx, what, data, required, permitted, start, version):
    ulog = ULog(MonFile(bytes(data)))
    ctx.expect(bool(ulog.file_corruption), what + ': not reported as corrupt')
    exp_req = uf.interpret(uf.Log(start, version, required))
    exp_per = uf.interpret(uf.Log(start, version, permitted))
    try:
        got, obs = observed_sequences(ulog)
    except AssertionError as exc:
        ctx.fail(f'{what}: {exc}')
    req, per = sequences(exp_req), sequences(exp_per)
    for key, rows in req.items():
        have = got.get(key, [])
        ctx.expect(subsequence(rows, have),
                   lambda: f'{what}: {key}: {len(have)} of at least {len(rows)} undamaged items kept, or out of order')
    for key, have in got.items():
        ctx.expect(subsequence(have, per.get(key, [])),
                   lambda: f'{what}: {key}: {len(have)} items reported, of which some were never logged or are repeated '
                           f'({len(per.get(key, []))} possible)')
    vr, vp = value_maps(exp_req), value_maps(exp_per)
    vo = {'info': obs['info'], 'default0': obs['defaults'][0], 'default1': obs['defaults'][1]}
    for m, values in vr.items():
        for k, v in values.items():
            ctx.expect(k in vo[m], f'{what}: {m} {k} lost')
            if vp[m].get(k) == v:
                ctx.expect(vo[m][k] == v, f'{what}: {m} {k} is {vo[m][k]} instead of {v}')
    for aspect in ('formats', 'init', 'start'):
        want = observe.expected_obs(exp_req)[aspect]
        ctx.no_diff(observe.diff(want, obs[aspect], aspect), what)
    ctx.count('undamaged records required', len(required))
    ctx.count('records lost to damage', len(permitted) - len(required))


def make_log(ctx, r):
    while True:
        kw = dict(samples=(15, 60), topics=(1, 3), max_fields=4, nesting=r.random() < .2, syncs=True,
                  removal=False, unknown=r.random() < .4, time=r.choice(['any', 'global']))
        if r.random() < .2:
            log, starts = gen.make_appended(r, **kw)
            first = next((i for i, x in enumerate(log.records) if x[0] in 'ALC'), None)
            if first is None or first >= starts[0]:
                continue
            return log, first, starts
        log = gen.make(r, **kw)
        first = next((i for i, x in enumerate(log.records) if x[0] in 'ALC'), None)
        if first is None:
            continue
        for _ in range(r.randint(2, 8)):
            log.records.insert(r.randint(first + 2, len(log.records) + 1), ('S',))
        if r.random() < .3:     # sync markers far apart
            log.records = [x for x in log.records if x[0] != 'S' or r.random() < .3] + [('S',)]
            tail = gen.Gen(r, gen.Cfg(unknown=False))
            tail.begin_time()
            log.records += [tail.log_record() for _ in range(3)]
        return log, first, []


def before_torn(log, pos):
    """The end of an interrupted section is before its incomplete record: what follows that is not read."""
    while log.records[pos - 1][0] == 'X':
        pos -= 1
    return pos


def shifted(log, records, positions, starts):
    """The log after insertions at these record positions of the original."""
    new = uf.Log(log.start, log.version, records)
    if starts:
        gen.fix_offsets(new, [s + sum(p <= s for p in positions) for s in starts])
    return new


def skipped_sync(ctx, r, log, first, starts):
    """
    A header turned into one of an unknown type that claims the bytes of the next sync marker as well (but no more
    than its section: a record that goes on behind that is what an interrupted section ends with).
    """
    data, spans = uf.encode_with_offsets(log)
    choices = []
    for i in range(first + 1, len(log.records)):
        nxt = next((k for k in range(i + 1, len(log.records)) if log.records[k][0] == 'S'), None)
        if log.records[i][0] not in 'XS' and nxt is not None:
            end = min([spans[s][0] if s < len(spans) else len(data) for s in starts if s > i] + [len(data)])
            low, high = spans[nxt][1] - spans[i][0] - 3, min(10000, end - spans[i][0] - 3)
            if low <= high:
                choices.append((i, nxt, low, high))
    if not choices:
        return
    i, nxt, low, high = r.choice(choices)
    size = r.choice([low, high, r.randint(low, high), min(high, low + 1)])
    kind = r.choice([k for k in range(1, 256) if chr(k) not in 'BFIMPQARDLCOS'])
    buf = bytearray(data)
    buf[spans[i][0]:spans[i][0] + 3] = bytes([size & 255, size >> 8, kind])
    keep = log.records[:i] + log.records[nxt:]
    keep = [x for x in keep if x[0] != 'X']
    what = f'header at {spans[i][0]} turned into type {kind} of {size} bytes, a sync marker ends {low} bytes behind it'
    judge(ctx, what, buf, keep, keep, log.start, log.version)
    ctx.count('damaged headers that claim a sync marker')
    ctx.count('sync markers more than 512 bytes into a claimed payload', int(low > 520))
    ctx.nontrivial(bytes(buf))


def case(ctx):
    r = ctx.rng
    mode = r.choice(['zero', 'zero', 'zero', 'insert', 'insert', 'bad sample', 'none', 'skipped sync'])
    log, first, starts = make_log(ctx, r)
    if starts:
        ctx.count('logs with appended sections')
    data, spans = uf.encode_with_offsets(log)
    lo = spans[first][1]
    if mode == 'none':
        ulog = ULog(MonFile(data))
        ctx.expect(not ulog.file_corruption, 'an undamaged log is reported as corrupt')
        ctx.count('undamaged logs')
        return
    if mode == 'skipped sync':
        skipped_sync(ctx, r, log, first, starts)
        return
    if mode == 'bad sample':
        ids = {x[2] for x in log.records if x[0] == 'A'}
        bad = []
        sub_at = {x[2]: i for i, x in enumerate(log.records) if x[0] == 'A'}
        sizes = {}
        for x in log.records:
            if x[0] == 'A':
                d = uf.Dataset(x[3], x[1], x[2], uf.flatten(x[3], {y[1]: y[2] for y in log.records if y[0] == 'F'}))
                sizes[x[2]] = (d.size, d.max_size)
        for _ in range(r.randint(1, 3)):
            pos = before_torn(log, r.randint(first + 1, len(log.records)))
            known = [i for i, p in sub_at.items() if p < pos]
            if known and r.random() < .6:
                mid = r.choice(known)
                size, big = sizes[mid]
                n = r.choice([0, 1, size - 1, big + 1, big + 8, big + r.randint(1, 100), r.randrange(size)])
                raw = bytes(r.randrange(256) for _ in range(n))
                rec = ('D', mid, raw)
                ctx.count('samples of a wrong size')
            elif r.random() < .15:
                rec = ('X', bytes([r.randrange(2), 0, ord('D')]) + b'\x07')  # not even a complete id
                rec = ('X', b'\x00\x00D') if rec[1][0] == 0 else rec
                ctx.count('samples without an id')
            else:
                mid = next(i for i in iter(lambda: r.randrange(65536), None) if i not in ids)
                rec = ('D', mid, bytes(r.randrange(256) for _ in range(r.choice([0, 8, 30]))))
                ctx.count('samples of an unknown subscription')
            bad.append((pos, rec))
        bad.sort(key=lambda x: -x[0])
        records = list(log.records)
        for pos, rec in bad:
            records.insert(pos, rec)
        broken = uf.encode(shifted(log, records, [p for p, _ in bad], starts))
        ulog = ULog(MonFile(broken))
        ctx.expect(bool(ulog.file_corruption), f'{[b[1] for b in bad]!r:.200} not reported as corruption')
        want = observe.expected_obs(uf.interpret(log))
        ctx.no_diff(observe.compare(want, observe.observe(ulog), ignore=('corrupt',)),
                    f'bad samples {[b[1] for b in bad]!r:.300} affected other records')
        ctx.count('logs with bad samples')
        ctx.nontrivial(broken)
        return
    if mode == 'insert':
        records = list(log.records)
        inserts = []
        for _ in range(r.choice([1, 1, 2])):
            n = r.choice([3, 4, 5, 8, r.randint(3, 40), r.randint(3, 1600), r.randint(490, 530)])
            inserts.append((before_torn(log, r.randint(first + 1, len(records))), ('X', bytes(n))))
        inserts.sort(key=lambda x: -x[0])
        for pos, x in inserts:
            records.insert(pos, x)
        damaged = shifted(log, records, [p for p, _ in inserts], starts)
        data, spans = uf.encode_with_offsets(damaged)
        zeros = [x for _, x in inserts]
        ranges = [spans[i] for i, x in enumerate(records) if any(x is z for z in zeros)]
        res = classify(damaged, spans, ranges, first + 1, data)
        if res is None:
            return
        drop = [[x for x in part if x[0] != 'X'] for part in res]
        judge(ctx, f'{[b - a for a, b in ranges]} zeros inserted', data, *drop, log.start, log.version)
        ctx.count('insertions')
        ctx.nontrivial(data)
        return
    # zeroed ranges
    starts = {s for s, _ in spans}
    ranges = []
    buf = bytearray(data)
    for _ in range(r.choice([1, 1, 1, 2])):
        for _ in range(20):
            a = r.randint(lo, len(data) - 1)
            n = r.choice([1, 3, r.randint(1, 12), r.randint(1, 80), r.randint(1, 600), r.randint(400, 1500)])
            if r.random() < .3:     # whole records
                i = r.randrange(first + 1, len(spans)) if first + 1 < len(spans) else None
                if i is None:
                    continue
                a = spans[i][0] + r.choice([0, 0, 1, 2])
                n = spans[min(len(spans) - 1, i + r.randrange(4))][1] - a
            b = min(len(data), a + n)
            touched = [i for i in range(first + 1, len(spans)) if spans[i][0] < b and a < spans[i][1]]
            headers = [i for i in touched if a < spans[i][0] + 3]
            if all(log.records[i][0] == 'X' for i in headers) or any(spans[i][0] + 3 > b for i in headers):
                continue            # only headers wiped up to their type byte
            t = touched[0]
            if t not in headers and log.records[t][0] == 'A' and a < spans[t][0] + 6:
                continue            # would turn into a valid subscription of another topic
            if any(a < q and p < b for p, q in ranges):
                continue
            ranges.append((a, b))
            break
    if not ranges:
        return
    ranges.sort()
    for a, b in ranges:
        buf[a:b] = bytes(b - a)
    res = classify(log, spans, ranges, first + 1, buf)
    if res is not None:
        res = [[x for x in part if x[0] != 'X'] for part in res]
    if res is None:
        ctx.count('damage without a following sync marker')
        return
    judge(ctx, f'zeros at {ranges} of {len(data)} bytes', buf, *res, log.start, log.version)
    ctx.count('zeroed ranges', len(ranges))
    ctx.nontrivial(bytes(buf))
    ctx.sample(f'zeros at {ranges}: ' + gen.describe(log))


def sync_alignment(ctx):
    """Zeros of every length up to several search windows before a sync marker."""
    r = ctx.rng
    log = gen.make(r, samples=(20, 20), topics=(1, 1), max_fields=2, syncs=False, nesting=False, logs=False,
                   tagged=False, params=False, dropouts=False, meta_in_data=False, removal=False, late_subs=False)
    cut = len(log.records) - 8
    for n in list(range(3, 40)) + list(range(440, 1100)) + list(range(1480, 1560)):
        ctx.tick()
        records = log.records[:cut] + [('X', bytes(n)), ('S',)] + log.records[cut:]
        required = log.records[:cut] + [('S',)] + log.records[cut:]
        data = uf.encode(uf.Log(log.start, log.version, records))
        judge(ctx, f'{n} zeros inserted before a sync marker', data, required, required, log.start, log.version)
        ctx.count('distances between damage and sync marker')


def many_syncs(ctx):
    """Damage behind more sync markers than a byte, and than 16 bits, can count."""
    records = [('F', 'topic', [('uint64_t', 0, 'timestamp'), ('uint32_t', 0, 'x')]), ('A', 0, 0, 'topic')]
    for k in range(66500):
        records += [('D', 0, struct.pack('<QI', k + 1, k))] * (k % 8 == 0) + [('S',)]
    for where in (150, 300, 1500, 33000, 66000):
        i = next(i for i in range(len(records)) if i > where * 9 // 8 and records[i][0] == 'D')
        damaged = records[:i] + [('X', b'\x80\x10z' + uf.encode_record(records[i])[3:])] + records[i + 1:]
        k = next(k for k in range(i, len(records)) if records[k][0] == 'S')
        data = uf.encode(uf.Log(1, 1, damaged))
        judge(ctx, f'a damaged header after {i} records', data, records[:i] + records[k:], records, 1, 1)
        ctx.tick()
        ctx.count('damage behind many sync markers')


CHECK = Check(
    'C06', case, quick=48000, thorough=250000,
    rule='case = random log with sync markers damaged by zeroed ranges, inserted zeros or bad samples (or undamaged); '
         'non-trivial = damage was applied and the surviving records were compared; distinct by bytes',
    required=['zeroed ranges', 'insertions', 'logs with bad samples', 'samples of a wrong size',
              'samples of an unknown subscription', 'samples without an id', 'undamaged logs', 'records lost to damage',
              'distances between damage and sync marker', 'damaged headers that claim a sync marker',
              'sync markers more than 512 bytes into a claimed payload', 'logs with appended sections'],
    probes=[('sync-alignment', sync_alignment), ('many-syncs', many_syncs)],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py'])
