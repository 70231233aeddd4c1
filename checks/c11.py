"""C11: log equality means equal contents."""
import os
import struct

from vlib import dbkit, gen, observe, ulogfmt as uf
from vlib.harness import Check
from vlib.monfile import MonFile

from pyulog import ULog
from pyulog.db import DatabaseULog


def other_value(r, typ, raw):
    """Raw value of the same type whose meaning differs."""
    size, code, _ = uf.BASIC[typ]
    if code in 'c?':
        code = 'b'
    old = struct.unpack('<' + code, raw)[0]
    for _ in range(200):
        new = bytearray(raw)
        k = r.random()
        if k < .5:
            new[r.randrange(size)] ^= 1 << r.randrange(8)
        elif typ == 'float':
            new = struct.pack('<f', r.choice([1.5, float('nan'), 0.0, 3e10]))
        elif typ == 'double':
            new = struct.pack('<d', r.choice([1.5, float('nan'), 0.0, 3e10]))
        else:
            new = bytearray(r.randrange(256) for _ in range(size))
        val = struct.unpack('<' + code, new)[0]
        if val != old and not (val != val and old != old):
            return bytes(new)
    raise AssertionError('no other value')


def other_number(r, typ, raw):
    """As other_value, for values that are reported as such (booleans as truth values)."""
    if typ == 'bool':
        return b'\0' if any(raw) else b'\1'
    return other_value(r, typ, raw)


def other_raw(r, typ, raw):
    """Another value of an information record -> (type, raw)."""
    if typ.startswith('char['):
        try:
            text = raw.decode('utf-8')
        except UnicodeDecodeError:
            return f'char[{len(raw) + 3}]', b'new' + raw.decode('utf-8', 'ignore').encode()
        new = r.choice([text + 'x', 'x' + text, text[:-1] + ('y' if text[-1:] != 'y' else 'z')]).encode()
        return f'char[{len(new)}]', new
    if '[' in typ:
        new = bytearray(raw)
        new[r.randrange(len(new))] ^= 1 << r.randrange(8)
        return typ, bytes(new)
    return typ, other_number(r, typ, raw)


def pick(r, log, kind, cond=lambda i, x: True):
    idx = [i for i, x in enumerate(log.records) if x[0] == kind and cond(i, x)]
    return r.choice(idx) if idx else None


def mutate(r, log, aspect, datasets):
    """-> a new log with one difference, or None."""
    new = log.copy()
    recs = new.records
    first = next((i for i, x in enumerate(recs) if x[0] in 'ALC'), len(recs))
    subs = {x[2]: datasets[(x[3], x[1])] for x in recs if x[0] == 'A' and (x[3], x[1]) in datasets}

    def in_data(i, x):
        return i > first

    def in_def(i, x):
        return i < first

    def last_of_key(pos):
        return lambda i, x: not any(y[0] == x[0] and y[pos] == x[pos] for y in recs[i + 1:])
    if aspect == 'start time':
        new.start ^= 1 << r.randrange(20)
        return new
    if aspect == 'version':
        new.version ^= 1
        return new
    if aspect == 'compatible flags':
        if recs[0][0] != 'B':
            return None
        compat = list(recs[0][1])
        compat[r.randrange(8)] ^= 1 << r.randrange(8)
        recs[0] = ('B', compat, recs[0][2], recs[0][3])
        return new
    if aspect == 'appended flag':
        if recs[0][0] != 'B':
            return None
        recs[0] = ('B', recs[0][1], [1] + recs[0][2][1:], recs[0][3])
        return new
    if aspect == 'sample value':
        i = pick(r, new, 'D', lambda i, x: x[1] in subs)
        if i is None:
            return None
        ds = subs[recs[i][1]]
        name, typ = r.choice([f for f in ds.fields if f[0] != 'timestamp'] or [None, None])[:2] \
            if len(ds.fields) > 1 else (None, None)
        if name is None:
            return None
        pos, _ = ds.offsets[name]
        raw = recs[i][2]
        size = uf.BASIC[typ][0]
        recs[i] = ('D', recs[i][1], raw[:pos] + other_value(r, typ, raw[pos:pos + size]) + raw[pos + size:])
        return new
    if aspect == 'sample time':
        i = pick(r, new, 'D', lambda i, x: x[1] in subs)
        if i is None:
            return None
        pos, _ = subs[recs[i][1]].offsets['timestamp']
        raw = recs[i][2]
        ts = struct.unpack('<Q', raw[pos:pos + 8])[0] ^ 1 << r.randrange(40)
        recs[i] = ('D', recs[i][1], raw[:pos] + struct.pack('<Q', ts) + raw[pos + 8:])
        return new
    if aspect in ('sample removed', 'sample repeated'):
        i = pick(r, new, 'D', lambda i, x: x[1] in subs)
        if i is None:
            return None
        if aspect == 'sample removed':
            del recs[i]
        else:
            recs.insert(i, recs[i])
        return new
    if aspect == 'samples swapped':
        i = pick(r, new, 'D', lambda i, x: x[1] in subs)
        j = None if i is None else pick(r, new, 'D', lambda k, x: x[1] == recs[i][1])
        if j is None:
            return None
        ds = subs[recs[i][1]]
        pos, _ = ds.offsets['timestamp']
        if recs[i][2][pos:pos + 8] == recs[j][2][pos:pos + 8]:
            return None
        recs[i], recs[j] = recs[j], recs[i]
        return new
    if aspect == 'dataset removed':
        if not subs:
            return None
        victim = r.choice(sorted(subs))
        new.records = [x for x in recs if not (x[0] == 'D' and x[1] == victim)]
        return new
    if aspect in ('instance', 'message id'):
        if not subs:
            return None
        victim = r.choice(sorted(subs))
        ds = subs[victim]
        if aspect == 'instance':
            taken = {m for n, m in datasets if n == ds.name} | {x[1] for x in recs if x[0] == 'A' and x[3] == ds.name}
            if len(taken) > 255:
                return None
            multi = min(set(range(256)) - taken)
            new.records = [('A', multi, x[2], x[3]) if x[0] == 'A' and x[2] == victim else x for x in recs]
            return new
        mid = next(m for m in range(65536) if not any(x[0] == 'A' and x[2] == m for x in recs))
        new.records = [('A', x[1], mid, x[3]) if x[0] == 'A' and x[2] == victim else
                       ('D', mid, x[2]) if x[0] == 'D' and x[1] == victim else x for x in recs]
        return new
    if aspect in ('field name', 'format'):
        used = {x[3] for x in recs if x[0] == 'A'}
        i = pick(r, new, 'F', lambda i, x: (x[1] in used) == (aspect == 'field name'))
        if i is None:
            if aspect == 'format':
                recs.insert(1 if recs and recs[0][0] == 'B' else 0, ('F', 'extra_format', [('float', 0, 'x')]))
                return new
            return None
        fields = list(recs[i][2])
        k = r.randrange(len(fields))
        typ, size, name = fields[k]
        if name == 'timestamp' or typ not in uf.BASIC:
            return None
        fields[k] = (typ, size, name + 'q')
        if aspect == 'format' and r.random() < .6:
            fields[k] = r.choice([('int8_t' if typ != 'int8_t' else 'uint8_t', size, name), (typ, size + 1, name)])
            if recs[i][1].startswith('nested'):
                fields[k] = (typ, size, name + 'q')
        recs[i] = ('F', recs[i][1], fields)
        return new
    if aspect == 'field order':
        i = pick(r, new, 'F', lambda i, x: len(x[2]) > 1)
        if i is None:
            return None
        fields = list(recs[i][2])
        a, b = r.sample(range(len(fields)), 2)
        fields[a], fields[b] = fields[b], fields[a]
        recs[i] = ('F', recs[i][1], fields)
        return new
    if aspect == 'information':
        i = pick(r, new, 'I', last_of_key(2))
        if i is None:
            return None
        typ, raw = other_raw(r, recs[i][1], recs[i][3])
        recs[i] = ('I', typ, recs[i][2], raw)
        return new
    if aspect == 'information removed':
        i = pick(r, new, 'I')
        if i is None:
            return None
        new.records = [x for x in recs if not (x[0] == 'I' and x[2] == recs[i][2])]
        return new
    if aspect == 'multi-part information':
        i = pick(r, new, 'M')
        if i is None:
            return None
        typ, raw = other_raw(r, recs[i][2], recs[i][4])
        recs[i] = ('M', recs[i][1], typ, recs[i][3], raw)
        return new
    if aspect == 'multi-part split':
        i = pick(r, new, 'M', lambda i, x: any(y[0] == 'M' and y[3] == x[3] for y in recs[:i]))
        if i is None:
            return None
        recs[i] = ('M', 1 - recs[i][1]) + recs[i][2:]
        return new
    if aspect in ('initial parameter', 'parameter change'):
        cond = in_def if aspect == 'initial parameter' else in_data
        i = pick(r, new, 'P', lambda i, x: cond(i, x) and (cond is in_data or not any(
            y[0] == 'P' and y[2] == x[2] for y in recs[i + 1:first])))
        if i is None:
            return None
        recs[i] = ('P', recs[i][1], recs[i][2], other_number(r, recs[i][1], recs[i][3]))
        return new
    if aspect == 'parameter name':
        i = pick(r, new, 'P')
        if i is None:
            return None
        recs[i] = ('P', recs[i][1], recs[i][2] + '_Q', recs[i][3])
        return new
    if aspect == 'parameter change removed':
        i = pick(r, new, 'P', in_data)
        if i is None:
            return None
        del recs[i]
        return new
    if aspect == 'parameter change time':
        i = pick(r, new, 'P', lambda i, x: in_data(i, x) and i + 1 < len(recs) and recs[i + 1][0] == 'D')
        if i is None:
            return None
        recs[i], recs[i + 1] = recs[i + 1], recs[i]
        return new
    if aspect == 'default parameter':
        i = pick(r, new, 'Q', last_of_key(3))
        if i is None:
            return None
        recs[i] = ('Q', recs[i][1], recs[i][2], recs[i][3], other_number(r, recs[i][2], recs[i][4]))
        return new
    if aspect == 'default parameter type':
        i = pick(r, new, 'Q', last_of_key(3))
        if i is None:
            return None
        recs[i] = ('Q', recs[i][1] ^ r.choice([1, 2]) or 3) + recs[i][2:]
        return new
    if aspect in ('logged message', 'tagged message'):
        kind = 'L' if aspect == 'logged message' else 'C'
        i = pick(r, new, kind)
        if i is None:
            return None
        x = list(recs[i])
        k = r.randrange(1, len(x))
        if k == len(x) - 1:
            x[k] = x[k].decode('utf-8', 'ignore').encode() + b'!'
        elif k == len(x) - 2:
            x[k] ^= 1
        elif kind == 'C' and k == 2:
            x[k] = (x[k] + 1) % 65536
        else:
            x[k] = (x[k] + 1) % 256
        recs[i] = tuple(x)
        return new
    if aspect == 'message removed':
        i = pick(r, new, r.choice('LC'), lambda i, x: i != first)
        if i is None:
            return None
        del recs[i]
        return new
    if aspect == 'dropout':
        i = pick(r, new, 'O', in_data)
        if i is None:
            return None
        if r.random() < .3:
            del recs[i]
        else:
            recs[i] = ('O', recs[i][1] ^ 1 << r.randrange(16))
        return new
    raise AssertionError(aspect)


ASPECTS = ['start time', 'version', 'compatible flags', 'appended flag', 'sample value', 'sample value', 'sample value',
           'sample time', 'sample removed', 'sample repeated', 'samples swapped', 'dataset removed', 'instance',
           'message id', 'field name', 'format', 'field order', 'information', 'information removed', 'multi-part information',
           'multi-part split', 'initial parameter', 'parameter change', 'parameter name', 'parameter change removed',
           'parameter change time', 'default parameter', 'default parameter type', 'logged message', 'tagged message',
           'message removed', 'dropout']


class Plain:
    pass


NON_LOGS = [None, 0, 1.5, 'log', b'', [], {}, Plain(), object()]


def unequal(ctx, a, b, what):
    for x, y in ((a, b), (b, a)):
        ctx.expect((x == y) is False, f'{what}: compare equal')
        ctx.expect((x != y) is True, f'{what}: do not compare unequal')


def equal(ctx, a, b, what):
    for x, y in ((a, b), (b, a)):
        ctx.expect((x == y) is True, f'{what}: do not compare equal')
        ctx.expect((x != y) is False, f'{what}: compare unequal')


def parts_equal(ctx, a, b, exp_a, exp_b, what):
    """Datasets, formats and messages are equal exactly when their contents are."""
    oa, ob = observe.expected_obs(exp_a), observe.expected_obs(exp_b)
    for key in set(oa['datasets']) & set(ob['datasets']):
        da, db = a.get_dataset(*key), b.get_dataset(*key)
        if oa['datasets'][key] == ob['datasets'][key]:
            equal(ctx, da, db, f'{what}: equal datasets {key}')
        elif not numerically_same(oa['datasets'][key], ob['datasets'][key]):
            unequal(ctx, da, db, f'{what}: different datasets {key}')
            ctx.count('different datasets compared')
    for key in set(oa['formats']) & set(ob['formats']):
        same = oa['formats'][key] == ob['formats'][key]
        (equal if same else unequal)(ctx, a.message_formats[key], b.message_formats[key], f'{what}: formats {key}')
    for name, la, lb in (('logs', a.logged_messages, b.logged_messages), ('dropouts', a.dropouts, b.dropouts)):
        for i, (x, y) in enumerate(zip(oa[name], ob[name])):
            (equal if x == y else unequal)(ctx, la[i], lb[i], f'{what}: {name} {i}')


def numerically_same(a, b):
    """Differences of bits only (sign of zero, kind of NaN) cannot appear here except through damage: be safe."""
    return {k: v for k, v in a.items() if k != 'data'} == {k: v for k, v in b.items() if k != 'data'} and all(
        a['data'][k][2] == b['data'][k][2] for k in a['data'])


def case(ctx):
    r = ctx.rng
    use_db = r.random() < .08
    kw = dict(dbkit.PROFILE) if use_db else {}
    kw.update(syncs=False, removal=False, samples=(1, 30), topics=(1, 4),
              max_fields=r.choice([3, 6]), nesting=r.random() < .3, text=r.choice(['ascii', 'utf8', 'mixed']))
    log = gen.make(r, **kw)
    if use_db and any(x[0] == 'F' and not x[2] for x in log.records):
        return
    data = uf.encode(log)
    a = ULog(MonFile(data))
    b = ULog(MonFile(data))
    exp = uf.interpret(log)
    equal(ctx, a, b, 'two loads of the same bytes')
    equal(ctx, a, a, 'a log and itself')
    parts_equal(ctx, a, b, exp, exp, 'two loads of the same bytes')
    for x in [a] + a.data_list[:1] + a.logged_messages[:1] + a.dropouts[:1] + list(a.message_formats.values())[:1]:
        y = r.choice(NON_LOGS)
        unequal(ctx, x, y, f'{type(x).__name__} and {y!r}')
    if a.data_list:
        unequal(ctx, a, a.data_list[0], 'a log and its dataset')
    if any('nan' in repr(v) for d in a.data_list for v in d.data.values()):
        ctx.count('equal logs with not-a-number samples')
    if observe.has_nan(dict(observe.expected_obs(exp), datasets={})):
        ctx.count('equal logs with not-a-number parameters or information')
    stored = None
    if use_db:
        path = dbkit.new_db(os.path.join(ctx.dir(), 'db'))
        handle = dbkit.fast_handle(path)
        stored = store(ctx, handle, data)
        equal(ctx, a, stored, 'a log and itself read back from the database')
        equal(ctx, stored, store(ctx, handle, data), 'two loads from the database')
        unequal(ctx, stored, r.choice(NON_LOGS), 'a database log and something else')
        ctx.count('database logs compared')
    for _ in range(3):
        aspect = r.choice(ASPECTS)
        new = mutate(r, log, aspect, exp.datasets)
        if new is None:
            continue
        exp2 = uf.interpret(new)
        o1, o2 = observe.expected_obs(exp), observe.expected_obs(exp2)
        if numbers(o1) == numbers(o2) and (exp.version, exp.compat, exp.incompat) == (exp2.version, exp2.compat, exp2.incompat):
            continue
        data2 = uf.encode(new)
        c = ULog(MonFile(data2))
        what = f'logs that differ in their {aspect}'
        unequal(ctx, a, c, what)
        parts_equal(ctx, a, c, exp, exp2, what)
        ctx.count('differences: ' + aspect)
        ctx.nontrivial(data, data2)
        if stored is not None and storable(exp2) and not exp2.corrupt:
            other = store(ctx, handle, data2)
            unequal(ctx, stored, other, what + ', both from the database')
            unequal(ctx, stored, c, what + ', one from the database')
            unequal(ctx, a, other, what + ', the other from the database')
            equal(ctx, c, other, 'a log and itself read back from the database')
            ctx.count('different database logs compared')
    ctx.sample(gen.describe(log))


def numbers(obs):
    """Numbers by value: 0, 0.0 and -0.0 are equal."""
    if isinstance(obs, dict):
        return {k: numbers(v) for k, v in obs.items()}
    if isinstance(obs, list):
        return [numbers(v) for v in obs]
    if isinstance(obs, tuple) and len(obs) == 2 and obs[0] == 'f' and isinstance(obs[1], bytes):
        return ('i', struct.unpack('<d', obs[1])[0])
    if isinstance(obs, tuple):
        return tuple(numbers(v) for v in obs)
    return obs


def storable(exp):
    return exp.last < 1 << 63 and all(
        m[1] < 1 << 63 for m in exp.logs + [m for ms in exp.tagged.values() for m in ms])


def store(ctx, handle, data):
    path = os.path.join(ctx.dir(), 'log.ulg')
    with open(path, 'wb') as f:
        f.write(data)
    digest = DatabaseULog.calc_sha256sum(path)
    pk = DatabaseULog.primary_key_from_sha256sum(handle, digest)
    if pk is None:
        log = DatabaseULog(handle, log_file=path)
        log.save()
        pk = log.primary_key
    return DatabaseULog(handle, primary_key=pk, lazy=False)


def many(ctx):
    """Logs with tens of thousands of records that differ in one of them."""
    log = gen.many(ctx.rng)
    a = ULog(MonFile(uf.encode(log)))
    equal(ctx, a, ULog(MonFile(uf.encode(log))), 'two loads of the same bytes')
    for aspect in ('sample value', 'value in a wide sample', 'parameter change', 'logged message', 'tagged message', 'dropout', 'information',
                   'multi-part information', 'initial parameter', 'default parameter', 'format'):
        for where in ('last', 'any'):
            new = log.copy()
            kind = {'sample value': 'D', 'value in a wide sample': 'D', 'parameter change': 'P', 'logged message': 'L', 'tagged message': 'C', 'dropout': 'O',
                    'information': 'I', 'multi-part information': 'M', 'initial parameter': 'P', 'default parameter': 'Q',
                    'format': 'F'}[aspect]
            first = next(i for i, x in enumerate(log.records) if x[0] == 'A')
            at = [i for i, x in enumerate(log.records) if x[0] == kind and (kind != 'D' or x[1] == (0 if aspect == 'sample value' else 2)) and
                  (kind != 'P' or (i < first) == (aspect == 'initial parameter'))]
            at = at[-1] if where == 'last' else ctx.rng.choice(at)
            rec = list(log.records[at])
            if kind == 'O':
                rec[1] ^= 1
            elif aspect == 'value in a wide sample' and where == 'any':
                pos = ctx.rng.randrange(8 + 300, len(rec[2]))
                rec[2] = rec[2][:pos] + bytes([rec[2][pos] ^ 1]) + rec[2][pos + 1:]
            elif kind == 'F':
                rec[2] = rec[2] + [('float', 0, 'new')]
            else:
                rec[-1] = rec[-1][:-1] + bytes([rec[-1][-1] ^ 1])
            new.records[at] = tuple(rec)
            unequal(ctx, a, ULog(MonFile(uf.encode(new))), f'large logs that differ in their {aspect}, record {at}')


CHECK = Check(
    'C11', case, quick=15000, thorough=150000,
    rule='case = random log loaded twice (equal), compared with up to three logs that differ from it in one point '
         '(unequal), also through the database; non-trivial = a differing pair was compared; distinct by both files',
    required=['differences: ' + a for a in ASPECTS] + ['database logs compared', 'different database logs compared',
                                                        'equal logs with not-a-number samples',
                                                        'equal logs with not-a-number parameters or information',
                                                        'different datasets compared'],
    probes=[('many', many)],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py'])
