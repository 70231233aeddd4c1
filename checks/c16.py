"""C16: the database holds each log once and every operation touches only its own log."""
import gc
import hashlib
import io
import os

from vlib import dbkit, gen, observe, ulogfmt as uf
from vlib.harness import Check

from pyulog.db import DatabaseULog

SKIP = ('user_version', 'integrity', 'dangling', 'sqlite_sequence')


def rows(path):
    """Everything in the database as a dictionary {(table, row): how often}."""
    state = dbkit.dump(path)
    if state['integrity'] != 'ok' or state['dangling']:
        return state, None
    out = {}
    for t, content in state.items():
        if t not in SKIP:
            for row in content[1]:
                out[(t, row)] = out.get((t, row), 0) + 1
    return state, out


def minus(a, b):
    out = {}
    for k, n in a.items():
        if n > b.get(k, 0):
            out[k] = n - b.get(k, 0)
    return out


class World:
    """One database and the model of it."""

    def __init__(self, ctx, folder, name):
        self.ctx = ctx
        self.path = dbkit.new_db(os.path.join(folder, name))
        self.handle = dbkit.fast_handle(self.path)
        self.stored = {}        # key -> (file index, rows)
        self.used = set()       # keys ever used
        self.objects = []       # (object, key or None, file index, lazy)
        self.now = {}

    def check(self, what, expected):
        """The database contains exactly the expected rows."""
        state, now = rows(self.path)
        if now is None:
            self.ctx.fail(f'{what}: integrity {state["integrity"]}, dangling references {state["dangling"]}')
        gone, new = minus(expected, now), minus(now, expected)
        if gone or new:
            self.ctx.fail(f'{what}: rows gone {list(gone.items())[:3]!r:.400} rows new {list(new.items())[:3]!r:.400}')
        self.now = now
        self.ctx.count('states of the database compared')

    def saved(self, pk, file, what):
        ctx = self.ctx
        ctx.expect(isinstance(pk, int) and pk not in self.used, f'{what}: key {pk!r} was used before ({sorted(self.used)})')
        _, now = rows(self.path)
        if now is None:
            self.check(what, {})
        gone, new = minus(self.now, now), minus(now, self.now)
        ctx.expect(not gone, f'{what} changed rows of other logs: {list(gone)[:3]!r:.400}')
        keys = [row[0] for t, row in new if t == 'ULog']
        ctx.expect(keys == [('int', pk)], f'{what}: new rows in ULog {keys}')
        self.used.add(pk)
        self.stored[pk] = (file, new)
        self.now = now

    def deleted(self, pk, what):
        mine = self.stored.pop(pk)[1]
        self.check(what, minus(self.now, mine))


def case(ctx):
    r = ctx.rng
    folder = ctx.dir()
    kw = dict(dbkit.PROFILE, samples=(0, 12), topics=(0, 3), max_fields=4, nesting=False)
    files = []      # (name, data, sha, expected)
    while len(files) < r.randint(2, 5):
        if files and r.random() < .5:       # the same names, keys, ids
            log = r.choice(files)[4].copy()
            k = r.random()
            if k < .4:
                log.start += 1 if log.start + 1 < 1 << 63 else -1
            elif k < .6:
                log.records = log.records + [('I', 'int32_t', 'extra', b'\1\2\3\4')]
            elif k < .7 and log.records and log.records[-1][0] == 'L':      # only the last bytes differ
                x = log.records[-1]
                log.records[-1] = x[:3] + (x[3][:-1] + bytes([r.randrange(97, 123)]),)
            else:       # the same contents in another file
                log.records = log.records + [('S',)]
        else:
            log = gen.make(r, **kw)
            if r.random() < .2:         # a file of a chosen size
                log.records += [('L', 54, log.start, b'-' * r.randrange(8000))] * r.choice([0, 0, 1, 8])
                size = len(uf.encode(log)) + 12
                block = r.choice([64, 4096, 4096, 8192, 65536])
                log.records.append(('L', 54, log.start, b'.' * (r.choice([-1, 0, 0, 1, 40]) - size % -block)))
                ctx.count('files of a chosen size')
        data = uf.encode(log)
        if any(data == f[1] for f in files):
            continue
        name = os.path.join(folder, f'log{len(files)}.ulg')
        with open(name, 'wb') as f:
            f.write(data)
        exp = observe.expected_obs(uf.interpret(log))
        exp['corrupt'] = False
        files.append((name, data, hashlib.sha256(data).hexdigest(), exp, log))
    copy = os.path.join(folder, 'copy.ulg')
    monitor = dbkit.Monitor()
    with monitor:
        worlds = [World(ctx, folder, 'db')]
        if r.random() < .2:
            worlds.append(World(ctx, folder, 'other'))
        for _ in range(r.randint(5, 30)):
            w = r.choice(worlds)
            ctx.tick()
            step(ctx, w, files, copy)
            monitor.close()
        for w in worlds:
            w.check('the end', w.now)
            for pk in w.stored:
                load(ctx, w, files, pk, False)
        monitor.close()
    ctx.count('SQL statements observed', len(monitor.events))
    ctx.nontrivial(len(monitor.events), *[f[1] for f in files])
    ctx.sample(f'{len(files)} files, {len(worlds)} databases, keys used {sorted(worlds[0].used)}, stored in the end '
               f'{sorted(worlds[0].stored)}')


def load(ctx, w, files, pk, lazy):
    dbulog = DatabaseULog(w.handle, primary_key=pk, lazy=lazy)
    f = files[w.stored[pk][0]]
    what = f'log loaded with key {pk}'
    ctx.no_diff(observe.compare(f[3], observe.observe(dbulog, with_data=not lazy),
                                ignore=('corrupt', 'datasets', 'repeated_datasets') if lazy else ('corrupt',)), what)
    ctx.expect(dbulog.primary_key == pk and dbulog.sha256sum == f[2], f'{what}: key {dbulog.primary_key} or digest differ')
    ctx.count('loads')
    return dbulog


def step(ctx, w, files, copy):
    r = ctx.rng
    op = r.choice(['save', 'save', 'save', 'again', 'load', 'load', 'missing', 'lookup', 'lookup', 'delete', 'delete',
                   'redelete', 'unsaved', 'hash', 'wrong use'])
    k = r.randrange(len(files))
    name, data, sha, _, _ = files[k]
    pks = {v[0]: pk for pk, v in w.stored.items()}
    if op == 'save':
        how = r.random()
        if how < .3:
            source = io.BytesIO(data)
        elif how < .5:
            with open(copy, 'wb') as f:
                f.write(data)
            source = copy
        else:
            source = name
        dbulog = DatabaseULog(w.handle, log_file=source)
        ctx.expect(dbulog.primary_key is None and dbulog.sha256sum == sha, 'a log from a file has a key or a wrong digest')
        if k in pks:
            try:
                dbulog.save(append_json=r.random() < .3)
            except KeyError:
                ctx.count('repeated saves refused')
            else:
                ctx.fail(f'file {k} is stored with key {pks[k]} and was saved again with key {dbulog.primary_key}')
            w.check(f'refused save of file {k}', w.now)
        else:
            dbulog.save(append_json=r.random() < .3)
            w.saved(dbulog.primary_key, k, f'save of file {k}')
            w.objects.append([dbulog, dbulog.primary_key, k, False])
            ctx.count('saves')
            if any(key not in w.stored for key in w.used):
                ctx.count('saves after a deletion')
    elif op == 'again':
        if not w.objects:
            return
        obj = r.choice(w.objects)
        dbulog, pk, k, lazy = obj
        if pk is None and not lazy and k not in pks:
            dbulog.save()
            w.saved(dbulog.primary_key, k, f'save of deleted file {k}')
            obj[1] = dbulog.primary_key
            ctx.count('saves of deleted logs')
            return
        try:
            dbulog.save()
        except (KeyError, ValueError):
            ctx.count('saves of stored objects refused')
        else:
            ctx.fail(f'an object with key {pk} (lazy: {lazy}) was saved again')
        if pk is None and k in pks:     # it now stands for the stored one
            w.objects.remove(obj)
        w.check('refused save', w.now)
    elif op == 'load' and w.stored:
        pk = r.choice(sorted(w.stored))
        lazy = r.random() < .5
        dbulog = load(ctx, w, files, pk, lazy)
        w.objects.append([dbulog, pk, w.stored[pk][0], lazy])
    elif op == 'missing':
        gone = [pk for pk in w.used if pk not in w.stored]
        pk = r.choice(gone + gone + [max(w.used, default=0) + 1, 0, -1, 10 ** 9])
        try:
            DatabaseULog(w.handle, primary_key=pk, lazy=r.random() < .5)
        except KeyError:
            ctx.count('loads of deleted logs refused' if pk in gone else 'loads of unknown logs refused')
        else:
            ctx.fail(f'load with key {pk}, which is not stored')
        ctx.expect(not DatabaseULog.exists_in_db(w.handle, pk), f'key {pk} is said to exist')
        for dbulog, key, _, _ in w.objects:
            if key is not None and key not in w.stored:
                try:
                    dbulog.load(lazy=r.random() < .5)
                except KeyError:
                    ctx.count('reloads of deleted logs refused')
                else:
                    ctx.fail(f'an object with the deleted key {key} was loaded again')
                break
    elif op == 'lookup':
        for j, f in enumerate(files):
            got = DatabaseULog.primary_key_from_sha256sum(w.handle, f[2])
            ctx.expect(got == pks.get(j), f'file {j} is looked up as key {got} instead of {pks.get(j)}')
            ctx.count('lookups of stored logs' if j in pks else 'lookups of other logs')
        ctx.expect(DatabaseULog.primary_key_from_sha256sum(w.handle, hashlib.sha256(b'?').hexdigest()) is None,
                   'an unknown digest is found')
        at = r.randrange(64)
        near = sha[:at] + r.choice([c for c in '0123456789abcdef' if c != sha[at]]) + sha[at + 1:]
        for digest in (near, sha[:r.randrange(64)], sha + '0', '%', ''):
            ctx.expect(DatabaseULog.primary_key_from_sha256sum(w.handle, digest) is None, f'{digest} is found')
        for pk in w.used:
            ctx.expect(DatabaseULog.exists_in_db(w.handle, pk) == (pk in w.stored), f'existence of key {pk} is wrong')
    elif op == 'delete' and w.stored:
        live = [o for o in w.objects if o[1] in w.stored]
        if live and r.random() < .6:
            obj = r.choice(live)
        else:
            pk = r.choice(sorted(w.stored))
            lazy = r.random() < .5
            obj = [DatabaseULog(w.handle, primary_key=pk, lazy=lazy), pk, w.stored[pk][0], lazy]
            w.objects.append(obj)
        pk = obj[1]
        obj[0].delete()
        ctx.expect(obj[0].primary_key is None, 'a deleted log has a key')
        w.deleted(pk, f'deletion of key {pk}')
        obj[1] = None
        ctx.count('deletions')
        try:
            obj[0].delete()
        except KeyError:
            ctx.count('repeated deletions refused')
        else:
            ctx.fail('a deleted log was deleted again')
        if w.stored:
            load(ctx, w, files, r.choice(sorted(w.stored)), False)
            ctx.count('loads after deleting another log')
    elif op == 'redelete':
        stale = [o for o in w.objects if o[1] is not None and o[1] not in w.stored]
        if not stale:
            return
        obj = r.choice(stale)
        try:
            obj[0].delete()
        except KeyError:
            ctx.count('deletions of deleted logs refused')
        else:
            ctx.fail(f'deleting key {obj[1]}, which another object has deleted, reported success')
        w.objects.remove(obj)
        w.check('refused deletion', w.now)
    elif op == 'unsaved':
        dbulog = DatabaseULog(w.handle, log_file=name)
        try:
            dbulog.delete()
        except KeyError:
            ctx.count('deletions of unsaved logs refused')
        else:
            ctx.fail('a log that was not saved was deleted')
        w.check('refused deletion', w.now)
    elif op == 'wrong use':
        keys = sorted(w.stored) or [1]
        for what, args in (('neither file nor key', {}), ('file and key', {'log_file': name, 'primary_key': r.choice(keys)})):
            try:
                DatabaseULog(w.handle, lazy=r.random() < .5, **args)
            except (ValueError, TypeError):
                ctx.count('objects of no or two logs refused')
            else:
                ctx.fail(f'a log object was made from {what}')
        if w.stored:
            lazy = DatabaseULog(w.handle, primary_key=keys[0], lazy=True)
            try:
                lazy.write_ulog(io.BytesIO())
            except ValueError:
                ctx.count('writing lazily loaded logs refused')
            else:
                ctx.fail('a log without its datasets was written')
        w.check('wrong use', w.now)
    elif op == 'hash':
        ctx.expect(DatabaseULog.calc_sha256sum(name) == sha, 'digest of a file name')
        with open(name, 'rb') as f:
            ctx.expect(DatabaseULog.calc_sha256sum(f) == sha, 'digest of an open file')
            ctx.expect(f.tell() == 0, 'computing the digest moved the position of the file')
        ctx.expect(DatabaseULog.calc_sha256sum(f) == sha, 'digest of a closed file')
        ctx.expect(DatabaseULog.calc_sha256sum(io.BytesIO(data)) == sha, 'digest of a file in memory')
        size = max(0, r.choice([0, 64, 4096, 8192, 65536, 1 << 20, r.randrange(20000)]) + r.choice([-1, 0, 0, 1]))
        other = r.randbytes(size)
        ctx.expect(DatabaseULog.calc_sha256sum(io.BytesIO(other)) == hashlib.sha256(other).hexdigest(),
                   f'digest of {size} bytes')
        ctx.count('digests compared')
    gc.collect(0)


def many_logs(ctx):
    """Hundreds of logs in one database."""
    r = ctx.rng
    folder = ctx.dir()
    handle = dbkit.fast_handle(dbkit.new_db(os.path.join(folder, 'db')))
    stored, name = {}, os.path.join(folder, 'x.ulg')
    for k in range(700):
        log = uf.Log(k + 1, 1, [('F', 'topic', [('uint64_t', 0, 'timestamp'), ('uint16_t', 0, 'x')]), ('A', 0, 0, 'topic'),
                                ('D', 0, (k + 5).to_bytes(8, 'little') + k.to_bytes(2, 'little'))])
        data = uf.encode(log)
        with open(name, 'wb') as f:
            f.write(data)
        new = DatabaseULog(handle, log_file=name)
        new.save()
        ctx.expect(new.primary_key not in stored, f'key {new.primary_key} given twice')
        stored[new.primary_key] = (hashlib.sha256(data).hexdigest(), observe.expected_obs(uf.interpret(log)))
        if k % 7 == 3:
            pk = r.choice(sorted(stored))
            gone = stored.pop(pk)
            DatabaseULog(handle, primary_key=pk).delete()
            ctx.expect(DatabaseULog.primary_key_from_sha256sum(handle, gone[0]) is None and
                       not DatabaseULog.exists_in_db(handle, pk), f'deleted log {pk} of {k} is found')
        ctx.tick()
    for pk, (sha, want) in stored.items():
        ctx.expect(DatabaseULog.primary_key_from_sha256sum(handle, sha) == pk and DatabaseULog.exists_in_db(handle, pk),
                   f'log {pk} of {len(stored)} is not found')
        if r.random() < .3 or pk in (min(stored), max(stored)):
            again = DatabaseULog(handle, primary_key=pk, lazy=False)
            ctx.no_diff(observe.compare(want, observe.observe(again)), f'log {pk} of {len(stored)}')
    ctx.count('logs in one large database', len(stored))


def lazy_save(ctx):
    folder = ctx.dir()
    handle = dbkit.fast_handle(dbkit.new_db(os.path.join(folder, 'db')))
    log = uf.Log(1, 1, [('F', 'topic', [('uint64_t', 0, 'timestamp')]), ('A', 0, 0, 'topic'), ('D', 0, bytes(8))])
    name = os.path.join(folder, 'x.ulg')
    with open(name, 'wb') as f:
        f.write(uf.encode(log))
    DatabaseULog(handle, log_file=name).save()
    lazy = DatabaseULog(handle, primary_key=1)
    lazy.delete()
    try:
        lazy.save()
    except Exception:   # pylint: disable=broad-except
        return
    again = DatabaseULog(handle, primary_key=lazy.primary_key, lazy=False)
    ctx.no_diff(observe.compare(observe.expected_obs(uf.interpret(log)), observe.observe(again)),
                'a lazily loaded log was deleted and saved')


CHECK = Check(
    'C16', case, quick=3000, thorough=15000,
    rule='case = a random history of saves, loads, lookups and deletions of two to five logs (some alike) in one or two '
         'databases, with a comparison of all rows after each change; distinct by file bytes and number of SQL statements',
    required=['saves', 'repeated saves refused', 'saves of stored objects refused', 'saves after a deletion',
              'saves of deleted logs', 'loads', 'loads of deleted logs refused', 'loads of unknown logs refused',
              'lookups of stored logs', 'lookups of other logs', 'deletions', 'repeated deletions refused',
              'deletions of deleted logs refused', 'loads after deleting another log', 'digests compared',
              'objects of no or two logs refused', 'writing lazily loaded logs refused',
              'reloads of deleted logs refused', 'files of a chosen size', 'deletions of unsaved logs refused', 'SQL statements observed'],
    probes=[('lazy-save', lazy_save), ('many-logs', many_logs)],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py'])
