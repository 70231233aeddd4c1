"""C18: migrating a database keeps its data and leads to one schema."""
import gc
import os
import sys

from vlib import dbkit, gen, observe, oldschema, ulogfmt as uf
from vlib.harness import Check, REPO

from pyulog import migrate_db as tool
from pyulog.db import DatabaseULog
from pyulog.migrate_db import migrate_db

SQL = os.path.join(REPO, 'pyulog', 'sql')


def make_logs(ctx, folder, n, ts_limit):
    r = ctx.rng
    kw = dict(dbkit.PROFILE, samples=(0, 10), topics=(0, 3), max_fields=4, nesting=False)
    kw['ts_limit'] = ts_limit
    logs = []
    while len(logs) < n:
        log = gen.make_appended(r, **kw)[0] if r.random() < .3 else gen.make(r, **kw)
        data = uf.encode(log)
        if any(data == x[1] for x in logs):
            continue
        name = os.path.join(folder, f'log{len(logs)}.ulg')
        with open(name, 'wb') as f:
            f.write(data)
        exp = observe.expected_obs(uf.interpret(log))
        exp['corrupt'] = False
        logs.append((name, data, exp))
    return logs


def filled(ctx, folder, path, n, version, holes=True):
    """A database of a version with n logs. -> logs, {key: index}"""
    r = ctx.rng
    current = os.path.join(folder, 'current')
    con = dbkit.raw(current)        # by the frozen schema
    con.close()
    with open(current, 'wb') as f:
        f.write(oldschema.image(oldschema.LATEST))
    handle = dbkit.fast_handle(current)
    logs = make_logs(ctx, folder, n, 1 << 50 if version < 4 else 1 << 63)
    keys = {}
    order = list(range(n))
    for k in order:
        log = DatabaseULog(handle, log_file=logs[k][0])
        log.save(append_json=r.random() < .3)
        keys[log.primary_key] = k
        if holes and len(keys) > 1 and r.random() < .15:
            pk = sorted(keys)[0]
            DatabaseULog(handle, primary_key=pk).delete()
            del keys[pk]
    gc.collect()
    if version == oldschema.LATEST:
        os.rename(current, path)
    else:
        oldschema.downgrade(current, path, version)
    return logs, keys


STEP = 1 << 20


def multiply(path, copies):
    """Add copies of all logs in a database; their keys are the old ones plus multiples of STEP."""
    con = dbkit.raw(path)
    try:
        con.execute('PRAGMA foreign_keys=off')
        for t in dbkit.tables(con):
            if t.startswith('sqlite_'):
                continue
            refs = {r[3].lower() for r in con.execute(f'PRAGMA foreign_key_list("{t}")')}
            cur = con.execute(f'SELECT * FROM "{t}" ORDER BY rowid')
            cols = [d[0].lower() for d in cur.description]
            old = cur.fetchall()

            def copy(c, v, k):
                if v is None:
                    return v
                if c == 'id' or c in refs:      # some references are kept as text
                    return type(v)(int(v) + k * STEP)
                return f'{v}-{k}' if c == 'sha256sum' else v

            rows = [tuple(copy(c, v, k) for c, v in zip(cols, row)) for k in range(1, copies + 1) for row in old]
            con.executemany(f'INSERT INTO "{t}" VALUES ({",".join("?" * len(cols))})', rows)
        con.commit()
    finally:
        con.close()


def migrate(ctx, path, **kw):
    """By function or by command line."""
    if ctx.rng.random() < .3:
        argv = ['ulog_migratedb', '-d', path]
        if kw.get('noop'):
            argv.append(ctx.rng.choice(['-n', '--noop']))
        if kw.get('force'):
            argv.append(ctx.rng.choice(['-f', '--force']))
        if kw.get('sql_dir'):
            argv += ['-s', kw['sql_dir']]
        old, sys.argv = sys.argv, argv
        try:
            tool.main()
        finally:
            sys.argv = old
        ctx.count('migrations from the command line')
    else:
        migrate_db(path, **kw)
    gc.collect(0)


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def check_schema(ctx, path, what):
    con = dbkit.raw(path)
    try:
        version = con.execute('PRAGMA user_version').fetchone()[0]
        got = oldschema.schema(con)
    finally:
        con.close()
    ctx.expect(version == DatabaseULog.SCHEMA_VERSION, f'{what}: version {version}')
    ctx.no_diff(oldschema.missing(oldschema.golden_schema(), got), f'{what}: schema')
    new = os.path.join(ctx.dir(), 'new')
    migrate_db(new)
    con = dbkit.raw(new)
    try:
        fresh = oldschema.schema(con)
    finally:
        con.close()
    ctx.no_diff(oldschema.missing(fresh, got), f'{what}: schema against a new database')
    ctx.no_diff(oldschema.missing(got, fresh), f'{what}: schema of a new database against this one')
    ctx.count('schemas compared')


def usable(ctx, path, logs, keys, what, version):
    """All logs can be loaded, deleted and joined by new ones."""
    r = ctx.rng
    handle = dbkit.fast_handle(path)
    for pk, k in keys.items():
        log = DatabaseULog(handle, primary_key=pk, lazy=False)
        ctx.no_diff(observe.compare(logs[k][2], observe.observe(log), ignore=('corrupt',)), f'{what}: log {pk}')
        ctx.count('migrated logs loaded')
    extra = make_logs(ctx, ctx.dir(), 1, 1 << 63)[0]
    before = dbkit.dump(path)
    new = DatabaseULog(handle, log_file=extra[0])
    if all(extra[1] != x[1] for x in logs):
        new.save(append_json=r.random() < .5)
        ctx.expect(new.primary_key not in keys, f'{what}: key reused')
        again = DatabaseULog(handle, primary_key=new.primary_key, lazy=False)
        ctx.no_diff(observe.compare(extra[2], observe.observe(again), ignore=('corrupt',)), f'{what}: new log')
        ctx.count('logs added after a migration')
        again.delete()
        now = dbkit.dump(path)
        ctx.no_diff(dbkit.dump_diff({t: v for t, v in before.items() if t != 'sqlite_sequence'},
                                    {t: v for t, v in now.items() if t != 'sqlite_sequence'}),
                    f'{what}: a new log added and deleted')
    if version > 1:
        for pk, k in keys.items():
            sha = DatabaseULog.calc_sha256sum(logs[k][0])
            ctx.expect(DatabaseULog.primary_key_from_sha256sum(handle, sha) == pk, f'{what}: log {pk} is not found')
            try:
                DatabaseULog(handle, log_file=logs[k][0]).save()
            except KeyError:
                pass
            else:
                ctx.fail(f'{what}: log {pk} was stored twice')
    left = dict(keys)
    for pk in r.sample(sorted(keys), len(keys)):
        DatabaseULog(handle, primary_key=pk).delete()
        del left[pk]
        for other in list(left)[:1]:
            log = DatabaseULog(handle, primary_key=other, lazy=False)
            ctx.no_diff(observe.compare(logs[left[other]][2], observe.observe(log), ignore=('corrupt',)),
                        f'{what}: log {other} after deleting {pk}')
        ctx.count('migrated logs deleted')
    state = dbkit.dump(path)
    rest = {t: len(v[1]) for t, v in state.items() if isinstance(v, tuple) and t != 'sqlite_sequence' and v[1]
            and t.lower() in oldschema.golden_schema()}
    ctx.expect(not rest, f'{what}: rows left after deleting all logs: {rest}')
    ctx.expect(state['integrity'] == 'ok' and not state['dangling'], f'{what}: {state["integrity"]} {state["dangling"]}')


def expected_contents(old, version):
    """The rows of a database of an older version in the terms of the current one."""
    out = {}
    latest = {t.lower(): [(c.lower(), typ) for c, typ in cols if not c.endswith('_old')]
              for t, cols in oldschema.columns(oldschema.LATEST).items()}
    for t, cols in latest.items():
        rows = []
        for row in old.get(t, []):
            vals = {c: v for c, _, v in row}
            new = {}
            for c, typ in cols:
                v = vals.get(c)
                if version < 4 and isinstance(v, float) and typ == 'INT':
                    v = int(v)
                new[c] = v
            rows.append(tuple(sorted((c, type(v).__name__, v) for c, v in new.items())))
        out[t] = sorted(rows, key=repr)
    return out


def case(ctx):
    r = ctx.rng
    folder = ctx.dir()
    path = os.path.join(folder, 'db')
    kind = r.choice(['filled'] * 6 + ['empty', 'new', 'foreign', 'zero'])
    copies = 0
    if ctx.idx % 24 == 5:
        kind, copies = 'filled', r.choice([60, 60, 60, 130, 300] if ctx.idx < 1200 else [60, 130, 300, 1100])
    monitor = dbkit.Monitor(on_connect=lambda con: con.execute('PRAGMA synchronous=off'))
    with monitor:
        if kind in ('filled', 'empty'):
            version = r.choice([1, 1, 2, 3, 4, 5])
            logs, keys = filled(ctx, folder, path, r.choice([1, 2, 3]) if kind == 'filled' else 0, version)
            if copies:
                multiply(path, copies)
                ctx.count('databases of many logs')
            what = f'database of version {version} with {len(keys) * (copies + 1)} logs'
            old = oldschema.contents(path)
            image = read(path)
            # refused on use
            if version < DatabaseULog.SCHEMA_VERSION:
                handle = dbkit.fast_handle(path)
                tries = [{'primary_key': pk} for pk in list(keys)[:1] + [1]] + [{'log_file': x[0]} for x in logs[:1]]
                for kw in tries:
                    try:
                        DatabaseULog(handle, **kw)
                    except ValueError:
                        ctx.count('old databases refused')
                    else:
                        ctx.fail(f'{what} was used without a migration')
                ctx.expect(read(path) == image, f'{what} was changed by a refused use')
            # dry run
            migrate(ctx, path, noop=True, force=r.random() < .2)
            ctx.expect(read(path) == image, f'{what} was changed by a dry run')
            ctx.count('dry runs')
            # in one or in two steps
            current = DatabaseULog.SCHEMA_VERSION
            if version + 1 < current and r.random() < .3:
                mid = r.randrange(version + 1, current)
                try:
                    DatabaseULog.SCHEMA_VERSION = mid
                    migrate(ctx, path)
                finally:
                    DatabaseULog.SCHEMA_VERSION = current
                con = dbkit.raw(path)
                ctx.expect(con.execute('PRAGMA user_version').fetchone()[0] == mid, f'{what}: not at version {mid}')
                con.close()
                ctx.count('migrations in two steps')
            migrate(ctx, path, force=r.random() < .2, sql_dir=SQL if r.random() < .2 else None)
            ctx.count(f'migrations from version {version}, {kind}')
            check_schema(ctx, path, what)
            got = oldschema.contents(path)
            want = expected_contents(old, version)
            for t, rows in want.items():
                if t not in ('sqlite_sequence',):
                    cols = {c for row in rows for c, _, _ in row}
                    have = sorted((tuple(x for x in row if x[0] in cols) for row in got.get(t, [])), key=repr)
                    if rows != have:
                        gone = [x for x in rows if x not in have][:2]
                        new = [x for x in have if x not in rows][:2]
                        ctx.fail(f'{what}: table {t} has {len(have)} instead of {len(rows)} rows; gone {gone!r:.300}, '
                                 f'new {new!r:.300}')
                    ctx.count('rows compared', len(rows))
            # again, and dry
            before = oldschema.full_dump(path)
            migrate(ctx, path, force=r.random() < .3)
            migrate(ctx, path, noop=True)
            ctx.no_diff(dbkit.dump_diff(before, oldschema.full_dump(path)), f'{what}: migrated again')
            ctx.expect(before['integrity'] == 'ok' and not before['dangling'],
                       f'{what}: integrity {before["integrity"]}, dangling {before["dangling"]}')
            ctx.count('repeated migrations')
            if copies:
                handle = dbkit.fast_handle(path)
                for pk, k in keys.items():
                    key = pk + r.randint(0, copies) * STEP
                    log = DatabaseULog(handle, primary_key=key, lazy=False)
                    ctx.no_diff(observe.compare(logs[k][2], observe.observe(log), ignore=('corrupt',)),
                                f'{what}: log {key}')
                    ctx.count('logs loaded from databases of many logs')
            else:
                usable(ctx, path, logs, keys, what, version)
            ctx.count('rows of appended offsets compared', len(want.get('ulogappendedoffsets', [])))
            ctx.nontrivial(kind, version, image)
            ctx.sample(f'{what}, {sum(len(x) for x in old.values())} rows')
        elif kind == 'new':
            migrate(ctx, path)
            check_schema(ctx, path, 'new database')
            usable(ctx, path, [], {}, 'new database', 5)
            ctx.count('new databases')
            ctx.nontrivial(kind, ctx.idx)
        else:
            con = dbkit.raw(path)
            rows = []
            if kind == 'foreign':
                con.execute('CREATE TABLE Something (Id INTEGER PRIMARY KEY, Name TEXT, Value BLOB)')
                rows = [(k, 'x' * k, bytes(r.randbytes(5))) for k in range(r.randint(0, 20))]
                con.executemany('INSERT INTO Something VALUES (?, ?, ?)', rows)
                con.commit()
            con.close()
            if not os.path.exists(path):
                with open(path, 'wb'):
                    pass
            image = read(path)
            what = f'database not created by the tool ({kind})'
            for noop in r.sample([False, True], 2):
                try:
                    migrate(ctx, path, noop=noop)
                except FileExistsError:
                    ctx.count('foreign databases refused')
                else:
                    ctx.fail(f'{what} was migrated')
            ctx.expect(read(path) == image, f'{what} was changed by a refused migration')
            try:
                DatabaseULog(dbkit.fast_handle(path), primary_key=1)
            except ValueError:
                pass
            else:
                ctx.fail(f'{what} was used')
            migrate(ctx, path, noop=True, force=True)
            ctx.expect(read(path) == image, f'{what} was changed by a dry run')
            if r.random() < .3:
                # versions that no release had
                strange = f'{path}_strange'
                con = dbkit.raw(strange)
                con.execute('CREATE TABLE Something (Id INTEGER PRIMARY KEY)')
                version = r.choice([-1, -2, -1 << 31, DatabaseULog.SCHEMA_VERSION + 1, (1 << 31) - 1])
                con.execute(f'PRAGMA user_version = {version}')
                con.commit()
                con.close()
                image = read(strange)
                try:
                    migrate(ctx, strange, force=r.random() < .5)
                except ValueError:
                    ctx.expect(version < 0, f'a newer database (version {version}) was refused')
                else:
                    ctx.expect(version > 0, f'a database of version {version} was accepted')
                ctx.expect(read(strange) == image, f'a database of version {version} was changed')
                ctx.count('databases of an impossible or newer version')
            migrate(ctx, path, force=True)
            con = dbkit.raw(path)
            if kind == 'foreign':
                got = con.execute('SELECT * FROM Something ORDER BY Id').fetchall()
                ctx.expect(got == rows, f'{what}: its rows changed')
                con.execute('DROP TABLE Something')
                con.commit()
            con.close()
            check_schema(ctx, path, what)
            usable(ctx, path, [], {}, what, 5)
            ctx.count('forced migrations')
            ctx.nontrivial(kind, image)
        ctx.count('SQL statements observed', len(monitor.events))
        monitor.close()


CHECK = Check(
    'C18', case, quick=1200, thorough=8000,
    rule='case = a database of a random schema version (filled with one to three logs or copies of them by the hundreds, empty, new, or of foreign origin), '
         'used, dry-run, migrated at once or in steps, migrated again, and used; distinct by the bytes of the database',
    required=[f'migrations from version {v}, filled' for v in range(1, 6)] + [
        'old databases refused', 'dry runs', 'migrations in two steps', 'repeated migrations', 'migrated logs loaded',
        'migrated logs deleted', 'logs added after a migration', 'rows compared', 'rows of appended offsets compared', 'databases of many logs', 'logs loaded from databases of many logs',
        'foreign databases refused',
        'forced migrations', 'databases of an impossible or newer version', 'new databases', 'migrations from the command line'],
    assumptions=['vlib/golden holds the schema versions as they were released',
                 'times below 2^50 in databases of versions 1 to 3, which keep them as floating-point numbers'])
