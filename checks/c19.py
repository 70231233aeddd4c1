"""C19: an interrupted or failing migration leaves a consistent, migratable database."""
import gc
import os
import shutil
import sqlite3

from vlib import dbkit, faults, oldschema
from vlib.harness import Check, Inconclusive
from checks import c18

from pyulog.db import DatabaseULog
from pyulog.migrate_db import migrate_db

BAD = ['INSERT INTO NoSuchTable VALUES (1);', 'CREATE TABLE ULog (Id INTEGER);', 'THIS IS NO SQL;',
       'ALTER TABLE ULog DROP COLUMN NoSuchColumn;', 'INSERT INTO ULog (Id) VALUES (1), (1);',
       'CREATE TABLE Extra (A INT UNIQUE); INSERT INTO Extra VALUES (7), (7);', 'SELECT no_such_function();']


class Scene:
    """A database to migrate, and the states on the path of its undisturbed migration."""

    def __init__(self, ctx):
        r = ctx.rng
        self.ctx = ctx
        self.folder = ctx.dir()
        self.dbdir = os.path.join(self.folder, 'd')
        os.mkdir(self.dbdir)
        self.path = os.path.join(self.dbdir, 'db')
        self.pre = os.path.join(self.folder, 'pre')
        self.version = r.choice([0, 1, 1, 1, 2, 3, 3, 4])
        self.keys = {}
        self.current = DatabaseULog.SCHEMA_VERSION
        if self.version:
            n = r.choice([0, 1, 2, 3])
            _, self.keys = c18.filled(ctx, self.folder, self.path, n, self.version)
            shutil.copyfile(self.path, self.pre)
        faults.arm(self.dbdir)      # the disk need not be waited for
        self.states = {self.version: oldschema.full_dump(self.path)}
        for k in range(self.version + 1, self.current + 1):
            try:
                DatabaseULog.SCHEMA_VERSION = k
                migrate_db(self.path)
            finally:
                DatabaseULog.SCHEMA_VERSION = self.current
            gc.collect(0)
            self.states[k] = oldschema.full_dump(self.path)
        self.reset()
        faults.arm(self.dbdir)
        migrate_db(self.path)
        gc.collect(0)
        self.n_ops, _, _, self.trace = faults.disarm()
        whole = oldschema.full_dump(self.path)
        ctx.no_diff(dbkit.dump_diff(self.states[self.current], whole), 'migration in one step against single steps')
        for k, s in self.states.items():
            ctx.expect(s['user_version'] == k and s['integrity'] == 'ok' and not s['dangling'],
                       f'undisturbed migration to {k}: version {s["user_version"]}, {s["integrity"]}, {s["dangling"]}')
        self.reset()
        self.what = f'migration of a database of version {self.version} with {len(self.keys)} logs'

    def reset(self):
        for name in os.listdir(self.dbdir):
            os.unlink(os.path.join(self.dbdir, name))
        if self.version:
            shutil.copyfile(self.pre, self.path)

    def settle(self, what):
        """The database is at a version on the path, and migrating it again completes."""
        ctx = self.ctx
        faults.arm(self.dbdir)
        state = oldschema.full_dump(self.path)
        v = state['user_version']
        ctx.expect(v in self.states, f'{what}: version {v} afterwards')
        ctx.no_diff(dbkit.dump_diff(self.states[v], state), f'{what}: recorded version is {v}, but the contents are not')
        ctx.count(f'states of version {v} after a fault' if v == self.version or v == self.current
                  else 'states between versions after a fault')
        migrate_db(self.path, force=v == 0 or ctx.rng.random() < .1)
        gc.collect(0)
        again = oldschema.full_dump(self.path)
        ctx.no_diff(dbkit.dump_diff(self.states[self.current], again), f'{what}, and again: result')
        ctx.count('migrations repeated after a fault')
        faults.disarm()
        self.reset()
        return v

    def death(self, kind, k):
        ctx = self.ctx
        what = f'{self.what}, {faults.NAMES[kind]} disk operation {k} of {self.n_ops} ({self.trace[k:k+1]})'

        def child():
            faults.arm(self.dbdir, kind, k)
            migrate_db(self.path)
        status = faults.in_child(child)
        if status not in (0, faults.KILLED):
            raise Inconclusive(f'{what}: the process ended with status {status}')
        if status == faults.KILLED:
            ctx.count('deaths')
            if os.path.exists(self.path + '-journal'):
                ctx.count('deaths that left a hot journal')
        self.settle(what)

    def disk_error(self, kind, k):
        ctx = self.ctx
        what = f'{self.what}, {faults.NAMES[kind]} disk operation {k} of {self.n_ops} ({self.trace[k:k+1]})'
        error = None
        faults.arm(self.dbdir, kind, k)
        try:
            migrate_db(self.path)
        except Exception as exc:    # pylint: disable=broad-except
            error = f'{type(exc).__name__}: {exc}'
        gc.collect()
        _, fired, op, _ = faults.disarm()
        if error:
            ctx.count('disk errors')
            ctx.expect(fired, f'{what}: failed without a fault: {error}')
        v = self.settle(f'{what} [{error}]')
        if error is None:
            ctx.expect(v == self.current, f'{what}: reported success at version {v}')
            ctx.count('disk errors survived')
        del op

    def interrupt(self, k):
        """The database is interrupted after k virtual machine steps."""
        ctx = self.ctx
        left = [k]

        def progress():
            left[0] -= 1
            return 1 if left[0] < 0 else 0
        error = None
        with dbkit.Monitor(on_connect=lambda con: con.set_progress_handler(progress, 20)) as mon:
            faults.arm(self.dbdir)
            try:
                migrate_db(self.path)
            except sqlite3.OperationalError as exc:
                error = str(exc)
            mon.close()
        gc.collect(0)
        what = f'{self.what}, interrupted after {k} steps [{error}]'
        v = self.settle(what)
        if error:
            ctx.count('interrupted statements')
        else:
            ctx.expect(v == self.current, f'{what}: reported success at version {v}')
        return k - left[0]

    def scripts(self):
        """A script on the way is faulty or missing, and is repaired afterwards."""
        ctx, r = self.ctx, self.ctx.rng
        sql_dir = os.path.join(self.folder, 'sql')
        shutil.copytree(c18.SQL, sql_dir)
        k = r.randrange(self.version + 1, self.current + 1)
        name = os.path.join(sql_dir, f'pyulog.{k}.sql')
        with open(name, encoding='utf-8') as f:
            text = f.read()
        how = r.choice(['statement', 'statement', 'statement', 'missing', 'no begin', 'no commit', 'directory'])
        if how == 'statement':
            parts = text.strip()[:-len('COMMIT;')].split(';')
            at = r.randrange(1, len(parts))
            bad = r.choice(BAD)
            if k == 1 and 'ULog' in bad:
                bad = BAD[0]
            parts.insert(at, '\n' + bad.rstrip(';'))
            with open(name, 'w', encoding='utf-8') as f:
                f.write(';'.join(parts) + '\nCOMMIT;\n')
            how = f'with "{bad}" as statement {at} of {len(parts)}'
        elif how == 'missing':
            os.unlink(name)
        elif how == 'directory':
            os.unlink(name)
            os.mkdir(name)
        else:
            with open(name, 'w', encoding='utf-8') as f:
                f.write(text.replace('BEGIN;', '', 1) if how == 'no begin' else text.replace('COMMIT;', ''))
        what = f'{self.what}, script {k} {how}'
        error = None
        faults.arm(self.dbdir)
        try:
            c18.migrate(ctx, self.path, sql_dir=sql_dir)
        except Exception as exc:    # pylint: disable=broad-except
            error = f'{type(exc).__name__}: {exc}'
        gc.collect()
        shutil.rmtree(sql_dir)
        ctx.expect(error is not None, f'{what}: reported success')
        v = self.settle(f'{what} [{error}]')
        ctx.expect(v == k - 1, f'{what}: stopped at version {v}')
        ctx.count('faulty scripts')


def case(ctx):
    r = ctx.rng
    scene = Scene(ctx)
    ctx.count('disk operations of undisturbed migrations', scene.n_ops)
    points = list(range(scene.n_ops))
    every = ctx.thorough and len(points) < 400
    for k in points if every else r.sample(points, min(len(points), 8)):
        ctx.tick()
        scene.death(r.choice(faults.KILLS), k)
    # the operations that end a transaction
    ends = [k for k, op in enumerate(scene.trace) if op == 'u']
    for k in r.sample(ends, min(2, len(ends))):
        scene.death(r.choice([faults.KILL_AFTER, faults.KILL_BEFORE]), k)
    for k in points if every else r.sample(points, min(len(points), 6)):
        ctx.tick()
        scene.disk_error(r.choice(faults.ERRORS), k)
    n = scene.interrupt(10 ** 9)
    for _ in range(12 if ctx.thorough else 3):
        ctx.tick()
        scene.interrupt(r.randrange(n))
    for _ in range(6 if ctx.thorough else 2):
        ctx.tick()
        scene.scripts()
    ctx.nontrivial(scene.version, scene.trace, repr(scene.states[scene.version]))
    ctx.sample(f'{scene.what}: {scene.n_ops} disk operations {scene.trace:.80s}, {n} interruption points')


CHECK = Check(
    'C19', case, quick=300, thorough=900, level='fault_enumeration', preload=True,
    rule='case = the migration of a database of a random version, repeated with the process dying or the disk failing at '
         'disk operations (thorough: all of them), with interrupted statements, and with faulty scripts; distinct by '
         'the contents of the database',
    required=['deaths', 'deaths that left a hot journal', 'disk errors', 'interrupted statements', 'faulty scripts',
              'states between versions after a fault', 'states of version 0 after a fault',
              'states of version 5 after a fault', 'migrations repeated after a fault'],
    assumptions=['SQLite and its rollback journal', 'a dead process loses no completed write (no power failure)'])
