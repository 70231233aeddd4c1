"""C15: saving and deleting a log in the database is all-or-nothing."""
import gc
import os
import shutil
import sqlite3

from vlib import dbkit, faults, gen, observe, ulogfmt as uf
from vlib.harness import Check, Inconclusive

from pyulog.db import DatabaseULog

RAISED = [lambda: sqlite3.OperationalError('disk I/O error'), lambda: sqlite3.OperationalError('database is locked'),
          lambda: sqlite3.OperationalError('database or disk is full'), lambda: sqlite3.IntegrityError('constraint failed'),
          KeyboardInterrupt, MemoryError, lambda: OSError(5, 'Input/output error')]


def handle_for(path, cache=None, pages=None):
    real = DatabaseULog.get_db_handle(path)

    def handle():
        con = real()
        if cache is not None:
            con.execute(f'PRAGMA cache_size={cache}')
        if pages is not None:
            con.execute(f'PRAGMA max_page_count={pages}')
        return con
    return handle


class Scene:
    """A database, an operation on it, and the states before and after the undisturbed operation."""

    def __init__(self, ctx):
        r = ctx.rng
        self.ctx = ctx
        self.folder = ctx.dir()
        self.dbdir = os.path.join(self.folder, 'd')
        os.mkdir(self.dbdir)
        self.path = os.path.join(self.dbdir, 'db')
        self.cache = r.choice([None, 4, 4, 10])
        self.pre_path = os.path.join(self.folder, 'pre')
        self.post_path = os.path.join(self.folder, 'post')
        kw = dict(dbkit.PROFILE, samples=r.choice([(0, 20), (0, 20), (100, 600)]), topics=(0, 4), max_fields=4,
                  nesting=False)
        if r.random() < .2:     # many datasets
            kw.update(samples=(40, 120), topics=(9, 16), max_fields=2)
            ctx.count('scenes with many topics')
        dbkit.new_db(self.path)
        handle = dbkit.fast_handle(self.path)
        self.files, pks, seen = [], [], set()
        for k in range(r.choice([1, 2, 3])):
            log = gen.make(r, **kw)
            data = uf.encode(log)
            if data in seen:
                continue
            seen.add(data)
            name = os.path.join(self.folder, f'log{k}.ulg')
            with open(name, 'wb') as f:
                f.write(data)
            self.files.append((name, log, data))
        self.json = r.random() < .3
        self.operation = 'save' if len(self.files) == 1 else r.choice(['save', 'save', 'delete'])
        last = len(self.files) - 1
        for k, (name, _, _) in enumerate(self.files):
            if k == last and self.operation == 'save':
                break
            dbulog = DatabaseULog(handle, log_file=name)
            dbulog.save()
            pks.append(dbulog.primary_key)
        if self.operation == 'delete':
            k = r.randrange(len(pks))
            self.pk, self.target = pks[k], self.files[k]
        else:
            self.pk, self.target = None, self.files[last]
        if r.random() < .2 and len(pks) > 1 and self.operation == 'save':     # a hole in the keys
            DatabaseULog(handle, primary_key=pks[-1]).delete()
        gc.collect()
        shutil.copyfile(self.path, self.pre_path)
        self.pre = dbkit.dump(self.path)
        # the undisturbed operation
        log = self.open()
        faults.arm(self.dbdir)
        self.do(log)
        self.n_ops, _, _, self.trace = faults.disarm()
        self.post_pk = log.primary_key
        del log
        gc.collect()
        self.post = dbkit.dump(self.path)
        for state, what in [(self.pre, 'before'), (self.post, 'after')]:
            ctx.expect(state['integrity'] == 'ok' and not state['dangling'],
                       f'inconsistent database {what} the undisturbed {self.operation}: {state["integrity"]} {state["dangling"]}')
        ctx.expect(self.pre != self.post, f'{self.operation} changed nothing')
        self.reset()

    def reset(self):
        for name in os.listdir(self.dbdir):
            os.unlink(os.path.join(self.dbdir, name))
        shutil.copyfile(self.pre_path, self.path)

    def open(self, handle=None):
        handle = handle or handle_for(self.path, self.cache)
        if self.operation == 'save':
            return DatabaseULog(handle, log_file=self.target[0])
        return DatabaseULog(handle, primary_key=self.pk, lazy=True)

    def do(self, log):
        if self.operation == 'save':
            log.save(append_json=self.json)
        else:
            log.delete()

    def state(self, what):
        """-> 'pre' or 'post'"""
        now = dbkit.dump(self.path)
        if now['integrity'] != 'ok' or now['dangling']:
            self.ctx.fail(f'{what}: integrity {now["integrity"]}, dangling references {now["dangling"]}')
        if now == self.pre:
            return 'pre'
        if now == self.post:
            return 'post'
        self.ctx.fail(f'{what}: the database is neither as before nor as after the operation; against before: '
                      f'{dbkit.dump_diff(self.pre, now)[:4]}; against after: {dbkit.dump_diff(self.post, now)[:4]}')

    def after_error(self, log, what, either=False):
        """An error was raised: nothing changed, and the same object can try again."""
        ctx = self.ctx
        gc.collect()
        state = self.state(what)
        if state == 'post' and either:
            ctx.count('errors after the commit')
            return
        ctx.expect(state == 'pre', f'{what}: raised an error, but took effect')
        ctx.expect(log.primary_key == self.pk, f'{what}: raised an error, but the primary key is now {log.primary_key}')
        if ctx.rng.random() < .1:
            observe.observe(log)
        self.do(log)
        ctx.expect(log.primary_key == self.post_pk, f'{what}, again: primary key {log.primary_key}')
        gc.collect()
        ctx.expect(self.state(what + ', again') == 'post', f'{what}: doing it again reports success without an effect')
        ctx.count('operations done again after an error')

    def check_success(self, log, what):
        gc.collect()
        self.ctx.expect(self.state(what) == 'post', f'{what}: reported success, but did not take effect')
        self.ctx.expect(log.primary_key == self.post_pk, f'{what}: primary key {log.primary_key}')

    # ----------------------------------------------------------------------------------------- faults

    def disk_error(self, kind, k):
        ctx = self.ctx
        what = f'{self.operation}, {faults.NAMES[kind]} disk operation {k} of {self.n_ops} ({self.trace[k:k+1]})'
        log = self.open()
        error = None
        faults.arm(self.dbdir, kind, k)
        try:
            self.do(log)
        except Exception as exc:    # pylint: disable=broad-except
            error = f'{type(exc).__name__}: {exc}'
        gc.collect()
        _, fired, op, _ = faults.disarm()
        if not fired:
            ctx.expect(error is None, f'{what}: no fault struck but {error}')
            ctx.count('faults that did not strike')
        if error is not None:
            ctx.count(f'{self.operation} failed by a disk error')
            self.after_error(log, f'{what} [{error}]', either=op == 'd')
        else:
            self.check_success(log, what)
            ctx.count('operations that survived a disk error')
        self.reset()

    def death(self, kind, k):
        ctx = self.ctx
        what = f'{self.operation}, {faults.NAMES[kind]} disk operation {k} of {self.n_ops} ({self.trace[k:k+1]})'

        def child():
            log = self.open()
            faults.arm(self.dbdir, kind, k)
            self.do(log)
            faults.disarm()
        status = faults.in_child(child)
        if status == 0:
            ctx.expect(k >= self.n_ops, f'{what}: the fault did not strike')
            ctx.expect(self.state(what) == 'post', f'{what}: undisturbed operation')
        elif status != faults.KILLED:
            raise Inconclusive(f'{what}: the process ended with status {status}')
        else:
            hot = os.path.exists(self.path + '-journal')
            ctx.count(f'deaths during {self.operation}')
            if hot:
                ctx.count('deaths that left a hot journal')
            state = self.state(what)
            ctx.count(f'state {state} after a death')
            self.recover(state, what)
        self.reset()

    def recover(self, state, what):
        """The database is usable: a new process can do, or sees, the operation."""
        ctx = self.ctx
        if state == 'pre':
            log = self.open()
            self.do(log)
            gc.collect()
            ctx.expect(self.state(what + ', again') == 'post', f'{what}: the operation has no effect afterwards')
        else:
            try:
                log = self.open()
                self.do(log)
            except KeyError:
                pass
            else:
                ctx.fail(f'{what}: it took effect, but can be done again')
            ctx.expect(self.state(what + ', again') == 'post', f'{what}: a refused operation changed the database')

    def statement_error(self, k, make):
        ctx = self.ctx
        exc = make()
        what = f'{self.operation}, {type(exc).__name__} at statement {k}'
        hit = []
        armed = [False]
        base = [0]

        def before(n, sql):
            if armed[0] and n - base[0] == k:
                hit.append(sql)
                raise exc
        monitor = dbkit.Monitor(before=before)
        with monitor:
            handle = handle_for(self.path, self.cache)
            log = self.open(handle)
            armed[0] = True
            base[0] = len(monitor.events)
            error = None
            try:
                self.do(log)
            except BaseException as raised:     # pylint: disable=broad-except
                error = raised
                text = f'{type(raised).__name__} {raised}'
            armed[0] = False
            if error is not None and error is not exc and not hit:
                raise error
            monitor.connections = []
            n = len(monitor.events) - base[0]
            if error is not None:
                del error
                exc = None
                gc.collect()
                ctx.count('statement faults')
                if hit[0] == 'COMMIT':
                    ctx.count('commit faults')
                self.after_error(log, f'{what} [{hit[0]}] [{text}]')
            elif hit:
                self.check_success(log, what)
                ctx.count('statement faults survived')
            else:
                self.check_success(log, what)
            monitor.connections = []
        del log
        gc.collect()
        self.reset()
        return n

    def busy(self):
        """Another connection holds the database."""
        ctx = self.ctx
        other = dbkit.raw(self.path)
        other.isolation_level = None
        real = DatabaseULog.get_db_handle(self.path)

        def handle():
            con = real()
            con.execute('PRAGMA busy_timeout=5')
            return con
        log = self.open(handle)
        how = ctx.rng.choice(['BEGIN IMMEDIATE', 'reader', 'BEGIN EXCLUSIVE'])
        if how == 'reader':
            other.execute('BEGIN')
            other.execute('SELECT COUNT(*) FROM ULog').fetchall()
        else:
            other.execute(how)
        error = None
        try:
            self.do(log)
        except sqlite3.OperationalError as exc:
            error = str(exc)
        other.execute('ROLLBACK')
        other.close()
        what = f'{self.operation} while another connection holds the database ({how})'
        if error:
            ctx.count('operations refused by a lock')
            self.after_error(log, what)
        else:
            self.check_success(log, what)
        self.reset()

    def full(self):
        """The database may not grow."""
        ctx = self.ctx
        con = dbkit.raw(self.path)
        pages = con.execute('PRAGMA page_count').fetchone()[0]
        con.close()
        limit = [pages + ctx.rng.choice([0, 0, 1, 1, 2, 3, 5, 10])]
        real = DatabaseULog.get_db_handle(self.path)

        def handle():
            con = real()
            if self.cache:
                con.execute(f'PRAGMA cache_size={self.cache}')
            if limit[0]:
                con.execute(f'PRAGMA max_page_count={limit[0]}')
            return con
        log = self.open(handle)
        error = None
        try:
            self.do(log)
        except sqlite3.OperationalError as exc:
            error = str(exc)
        limit[0] = None
        what = f'{self.operation} in a full database'
        if error:
            ctx.count('operations refused by a full database')
            self.after_error(log, f'{what} [{error}]')
        else:
            self.check_success(log, what)
        self.reset()


def case(ctx):
    r = ctx.rng
    scene = Scene(ctx)
    ctx.count('scenes')
    # disk operations
    points = list(range(scene.n_ops))
    ctx.count('disk operations of undisturbed runs', scene.n_ops)
    some = points if ctx.thorough and len(points) < 80 else sorted(r.sample(points, min(len(points), 6)))
    for k in some:
        ctx.tick()
        scene.death(r.choice(faults.KILLS), k)
    scene.death(faults.KILL_AFTER, scene.n_ops - 1)
    some = points if ctx.thorough and len(points) < 80 else sorted(r.sample(points, min(len(points), 6)))
    for k in some:
        ctx.tick()
        scene.disk_error(r.choice(faults.ERRORS), k)
    # statements
    k = 0
    n = scene.statement_error(10 ** 9, RAISED[0])
    ctx.count('statements of undisturbed runs', n)
    points = list(range(n))
    some = points if ctx.thorough and n < 80 else sorted(set(r.sample(points, min(n, 8)) + [n - 1]))
    for k in some:
        ctx.tick()
        scene.statement_error(k, r.choice(RAISED))
    scene.busy()
    if scene.operation == 'save':
        scene.full()
        scene.full()
    ctx.nontrivial(scene.target[2], scene.operation, scene.json)
    ctx.sample(f'{scene.operation}: {scene.n_ops} disk operations {scene.trace:.60s}, {n} statements; '
               + gen.describe(scene.target[1]))


def bad_value(ctx):
    """A log that cannot be stored at all leaves no trace."""
    folder = ctx.dir()
    path = dbkit.new_db(os.path.join(folder, 'db'))
    handle = DatabaseULog.get_db_handle(path)
    before = dbkit.dump(path)
    log = uf.Log(1, 1, [('I', 'uint64_t', 'k', b'\xff' * 8), ('F', 'topic', [('uint64_t', 0, 'timestamp')]),
                        ('A', 0, 0, 'topic'), ('D', 0, bytes(8))])
    name = os.path.join(folder, 'x.ulg')
    with open(name, 'wb') as f:
        f.write(uf.encode(log))
    dbulog = DatabaseULog(handle, log_file=name)
    try:
        dbulog.save()
    except Exception:   # pylint: disable=broad-except
        ctx.no_diff(dbkit.dump_diff(before, dbkit.dump(path)), 'a failed save left something')
        ctx.expect(dbulog.primary_key is None, 'a failed save left a primary key')


CHECK = Check(
    'C15', case, quick=300, thorough=1500, level='fault_enumeration', preload=True,
    rule='case = one save or delete in a database with zero to two other logs, repeated with the process dying or the disk '
         'failing at disk operations, with errors at statements, with a locked and with a full database (thorough: every '
         'disk operation and statement of runs with fewer than 80); distinct by (file bytes, operation)',
    required=['scenes with many topics', 'deaths during save', 'deaths during delete', 'deaths that left a hot journal', 'state pre after a death',
              'state post after a death', 'save failed by a disk error', 'delete failed by a disk error',
              'statement faults', 'commit faults', 'operations done again after an error',
              'operations refused by a lock', 'operations refused by a full database'],
    probes=[('value-too-large', bad_value)],
    assumptions=['SQLite and its rollback journal', 'a dead process loses no completed write (no power failure)',
                 'an error of the directory sync after the commit may be reported for a completed operation'])
