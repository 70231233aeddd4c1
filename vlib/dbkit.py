"""
Instrumented databases: connections that report every statement to a monitor, fresh databases, and full
dumps of a database taken by an independent connection.

sqlite3.connect is wrapped once, before pyulog.db is imported, so that the real get_db_handle of the library
is used and still every connection it makes can be observed.
"""
import os
import sqlite3
import tempfile
import threading

_real_connect = sqlite3.connect
_state = threading.local()

#: generator settings for logs that a database can hold (see C13 in DESIGN.md)
PROFILE = dict(ts_limit=1 << 63, param_nan=True,
               multi_types=['char[', 'char[', 'uint8_t[', 'int32_t', 'uint64_t', 'double', 'float', 'bool', 'char', 'int16_t['])


class Monitor:
    """Sees every statement of the connections opened while it is installed."""

    def __init__(self, before=None, timeout=None, on_connect=None):
        self.before = before
        self.on_connect = on_connect
        self.timeout = timeout
        self.events = []            # statement texts, with 'COMMIT'/'ROLLBACK' of connection contexts
        self.connections = []

    def note(self, sql):
        self.events.append(' '.join(sql.split())[:80])
        if self.before is not None:
            self.before(len(self.events) - 1, self.events[-1])

    def __enter__(self):
        self.previous = getattr(_state, 'monitor', None)
        _state.monitor = self
        return self

    def __exit__(self, *exc):
        _state.monitor = self.previous
        return False

    def close(self):
        for con in self.connections:
            con.close()
        self.connections = []


class MonCursor(sqlite3.Cursor):
    def execute(self, sql, *args):
        self.connection.monitor.note(sql)
        return super().execute(sql, *args)

    def executemany(self, sql, *args):
        self.connection.monitor.note(sql)
        return super().executemany(sql, *args)

    def executescript(self, sql):
        self.connection.monitor.note('SCRIPT ' + sql)
        return super().executescript(sql)


class MonConnection(sqlite3.Connection):
    monitor = Monitor()

    def cursor(self, factory=MonCursor):
        return super().cursor(factory)

    # (a commit or rollback with no open transaction does nothing, so it cannot fail: no note of it, and no fault there)

    def commit(self):
        if self.in_transaction:
            self.monitor.note('COMMIT')
        return super().commit()

    def rollback(self):
        if self.in_transaction:
            self.monitor.note('ROLLBACK')
        return super().rollback()

    def __exit__(self, typ, value, trace):
        if typ is None:
            try:
                if self.in_transaction:
                    self.monitor.note('COMMIT')
            except BaseException as exc:
                super().__exit__(type(exc), exc, exc.__traceback__)
                raise
        else:
            self.monitor.events.append('ROLLBACK')
        return super().__exit__(typ, value, trace)


def _connect(database, *args, **kwargs):
    monitor = getattr(_state, 'monitor', None)
    if monitor is None:
        return _real_connect(database, *args, **kwargs)
    kwargs['factory'] = MonConnection
    if monitor.timeout is not None:
        kwargs['timeout'] = monitor.timeout
    con = _real_connect(database, *args, **kwargs)
    con.monitor = monitor
    monitor.connections.append(con)
    if monitor.on_connect is not None:
        monitor.on_connect(con)
    return con


sqlite3.connect = _connect

from pyulog.db import DatabaseULog          # noqa: E402  pylint: disable=wrong-import-position
from pyulog.migrate_db import migrate_db    # noqa: E402  pylint: disable=wrong-import-position

_template = None


def new_db(path):
    """A new, migrated, empty database."""
    global _template
    if _template is None:
        folder = tempfile.mkdtemp(prefix='verif_dbtemplate_')
        name = os.path.join(folder, 'db')
        try:
            migrate_db(name)
            with open(name, 'rb') as f:
                _template = f.read()
        finally:
            if os.path.exists(name):
                os.unlink(name)
            os.rmdir(folder)
    with open(path, 'wb') as f:
        f.write(_template)
    return path


def through_database(folder, path, lazy=False):
    """The log of a file, saved to a new database and loaded from it."""
    handle = fast_handle(new_db(os.path.join(folder, 'through.sqlite3')))
    log = DatabaseULog(handle, log_file=path)
    log.save()
    return DatabaseULog(handle, primary_key=log.primary_key, lazy=lazy)


def fast_handle(path):
    """The library's handle, without waiting for the disk (no crashes are looked at)."""
    real = DatabaseULog.get_db_handle(path)

    def handle():
        con = real()
        con.execute('PRAGMA synchronous=off')
        return con
    return handle


def raw(path):
    return _real_connect(path, timeout=10)


def tables(con):
    return [n for (n,) in con.execute("SELECT name FROM sqlite_master WHERE type = 'table' AND name NOT LIKE 'sqlite_%' "
                                      'ORDER BY name')]


def dump(path, with_rowid=False):
    """Everything in the database: {table: (columns, sorted rows)} plus the version. Checks its consistency."""
    con = raw(path)
    try:
        out = {'user_version': con.execute('PRAGMA user_version').fetchone()[0]}
        names = tables(con)
        if con.execute("SELECT 1 FROM sqlite_master WHERE name = 'sqlite_sequence'").fetchone():
            names.append('sqlite_sequence')
        for t in names:
            cur = con.execute(f'SELECT {"rowid, " if with_rowid else ""}* FROM "{t}"')
            cols = tuple(d[0] for d in cur.description)
            out[t] = (cols, sorted((tuple((type(v).__name__, v) for v in row) for row in cur.fetchall()), key=repr))
        integrity = con.execute('PRAGMA integrity_check').fetchall()
        out['integrity'] = 'ok' if integrity == [('ok',)] else repr(integrity)[:300]
        out['dangling'] = [tuple(x) for x in con.execute('PRAGMA foreign_key_check').fetchall()][:5]
        return out
    finally:
        con.close()


def dump_diff(a, b):
    out = []
    for t in sorted(set(a) | set(b)):
        if a.get(t) != b.get(t):
            if isinstance(a.get(t), tuple) and isinstance(b.get(t), tuple):
                ra, rb = a[t][1], b[t][1]
                gone = [r for r in ra if r not in rb][:2]
                new = [r for r in rb if r not in ra][:2]
                out.append(f'{t}: {len(ra)} rows -> {len(rb)} rows; gone {gone!r:.300}; new {new!r:.300}')
            else:
                out.append(f'{t}: {a.get(t)!r:.200} -> {b.get(t)!r:.200}')
    return out
