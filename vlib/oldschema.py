"""
Databases of earlier schema versions. The scripts in golden/ are frozen copies of those the library had when these
checks were written; they say what a database of version N looks like, independently of the tree under test.
"""
import os
import sqlite3

from . import dbkit

LATEST = 5
_DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'golden')
_cache = {}


def _script(n):
    with open(os.path.join(_DIR, f'v{n}.sql'), encoding='utf-8') as f:
        return f.read()


def image(n):
    """The bytes of an empty database of version n."""
    if n not in _cache:
        con = sqlite3.Connection(':memory:')
        con.execute('PRAGMA foreign_keys=off')
        for k in range(1, n + 1):
            con.executescript(_script(k))
        con.execute(f'PRAGMA user_version={n}')
        con.commit()
        _cache[n] = con.serialize()
        con.close()
    return _cache[n]


def schema(con):
    """{table: (columns {name: (type, notnull, default, pk)}, foreign keys, unique column sets, autoincrement)}"""
    out = {}
    for t in dbkit.tables(con):
        cols = {r[1].lower(): (r[2].upper(), r[3], r[4], r[5]) for r in con.execute(f'PRAGMA table_info("{t}")')}
        fks = sorted((r[3].lower(), r[2].lower(), (r[4] or 'id').lower(), r[6], r[5])
                     for r in con.execute(f'PRAGMA foreign_key_list("{t}")'))
        unique = sorted(tuple(sorted(c[2].lower() for c in con.execute(f'PRAGMA index_info("{i[1]}")')))
                        for i in con.execute(f'PRAGMA index_list("{t}")').fetchall() if i[2])
        sql = con.execute("SELECT sql FROM sqlite_master WHERE type='table' AND name=?", (t,)).fetchone()[0]
        out[t.lower()] = (cols, fks, unique, 'AUTOINCREMENT' in sql.upper())
    return out


def golden_schema():
    con = sqlite3.Connection(':memory:')
    con.deserialize(image(LATEST))
    try:
        return schema(con)
    finally:
        con.close()


def missing(want, got):
    """What a schema lacks of another one."""
    out = []
    for t, (cols, fks, unique, auto) in want.items():
        if t not in got:
            out.append(f'no table {t}')
            continue
        gcols, gfks, gunique, gauto = got[t]
        out += [f'{t}: column {c} {v} is {gcols.get(c)}' for c, v in cols.items() if gcols.get(c) != v]
        out += [f'{t}: no reference {f} (has {gfks})' for f in fks if f not in gfks]
        out += [f'{t}: {u} not unique' for u in unique if u not in gunique]
        if auto and not gauto:
            out.append(f'{t}: keys may be reused')
    return out


def columns(n):
    """{table: [columns]} of version n"""
    con = sqlite3.Connection(':memory:')
    con.deserialize(image(n))
    try:
        return {t: [(r[1], r[2].upper()) for r in con.execute(f'PRAGMA table_info("{t}")')] for t in dbkit.tables(con)}
    finally:
        con.close()


def downgrade(current_path, path, n):
    """Make a database of version n with the rows of a current one, in so far as version n had them."""
    with open(path, 'wb') as f:
        f.write(image(n))
    src = dbkit.raw(current_path)
    dst = dbkit.raw(path)
    try:
        dst.execute('PRAGMA foreign_keys=off')
        for t, cols in columns(n).items():
            have = [r[1] for r in src.execute(f'PRAGMA table_info("{t}")')]
            common = [c for c, _ in cols if c.lower() in {h.lower() for h in have} and not c.endswith('_old')]
            names = ','.join(f'"{c}"' for c in common)
            rows = src.execute(f'SELECT {names} FROM "{t}" ORDER BY rowid').fetchall()
            dst.executemany(f'INSERT INTO "{t}" ({names}) VALUES ({",".join("?" * len(common))})', rows)
        seq = src.execute('SELECT name, seq FROM sqlite_sequence').fetchall()
        dst.execute('DELETE FROM sqlite_sequence')
        dst.executemany('INSERT INTO sqlite_sequence (name, seq) VALUES (?, ?)', seq)
        dst.commit()
    finally:
        src.close()
        dst.close()


def contents(path):
    """{table: sorted rows as {column: value}} without columns that only keep old values."""
    con = dbkit.raw(path)
    try:
        out = {}
        for t in dbkit.tables(con):
            cur = con.execute(f'SELECT * FROM "{t}"')
            cols = [d[0].lower() for d in cur.description]
            out[t.lower()] = sorted((tuple(sorted((c, type(v).__name__, v) for c, v in zip(cols, row)
                                                  if not c.endswith('_old'))) for row in cur.fetchall()), key=repr)
        return out
    finally:
        con.close()


def full_dump(path):
    """Schema and contents."""
    if not os.path.exists(path) or os.path.getsize(path) == 0:
        return {'user_version': 0, 'integrity': 'ok', 'dangling': [], 'master': []}
    out = dbkit.dump(path)
    con = dbkit.raw(path)
    try:
        out['master'] = sorted((a, b, c, ' '.join((d or '').split())) for a, b, c, d in
                               con.execute('SELECT type, name, tbl_name, sql FROM sqlite_master')
                               if not b.startswith('sqlite_'))
    finally:
        con.close()
    return out
