"""C17: concurrent use of one database never exposes a half-stored log."""
import gc
import os
import random
import sqlite3
import threading
import time

from vlib import dbkit, gen, observe, ulogfmt as uf
from vlib.harness import Check

from pyulog.db import DatabaseULog


def make_files(ctx, n, **more):
    r = ctx.rng
    folder = ctx.dir()
    kw = dict(dbkit.PROFILE, samples=(1, 10), topics=(1, 4), max_fields=4, nesting=False)
    kw.update(more)
    files = []
    while len(files) < n:
        if files and r.random() < .5:
            log = files[-1][3].copy()
            log.start += 1 if log.start + 1 < 1 << 63 else -1
        else:
            log = gen.make(r, **kw)
        data = uf.encode(log)
        if any(f[1] == data for f in files):
            continue
        name = os.path.join(folder, f'log{len(files)}.ulg')
        with open(name, 'wb') as f:
            f.write(data)
        exp = observe.expected_obs(uf.interpret(log))
        exp['corrupt'] = False
        files.append((name, data, exp, log))
    return folder, files


def compare(exp, log, lazy, what):
    lines = observe.compare(exp, observe.observe(log, with_data=not lazy),
                            ignore=('corrupt', 'datasets', 'repeated_datasets') if lazy else ('corrupt',))
    names = sorted((d.name, d.multi_id) for d in log.data_list)
    if names != sorted(exp['datasets']):
        lines.append(f'datasets {names} instead of {sorted(exp["datasets"])}')
    return [f'{what}: incomplete log: {x}' for x in lines]


def final_state(ctx, path, stored, files, what):
    """The database holds exactly the logs {key: file}, each completely, and nothing else."""
    state = dbkit.dump(path)
    ctx.expect(state['integrity'] == 'ok' and not state['dangling'],
               f'{what}: integrity {state["integrity"]}, dangling {state["dangling"]}')
    keys = sorted(row[0][1] for row in state['ULog'][1])
    ctx.expect(keys == sorted(stored), f'{what}: logs with keys {keys} are stored instead of {sorted(stored)}')
    handle = dbkit.fast_handle(path)
    for pk, k in stored.items():
        log = DatabaseULog(handle, primary_key=pk, lazy=False)
        ctx.no_diff(compare(files[k][2], log, False, f'{what}: log {pk}'), 'final state')
    # nothing that belongs to no log: rows with a reference that is null or unowned
    owned = sum(len(rows) for t, (cols, rows) in ((t, c) for t, c in state.items() if isinstance(c, tuple))
                if t not in ('sqlite_sequence',))
    con = dbkit.raw(path)
    try:
        con.execute('PRAGMA foreign_keys=on')
        con.execute('DELETE FROM ULog')
        left = sum(con.execute(f'SELECT COUNT(*) FROM "{t}"').fetchone()[0] for t in dbkit.tables(con))
        con.rollback()
    finally:
        con.close()
    ctx.expect(left == 0, f'{what}: {left} of {owned} rows belong to no log')


# -------------------------------------------------------------------------- nested operations

def nested(ctx):
    """Another connection does something at a statement boundary of an operation."""
    r = ctx.rng
    folder, files = make_files(ctx, 3)
    path = dbkit.new_db(os.path.join(folder, 'db'))
    base = dbkit.fast_handle(path)
    shared = r.random() < .4     # one handle for everybody
    stored = {}
    for k in (0, 1):
        log = DatabaseULog(base, log_file=files[k][0])
        log.save()
        stored[log.primary_key] = k
    del log
    pk0 = min(stored)
    target = files[stored[pk0]]
    outer = r.choice(['load', 'load', 'lazy', 'fetch', 'fetch', 'save', 'save', 'delete', 'lookup'])
    inner = r.choice(['delete same', 'delete same', 'delete other', 'save third', 'save third', 'save same', 'load',
                      'lookup'])
    results = []
    depth = [False]
    early = []      # keys that another connection saw stored (or, negative, deleted) before that was reported

    def other():
        with dbkit.Monitor(timeout=.001) as mon:
            try:
                results.append((inner, act(inner)))
            except (sqlite3.OperationalError, sqlite3.IntegrityError, KeyError) as exc:
                results.append((inner, f'{type(exc).__name__}'))
                ctx.count('nested operations refused')
            gc.collect(0)
            mon.close()

    def act(inner):
        handle = base if shared else dbkit.fast_handle(path)
        if shared:
            ctx.count('nested operations with the same handle')
        if inner == 'delete same':
            DatabaseULog(handle, primary_key=pk0).delete()
            del stored[pk0]
        elif inner == 'delete other':
            other_pk = max(k for k in stored if k != pk0)
            DatabaseULog(handle, primary_key=other_pk).delete()
            del stored[other_pk]
        elif inner in ('save third', 'save same'):
            log = DatabaseULog(handle, log_file=files[2][0])
            log.save()
            stored[log.primary_key] = 2
        elif inner == 'lookup':
            for pk, k in list(stored.items()):
                sha = DatabaseULog.calc_sha256sum(files[k][0])
                got = DatabaseULog.primary_key_from_sha256sum(handle, sha)
                ctx.expect(got == pk, f'nested lookup during {outer}: key {got} instead of {pk}')
            if outer == 'save':
                got = DatabaseULog.primary_key_from_sha256sum(handle, DatabaseULog.calc_sha256sum(files[2][0]))
                if 2 not in stored.values():
                    if got is not None:
                        early.append(got)
        else:
            for pk in list(stored) + [max(stored, default=0) + 1]:
                try:
                    log = DatabaseULog(handle, primary_key=pk, lazy=False)
                except KeyError:
                    if pk in stored:
                        ctx.expect(outer == 'delete' and pk == pk0, f'nested load during {outer}: log {pk} not found')
                        early.append(-pk)
                else:
                    k = stored.get(pk, 2)
                    if pk not in stored:
                        ctx.expect(outer == 'save', f'nested load during {outer}: found log {pk}, which is not stored')
                        early.append(pk)
                    ctx.no_diff(compare(files[k][2], log, False, f'nested load during {outer}'), 'concurrent load')
        ctx.count('nested: ' + inner)
        return 'ok'

    count = [0, 0]
    at = [None]

    def before(n, sql):
        if depth[0]:
            count[0] += 1
            if at[0] is not None and count[0] - 1 == at[0]:
                ctx.count('boundaries: ' + sql.split()[0])
                other()

    def run():
        """The outer operation. -> what it reports"""
        with dbkit.Monitor(before=before, timeout=.001) as mon:
            handle = base if shared else dbkit.fast_handle(path)
            try:
                if outer in ('load', 'lazy'):
                    depth[0] = True
                    log = DatabaseULog(handle, primary_key=pk0, lazy=outer == 'lazy')
                    depth[0] = False
                    ctx.no_diff(compare(target[2], log, outer == 'lazy', f'{outer}, interrupted by {results}'),
                                'concurrent load')
                elif outer == 'fetch':
                    log = DatabaseULog(handle, primary_key=pk0)
                    keys = sorted(target[2]['datasets'])
                    depth[0] = True
                    got = [log.get_dataset(*key, caching=r.random() < .5) for key in keys]
                    depth[0] = False
                    for key, d in zip(keys, got):
                        ctx.no_diff(observe.diff(target[2]['datasets'][key], observe.dataset_obs(d), str(key)),
                                    f'dataset fetched, interrupted by {results}')
                elif outer == 'save':
                    log = DatabaseULog(handle, log_file=files[2][0])
                    depth[0] = True
                    log.save()
                    depth[0] = False
                    stored[log.primary_key] = 2
                elif outer == 'delete':
                    log = DatabaseULog(handle, primary_key=pk0)
                    depth[0] = True
                    log.delete()
                    depth[0] = False
                    ctx.expect(stored.pop(pk0, None) is not None, f'deletion of a deleted log reported success ({results})')
                else:
                    sha = DatabaseULog.calc_sha256sum(target[0])
                    depth[0] = True
                    got = DatabaseULog.primary_key_from_sha256sum(handle, sha)
                    depth[0] = False
                    ctx.expect(got in (pk0, None) if pk0 not in stored else got == pk0, f'lookup gave {got}')
                return 'ok'
            except (sqlite3.OperationalError, sqlite3.IntegrityError, KeyError) as exc:
                exc.__traceback__ = None
                return exc
            finally:
                depth[0] = False
                mon.close()
    # find out how many statements there are by a first run on a copy
    with open(path, 'rb') as f:
        image = f.read()
    start = dict(stored)
    res = run()
    ctx.expect(res == 'ok', f'undisturbed {outer} failed: {res!r}')
    n = count[0]
    points = list(range(n)) if ctx.thorough else sorted(r.sample(range(n), min(n, 6)))
    for at[0] in points:
        ctx.tick()
        gc.collect(0)
        with open(path, 'wb') as f:
            f.write(image)
        stored.clear()
        stored.update(start)
        results.clear()
        early.clear()
        count[0] = 0
        res = run()
        what = f'{outer} with {results} at statement {at[0]} of {n}'
        if not results:
            ctx.fail(f'{what}: the statement was not reached')
        if res != 'ok':
            ctx.count(f'{outer} refused')
            ctx.expect(isinstance(res, sqlite3.Error) or 'ok' in results[0], f'{what} failed: {res!r}')
            if results[0][1] != 'ok':
                ctx.expect(isinstance(res, sqlite3.OperationalError), f'{what} failed: {res!r}')
        else:
            ctx.count(f'{outer} done')
        for pk in early:
            ctx.expect(-pk not in stored if pk < 0 else pk in stored,
                       f'{what}: another connection saw log {abs(pk)} {"deleted" if pk < 0 else "stored"} too early')
        ctx.expect(list(stored.values()).count(2) <= 1, f'{what}: two copies are said to be saved')
        final_state(ctx, path, stored, files, what)
        ctx.nontrivial(outer, inner, at[0], *[f[1] for f in files])
    ctx.sample(f'{outer} with {inner} at {points} of {n} statements')


# -------------------------------------------------------------------------- threads

class Worker(threading.Thread):
    def __init__(self, seed, path, files, events, n, stop, handle=None):
        super().__init__(daemon=True)
        self.r = random.Random(seed)
        self.path, self.files, self.events, self.n, self.stop = path, files, events, n, stop
        self.handle = handle
        self.problem = None

    def delay(self, _n, _sql):
        k = self.r.random()
        if k < .1:
            time.sleep(self.r.random() * .001)
        elif k < .3:
            time.sleep(0)

    def run(self):
        try:
            with dbkit.Monitor(before=self.delay, timeout=20) as mon:
                for _ in range(self.n):
                    if self.stop:
                        break
                    self.step(mon)
        except BaseException as exc:    # pylint: disable=broad-except
            import traceback
            self.problem = f'{type(exc).__name__}: {exc}\n' + traceback.format_exc(limit=-6)
            self.stop.append(1)

    def step(self, mon):
        r = self.r
        op = r.choice(['save', 'save', 'save', 'delete', 'delete', 'load', 'load', 'load', 'lookup', 'fetch'])
        handle = self.handle or dbkit.fast_handle(self.path)
        k = r.randrange(len(self.files))
        known = sorted({e['pk'] for e in list(self.events) if e['op'] == 'save' and e['ok']})
        pk = r.choice(known[-6:]) if known and r.random() < .9 else (known[-1] if known else 0) + 1
        ev = {'op': op, 'pk': pk, 'k': k, 'ok': False, 'error': None, 't0': time.monotonic(), 'bad': []}
        try:
            if op == 'save':
                ev['pk'] = None
                log = DatabaseULog(handle, log_file=self.files[k][0])
                ev['t0'] = time.monotonic()
                log.save(append_json=r.random() < .2)
                ev['pk'] = log.primary_key
                ev['ok'] = True
            elif op == 'delete':
                log = DatabaseULog(handle, primary_key=pk)
                log.delete()
                ev['ok'] = True
            elif op in ('load', 'fetch'):
                lazy = op == 'fetch'
                log = DatabaseULog(handle, primary_key=pk, lazy=lazy)
                ev['sha'] = log.sha256sum
                found = [f for f in self.files if DatabaseULog.calc_sha256sum(f[0]) == log.sha256sum]
                if len(found) != 1:
                    ev['bad'].append(f'loaded log {pk} has digest {log.sha256sum}')
                else:
                    ev['bad'] += compare(found[0][2], log, lazy, f'load of {pk}')
                    if lazy:
                        for key, d in found[0][2]['datasets'].items():
                            got = log.get_dataset(*key)
                            ev['bad'] += [f'fetched dataset of {pk}: {x}'
                                          for x in observe.diff(d, observe.dataset_obs(got), str(key))]
                ev['ok'] = True
            else:
                sha = DatabaseULog.calc_sha256sum(self.files[k][0])
                ev['t0'] = time.monotonic()
                ev['pk'] = DatabaseULog.primary_key_from_sha256sum(handle, sha)
                ev['ok'] = True
        except (KeyError, sqlite3.Error) as exc:
            ev['error'] = type(exc).__name__
            ev['text'] = str(exc)
            exc.__traceback__ = None
        ev['t1'] = time.monotonic()
        self.events.append(ev)
        mon.close()


def threads(ctx):
    r = ctx.rng
    folder, files = make_files(ctx, r.choice([1, 2, 3, 4]), samples=(1, 6))
    path = dbkit.new_db(os.path.join(folder, 'db'))
    events, stop = [], []
    n_threads = r.choice([2, 3, 4, 6])
    shared = dbkit.fast_handle(path) if r.random() < .4 else None
    if shared:
        ctx.count('histories of threads with one handle')
    workers = [Worker(r.random(), path, files, events, 10 if not ctx.thorough else 25, stop, shared)
               for _ in range(n_threads)]
    for w in workers:
        w.start()
    for w in workers:
        w.join()
    gc.collect()
    for w in workers:
        ctx.expect(w.problem is None, f'a thread failed: {w.problem}')
    judge(ctx, events, files, path)
    overlaps = sum(1 for i, a in enumerate(events) for b in events[:i] if a['t0'] < b['t1'] and b['t0'] < a['t1'])
    ctx.count('overlapping pairs of operations', overlaps)
    ctx.nontrivial('threads', [(e['op'], e['pk'], e['ok']) for e in events], *[f[1] for f in files])
    ctx.sample(f'{n_threads} threads: ' + ' '.join(f"{e['op']}:{e['pk']}:{'ok' if e['ok'] else e['error']}" for e in events[:30]))


def judge(ctx, events, files, path):
    """Offline checker of the recorded history."""
    saves, deletes = {}, {}
    for e in events:
        ctx.count(f"thread {e['op']} {'ok' if e['ok'] else 'refused'}")
        if e['error'] and e['op'] in ('save', 'delete') and e['error'] == 'OperationalError':
            ctx.count('operations refused by a lock')
        for b in e['bad']:
            ctx.fail('concurrent load: ' + b)
        if e['ok'] and e['op'] == 'save':
            ctx.expect(e['pk'] not in saves, f'key {e["pk"]} was given to two logs')
            saves[e['pk']] = e
        if e['ok'] and e['op'] == 'delete':
            ctx.expect(e['pk'] not in deletes, f'log {e["pk"]} was deleted twice')
            deletes[e['pk']] = e
    for pk in deletes:
        ctx.expect(pk in saves, f'log {pk} was deleted but never saved')
    shas = [DatabaseULog.calc_sha256sum(f[0]) for f in files]
    # two copies at once: the later save began after the earlier one ended and no deletion had begun before it ended
    for a in saves.values():
        for b in saves.values():
            if a is not b and a['k'] == b['k'] and a['t1'] < b['t0']:
                d = deletes.get(a['pk'])
                ctx.expect(d is not None and d['t0'] < b['t1'], f'file {a["k"]} was stored with the keys {a["pk"]} and '
                           f'{b["pk"]} at once')
    for e in events:
        pk = e['pk']
        if e['op'] in ('load', 'fetch', 'delete'):
            s, d = saves.get(pk), deletes.get(pk)
            if e['ok']:
                ctx.expect(s is not None and s['t0'] < e['t1'], f"{e['op']} of {pk} succeeded before it was saved")
                if d is not None and d is not e:
                    ctx.expect(e['t0'] < d['t1'], f"{e['op']} of {pk} succeeded after its deletion")
                if 'sha' in e:
                    ctx.expect(e['sha'] == shas[s['k']], f'load of {pk} gave another log')
            elif e['error'] == 'KeyError' or e['error'] != 'OperationalError':
                # nothing may have deleted it by then
                ctx.expect(s is None or s['t1'] > e['t0'] or (d is not None and d['t0'] < e['t1']),
                           f"{e['op']} of {pk} failed although it was stored: {e['error']} {e.get('text')}")
        elif e['op'] == 'lookup' and e['ok']:
            if pk is None:
                for s in saves.values():
                    if s['k'] == e['k'] and s['t1'] < e['t0']:
                        d = deletes.get(s['pk'])
                        ctx.expect(d is not None and d['t0'] < e['t1'], f"file {e['k']} is not found, but stored as {s['pk']}")
            else:
                s, d = saves.get(pk), deletes.get(pk)
                ctx.expect(s is not None and s['k'] == e['k'] and s['t0'] < e['t1'] and (d is None or d['t1'] > e['t0']),
                           f"file {e['k']} is found as {pk}, which is not stored")
        elif e['op'] == 'save' and not e['ok'] and e['error'] != 'OperationalError':
            # there was a copy at some time
            ctx.expect(any(s['k'] == e['k'] and s['t0'] < e['t1'] and
                           (s['pk'] not in deletes or deletes[s['pk']]['t1'] > e['t0']) for s in saves.values()),
                       f"save of file {e['k']} was refused although it was not stored: {e['error']} {e.get('text')}")
    stored = {pk: s['k'] for pk, s in saves.items() if pk not in deletes}
    final_state(ctx, path, stored, files, 'after all threads')


# -------------------------------------------------------------------------- waiting for each other

def waiting(ctx):
    """
    A save or deletion while that of another log has written, but takes a moment longer (far less than what the library
    waits for): both have to succeed. Nothing is said about operations that take longer than that.
    """
    r = ctx.rng
    folder, files = make_files(ctx, 3)
    first, second = r.choice([('save', 'save'), ('save', 'delete'), ('delete', 'save')])
    moment = r.choice([.02, .05, .1])
    for attempt in range(3):
        path = dbkit.new_db(os.path.join(folder, f'db{attempt}'))
        base = dbkit.fast_handle(path)
        log = DatabaseULog(base, log_file=files[0][0])
        log.save()
        stored = {log.primary_key: 0}
        old = log.primary_key
        reached, problem = threading.Event(), []
        delays = []

        def pause(_n, sql):
            if not reached.is_set() and delays and sql.split()[0] not in ('SELECT', 'PRAGMA', 'BEGIN'):
                delays[0] -= 1
                if delays[0] < 0:
                    reached.set()
                    time.sleep(moment)

        def run(op, k, start=lambda: None):
            handle = dbkit.fast_handle(path)
            if op == 'save':
                one = DatabaseULog(handle, log_file=files[k][0])
                start()
                one.save()
                return one.primary_key
            one = DatabaseULog(handle, primary_key=old)
            start()
            one.delete()
            return None

        def other():
            with dbkit.Monitor(before=pause) as mon:
                try:
                    # not the first change, which waits for the lock itself, but after it
                    problem.append(('done', run(first, 1, lambda: delays.append(1))))
                except BaseException as exc:     # pylint: disable=broad-except
                    problem.append(('failed', repr(exc)))
                reached.set()
                mon.close()
        thread = threading.Thread(target=other, daemon=True)
        thread.start()
        reached.wait()
        begin = time.monotonic()
        try:
            with dbkit.Monitor() as mon:
                res = ('done', run(second, 2))
                mon.close()
        except sqlite3.OperationalError as exc:
            res = ('failed', repr(exc))
        duration = time.monotonic() - begin
        thread.join()
        gc.collect(0)
        for what, (state, key) in ((first, problem[0]), (second, res)):
            if state == 'done' and what == 'save':
                stored[key] = 1 if what is first and key == problem[0][1] else 2
            elif state == 'done':
                stored.pop(old)
        final_state(ctx, path, stored, files, f'{first} and {second} at once')
        ctx.count('operations that waited for another one')
        if res[0] == problem[0][0] == 'done':
            ctx.nontrivial('waiting', first, second, *[f[1] for f in files])
            return
        if duration > 3:        # a slow machine: the time that the library waits for may be over
            ctx.count('waiting operations out of time')
            return
    ctx.fail(f'{second} of one log while {first} of another takes {moment} s more: {res[1]}, {problem[0][1]}')


def case(ctx):
    if ctx.idx % 10 == 9:
        waiting(ctx)
    elif ctx.idx % 3 == 0:
        threads(ctx)
    else:
        nested(ctx)


CHECK = Check(
    'C17', case, quick=1000, thorough=5000,
    rule='case = an operation with a complete operation of another connection at statement boundaries of it (thorough: all '
         'boundaries), or a history of two to six threads with random delays, '
         'or two operations of which one has to wait for the other; distinct by files, operations and boundary, '
         'respectively by the recorded history',
    required=['operations that waited for another one', 'nested operations with the same handle', 'histories of threads with one handle', 'nested: delete same', 'nested: delete other', 'nested: save third', 'nested: load', 'nested: lookup',
              'nested operations refused', 'load done', 'lazy done', 'fetch done', 'save done', 'delete done',
              'load refused', 'fetch refused', 'save refused', 'overlapping pairs of operations', 'thread save ok',
              'thread save refused', 'thread delete ok', 'thread load ok', 'thread load refused', 'thread lookup ok'],
    assumptions=['SQLite locking', 'threads of one process and nested connections stand for all clients'])
