"""C14: lazy loading and caching of database logs are transparent."""
import io
import os

from vlib import dbkit, gen, observe, ulogfmt as uf
from vlib.harness import Check

from pyulog.db import DatabaseULog

LOOKUP = (KeyError, IndexError, ValueError)


def store(handle, folder, log, k):
    name = os.path.join(folder, f'log{k}.ulg')
    with open(name, 'wb') as f:
        f.write(uf.encode(log))
    dbulog = DatabaseULog(handle, log_file=name)
    dbulog.save()
    return dbulog.primary_key


def empty(d):
    return not d.data or all(len(v) == 0 for v in d.data.values())


def full_obs(ctx, d, want, what):
    ctx.no_diff(observe.diff(want, observe.dataset_obs(d), 'dataset'), what)


class History:
    """A database log object and what it has to give."""

    def __init__(self, ctx, handle, pk, log, lazy):
        self.ctx, self.handle, self.pk, self.lazy = ctx, handle, pk, lazy
        self.exp = uf.interpret(log)
        self.want = observe.expected_obs(self.exp)
        self.keys = sorted(self.want['datasets'])
        how = ctx.rng.choice(['keyword', 'default', 'load'])
        if lazy and how == 'default':
            self.log = DatabaseULog(handle, primary_key=pk)
        elif how == 'load':
            self.log = DatabaseULog(handle, primary_key=pk, lazy=not lazy)
            self.log.load(lazy=lazy)
            ctx.count('logs loaded a second time')
        else:
            self.log = DatabaseULog(handle, primary_key=pk, lazy=lazy)
        self.fetched = {} if lazy else {k: None for k in self.keys}     # key -> object of cached fetches
        self.metadata()
        self.listing()
        ctx.count('lazily loaded logs' if lazy else 'fully loaded logs')

    def metadata(self):
        got = observe.observe(self.log, with_data=False)
        self.ctx.no_diff(observe.compare(self.want, got, ignore=('datasets', 'corrupt', 'repeated_datasets')),
                         'lazily loaded log' if self.lazy else 'fully loaded log')

    def listing(self):
        """The dataset list: the same topics, with samples exactly where they were fetched (and cached)."""
        ctx = self.ctx
        got = [(d.name, d.multi_id) for d in self.log.data_list]
        ctx.expect(sorted(got) == self.keys, f'datasets listed: {got} instead of {self.keys}')
        for d in self.log.data_list:
            key = (d.name, d.multi_id)
            if key in self.fetched:
                full_obs(ctx, d, self.want['datasets'][key], f'{key} in the dataset list')
            else:
                ctx.expect(empty(d), f'{key} in the dataset list has samples before it was fetched')

    def step(self):
        ctx, r = self.ctx, self.ctx.rng
        k = r.random()
        if k < .1 or not self.keys:
            key = r.choice([('unknown', 0), ('', 0), (self.keys[0][0] + 'x' if self.keys else 'a', 0),
                            (self.keys[0][0], 200) if self.keys else ('a', 1),
                            (r.choice(self.keys)[0], r.choice([0, 1, 2, 3, 6])) if self.keys else ('a', 0)])
            if key in self.keys:
                return
            options = r.choice([{}, {'lazy': True}, {'caching': False}, {'lazy': True, 'caching': False}])
            try:
                d = self.log.get_dataset(*key, **options)
            except LOOKUP:
                ctx.count('unknown datasets refused')
            else:
                ctx.fail(f'fetching the unknown {key} {options} gave {d.name} {d.multi_id}')
            self.listing()
            return
        key = r.choice(self.keys)
        lazy = r.random() < .25
        caching = r.random() < .65
        options = {}
        if lazy:
            options['lazy'] = True
        if not caching or r.random() < .3:
            options['caching'] = caching
        args = key if key[1] or r.random() < .5 else key[:1]
        listed = {(d.name, d.multi_id): d for d in self.log.data_list}
        d = self.log.get_dataset(*args, **options)
        what = f'fetch of {key} {options}'
        ctx.expect((d.name, d.multi_id) == key, f'{what} gave {d.name} {d.multi_id}')
        if caching:
            before = self.fetched.get(key)
            if before is not None:
                ctx.expect(d is before, what + ' gave another object than the fetch before')
            if not lazy:
                if key not in self.fetched:
                    ctx.count('cached fetches from the database')
                else:
                    ctx.count('cached fetches from the cache')
                self.fetched[key] = d
                full_obs(ctx, d, self.want['datasets'][key], what)
                again = self.log.get_dataset(*args)
                ctx.expect(again is d, what + ': a second cached fetch gave another object')
            else:
                again = self.log.get_dataset(*args, lazy=True)
                ctx.expect(again is d, what + ': a second cached fetch gave another object')
            if lazy and key in self.fetched:
                full_obs(ctx, d, self.want['datasets'][key], what)
            elif lazy:
                ctx.expect(empty(d), what + ' gave samples')
                ctx.count('lazy fetches')
        else:
            for other in list(listed.values()) + [x for x in self.fetched.values() if x is not None]:
                ctx.expect(d is not other, what + ' gave an object that is in use')
            if lazy:
                ctx.expect(empty(d), what + ' gave samples')
                ctx.expect(int(d.msg_id) == self.want['datasets'][key]['msg_id'], what + ': message id')
            else:
                full_obs(ctx, d, self.want['datasets'][key], what)
            now = {(x.name, x.multi_id): x for x in self.log.data_list}
            ctx.expect(all(now[k] is listed[k] for k in listed), what + ' replaced datasets in the list')
            ctx.count('uncached fetches')
            if r.random() < .3:     # changes to a fresh object stay there
                d.name, d.data, d.field_data = 'changed', {}, []
        self.listing()

    def write(self):
        ctx = self.ctx
        out = io.BytesIO()
        if not self.lazy:
            self.log.write_ulog(out)
            return
        path = os.path.join(ctx.dir(), 'out.ulg')
        target = path if ctx.rng.random() < .5 else out
        try:
            self.log.write_ulog(target)
        except Exception:   # pylint: disable=broad-except
            ctx.count('writes of lazily loaded logs refused')
            ctx.expect(not os.path.exists(path) or os.path.getsize(path) == 0, 'a refused write left a file')
            return
        if not self.keys:
            return
        raw = out.getvalue()
        if target == path:
            with open(path, 'rb') as f:
                raw = f.read()
        got = uf.interpret(uf.decode(raw)[0])
        ctx.expect(sorted(got.datasets) == self.keys and all(
            len(got.datasets[k].rows) == len(self.exp.datasets[k].rows) for k in self.keys),
                   'a lazily loaded log was written without its data')


def case(ctx):
    r = ctx.rng
    folder = ctx.dir()
    monitor = dbkit.Monitor()
    with monitor:
        handle = dbkit.fast_handle(dbkit.new_db(os.path.join(folder, 'db')))
        kw = dict(dbkit.PROFILE, samples=(1, 25), topics=(1, 4), max_fields=4,
                  nesting=r.random() < .3, multi_ids=(0, 0, 1, 2))
        logs = [gen.make(r, **kw)]
        twin = logs[0].copy()               # the same topics with other samples
        twin.start += 1 if twin.start + 1 < 1 << 63 else -1
        twin.records = [x for x in twin.records if x[0] != 'D' or r.random() < .6]
        logs.append(twin)
        if r.random() < .3:
            logs.append(gen.make(r, **kw))
        order = list(range(len(logs)))
        r.shuffle(order)
        pks = {k: store(handle, folder, logs[k], k) for k in order}
        histories = [History(ctx, handle, pks[k], logs[k], lazy=r.random() < .75) for k in order]
        steps = 0
        for _ in range(r.randint(3, 25)):
            h = r.choice(histories)
            h.step()
            steps += 1
            if r.random() < .1:
                h.write()
        for h in histories:
            h.metadata()
        ctx.count('accesses', steps)
        ctx.count('SQL statements observed', len(monitor.events))
    ctx.nontrivial(steps, *[uf.encode(x) for x in logs])
    ctx.sample(f'{steps} accesses to {[h.keys for h in histories]!r:.300}')
    monitor.close()


def many(ctx):
    """A log with hundreds of datasets."""
    folder = ctx.dir()
    handle = dbkit.fast_handle(dbkit.new_db(os.path.join(folder, 'db')))
    log = gen.many(ctx.rng, samples=2000)
    pk = store(handle, folder, log, 0)
    for lazy in (True, False):
        h = History(ctx, handle, pk, log, lazy)
        for _ in range(20):
            h.step()
        h.metadata()
    ctx.count('logs with hundreds of datasets')


CHECK = Check(
    'C14', case, quick=2100, thorough=20000,
    rule='case = two or three logs with partly the same topics in one database, loaded lazily or fully, and a random '
         'history of dataset fetches on them; distinct by file bytes and length of the history',
    probes=[('many', many)],
    required=['lazily loaded logs', 'fully loaded logs', 'logs loaded a second time', 'unknown datasets refused',
              'cached fetches from the database', 'cached fetches from the cache', 'lazy fetches', 'uncached fetches',
              'writes of lazily loaded logs refused', 'SQL statements observed'],
    assumptions=['independent encoder/interpreter in vlib/ulogfmt.py'])
