"""Helpers for the checks of the command line tools."""
import contextlib
import importlib
import io
import os
import struct
import sys

from . import ulogfmt as uf


class Exit(Exception):
    """The tool ended with a status."""

    def __init__(self, code):
        super().__init__(f'exit status {code}')
        self.code = code


@contextlib.contextmanager
def arguments(*argv):
    old, sys.argv = sys.argv, list(argv)
    try:
        yield
    finally:
        sys.argv = old


def run_tool(module, *argv):
    """Run the entry point of a command line tool in this process. -> what it prints"""
    main = importlib.import_module('pyulog.' + module).main
    out, err = io.StringIO(), io.StringIO()
    with arguments(module, *argv), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            code = main()
        except SystemExit as exc:
            code = exc.code
    if code not in (None, 0):
        raise Exit(f'{code} {err.getvalue()[-300:]}')
    return out.getvalue()


def write(folder, name, log):
    path = os.path.join(folder, name)
    data = log if isinstance(log, (bytes, bytearray)) else uf.encode(log)
    with open(path, 'wb') as f:
        f.write(data)
    return path


def same_number(typ, value, text):
    """The text reads back as exactly this value of this type (NaN as any NaN)."""
    if typ in ('float', 'double'):
        try:
            got = float(text)
        except ValueError:
            return False
        if value != value:
            return got != got
        if typ == 'double':
            return struct.pack('<d', got) == struct.pack('<d', value)
        try:
            return struct.pack('<f', got) == struct.pack('<f', value)
        except OverflowError:
            return False
    try:
        return int(text) == value
    except ValueError:
        return False


def same_scalar(typ, value, got):
    """A scalar the library returns equals the logged value exactly."""
    if typ in ('float', 'double'):
        if value != value:
            return got != got
        return struct.pack('<d', float(got)) == struct.pack('<d', value)
    return int(got) == value and not isinstance(got, float)


def rename_topics(log, mapping):
    """Other topic names (in formats and subscriptions)."""
    out = log.copy()
    for k, rec in enumerate(out.records):
        if rec[0] == 'F' and rec[1] in mapping:
            out.records[k] = ('F', mapping[rec[1]], rec[2])
        elif rec[0] == 'A' and rec[3] in mapping:
            out.records[k] = ('A', rec[1], rec[2], mapping[rec[3]])
    return out


def window(rng, exp, fractions=False):
    """
    Random time window in seconds, or None, with ends that matter to the samples.
    fractions: multiples of 1/64 s, which are whole microseconds and exact as floating point numbers
    """
    times = sorted({t for ds in exp.datasets.values() for t in ds.timestamps()})
    near = [0, 1, 2, 10 ** 6, 5 * 10 ** 9]
    for t in times:
        near += [t // 10 ** 6, t // 10 ** 6 + 1, max(0, t // 10 ** 6 - 1)]
    if fractions:
        near = [x for x in near if x < 10 ** 9]
        near += [t * 64 // 10 ** 6 / 64 + d / 64 for t in times if t < 10 ** 15 for d in (0, 0, 1)]
    return tuple(rng.choice(near) if rng.random() < .6 else None for _ in range(2))


def inside(t, start, end):
    """Start included, end excluded."""
    return (start is None or t >= start * 10 ** 6) and (end is None or t < end * 10 ** 6)


def columns(ds):
    """(field, type, values) of the fields of a dataset, the timestamp first, others in the order of the log."""
    fields = sorted(ds.fields, key=lambda f: f[0] != 'timestamp')
    return [(n, t, ds.column(n)) for n, t in fields]


def map_times(log, func):
    """Change all sample times (with a monotonic function, to keep their order)."""
    subs = uf.interpret(log).subs
    log = log.copy()
    for k, rec in enumerate(log.records):
        if rec[0] == 'D' and rec[1] in subs:
            pos = subs[rec[1]].offsets['timestamp'][0]
            t = func(struct.unpack('<Q', rec[2][pos:pos + 8])[0])
            log.records[k] = ('D', rec[1], rec[2][:pos] + struct.pack('<Q', t) + rec[2][pos + 8:])
    return log


def spread_times(rng, log, limit):
    """Stretch the times to seconds and minutes, in part to whole seconds."""
    factor = rng.choice([1, 10, 100, 1000, 100000])
    quantum = rng.choice([1, 1, 500000])
    return map_times(log, lambda t: min(limit, (log.start + max(0, t - log.start) * factor) // quantum * quantum))


def data_start(log):
    """Index of the first record of the data section."""
    for k, rec in enumerate(log.records):
        if rec[0] in 'ALC':
            return k
    return len(log.records)


def add_topic(rng, log, name, multi, fields, rows, nested=()):
    """Add a topic with these samples (raw bytes), in order, among the other records. nested: more format records."""
    ids = {x[2] for x in log.records if x[0] == 'A'}
    mid = rng.choice([k for k in [rng.randrange(65536) for _ in range(8)] + list(range(200)) if k not in ids])
    at = data_start(log)
    head, body = list(log.records[:at]), list(log.records[at:])
    slots = sorted(rng.randint(0, len(body)) for _ in rows)
    for pos, row in reversed(list(zip(slots, rows))):
        body.insert(pos, ('D', mid, row))
    head += list(nested)
    if not any(x[0] == 'F' and x[1] == name for x in head):
        head.append(('F', name, fields))
    out = log.copy()
    out.records = head + [('A', multi, mid, name)] + body
    return out


def pack(fields, values, rng=None):
    """Raw bytes of one sample of a flat format. values: {flat field: value}; other fields are zero or random."""
    raw = b''
    for name, typ in uf.flatten('f', {'f': fields}):
        size, code, _ = uf.BASIC[typ]
        if name in values:
            v = values[name]
            raw += bytes([v & 255]) if code in 'c?' else struct.pack('<' + code, v)
        else:
            raw += bytes(rng.randrange(256) if rng else 0 for _ in range(size))
    return raw
