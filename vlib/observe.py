"""Observation of a loaded log through its public API, and its comparison with an expectation."""
from . import ulogfmt as uf

#: aspects of a log that are compared, in reporting order
ASPECTS = ('start', 'last', 'has_appended', 'has_default', 'info', 'multi', 'init', 'defaults',
           'changed', 'formats', 'logs', 'tagged', 'dropouts', 'datasets', 'corrupt')


def dataset_obs(d, with_data=True):
    out = {'msg_id': int(d.msg_id), 'timestamp_idx': int(d.timestamp_idx),
           'fields': [(f.field_name, f.type_str) for f in d.field_data]}
    if with_data:
        data = {}
        for name, arr in d.data.items():
            if arr.ndim != 1:
                data[name] = ('ndim', arr.ndim)
                continue
            raw = arr.astype(arr.dtype.newbyteorder('<'), copy=False).tobytes()
            data[name] = (arr.dtype.kind, arr.dtype.itemsize, raw)
        out['data'] = data
    return out


def observe(ulog, with_data=True):
    """Canonical form of everything the log reports."""
    obs = {
        'start': int(ulog.start_timestamp),
        'last': int(ulog.last_timestamp),
        'has_appended': bool(ulog.has_data_appended),
        'has_default': bool(ulog.has_default_parameters),
        'info': {k: uf.canon(v) for k, v in ulog.msg_info_dict.items()},
        'multi': {k: [[uf.canon(v) for v in part] for part in parts]
                  for k, parts in ulog.msg_info_multiple_dict.items()},
        'init': {k: uf.canon(v) for k, v in ulog.initial_parameters.items()},
        'defaults': {i: {k: uf.canon(v) for k, v in ulog.get_default_parameters(i).items()}
                     for i in range(8)},
        'changed': [(int(t), k, uf.canon(v)) for t, k, v in ulog.changed_parameters],
        'formats': {k: (f.name, [tuple(x) for x in f.fields])
                    for k, f in ulog.message_formats.items()},
        'logs': [(m.log_level, int(m.timestamp), m.message) for m in ulog.logged_messages],
        'tagged': {tag: [(m.log_level, m.tag, int(m.timestamp), m.message) for m in ms]
                   for tag, ms in ulog.logged_messages_tagged.items()},
        'dropouts': [(int(d.timestamp), d.duration) for d in ulog.dropouts],
        'corrupt': bool(ulog.file_corruption),
    }
    datasets = {}
    repeated = []
    for d in ulog.data_list:
        key = (d.name, d.multi_id)
        if key in datasets:
            repeated.append(key)
        datasets[key] = dataset_obs(d, with_data)
    obs['datasets'] = datasets
    obs['repeated_datasets'] = repeated
    return obs


def has_nan(obs):
    """Whether information or parameters contain a not-a-number (which the library's equality need not equate)."""
    def look(x):
        if isinstance(x, dict):
            return any(look(v) for v in x.values())
        if isinstance(x, (list, tuple)):
            return tuple(x) == ('f', 'nan') or any(look(v) for v in x)
        return False
    return any(look(obs[k]) for k in ('info', 'multi', 'init', 'defaults', 'changed'))


def expected_dataset(ds):
    names = [n for n, _ in ds.fields]
    return {
        'msg_id': ds.msg_id,
        'timestamp_idx': names.index('timestamp') if 'timestamp' in names else -1,
        'fields': list(ds.fields),
        'data': {n: (uf.BASIC[t][2], uf.BASIC[t][0], ds.column_bytes(n)) for n, t in ds.fields},
    }


def expected_obs(exp):
    """The expectation in the same canonical form."""
    return {
        'start': exp.start, 'last': exp.last,
        'has_appended': bool(exp.incompat[0] & 1),
        'has_default': bool(exp.compat[0] & 1),
        'info': exp.info, 'multi': exp.multi, 'init': exp.init, 'defaults': exp.defaults,
        'changed': exp.changed,
        'formats': {k: (k, [tuple(x) for x in v]) for k, v in exp.formats.items()},
        'logs': exp.logs,
        'tagged': {t: [(lv, t, ts, m) for lv, ts, m in ms] for t, ms in exp.tagged.items()},
        'dropouts': exp.dropouts,
        'corrupt': exp.corrupt,
        'datasets': {k: expected_dataset(d) for k, d in exp.datasets.items()},
        'repeated_datasets': [],
    }


def _short(x, n=200):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def diff(want, got, path=''):
    """First differences between two canonical forms, as text lines."""
    if isinstance(want, dict) and isinstance(got, dict):
        out = []
        for k in want:
            if k not in got:
                out.append(f'{path}[{k!r}] missing (expected {_short(want[k])})')
            elif want[k] != got[k]:
                out += diff(want[k], got[k], f'{path}[{k!r}]')
        for k in got:
            if k not in want:
                out.append(f'{path}[{k!r}] unexpected ({_short(got[k])})')
        return out or ([f'{path}: differs'] if want != got else [])
    if isinstance(want, list) and isinstance(got, list):
        if len(want) != len(got):
            return [f'{path}: {len(got)} items instead of {len(want)}: expected {_short(want)} got {_short(got)}']
        for i, (a, b) in enumerate(zip(want, got)):
            if a != b:
                return diff(a, b, f'{path}[{i}]')
        return []
    if want != got:
        return [f'{path}: expected {_short(want)} got {_short(got)}']
    return []


def compare(want, got, ignore=()):
    out = []
    for a in ASPECTS + ('repeated_datasets',):
        if a in ignore or a not in want:
            continue
        if want[a] != got.get(a):
            out += diff(want[a], got.get(a), a)
    return out
