"""C25: the messages tool shows every message and event once, in time order."""
import io
import json
import lzma
import re
import sys
import types
import urllib.error
import urllib.request

from vlib import gen, tools, ulogfmt as uf
from vlib.harness import Check

LEVELS = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG']
LIMIT = 1 << 50


class Event:
    def __init__(self, group, text):
        self._group, self._text = group, text

    def group(self):
        return self._group

    def message(self):
        return self._text


class StandIn:
    """Stands in for the event parser library, which is not installed. Texts contain all argument bytes."""
    made = []

    def __init__(self):
        self.definitions = {}
        self.profile = None
        StandIn.made.append(self)

    def load_definitions(self, definitions):
        self.definitions.update(definitions)

    def set_profile(self, profile):
        self.profile = profile

    def parse(self, event_id, arguments):
        d = self.definitions.get(str(int(event_id)))
        if d is None:
            return None
        assert isinstance(arguments, bytes)
        return Event(d['group'], event_text(d, self.profile, arguments))


def event_text(d, profile, arguments):
    if not d['text']:
        return ''
    return f'{d["text"]} [{profile}] {arguments.hex()}'


class Network:
    """Stands in for the network."""
    answer = None

    def open(self, *_args, **_kw):
        if self.answer is None:
            raise urllib.error.URLError('there is no network')
        return io.BytesIO(self.answer())


NETWORK = Network()


def install():
    urllib.request.urlopen = NETWORK.open
    package = types.ModuleType('pyulog.libevents_parse')
    package.__path__ = []
    module = types.ModuleType('pyulog.libevents_parse.parser')
    module.Parser = StandIn
    package.parser = module
    sys.modules['pyulog.libevents_parse'] = package
    sys.modules['pyulog.libevents_parse.parser'] = module


def setup(_work):
    install()


def definitions(r, tag):
    return {str(i): {'group': r.choice(['default', 'default', 'default', 'health', 'calibration', 'Default', '']),
                     'text': r.choice([f'{tag}{i}', f'{tag} text of {i}', f'{tag} text of {i}', ''])}
            for i in r.sample(range(12), r.randint(0, 10))}


class Logged:
    """A log with events and what has to come out."""


def make(ctx, count=None):
    r = ctx.rng
    out = Logged()
    log = gen.make(r, samples=(0, 30), topics=(0, 2), max_fields=3, nesting=False, ts_limit=LIMIT, multi_types=['char['],
                   time=r.choice(['global', 'topic', 'any']), text=r.choice(['ascii', 'utf8']))
    # one line per message, some of them duplicates of events, some empty
    for k, rec in enumerate(log.records):
        if rec[0] == 'L':
            text = rec[3].decode().replace('\n', ' ')
            x = r.random()
            text = text + '\t' if x < .3 else text.rstrip('\t') if x < .8 else ''
            log.records[k] = rec[:3] + (text.encode(),)
    log.records = [x for x in log.records if not (x[0] == 'I' and x[2] in ('sys_name', 'metadata_events_sha256'))]
    out.px4 = r.random() < .75
    name = 'PX4' if out.px4 else r.choice(['px4', 'PX4 ', '', 'ArduPilot', None])
    at = tools.data_start(log)
    head = []
    if name is not None:
        head.append(('I', f'char[{len(name)}]', 'sys_name', name.encode()))
    # definitions in the log
    out.inside = None
    out.broken = False
    kind = r.choice(['none', 'none', 'good', 'good', 'no hash', 'bad hash', 'broken'])
    if kind != 'none':
        inside = definitions(r, 'in')
        data = lzma.compress(json.dumps(inside).encode())
        if kind == 'broken':
            data = data[:-5] if r.random() < .5 else lzma.compress(b'{"a": ')
        n = r.choice([len(data), 100, 17])
        parts = [data[i:i + n] for i in range(0, len(data), n)]
        for k, part in enumerate(parts):
            head.append(('M', int(k > 0), f'uint8_t[{len(part)}]', 'metadata_events', part))
        if r.random() < .2:     # only the first one counts
            head.append(('M', 0, 'uint8_t[3]', 'metadata_events', b'abc'))
        if kind != 'no hash':
            text = ''.join(r.choice('0123456789abcdef') for _ in range(64 if r.random() < .8 else r.randint(1, 64)))
            if kind == 'bad hash':
                text = r.choice([text + 'a' * 65, '../' + text[:40], '', text[:20] + ' x', text[:30] + '/'])
            head.append(('I', f'char[{len(text)}]', 'metadata_events_sha256', text.encode()))
        if kind == 'good':
            out.inside = inside
        out.broken = kind == 'broken'
    log.records[at:at] = head
    # events
    n = count or r.choice([0, 0, 1, 8, 25, 25])
    n_args = r.choice([25, 25, 25, 1, 0, 40])
    fields = [('uint64_t', 0, 'timestamp'), ('uint32_t', 0, 'id'), ('uint16_t', 0, 'event_sequence')]
    if n_args:
        fields.append(('uint8_t', n_args, 'arguments'))
    fields.append(('uint8_t', 0, 'log_levels'))
    if r.random() < .3:
        fields[1:] = r.sample(fields[1:], len(fields) - 1)
    if r.random() < .5:
        fields.append(('uint8_t', 3, '_padding0'))
    out.events = []
    rows = []
    times = []
    clock = log.start
    mode = r.choice(['order', 'order', 'messages', 'any'])
    near = [x[2] for x in log.records if x[0] == 'L'] or [0]
    for k in range(n):
        clock = min(LIMIT - 1, clock + r.choice([0, 0, 1, 500, 1000000, 70000000]))
        t = clock if mode == 'order' else r.choice(near) if mode == 'messages' else r.randrange(LIMIT)
        ev = r.choice([r.randrange(12), r.randrange(14), (1 << 32) - 1])
        level = r.choice([0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 9, 10, 15]) << 4 | r.randrange(16)
        args = bytes(r.randrange(256) for _ in range(n_args))
        values = {'timestamp': t, 'id': ev, 'event_sequence': k & 65535, 'log_levels': level}
        values.update((f'arguments[{i}]', a) for i, a in enumerate(args))
        rows.append(tools.pack(fields, values, r))
        times.append(t)
        out.events.append((t, ev, level >> 4, args))
    if n:
        log = tools.add_topic(r, log, 'event', 0, fields, rows)
        if r.random() < .2:
            log = tools.add_topic(r, log, 'event', 1, fields, [tools.pack(fields, {'timestamp': log.start}, r)])
            ctx.count('logs with events of other instances')
    out.log = log
    out.exp = uf.interpret(log)
    return out


def expected_events(case, defs):
    """defs: definitions or None -> [(t, level, text)]"""
    res = []
    for t, ev, level, args in case.events:
        if level >= 8:
            continue
        d = (defs or {}).get(str(ev))
        if d is None:
            res.append((t, LEVELS[level], f'[Unknown event with ID {ev}]'))
        elif d['group'] == 'default':
            res.append((t, LEVELS[level], event_text(d, 'dev', args)))
    return res


def clock(t):
    s = t // 1000000
    return f'{s // 3600}:{s // 60 % 60:02d}:{s % 60:02d}'


def level_name(level):
    return LEVELS[level - 48] if 48 <= level < 56 else 'UNKNOWN'


def check_merge(ctx, out, msgs, events):
    """Both lists have to be there, all in time order; messages and events of one time in their own order."""
    both = sorted([(m[0], k, m) for k, m in enumerate(events)] + [(m[0], k, m) for k, m in enumerate(msgs)],
                  key=lambda x: x[0])
    lines = out.split('\n')
    ctx.expect(lines[-1] == '', f'the output ends with {lines[-1]!r}')
    lines = [x for x in lines[:-1] if re.match(r'\d+:\d\d:\d\d ', x)]
    ctx.expect(len(lines) == len(both), lambda: f'{len(lines)} lines {lines[:6]} instead of {len(both)} {both[:6]}')
    k = 0
    while k < len(both):
        t = both[k][0]
        group = []
        while k + len(group) < len(both) and both[k + len(group)][0] == t:
            group.append(both[k + len(group)][2])
        got = lines[k:k + len(group)]
        text = {id(m): f'{clock(m[0])} {m[1]}: {m[2]}' for m in group}
        ctx.expect(sorted(text.values()) == sorted(got),
                   lambda: f'at {t}: {got} instead of {[text[id(m)] for m in group]}')    # pylint: disable=cell-var-from-loop
        for part in (events, msgs):
            ids = {id(m) for m in part}
            want = [text[id(m)] for m in group if id(m) in ids]
            other = {text[id(m)] for m in group if id(m) not in ids}
            if not other & set(want):
                ctx.expect([x for x in got if x in want] == want, f'at {t}: order {got} instead of {want}')
        k += len(group)
    if {m[0] for m in msgs} & {m[0] for m in events}:
        ctx.count('messages and events at one time')
    ctx.count('lines compared', len(both))


def run_tool(ctx, case, path):
    """The command line tool, the default definitions unavailable or given."""
    r = ctx.rng
    calls = []
    defaults = r.choice([definitions(r, 'web'), definitions(r, 'web'), 'failure'])

    def answer():
        calls.append(1)
        kind = r.randrange(4)
        if defaults != 'failure':
            return lzma.compress(json.dumps(defaults).encode())
        if kind == 0:
            raise r.choice([OSError('no network'), TimeoutError(), urllib.error.URLError('no host')])
        if kind == 1:
            return b'no archive'
        if kind == 2:
            return lzma.compress(b'{}')[:-9]
        return lzma.compress(b'{"a": ')

    NETWORK.answer = answer
    try:
        out = tools.run_tool('messages', path, *([r.choice(['-i', '--ignore'])] if r.random() < .5 else []))
    finally:
        NETWORK.answer = None
    logs = [(t, level_name(lv), text) for lv, t, text in case.exp.logs]
    if not case.px4:
        ctx.expect(not calls, 'default definitions requested for a log that is not from PX4')
        want = ''.join(f'{clock(t)} {lv}: {text}\n' for t, lv, text in logs)
        ctx.expect(out == want, f'{out[:300]!r} instead of {want[:300]!r}')
        ctx.count('logs of other systems')
        return
    kept = [m for m in logs if not m[2].endswith('\t')]
    if len(kept) < len(logs):
        ctx.count('duplicates of events left out', len(logs) - len(kept))
    if any(not m[2] for m in kept):
        ctx.count('logs with empty messages')
    failed = bool(case.events) and (case.broken or (case.inside is None and defaults == 'failure'))
    if failed:
        ctx.count('definitions that cannot be got')
        check_messages_only(ctx, out, kept)
    else:
        events = expected_events(case, case.inside if case.inside is not None else defaults)
        check_merge(ctx, out, kept, events)
        if events and kept:
            ctx.count('logs with messages and events')
    needed = case.events and case.inside is None and not case.broken
    ctx.expect(len(calls) <= (1 if needed else 0), f'default definitions requested {len(calls)} times, needed: {needed}')


def check_messages_only(ctx, out, msgs):
    """Without definitions: the messages in time order, events at most as unknown ones."""
    lines = [x for x in out.split('\n') if re.match(r'\d+:\d\d:\d\d ', x) and '[Unknown event with ID' not in x]
    want = [f'{clock(t)} {lv}: {text}' for t, lv, text in sorted(msgs, key=lambda m: m[0])]
    ctx.expect(lines == want, f'{lines[:6]} instead of {want[:6]}')


def history(ctx, cases):
    """One extractor used for several logs, with a caching definitions callback."""
    from pyulog import px4_events
    from pyulog.core import ULog
    r = ctx.rng
    extractor = px4_events.PX4Events()
    calls = []
    answer = [None]

    def callback(already):
        calls.append(already)
        if answer[0] == 'failure':
            raise OSError('no network')
        return answer[0]

    extractor.set_default_json_definitions_cb(callback)
    current = None
    for case, path in cases:
        for _ in range(r.choice([1, 1, 2])):
            answer[0] = r.choice([None, 'failure', definitions(r, 'cb'), definitions(r, 'cb')])
            had = current is not None
            calls.clear()
            ulog = ULog(path, ['event'] if r.random() < .5 else None, True)
            got = extractor.get_logged_events(ulog)
            got = [(int(t), lv, text) for t, lv, text in got]
            asked = case.events and case.inside is None and not case.broken
            ctx.expect(len(calls) <= (1 if asked else 0), f'default definitions requested {len(calls)} times, needed: {asked}')
            if calls:
                ctx.expect([bool(c) for c in calls] == [had], f'callback told {calls}, had definitions: {had}')
                ctx.count('callbacks with cached definitions' if had else 'callbacks without cached definitions')
            if calls and isinstance(answer[0], dict):
                current = answer[0]
            failed = case.events and (case.broken or (case.inside is None and answer[0] == 'failure'))
            if failed:
                ctx.expect(all('[Unknown event' in x[2] for x in got), f'{got[:4]} without definitions')
                continue
            defs = case.inside if case.inside is not None else current
            want = expected_events(case, defs)
            ctx.expect(got == want, lambda: f'events {got[:6]} ({len(got)}) instead of {want[:6]} ({len(want)})')    # pylint: disable=cell-var-from-loop
            ctx.count('events compared', len(want))
            for name, n in (('events of unknown definition', sum('[Unknown' in x[2] for x in want)),
                            ('internal events left out', sum(e[2] >= 8 for e in case.events)),
                            ('events of other groups left out', len([e for e in case.events if e[2] < 8]) - len(want))):
                if n:
                    ctx.count(name, n)
            if case.inside is not None and case.events:
                ctx.count('logs with definitions inside')


def downloads(ctx, cases):
    """One extractor used for several logs, with the built-in source of default definitions."""
    from pyulog import px4_events
    from pyulog.core import ULog
    r = ctx.rng
    extractor = px4_events.PX4Events()
    calls = []
    defaults = definitions(r, 'net')
    working = [False]

    def answer():
        calls.append(working[0])
        if not working[0]:
            raise OSError('no network')
        return lzma.compress(json.dumps(defaults).encode())

    NETWORK.answer = answer
    try:
        for case, path in cases:
            for _ in range(r.choice([1, 2])):
                working[0] = r.random() < .7
                got = [(int(t), lv, text) for t, lv, text in extractor.get_logged_events(ULog(path, ['event'], True))]
                ctx.expect(sum(calls) <= 1, 'default definitions downloaded again')
                if not case.events or case.broken or case.inside is None and not any(calls):
                    continue
                want = expected_events(case, case.inside if case.inside is not None else defaults)
                ctx.expect(got == want, lambda: f'events {got[:6]} ({len(got)}) instead of {want[:6]} ({len(want)})')    # pylint: disable=cell-var-from-loop
                if case.inside is None:
                    ctx.count('logs read with downloaded definitions')
    finally:
        NETWORK.answer = None


def case_(ctx, count=None):
    folder = ctx.dir()
    cases = []
    for k in range(1 if count else ctx.rng.choice([1, 2, 3])):
        case = make(ctx, count)
        path = tools.write(folder, f'log{k}.ulg', case.log)
        cases.append((case, path))
        run_tool(ctx, case, path)
        ctx.nontrivial(uf.encode(case.log))
    history(ctx, cases)
    downloads(ctx, cases)
    ctx.sample(f'{len(cases[0][0].events)} events, {len(cases[0][0].exp.logs)} messages, PX4: {cases[0][0].px4}')


CHECK = Check(
    'C25', case_, quick=7500, thorough=60000, setup=setup, probes=[('many', lambda ctx: case_(ctx, 20000))],
    rule='case = up to three random logs with messages and events shown by the tool, then read with one event extractor, '
         'with definitions inside, given by the callback, missing or failing; distinct by file bytes',
    required=['logs read with downloaded definitions', 'logs of other systems', 'duplicates of events left out', 'logs with empty messages',
              'definitions that cannot be got', 'logs with messages and events', 'messages and events at one time',
              'callbacks with cached definitions', 'callbacks without cached definitions', 'events compared',
              'events of unknown definition', 'internal events left out', 'events of other groups left out',
              'logs with definitions inside', 'lines compared', 'logs with events of other instances'],
    assumptions=['a stand-in for the event parser library, which is not installed: it composes the text of an event from '
                 'its definition, the profile and all argument bytes',
                 'times below 2^50, single-line texts (C19/C08 decide the parsing of others)'])
