"""
Workload generator: random well-formed ULog histories.

Everything random comes from the Random instance passed in, so a case is reproduced from its seed.
A profile (Cfg) says which corners of the format a check wants; the corners that are outside of a
property's quantifier are switched off there, never in the oracle.
"""
import struct

from . import ulogfmt as uf

INT_TYPES = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t']
ALL_TYPES = INT_TYPES + ['float', 'double', 'bool', 'char']
U64 = 1 << 64

WORDS = ['accel', 'gyro', 'x', 'y', 'z', 'q', 'pos', 'vel', 'alt', 'status', 'mode', 'temp', 'count', 'id', 'flag',
         'value', 'raw', 'cov', 'lat', 'lon', 'rpm', 'timestamp_sample', 'noise', 'ref', 'delta', 'nav', 'a1', 'B2',
         'hrt_timestamp', 'timestamp_utc', 'utc_timestamp', '_pad', 'nan_count']
TOPICS = ['sensor_combined', 'vehicle_attitude', 'vehicle_status', 'estimator_status', 'actuator_outputs', 'cpuload',
          'battery_status', 'sensor_gps', 'sensor', 'sensor_gps_raw', 'manual_control', 'input_rc', 'wind', 'mission',
          'airspeed', 'esc_status', 'logger_status', 'home', 'home_position', 'ekf2_timestamps']


class Cfg:
    """Profile; every keyword overrides a default."""
    topics = (1, 4)             # number of topics
    samples = (0, 30)           # samples in the log
    time = 'mixed'              # 'topic': increasing per topic; 'global': increasing; 'any'; 'mixed'
    strict_time = False         # per-topic times strictly increasing (with 'topic'/'global')
    ts_limit = U64              # exclusive upper bound of all times
    text = 'mixed'              # 'ascii' | 'utf8' | 'invalid' | 'mixed'
    nan = 'bits'                # 'bits': any bit pattern; 'quiet': only the canonical NaN; 'none': finite, inf allowed
    bools = 'any'               # 'any' byte or '01'
    info_types = ALL_TYPES + ['char[', 'uint8_t[', 'float[', 'int32_t[', 'bool[']
    info_int_limit = U64
    info_nan = True             # not-a-number information values
    multi_types = ['char[', 'char[', 'uint8_t[', 'int32_t', 'float[', 'uint64_t']
    param_types = ['int32_t', 'float']
    param_nan = False
    syncs = True
    removal = True
    unknown = False
    late_subs = True
    meta_in_data = True         # I/M/Q records in the data section
    logs = True
    tagged = True
    dropouts = True
    params = True
    flags = 'maybe'             # 'maybe' | 'no' | 'yes'
    extra_flags = False
    version = (0, 1, 1, 1)
    nesting = True
    padding = True
    max_fields = 7
    ts_anywhere = True
    unlogged_formats = True
    min_fields = 1
    empty_text = True
    extreme = False             # now and then long arrays and deep nesting
    field_types = ALL_TYPES
    name_variants = True        # topics whose names differ in case or in one character only
    bulk = .03                  # share of logs with very many records of some kind
    huge = .012                 # share of logs with one very large record or very many topics
    odd_keys = True             # names that are not ASCII, or very long
    multi_ids = (0, 0, 0, 1, 2, 3, 7, 255)

    def __init__(self, **kw):
        for k, v in kw.items():
            assert hasattr(type(self), k), k
            setattr(self, k, v)


class Topic:
    def __init__(self, name, multi, msg_id, fields):
        self.ds = uf.Dataset(name, multi, msg_id, fields)
        self.name, self.multi, self.msg_id = name, multi, msg_id
        self.last = None
        self.pad_mode = 0


class Gen:
    def __init__(self, rng, cfg=None):
        self.r = rng
        self.c = cfg or Cfg()
        self.formats = {}
        self.topics = []
        self.nested_count = 0
        self.start = 0

    # ------------------------------------------------------------ scalars

    def integer(self, size, signed):
        r = self.r
        bits = size * 8
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        k = r.random()
        if k < 0.25:
            return r.choice([lo, hi, 0, 1 if hi else 0, -1 if signed else hi - 1, hi // 2 + 1, lo + 1])
        if k < 0.6:
            return r.randint(max(lo, -20), min(hi, 100))
        if k < 0.8:
            return max(lo, min(hi, r.choice([-1, 1]) * (1 << r.randrange(bits)) + r.randint(-1, 1)))
        return r.randint(lo, hi)

    def float_bytes(self, typ):
        r = self.r
        f, i, size = ('<f', '<I', 4) if typ == 'float' else ('<d', '<Q', 8)
        k = r.random()
        if k < 0.2:
            v = r.choice([0.0, -0.0, 1.0, -1.0, float('inf'), float('-inf'), 0.1, 1 / 3, 1e-30, 1e30, 123456.789,
                          16777217.0])
            return struct.pack(f, v)
        if k < 0.3 and self.c.nan != 'none':
            return struct.pack(f, float('nan'))
        if k < 0.4:
            return struct.pack(i, r.choice([1, 2, 0x7fffff] if size == 4 else [1, 2, (1 << 52) - 1]))
        if k < 0.65:
            return struct.pack(f, r.uniform(-1000, 1000))
        raw = struct.pack(i, r.getrandbits(size * 8))
        v = struct.unpack(f, raw)[0]
        if v != v and self.c.nan != 'bits':
            return struct.pack(f, 1.5)
        return raw

    def raw_value(self, typ):
        r = self.r
        if typ in ('float', 'double'):
            return self.float_bytes(typ)
        if typ == 'bool':
            return bytes([r.randrange(2) if self.c.bools == '01' or r.random() < .8 else r.randrange(256)])
        if typ == 'char':
            return bytes([r.choice([0, 65, 97, 48, 32, 127]) if r.random() < .5 else r.randrange(256)])
        size, code, kind = uf.BASIC[typ]
        return struct.pack('<' + code, self.integer(size, kind == 'i'))

    def ident(self):
        r = self.r
        w = r.choice(WORDS)
        return w + (f'_{r.randrange(10)}' if r.random() < .4 else '')

    def text_bytes(self, maxlen=30):
        r = self.r
        mode = self.c.text
        if mode == 'mixed':
            mode = r.choice(['ascii', 'ascii', 'utf8', 'invalid'])
        n = r.choice([0, 1, 2, 5, r.randrange(maxlen + 1)])
        if r.random() < .01:
            n = r.choice([255, 256, 300, 1000, 5000])
        if n == 0 and not self.c.empty_text:
            n = 1
        alphabet = [chr(c) for c in range(32, 127)]
        out = ''.join(r.choice(alphabet) for _ in range(n))
        if out and r.random() < .06:     # zero bytes are characters like others
            out = r.choice([out[:-1] + '\0', out + '\0\0', '\0' + out, out[:len(out) // 2] + '\0' + out[len(out) // 2:]])
        if mode == 'ascii':
            return out.encode()
        out = ''.join(c if r.random() < .7 else r.choice(['é', 'ß', '漢', '😀', '\t', '\n', "'", '"', '\\', 'Ω', '\x7f'])
                      for c in out)
        raw = out.encode()
        if mode == 'invalid':
            b = bytearray(raw)
            for _ in range(r.randint(1, 3)):
                pos = r.randrange(len(b) + 1)
                b[pos:pos] = r.choice([b'\xff', b'\xfe', b'\x80', b'\xc3', b'\xe2\x82', b'\xf0\x9f', b'\xc0\xaf',
                                       b'\xed\xa0\x80'])
            raw = bytes(b)
        return raw

    # ------------------------------------------------------------ formats

    def scalar_field(self, used, array_ok=True):
        r = self.r
        name = self.ident()
        while name in used:
            name = self.ident() + str(r.randrange(100))
        used.add(name)
        typ = r.choice(self.c.field_types)
        size = 0
        if array_ok and r.random() < .3:
            size = r.choice([1, 2, 3, 4, r.randint(1, 12)])
            if self.c.extreme and r.random() < .1:
                size = r.choice([16, 32, 64, 100, 255, 256, r.randint(13, 700)])
        return (typ, size, name)

    def nested_format(self, depth):
        r = self.r
        self.nested_count += 1
        name = f'nested_{self.nested_count}_{self.ident()}'
        used = set()
        fields = [self.scalar_field(used) for _ in range(r.randint(1, 3))]
        if r.random() < .3:
            fields.insert(r.randrange(len(fields) + 1), ('uint64_t', 0, 'timestamp'))
        if depth > 1 and r.random() < .5:
            inner = self.nested_format(depth - 1)
            fields.insert(r.randrange(len(fields) + 1), (inner, r.choice([0, 0, 1, 2]), 'sub'))
        if self.c.padding and r.random() < .3:
            fields.append(('uint8_t', r.randint(1, 4), '_padding0'))
        self.formats[name] = fields
        return name

    def topic_format(self, name):
        r = self.r
        used = {'timestamp'}
        fields = [self.scalar_field(used) for _ in range(r.randint(self.c.min_fields, self.c.max_fields) - 1)]
        if self.c.nesting and r.random() < .35:
            for k in range(r.randint(1, 2)):
                inner = self.nested_format(r.randint(1, 6 if self.c.extreme else 3)) if r.random() < .8 or not any(
                    f.startswith('nested') for f in self.formats) else r.choice(
                        [f for f in self.formats if f.startswith('nested')])
                fields.insert(r.randrange(len(fields) + 1), (inner, r.choice([0, 0, 1, 2, 3]), f'nest{k}'))
        pos = r.randrange(len(fields) + 1) if self.c.ts_anywhere and r.random() < .5 else 0
        fields.insert(pos, ('uint64_t', 0, 'timestamp'))
        if self.c.padding:
            if r.random() < .15:
                fields.insert(r.randrange(len(fields) + 1), ('uint8_t', r.choice([0, 1, 3]), '_padding_mid'))
            if r.random() < .4:
                fields.append(('uint8_t', r.randint(1, 7), '_padding0'))
                if r.random() < .2:
                    fields.append((r.choice(['uint8_t', 'uint16_t']), r.choice([0, 2]), '_padding1'))
        self.formats[name] = fields
        return fields

    def make_topics(self):
        r = self.r
        names = r.sample(TOPICS, r.randint(*self.c.topics))
        if self.c.name_variants and len(names) > 1 and r.random() < .2:
            variant = r.choice([str.upper, str.capitalize, lambda n: n.replace('_', 'x', 1), lambda n: n + '_',
                                lambda n: n[:-1] + '_'])(names[0])
            if variant not in names:
                names[1] = variant
        ids = set()
        for name in names:
            self.topic_format(name)
            multis = sorted(set(r.choice(self.c.multi_ids) for _ in range(r.choice([1, 1, 1, 2, 3]))))
            for m in multis:
                while True:
                    mid = r.choice([len(ids), len(ids), r.randrange(65536), 65535])
                    if mid not in ids:
                        break
                ids.add(mid)
                t = Topic(name, m, mid, uf.flatten(name, self.formats))
                t.pad_mode = r.choice([0, 0, 1, 2])
                self.topics.append(t)
        if self.huge_kind == 'instances':
            self.formats['crowd'] = [('uint64_t', 0, 'timestamp'), ('int16_t', 0, 'value')]
            for m in r.sample(range(256), r.choice([100, 200, 256])):
                mid = next(k for k in iter(lambda: r.randrange(65536), None) if k not in ids)
                ids.add(mid)
                self.topics.append(Topic('crowd', m, mid, uf.flatten('crowd', self.formats)))
        elif self.huge_kind == 'fields':
            wide = [('uint64_t', 0, 'timestamp')] + [(r.choice(self.c.field_types), 0, f'a_rather_long_name_of_field_{k}')
                                                     for k in range(r.choice([150, 300, 400]))]
            self.formats['wide'] = wide
            mid = next(k for k in iter(lambda: r.randrange(65536), None) if k not in ids)
            self.topics.append(Topic('wide', 0, mid, uf.flatten('wide', self.formats)))
        r.shuffle(self.topics)

    def format_records(self):
        """All formats, in an order where use may precede definition."""
        recs = [('F', n, f) for n, f in self.formats.items()]
        if self.c.unlogged_formats and self.r.random() < .3:
            recs.append(('F', 'unused_topic', [('uint64_t', 0, 'timestamp'), ('float', 3, 'v')]))
        self.r.shuffle(recs)
        return recs

    # ------------------------------------------------------------ records

    def sample(self, t, ts):
        """D record of a topic at time ts."""
        r = self.r
        out = bytearray()
        for fname, typ in t.ds.fields:
            out += struct.pack('<Q', ts) if fname == 'timestamp' else self.raw_value(typ)
        extra = t.ds.max_size - t.ds.size
        if extra and t.pad_mode:
            n = extra if t.pad_mode == 1 else r.randint(0, extra)
            out += bytes(r.randrange(256) for _ in range(n))
        return ('D', t.msg_id, bytes(out))

    def _typed(self, typ):
        """-> (type, raw) for a type, or an array family like 'char['."""
        r = self.r
        if typ == 'char[':
            raw = self.text_bytes()
            return f'char[{len(raw)}]', raw
        if typ.endswith('['):
            base = typ[:-1]
            n = r.randint(1, 6) if r.random() < .95 else r.choice([64, 255, 256, 300])
            return f'{base}[{n}]', b''.join(self.raw_value(base) for _ in range(n))
        raw = self.raw_value(typ)
        if typ == 'uint64_t' and struct.unpack('<Q', raw)[0] >= self.c.info_int_limit:
            raw = struct.pack('<Q', r.getrandbits(62))
        if typ in ('float', 'double') and (self.c.nan != 'bits' or not self.c.info_nan):
            raw = struct.pack('<f' if typ == 'float' else '<d', r.uniform(-9, 9))
        return typ, raw

    def odd_key(self, kind):
        r = self.r
        if not self.c.odd_keys or r.random() < .5:
            return kind
        return kind + r.choice(['_µ', '_größe', '_漢字', '😀', '_' + 'long' * r.choice([10, 30, 50])])

    def info(self):
        r = self.r
        key = r.choice(['sys_name', 'ver_hw', 'ver_sw', 'ver_sw_release', 'sys_uuid', 'k' + str(r.randrange(6)),
                        'perf_x', 'replay', 'perf', 'performance', 'Sys_Name', 'time_ref_utc', 'my_perf_x', self.odd_key('info')])
        typ = 'uint32_t' if key == 'ver_sw_release' else r.choice(self.c.info_types)
        typ, raw = self._typed(typ)
        return ('I', typ, key, raw)

    def multi(self):
        r = self.r
        key = r.choice(['boot_console_output', 'perf_top_preflight', 'm0', 'm1', 'perf_counter_postflight',
                        self.odd_key('multi')])
        family = self.c.multi_types[sum(map(ord, key)) % len(self.c.multi_types)]
        typ, raw = self._typed(family)
        return ('M', r.randrange(2), typ, key, raw)

    def param(self, default=False):
        r = self.r
        typ = r.choice(self.c.param_types)
        raw = self.raw_value(typ)
        if typ in ('float', 'double'):
            v = struct.unpack('<' + uf.BASIC[typ][1], raw)[0]
            if v != v and not self.c.param_nan:
                raw = struct.pack('<' + uf.BASIC[typ][1], 2.25)
        key = r.choice(['MAV_TYPE', 'SYS_MC_EST_GROUP', 'RC_MAP_ROLL', 'A', 'P' + str(r.randrange(12)), 'MC_ROLL_P', 'mc_roll_p', 'a',
                        self.odd_key('param')])
        if default:
            return ('Q', r.choice([1, 2, 3]) if r.random() < .93 else r.randrange(1, 256), typ, key, raw)
        return ('P', typ, key, raw)

    def unknown_record(self):
        r = self.r
        known = b'BFDIMPQARSOLC'
        while True:
            k = r.choice([ord('R'), ord('Z'), 1, 255, r.randrange(1, 256)])
            if k == ord('R') or k not in known:
                break
        n = r.choice([1, 2, 3, 10, r.randint(1, 60), r.randint(1, 600), 10000 if r.random() < .02 else 5])
        body = bytes(r.choice([0, 1, 2, 255, ord('D'), ord('A')]) if r.random() < .5 else r.randrange(256)
                     for _ in range(n))
        if uf.SYNC in body:
            body = bytes(n)
        return ('?', k, body)

    def pick_time_mode(self):
        m = self.c.time
        return self.r.choice(['topic', 'global', 'any', 'any']) if m == 'mixed' else m

    def begin_time(self):
        r = self.r
        lim = self.c.ts_limit
        self.start = r.choice([0, 1, 100, 112500176, r.randrange(1 << 32), lim - 1 if r.random() < .1 else 5,
                               r.randrange(lim) if r.random() < .2 else 1000000])
        self.clock = self.start
        self.time_mode = self.pick_time_mode()

    def next_time(self, t):
        """A sample time for topic t under the chosen time discipline."""
        r = self.r
        lim = self.c.ts_limit - 1
        if self.time_mode == 'any':
            k = r.random()
            if k < .15:
                v = r.choice([0, 1, lim, lim - 1, lim // 2, self.start, max(0, self.start - 1)])
            elif k < .7:
                v = max(0, min(lim, self.clock + r.randint(-50, 200)))
            else:
                v = r.randrange(lim + 1)
            self.clock = min(max(self.clock, v), lim) if v < 1 << 40 else self.clock
            return v
        step = r.choice([0, 1, 1, 10, 1000, 250000]) if not self.c.strict_time else r.choice([1, 2, 10, 1000, 250000])
        if self.time_mode == 'global':
            self.clock = min(lim, self.clock + step)
            v = self.clock
            if self.c.strict_time and t.last is not None and v <= t.last:
                v = min(lim, t.last + 1)
                self.clock = v
        else:
            v = (self.clock + r.randint(0, 500) if t.last is None else t.last + step)
            v = min(lim, v)
        t.last = v
        return v

    def message_time(self):
        """Time of a logged message."""
        r = self.r
        lim = self.c.ts_limit - 1
        if self.time_mode in ('topic', 'global'):
            self.mclock = min(lim, max(getattr(self, 'mclock', 0), self.start) + r.choice([0, 1, 5, 3000]))
            return self.mclock
        return r.choice([0, lim, r.randrange(lim + 1), min(lim, self.clock)])

    def log_record(self):
        r = self.r
        level = r.choice([ord('0') + r.randrange(8), ord('6'), r.randrange(256)])
        if self.c.tagged and (not self.c.logs or r.random() < .4):
            return ('C', level, r.choice([0, 1, 1, 5, 65535]), self.message_time(), self.text_bytes(50))
        return ('L', level, self.message_time(), self.text_bytes(50))

    # ------------------------------------------------------------ whole log

    def flags_record(self, offsets=(0, 0, 0), appended=0):
        r = self.r
        compat = [r.randrange(2)] + [0] * 7
        if self.c.extra_flags or r.random() < .1:
            compat = [r.randrange(256) if r.random() < .5 else 0 for _ in range(8)]
        return ('B', compat, [appended] + [0] * 7, list(offsets))

    def definitions(self):
        r = self.r
        recs = []
        body = self.format_records()
        extra = [self.info() for _ in range(r.randrange(8))] + [self.multi() for _ in range(r.choice([0, 0, 2, 6]))]
        if self.c.params:
            extra += [self.param() for _ in range(r.randrange(10))]
            extra += [self.param(default=True) for _ in range(r.choice([0, 0, 2, 5]))]
        if self.c.unknown:
            extra += [self.unknown_record() for _ in range(r.randrange(4))]
        for e in extra:
            body.insert(r.randrange(len(body) + 1), e)
        return recs + body

    def data_record(self, active):
        """One random record of the data section (active: topics subscribed)."""
        r = self.r
        c = self.c
        choices = []
        if c.logs or c.tagged:
            choices += ['log', 'log']
        if c.params:
            choices += ['param', 'param']
        if c.dropouts:
            choices += ['dropout', 'dropout']
        if c.meta_in_data:
            choices += ['info', 'multi', 'default'] if c.params else ['info', 'multi']
        if c.syncs:
            choices += ['sync', 'sync']
        if c.unknown:
            choices += ['unknown'] * 3
        if active and (not choices or r.random() < .72):
            t = r.choice(active)
            return self.sample(t, self.next_time(t))
        if not choices:
            return None
        k = r.choice(choices)
        if k == 'log':
            return self.log_record()
        if k == 'param':
            return self.param()
        if k == 'dropout':
            return ('O', r.choice([0, 1, 20, 65535, r.randrange(500)]))
        if k == 'info':
            return self.info()
        if k == 'multi':
            return self.multi()
        if k == 'default':
            return self.param(default=True)
        if k == 'sync':
            return ('S',)
        return self.unknown_record()

    def data_section(self, count):
        r = self.r
        recs = []
        pending = list(self.topics)
        active = []
        if r.random() < .12 and (self.c.logs or self.c.tagged):
            # the data section does not have to start with a subscription
            recs.append(self.log_record())
            kinds = (['info', 'multi'] if self.c.meta_in_data else []) + (['param'] if self.c.params else [])
            for _ in range(r.randrange(4) if kinds else 0):
                recs.append(getattr(self, r.choice(kinds))())
        late = self.c.late_subs and r.random() < .5
        if not late:
            for t in pending:
                recs.append(('A', t.multi, t.msg_id, t.name))
            active, pending = pending, []
        elif pending:
            t = pending.pop()
            recs.append(('A', t.multi, t.msg_id, t.name))
            active.append(t)
        for _ in range(count):
            if pending and r.random() < .15:
                t = pending.pop()
                recs.append(('A', t.multi, t.msg_id, t.name))
                active.append(t)
            rec = self.data_record(active)
            if rec is not None:
                recs.append(rec)
        if recs and r.random() < self.c.bulk:
            recs += self.bulk_records()
        if recs and self.huge_kind == 'record':
            new = self.huge_records()
            # messages may have to be in time order
            at = r.randint(1, len(recs)) if new and new[0][0] in 'IM' else len(recs)
            recs[at:at] = new
        if self.c.removal and active and r.random() < .2:
            recs.append(('R', r.choice(active).msg_id))
        return recs

    def bulk_records(self):
        """Many records of one kind."""
        r = self.r
        kinds = ['info', 'multi'] if self.c.meta_in_data else []
        kinds += ['log'] * (self.c.logs or self.c.tagged) + ['dropout'] * self.c.dropouts + ['param'] * self.c.params
        if not kinds:
            return []
        kind = r.choice(kinds)
        key = self.param()[1:3] if kind == 'param' and r.random() < .5 else None
        out = []
        for _ in range(r.choice([70, 130, 260, 300])):
            if kind == 'dropout':
                out.append(('O', r.randrange(1000)))
            elif kind == 'log':
                out.append(self.log_record())
            elif key is not None:
                raw = struct.pack('<f', r.uniform(-9, 9)) if key[0] == 'float' else self.param()[3]
                out.append(('P', *key, raw) if len(raw) == uf.BASIC[key[0]][0] else self.param())
            else:
                out.append(getattr(self, kind)())
        return out

    def huge_records(self):
        """One record of (nearly) the largest size."""
        r = self.r
        n = r.choice([8192, 10001, 16384, 20000, 32767, 32768, 40000, 65000])
        text = (self.text_bytes(60) + b'0123456789 text') * (n // 15 + 1)
        text = text[:n].decode(errors='ignore').encode() if self.c.text != 'invalid' else text[:n]
        kinds = ['info', 'multi'] if self.c.meta_in_data else []
        kinds += ['log'] if self.c.logs else []
        kinds += ['tagged'] if self.c.tagged else []
        if not kinds:
            return []
        kind = r.choice(kinds)
        if kind == 'info':
            return [('I', f'char[{len(text)}]', 'huge', text)]
        if kind == 'multi':
            return [('M', k, f'char[{len(text)}]', 'huge_multi', text) for k in range(r.choice([1, 1, 2]))]
        level = ord('0') + r.randrange(8)
        if kind == 'log':
            return [('L', level, self.message_time(), text)]
        return [('C', level, 3, self.message_time(), text)]

    def log(self):
        r = self.r
        self.huge_kind = r.choice(['record', 'record', 'instances', 'fields']) if r.random() < self.c.huge else None
        self.begin_time()
        self.make_topics()
        log = uf.Log(self.start, r.choice(self.c.version))
        if self.c.flags == 'yes' or (self.c.flags == 'maybe' and r.random() < .8):
            log.records.append(self.flags_record())
        log.records += self.definitions()
        log.records += self.data_section(r.randint(*self.c.samples))
        return log


def make(rng, **kw):
    """A random log of a profile."""
    return Gen(rng, Cfg(**kw)).log()


def many(rng, samples=66000, changes=1500, messages=1500, topics=150, fields=300, step=1000):
    """
    A log with more of everything than any counter of 16 bits, list limit or page of a few hundred entries holds:
    samples of one topic, topics, instances, fields, parameters, changes, messages, information and parts of it.
    All times are different and in order.
    """
    records = [('B', b'\1' + bytes(7), bytes(8), (0, 0, 0), b''),
               ('F', 'many', [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'x')]),
               ('F', 'wide', [('uint64_t', 0, 'timestamp')] + [('int8_t', 0, f'field_{k:04}') for k in range(fields)] +
                [('int16_t', fields, 'array'), ('uint8_t', 700, 'bytes'), ('char', 300, 'letters')])]
    records += [('F', f'topic_{k:04}', [('uint64_t', 0, 'timestamp'), ('float', 0, 'v')]) for k in range(topics)]
    records += [('F', f'unused_{k:04}', [('uint64_t', 0, 'timestamp'), ('int8_t', k, 'v')]) for k in range(300)]
    records += [('I', 'int32_t', f'info_{k:04}', struct.pack('<i', k)) for k in range(300)]
    records.append(('I', 'char[3000]', 'long', b'text ' * 600))
    records += [('M', int(k % 6 > 0 if k < 900 else k > 900), 'char[4]', 'parts', b'%04d' % k) for k in range(1300)]
    records += [('P', 'int32_t', f'PARAM_{k:04}', struct.pack('<i', k)) for k in range(1200)]
    records += [('Q', 1 + k % 2, 'int32_t', f'PARAM_{k:04}', struct.pack('<i', 5 * k)) for k in range(600)]
    records += [('A', 0, 0, 'many'), ('A', 1, 1, 'many'), ('A', 0, 2, 'wide')]
    records += [('A', 0, 3 + k, f'topic_{k:04}') for k in range(topics)]
    records += [('A', k, 2 + topics + k, 'topic_0000') for k in range(1, 140)]
    what = ['D'] * samples + ['P'] * changes + ['L', 'C', 'O'] * (messages // 2) + ['W'] * 150
    what += [3 + k for k in range(topics + 139)] * 2 + [1] * 20
    rng.shuffle(what)
    for k, w in enumerate(what):
        t = struct.pack('<Q', (k + 1) * step)
        if w == 'D':
            records.append(('D', 0, t + rng.randbytes(1)))
        elif w == 'P':
            records.append(('P', 'int32_t', f'PARAM_{rng.choice([0, 0, 0, k % 1200]):04}', struct.pack('<i', k)))
        elif w == 'L':
            records.append(('L', ord('3') + k % 5, (k + 1) * step, b'message %d' % k))
        elif w == 'C':
            records.append(('C', ord('3') + k % 5, k % 300 if k % 3 else 7, (k + 1) * step, b'tagged %d' % k))
        elif w == 'O':
            records.append(('O', k * 7 % 65536))
        elif w == 'W':
            records.append(('D', 2, t + rng.randbytes(3 * fields + 1000)))
        elif w == 1:
            records.append(('D', 1, t + rng.randbytes(1)))
        else:
            records.append(('D', w, t + struct.pack('<f', rng.choice([0., 1.5, -k, k / 7]))))
    return uf.Log(step, 1, records)


def torn(rng, gen):
    """A record cut off somewhere, as raw bytes."""
    while True:
        rec = gen.data_record(gen.topics)
        if rec is not None and rec[0] != 'S':
            break
    full = uf.encode_record(rec)
    return ('X', full[:rng.choice([1, 2, 3, rng.randrange(1, len(full))])])


def fix_offsets(log, starts):
    """Write the offsets of the sections that start at these record indices into the flags record."""
    assert log.records[0][0] == 'B'
    _, spans = uf.encode_with_offsets(log)
    end = spans[-1][1]
    offsets = [spans[i][0] if i < len(spans) else end for i in starts]
    flags = log.records[0]
    log.records[0] = ('B', flags[1], [1] + list(flags[2][1:]), offsets + [0] * (3 - len(offsets)))
    return log


def make_appended(rng, p_torn=.6, **kw):
    """
    A log with one to three appended sections. -> (log, indices of the records that start them)
    ('X', ...) records are the incomplete ones at the end of interrupted sections.
    """
    g = Gen(rng, Cfg(flags='yes', **kw))
    log = g.log()
    if rng.random() < .06:      # interrupted before the data section
        first = next((k for k, x in enumerate(log.records) if x[0] in 'ALC'), len(log.records))
        del log.records[first:]
    elif not any(x[0] in 'ALC' for x in log.records):
        log.records.append(('L', ord('6'), g.message_time(), b'start'))
    starts = []
    subscribed = {x[2] for x in log.records if x[0] == 'A'}
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < p_torn:
            log.records.append(torn(rng, g))
        starts.append(len(log.records))
        for _ in range(rng.choice([0, 1, rng.randrange(4), rng.randrange(25)])):
            if g.topics and rng.random() < .25:
                t = rng.choice(g.topics)        # new or renewed subscription
                subscribed.add(t.msg_id)
                log.records.append(('A', t.multi, t.msg_id, t.name))
                continue
            rec = g.data_record([t for t in g.topics if t.msg_id in subscribed])
            if rec is not None:
                log.records.append(rec)
    return fix_offsets(log, starts), starts


def describe(log, limit=12):
    """Compact text form of a log, for evidence samples."""
    kinds = {}
    for rec in log.records:
        kinds[rec[0]] = kinds.get(rec[0], 0) + 1
    head = ' '.join(f'{k}x{n}' for k, n in sorted(kinds.items()))
    first = [repr(r)[:70] for r in log.records if r[0] in 'AD'][:limit]
    return f'start={log.start} records[{head}] first: ' + ' '.join(first)[:400]
