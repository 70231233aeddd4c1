"""
Independent model of the ULog format: records, encoder, reader, interpreter.

Nothing here imports or mirrors pyulog code; it is written from the format description.
A log is (header: version, start_timestamp) + a list of records. A record is a plain tuple
whose first element is its kind:

  ('B', compat[8], incompat[8], offsets[3])     flags
  ('F', name, [(type, array_size, field), ...]) format   (array_size 0: scalar)
  ('I', type, key, raw)                         information
  ('M', continued, type, key, raw)              multi-part information
  ('P', type, key, raw)                         parameter
  ('Q', bits, type, key, raw)                   default parameter
  ('A', multi_id, msg_id, name)                 subscription
  ('R', msg_id)                                 removal of a subscription
  ('D', msg_id, raw)                            sample
  ('L', level, timestamp, raw_text)             logged message
  ('C', level, tag, timestamp, raw_text)        tagged logged message
  ('O', duration)                               dropout
  ('S',)                                        sync
  ('?', type_byte, raw)                         anything else
  ('X', raw)                                    raw bytes that are no record (damage)
"""
import struct

MAGIC = bytes([0x55, 0x4c, 0x6f, 0x67, 0x01, 0x12, 0x35])
SYNC = bytes([0x2F, 0x73, 0x13, 0x20, 0x25, 0x0C, 0xBB, 0x12])
HEADER_LEN = 16

#: type -> (size, struct code, numpy kind in the loaded arrays)
BASIC = {
    'int8_t': (1, 'b', 'i'), 'uint8_t': (1, 'B', 'u'),
    'int16_t': (2, 'h', 'i'), 'uint16_t': (2, 'H', 'u'),
    'int32_t': (4, 'i', 'i'), 'uint32_t': (4, 'I', 'u'),
    'int64_t': (8, 'q', 'i'), 'uint64_t': (8, 'Q', 'u'),
    'float': (4, 'f', 'f'), 'double': (8, 'd', 'f'),
    'bool': (1, '?', 'i'), 'char': (1, 'c', 'i'),
}


class FormatError(Exception):
    """The bytes are not a well-formed ULog file."""


class Log:
    """Header plus records."""

    def __init__(self, start=0, version=1, records=None):
        self.start = start
        self.version = version
        self.records = list(records or [])

    def copy(self):
        return Log(self.start, self.version, list(self.records))


# ---------------------------------------------------------------- encoding

def _keyval(typ, key, raw):
    k = (typ + ' ' + key).encode('utf-8')
    assert len(k) < 256
    return bytes([len(k)]) + k + raw


def format_text(name, fields):
    out = name + ':'
    for typ, size, field in fields:
        out += (f'{typ}[{size}] {field};' if size else f'{typ} {field};')
    return out


def payload(rec):
    kind = rec[0]
    if kind == 'B':
        return bytes(rec[1]) + bytes(rec[2]) + struct.pack('<3Q', *rec[3])
    if kind == 'F':
        return format_text(rec[1], rec[2]).encode('utf-8')
    if kind == 'I':
        return _keyval(rec[1], rec[2], rec[3])
    if kind == 'M':
        return bytes([rec[1]]) + _keyval(rec[2], rec[3], rec[4])
    if kind == 'P':
        return _keyval(rec[1], rec[2], rec[3])
    if kind == 'Q':
        return bytes([rec[1]]) + _keyval(rec[2], rec[3], rec[4])
    if kind == 'A':
        return struct.pack('<BH', rec[1], rec[2]) + rec[3].encode('utf-8')
    if kind == 'R':
        return struct.pack('<H', rec[1])
    if kind == 'D':
        return struct.pack('<H', rec[1]) + rec[2]
    if kind == 'L':
        return struct.pack('<BQ', rec[1], rec[2]) + rec[3]
    if kind == 'C':
        return struct.pack('<BHQ', rec[1], rec[2], rec[3]) + rec[4]
    if kind == 'O':
        return struct.pack('<H', rec[1])
    if kind == 'S':
        return SYNC
    if kind == '?':
        return rec[2]
    raise AssertionError(kind)


def encode_record(rec):
    if rec[0] == 'X':
        return rec[1]
    body = payload(rec)
    assert len(body) < 65536, 'record too long'
    kind = rec[1] if rec[0] == '?' else ord(rec[0])
    return struct.pack('<HB', len(body), kind) + body


def encode_header(log):
    return MAGIC + bytes([log.version]) + struct.pack('<Q', log.start)


def encode(log):
    return encode_header(log) + b''.join(encode_record(r) for r in log.records)


def encode_with_offsets(log):
    """-> (bytes, [(start, end) per record])"""
    out = bytearray(encode_header(log))
    spans = []
    for rec in log.records:
        start = len(out)
        out += encode_record(rec)
        spans.append((start, len(out)))
    return bytes(out), spans


# ---------------------------------------------------------------- reading (well-formed files only)

def _split_key(body, errors='strict'):
    if not body:
        raise FormatError('empty key/value record')
    klen = body[0]
    if len(body) < 1 + klen:
        raise FormatError('key longer than the record')
    key = body[1:1 + klen].decode('utf-8', errors)
    parts = key.split(' ')
    if len(parts) != 2:
        raise FormatError(f'bad key {key!r}')
    return parts[0], parts[1], body[1 + klen:]


def type_size(typ):
    """bytes of a value of a basic type or an array of one, None for other types"""
    name, _, rest = typ.partition('[')
    if name not in BASIC:
        return None
    return BASIC[name][0] * (int(rest.rstrip(']')) if rest else 1)


def parse_format(text):
    name, _, rest = text.partition(':')
    fields = []
    for item in rest.split(';'):
        if not item:
            continue
        typ, _, field = item.partition(' ')
        size = 0
        if typ.endswith(']'):
            typ, _, num = typ[:-1].partition('[')
            size = int(num)
        fields.append((typ, size, field))
    return name, fields


def parse_record(kind_byte, body, errors='strict'):
    """errors: what to do with names that are not UTF-8 (possible in damaged records only)"""
    kind = chr(kind_byte)
    try:
        if kind == 'B':
            return ('B', list(body[0:8]), list(body[8:16]), list(struct.unpack('<3Q', body[16:40])))
        if kind == 'F':
            return ('F',) + parse_format(body.decode('utf-8'))
        if kind == 'I':
            return ('I',) + _split_key(body, errors)
        if kind == 'M':
            return ('M', body[0]) + _split_key(body[1:], errors)
        if kind == 'P':
            return ('P',) + _split_key(body, errors)
        if kind == 'Q':
            return ('Q', body[0]) + _split_key(body[1:], errors)
        if kind == 'A':
            multi, mid = struct.unpack('<BH', body[:3])
            return ('A', multi, mid, body[3:].decode('utf-8'))
        if kind == 'R':
            return ('R', struct.unpack('<H', body)[0])
        if kind == 'D':
            return ('D', struct.unpack('<H', body[:2])[0], body[2:])
        if kind == 'L':
            return ('L',) + struct.unpack('<BQ', body[:9]) + (body[9:],)
        if kind == 'C':
            return ('C',) + struct.unpack('<BHQ', body[:11]) + (body[11:],)
        if kind == 'O':
            return ('O', struct.unpack('<H', body)[0])
        if kind == 'S':
            if body != SYNC:
                raise FormatError('bad sync record')
            return ('S',)
    except (struct.error, UnicodeDecodeError, ValueError, IndexError) as exc:
        raise FormatError(f'bad {kind} record: {exc}') from exc
    return ('?', kind_byte, body)


def decode(data, strict=True):
    """Read a well-formed file (appended sections supported) -> (Log, spans)."""
    if len(data) < HEADER_LEN or data[:7] != MAGIC:
        raise FormatError('bad file header')
    log = Log(struct.unpack('<Q', data[8:16])[0], data[7])
    spans = []
    pos = HEADER_LEN
    offsets = []
    while pos < len(data):
        limit = offsets[0] if offsets else len(data)
        if pos + 3 > limit:
            torn = True
        else:
            size, kind = struct.unpack('<HB', data[pos:pos + 3])
            torn = pos + 3 + size > limit
        if torn:
            if offsets:         # record torn by an appended section
                pos = offsets.pop(0)
                continue
            if strict:
                raise FormatError(f'record torn at offset {pos}')
            break
        rec = parse_record(kind, data[pos + 3:pos + 3 + size])
        if rec[0] == 'B':
            if pos != HEADER_LEN:
                raise FormatError('flags record is not the first one')
            if rec[2][0] & 1:
                offsets = [o for o in rec[3] if o]
        log.records.append(rec)
        spans.append((pos, pos + 3 + size))
        pos += 3 + size
        if offsets and pos == offsets[0]:
            offsets.pop(0)
    return log, spans


# ---------------------------------------------------------------- interpretation

def flatten(name, formats, prefix='', depth=0):
    """[(flat field name, basic type)] of a format, nested formats expanded in place."""
    if depth > 20:
        raise FormatError('formats nested too deeply')
    if name not in formats:
        raise FormatError(f'format {name!r} is not defined')
    out = []
    for typ, size, field in formats[name]:
        indices = [''] if size == 0 else [f'[{i}]' for i in range(size)]
        for idx in indices:
            if typ in BASIC:
                out.append((prefix + field + idx, typ))
            else:
                out += flatten(typ, formats, prefix + field + idx + '.', depth + 1)
    return out


def trim_padding(fields):
    n = len(fields)
    while n and fields[n - 1][0].startswith('_padding'):
        n -= 1
    return fields[:n]


def fields_size(fields):
    return sum(BASIC[t][0] for _, t in fields)


def decode_value(typ, raw, errors):
    """Value of an information/parameter record, in canonical form."""
    if typ.startswith('char['):
        return ('s', raw.decode('utf-8', errors))
    if typ in BASIC:
        return canon(struct.unpack('<' + BASIC[typ][1], raw)[0])
    return ('b', bytes(raw))


def canon(value):
    """Canonical, exactly comparable form of a scalar value (bool counts as int)."""
    if isinstance(value, str):
        return ('s', value)
    if isinstance(value, (bytes, bytearray)):
        return ('b', bytes(value))
    if value is None:
        return ('none',)
    if isinstance(value, bool):
        return ('i', int(value))
    if isinstance(value, int):
        return ('i', value)
    if isinstance(value, float):
        return ('f', 'nan') if value != value else ('f', struct.pack('<d', value))
    if hasattr(value, 'dtype'):     # numpy scalar
        return canon(value.item())
    return ('other', type(value).__name__, repr(value))


class Expected:
    """What a log must report (canonical forms)."""

    def __init__(self):
        self.start = 0
        self.last = 0
        self.version = 1
        self.compat = [0] * 8
        self.incompat = [0] * 8
        self.offsets = []
        self.info = {}
        self.info_types = {}
        self.multi = {}
        self.multi_types = {}
        self.init = {}
        self.defaults = {i: {} for i in range(8)}
        self.changed = []           # (timestamp, key, value)
        self.formats = {}
        self.logs = []              # (level, timestamp, text)
        self.tagged = {}            # tag -> [(level, timestamp, text)]
        self.dropouts = []          # (timestamp, duration)
        self.datasets = {}          # (name, multi) -> Dataset
        self.subs = {}              # msg_id -> Dataset
        self.corrupt = False
        self.syncs = 0


class Dataset:
    def __init__(self, name, multi, msg_id, fields):
        self.name = name
        self.multi = multi
        self.msg_id = msg_id
        self.all_fields = fields
        self.fields = trim_padding(fields)
        self.size = fields_size(self.fields)
        self.max_size = fields_size(fields)
        self.rows = []              # raw bytes per sample, padding cut off
        self.offsets = {}
        pos = 0
        for fname, typ in self.fields:
            self.offsets[fname] = (pos, typ)
            pos += BASIC[typ][0]

    def timestamp(self, row):
        pos, typ = self.offsets['timestamp']
        return struct.unpack('<Q', row[pos:pos + 8])[0]

    def column(self, field):
        """Values of a field, as Python values (char/bool as small signed integers)."""
        pos, typ = self.offsets[field]
        size, code, _ = BASIC[typ]
        if code in 'c?':
            code = 'b'
        unpack = struct.Struct('<' + code).unpack
        return [unpack(r[pos:pos + size])[0] for r in self.rows]

    def column_bytes(self, field):
        pos, typ = self.offsets[field]
        size = BASIC[typ][0]
        return b''.join(r[pos:pos + size] for r in self.rows)

    def timestamps(self):
        return self.column('timestamp')


def appended_index(log):
    """Index of the record that starts the first appended section, if any: the definitions end before it."""
    if not log.records or log.records[0][0] != 'B' or not log.records[0][2][0] & 1 or not log.records[0][3][0]:
        return None
    _, spans = encode_with_offsets(log)
    return next((k for k, (start, _) in enumerate(spans) if start >= log.records[0][3][0]), None)


def interpret(log, errors='ignore', topics=None, header_only=False):
    """
    The reference interpreter: what a reader must report for this record history.
    topics: names to load (None: all). Unknown records and sync records have no effect.
    """
    exp = Expected()
    exp.start = exp.last = log.start
    exp.version = log.version
    in_data = False
    filtered = set()
    first_appended = appended_index(log)
    for index, rec in enumerate(log.records):
        kind = rec[0]
        if (kind in 'ALC' or index == first_appended) and not in_data:
            in_data = True
            if header_only:
                break
        if kind == 'B':
            exp.compat, exp.incompat = list(rec[1]), list(rec[2])
            exp.offsets = [o for o in rec[3]]
            while exp.offsets and exp.offsets[-1] == 0:
                exp.offsets.pop()
        elif kind == 'F':
            if not in_data:
                exp.formats[rec[1]] = list(rec[2])
        elif kind == 'I':
            exp.info[rec[2]] = decode_value(rec[1], rec[3], errors)
            exp.info_types[rec[2]] = rec[1]
        elif kind == 'M':
            val = decode_value(rec[2], rec[4], errors)
            if rec[3] not in exp.multi:
                exp.multi[rec[3]] = [[val]]
                exp.multi_types[rec[3]] = rec[2]
            elif rec[1]:
                exp.multi[rec[3]][-1].append(val)
            else:
                exp.multi[rec[3]].append([val])
        elif kind == 'P':
            val = decode_value(rec[1], rec[3], errors)
            if in_data:
                exp.changed.append((exp.last, rec[2], val))
            else:
                exp.init[rec[2]] = val
        elif kind == 'Q':
            val = decode_value(rec[2], rec[4], errors)
            for bit in range(8):
                if rec[1] & (1 << bit):
                    exp.defaults[bit][rec[3]] = val
        elif kind == 'A':
            if topics is not None and rec[3] not in topics:
                filtered.add(rec[2])
                continue
            key = (rec[3], rec[1])
            if rec[2] in exp.subs and (exp.subs[rec[2]].name, exp.subs[rec[2]].multi) == key:
                continue        # renewed subscription
            exp.subs[rec[2]] = Dataset(rec[3], rec[1], rec[2], flatten(rec[3], exp.formats))
        elif kind == 'D':
            if not in_data:
                continue
            if rec[1] not in exp.subs:
                if rec[1] not in filtered:
                    exp.corrupt = True
                continue
            ds = exp.subs[rec[1]]
            if not ds.size <= len(rec[2]) <= ds.max_size:
                exp.corrupt = True
                continue
            row = rec[2][:ds.size]
            if not ds.rows:
                exp.datasets[(ds.name, ds.multi)] = ds
            ds.rows.append(row)
            exp.last = max(exp.last, ds.timestamp(row))
        elif kind == 'L':
            exp.logs.append((rec[1], rec[2], rec[3].decode('utf-8', errors)))
        elif kind == 'C':
            exp.tagged.setdefault(rec[2], []).append((rec[1], rec[3], rec[4].decode('utf-8', errors)))
        elif kind == 'O':
            if in_data:
                exp.dropouts.append((exp.last, rec[1]))
        elif kind == 'S':
            if in_data:
                exp.syncs += 1
        elif kind == 'X':
            exp.corrupt = True
    return exp
