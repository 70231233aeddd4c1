"""C28: the ROS 2 bag contains every convertible message with its values."""
import copy
import importlib
import os
import re
import struct
import sys
import types

import numpy as np

from vlib import gen, tools, ulogfmt as uf
from vlib.harness import Check

LIMIT = 1 << 53

# topics whose message type has another name
ALIASES = {
    'actuator_controls_status_0': 'ActuatorControlsStatus', 'actuator_outputs_debug': 'ActuatorOutputs',
    'actuator_outputs_sim': 'ActuatorOutputs', 'config_overrides_request': 'ConfigOverrides',
    'estimator_aid_src_gnss_yaw': 'EstimatorAidSource1d', 'estimator_aid_src_baro_hgt': 'EstimatorAidSource1d',
    'estimator_aid_src_airspeed': 'EstimatorAidSource1d', 'estimator_aid_src_fake_hgt': 'EstimatorAidSource1d',
    'estimator_aid_src_drag': 'EstimatorAidSource2d', 'estimator_aid_src_gnss_pos': 'EstimatorAidSource2d',
    'estimator_aid_src_aux_vel': 'EstimatorAidSource2d', 'estimator_aid_src_gnss_vel': 'EstimatorAidSource3d',
    'estimator_aid_src_gravity': 'EstimatorAidSource3d', 'estimator_aid_src_mag': 'EstimatorAidSource3d',
    'estimator_ev_pos_bias': 'EstimatorBias3d', 'estimator_baro_bias': 'EstimatorBias',
    'estimator_gnss_hgt_bias': 'EstimatorBias', 'estimator_innovation_variances': 'EstimatorInnovations',
    'estimator_innovation_test_ratios': 'EstimatorInnovations', 'px4io_status': 'Px4ioStatus',
    'vehicle_gps_position': 'SensorGps', 'sensors_status_baro': 'SensorsStatus',
    'vehicle_angular_velocity_groundtruth': 'VehicleAngularVelocity', 'vehicle_attitude_groundtruth': 'VehicleAttitude',
    'external_ins_attitude': 'VehicleAttitude', 'mc_virtual_attitude_setpoint': 'VehicleAttitudeSetpoint',
    'gimbal_v1_command': 'VehicleCommand', 'estimator_global_position': 'VehicleGlobalPosition',
    'vehicle_global_position_groundtruth': 'VehicleGlobalPosition', 'aux_global_position': 'VehicleGlobalPosition',
    'estimator_local_position': 'VehicleLocalPosition', 'vehicle_local_position_groundtruth': 'VehicleLocalPosition',
    'vehicle_visual_odometry': 'VehicleOdometry', 'estimator_odometry': 'VehicleOdometry',
    'estimator_aid_src_ev_yaw': 'EstimatorAidSource1d', 'estimator_aid_src_sideslip': 'EstimatorAidSource1d',
    'estimator_aid_src_rng_hgt': 'EstimatorAidSource1d', 'estimator_aid_src_optical_flow': 'EstimatorAidSource2d',
    'estimator_aid_src_ev_pos': 'EstimatorAidSource2d', 'estimator_aid_src_aux_global_position': 'EstimatorAidSource2d',
    'estimator_aid_src_ev_vel': 'EstimatorAidSource3d', 'config_control_setpoints': 'VehicleControlMode',
    'vehicle_command_mode_executor': 'VehicleCommand', 'fw_virtual_attitude_setpoint': 'VehicleAttitudeSetpoint',
    'estimator_attitude': 'VehicleAttitude', 'vehicle_mocap_odometry': 'VehicleOdometry',
    'estimator_optical_flow_vel': 'VehicleOpticalFlowVel', 'vehicle_thrust_setpoint_virtual_fw': 'VehicleThrustSetpoint',
    'vehicle_torque_setpoint_virtual_mc': 'VehicleTorqueSetpoint', 'estimator_wind': 'Wind',
}
# topics with their own message type, beside a type for a family of topics
DECOYS = {'vehicle_command_ack': 'VehicleCommand', 'sensors_status_imu': 'SensorsStatus',
          'manual_control_setpoint': 'VehicleControlMode', 'gimbal_device_attitude_status': 'VehicleAttitude',
          'vehicle_control_mode': 'VehicleControl', 'rate_ctrl_status': 'ActuatorControlsStatus'}
# topics named almost like those of a family, which have no type
NEAR = {'vehicle_gps_position2': 'SensorGps', 'px4io_status_x': 'Px4ioStatus', 'estimator_aid_src_mag_heading': 'EstimatorAidSource3d',
        'estimator_wind_x': 'Wind', 'vehicle_attitude2': 'VehicleAttitude', 'actuator_controls_status_10': 'ActuatorControlsStatus',
        'vehicle_local_position_x': 'VehicleLocalPosition', 'my_global_position': 'VehicleGlobalPosition',
        'vehicle_optical_flow': 'VehicleOpticalFlowVel', 'my_estimator_baro_bias': 'EstimatorBias'}
ROS = {'int8_t': 'int8', 'uint8_t': 'uint8', 'int16_t': 'int16', 'uint16_t': 'uint16', 'int32_t': 'int32',
       'uint32_t': 'uint32', 'int64_t': 'int64', 'uint64_t': 'uint64', 'float': 'float', 'double': 'double',
       'bool': 'boolean', 'char': 'uint8'}
RANGES = {f'{u}int{b}': ((0, (1 << b) - 1) if u else (-(1 << b - 1), (1 << b - 1) - 1)) for u in ('', 'u')
          for b in (8, 16, 32, 64)}
DTYPES = {'float': np.float32, 'double': np.float64}


# ---------------------------------------------------------------- stand-ins for ROS 2

def check_scalar(base, value):
    """As the setters that ROS 2 generates."""
    if base == 'boolean':
        assert isinstance(value, bool), f'{value!r} of type {type(value)} for a boolean'
    elif base in DTYPES:
        assert isinstance(value, float), f'{value!r} of type {type(value)} for a {base}'
    else:
        assert isinstance(value, int) and not isinstance(value, np.generic), f'{value!r} of type {type(value)} for {base}'
        lo, hi = RANGES[base]
        assert lo <= value <= hi, f'{value!r} for {base}'


def message_type(type_name, fields):
    """fields: {name: (base, size or None)}"""

    class Message:
        @classmethod
        def get_fields_and_field_types(cls):
            return {n: base if size is None else f'{base}[{size}]' for n, (base, size) in fields.items()}

        def __init__(self):
            for n, (base, size) in fields.items():
                if size is None:
                    object.__setattr__(self, n, False if base == 'boolean' else 0.0 if base in DTYPES else 0)
                elif base == 'boolean':
                    object.__setattr__(self, n, [False] * size)
                else:
                    object.__setattr__(self, n, np.zeros(size, dtype=DTYPES.get(base, base)))

        def __setattr__(self, name, value):
            if name not in fields:
                raise AttributeError(name)
            base, size = fields[name]
            if size is None:
                check_scalar(base, value)
            else:
                assert len(value) == size
            object.__setattr__(self, name, value)

    Message.__name__ = Message.__qualname__ = type_name
    return Message


class Serialized:
    """What is left of a message once it is serialized."""

    def __init__(self, msg):
        self.type = type(msg).__name__
        self.fields = {n: copy.deepcopy(getattr(msg, n)) for n in msg.get_fields_and_field_types()}


class Bag:
    """Online monitor of the writer protocol."""
    current = None
    version = '0.26.5'

    def __init__(self):
        self.state = 'new'
        self.topics = {}
        self.messages = {}
        self.problems = []
        self.storage = None


def numbers(version):
    return tuple(int(x) for x in version.split('.'))


class SequentialWriter:
    def __init__(self):
        self.bag = Bag.current

    def open(self, storage_options, converter_options):
        if self.bag.state != 'new':
            self.bag.problems.append('opened twice')
        self.bag.state = 'open'
        self.bag.storage = storage_options
        if (converter_options.input_serialization_format, converter_options.output_serialization_format) != ('cdr', 'cdr'):
            self.bag.problems.append('serialization format')

    def create_topic(self, meta):
        if self.bag.state != 'open':
            self.bag.problems.append(f'topic created while {self.bag.state}')
        if meta.name in self.bag.topics:
            self.bag.problems.append(f'topic {meta.name} created twice')
        self.bag.topics[meta.name] = meta
        self.bag.messages.setdefault(meta.name, [])

    def write(self, *args):
        if len(args) != (4 if numbers(Bag.version) >= (0, 32) else 3):
            raise TypeError(f'write() of version {Bag.version} with {len(args)} arguments')
        topic, data, stamp = args[:3]
        if self.bag.state != 'open' or topic not in self.bag.topics:
            self.bag.problems.append(f'message of {topic} written while {self.bag.state}')
        assert isinstance(data, Serialized) and isinstance(stamp, int), type(stamp)
        self.bag.messages.setdefault(topic, []).append((data, stamp))

    def close(self):
        self.bag.state = 'closed'


class StorageOptions:
    def __init__(self, uri='', storage_id='', **kw):
        self.uri, self.storage_id, self.kw = uri, storage_id, kw


class ConverterOptions:
    def __init__(self, input_serialization_format='', output_serialization_format=''):
        self.input_serialization_format = input_serialization_format
        self.output_serialization_format = output_serialization_format


class TopicMetadata:
    def __init__(self, *args, **kw):
        names = ['name', 'type', 'serialization_format']
        if numbers(Bag.version) >= (0, 25):
            names.insert(0, 'id')
        values = dict(zip(names, args))
        if len(args) > len(names) or set(values) & set(kw) or set(values) | set(kw) != set(names):
            raise TypeError(f'TopicMetadata() of version {Bag.version} with {args} {kw}')
        values.update(kw)
        self.name, self.type, self.format = values['name'], values['type'], values['serialization_format']


def install():
    rclpy, ser = types.ModuleType('rclpy'), types.ModuleType('rclpy.serialization')
    ser.serialize_message = Serialized
    rclpy.serialization = ser
    bag = types.ModuleType('rosbag2_py')
    for cls in (SequentialWriter, StorageOptions, ConverterOptions, TopicMetadata):
        setattr(bag, cls.__name__, cls)
    px4, msg = types.ModuleType('px4_msgs'), types.ModuleType('px4_msgs.msg')
    px4.msg = msg
    px4.__path__ = []
    rclpy.__path__ = []
    sys.modules.update({'rclpy': rclpy, 'rclpy.serialization': ser, 'rosbag2_py': bag, 'px4_msgs': px4,
                        'px4_msgs.msg': msg})


def installed_version(folder, version):
    """The version as importlib.metadata finds it."""
    info = os.path.join(folder, f'rosbag2_py-{version}.dist-info')
    os.mkdir(info)
    with open(os.path.join(info, 'METADATA'), 'w', encoding='ascii') as f:
        f.write(f'Metadata-Version: 2.1\nName: rosbag2-py\nVersion: {version}\n')
    Bag.version = version


def setup(_work):
    install()


# ---------------------------------------------------------------- cases

def camel(topic):
    return ''.join(w.capitalize() for w in topic.split('_'))


def shapes(ds):
    """{field: [types], array?} of a flat dataset -> {name: (px4 type, size or None)}"""
    out = {}
    for name, typ in ds.fields:
        m = re.fullmatch(r'(.*)\[(\d+)\]', name)
        if m:
            out[m.group(1)] = (typ, int(m.group(2)) + 1)
        else:
            out[name] = (typ, None)
    return out


def fitting(r, ds):
    fields = {n: (ROS[t], size) for n, (t, size) in shapes(ds).items()}
    if r.random() < .3:
        fields['newer_field'] = ('float', r.choice([None, 3]))
    items = list(fields.items())
    if r.random() < .3:
        r.shuffle(items)
    return dict(items)


def unfitting(r, ds):
    """-> fields, what differs"""
    fields = fitting(r, ds)
    names = [n for n in shapes(ds)]
    arrays = [n for n in names if fields[n][1] is not None]
    kind = r.choice(['missing field', 'missing field', 'longer array', 'array for scalar', 'scalar for array', 'kind'])
    name = r.choice(names)
    if kind in ('longer array', 'array for scalar'):
        if not arrays:
            kind = 'missing field'
        else:
            name = r.choice(arrays)
    if kind == 'scalar for array':
        rest = [n for n in names if n not in arrays]
        if not rest:
            kind = 'missing field'
        else:
            name = r.choice(rest)
    base, size = fields[name]
    if kind == 'missing field':
        del fields[name]
    elif kind == 'longer array':
        if size == 1:
            del fields[name]
        else:
            fields[name] = (base, size - 1)
    elif kind == 'array for scalar':
        fields[name] = (base, None)
    elif kind == 'scalar for array':
        fields[name] = (base, 2)
    else:
        fields[name] = ('int32' if base in DTYPES else 'float', size)
    return fields, kind


def same_field(typ, value, got):
    """The logged value, with the type the message has for it."""
    if typ == 'bool':
        return isinstance(got, (bool, np.bool_)) and bool(got) == bool(value)
    if typ in ('float', 'double'):
        if value != value:
            return got != got
        return struct.pack('<d', float(got)) == struct.pack('<d', value)
    if typ == 'char':
        value &= 255
    return not isinstance(got, float) and int(got) == value


def check_messages(ctx, messages, ds, type_name, fields, what):
    times = ds.timestamps()
    ctx.expect(len(messages) == len(times), f'{what}: {len(messages)} messages instead of {len(times)}')
    ctx.expect([m[1] for m in messages] == [t * 1000 for t in times],
               lambda: f'{what}: times {[m[1] for m in messages][:8]} instead of {times[:8]} us')
    columns = {n: (t, ds.column(n)) for n, t in ds.fields}
    sizes = shapes(ds)
    for i, (msg, _) in enumerate(messages):
        ctx.expect(msg.type == type_name, f'{what}: message of type {msg.type} instead of {type_name}')
        for name, (base, size) in fields.items():
            got = msg.fields[name]
            if name not in sizes:
                continue
            if size is None:
                typ, col = columns[name]
                ctx.expect(same_field(typ, col[i], got), f'{what}, sample {i}: {name} = {got!r} instead of {col[i]!r} ({typ})')
                continue
            ctx.expect(len(got) == size, f'{what}: {name} has {len(got)} elements')
            for k in range(sizes[name][1]):
                typ, col = columns[f'{name}[{k}]']
                ctx.expect(same_field(typ, col[i], got[k]),
                           f'{what}, sample {i}: {name}[{k}] = {got[k]!r} instead of {col[i]!r} ({typ})')
                if base == 'boolean':
                    ctx.count('elements of boolean arrays compared')
        ctx.count('messages compared')


def collisions(keys):
    """Topic names that are the instances of another topic."""
    names = {}
    for name, multi in keys:
        names.setdefault(name, set()).add(multi)
    bag = [n if m == {0} else f'{n}_{i}' for n, m in names.items() for i in m]
    return len(bag) != len(set(bag))


def convert(folder, argv):
    module = importlib.import_module('pyulog.ulog2ros2bag')
    del module
    Bag.current = Bag()
    old = os.getcwd()
    sys.path.insert(0, folder)
    importlib.invalidate_caches()
    os.chdir(folder)
    try:
        out = tools.run_tool('ulog2ros2bag', *argv)
    finally:
        os.chdir(old)
        sys.path.remove(folder)
    return Bag.current, out


def case(ctx, log=None, convertible=False):
    r = ctx.rng
    log = log or gen.make(r, samples=(0, 50), topics=(1, 5), max_fields=6, ts_limit=LIMIT, nesting=r.random() < .4, name_variants=False,
                   bools=r.choice(['any', '01']))
    # some topics with a type of another name
    names = sorted({x[1] for x in log.records if x[0] == 'F'} - {'unused_topic'})
    topics = [n for n in names if not n.startswith('nested_')]
    used_types = {camel(n) for n in topics}
    mapping = {}
    for n in topics:
        x = r.random()
        if x < .1:
            topic = r.choice(sorted(DECOYS))
            if not {camel(topic), DECOYS[topic]} & used_types and topic not in mapping.values():
                mapping[n] = topic
                used_types |= {camel(topic), DECOYS[topic]}
        elif x < .2:
            topic = r.choice(sorted(NEAR))
            if not {camel(topic), NEAR[topic]} & used_types and topic not in mapping.values():
                mapping[n] = topic
                used_types |= {camel(topic), NEAR[topic]}
        elif x < .6:
            alias = r.choice(sorted(ALIASES))
            if ALIASES[alias] not in used_types and alias not in mapping.values():
                mapping[n] = alias
                used_types.add(ALIASES[alias])
    log = tools.rename_topics(log, mapping)
    exp = uf.interpret(log)
    if collisions(exp.datasets):
        return
    module = sys.modules['px4_msgs.msg']
    for attr in [a for a in vars(module) if a[0].isupper()]:
        delattr(module, attr)
    plan = {}
    for (name, _), ds in exp.datasets.items():
        if name in plan:
            continue
        tn = ALIASES.get(name, camel(name))
        if name in DECOYS:
            setattr(module, DECOYS[name], message_type(DECOYS[name], fitting(r, ds)))
        if name in NEAR:
            setattr(module, NEAR[name], message_type(NEAR[name], fitting(r, ds)))
            ctx.count('topics named almost like those of a family')
            plan[name] = ('unknown', tn, None)
            continue
        x = 1 if convertible else r.random()
        if any('.' in f for f, _ in ds.fields):
            plan[name] = ('nested', tn, None)
            if x < .7:
                setattr(module, tn, message_type(tn, fitting(r, uf.Dataset(name, 0, 0, [('timestamp', 'uint64_t')]))))
        elif x < .15 and name not in DECOYS:
            plan[name] = ('unknown', tn, None)
        elif x < .35:
            fields, kind = unfitting(r, ds)
            setattr(module, tn, message_type(tn, fields))
            plan[name] = ('mismatch: ' + kind, tn, None)
        else:
            fields = fitting(r, ds)
            setattr(module, tn, message_type(tn, fields))
            plan[name] = ('convertible', tn, fields)
    folder = ctx.dir()
    name = r.choice(['log.ulg', 'a.b.ulg', 'log', 'x.ulg.ulg', 'a.ulg.b'])
    path = tools.write(folder, name, log)
    version = r.choice(['0.15.9', '0.22.6', '0.24.9', '0.25.0', '0.26.5', '0.31.9', '0.32.0', '0.33.3', '0.3.9', '0.9.2',
                        '0.100.1', '1.0.0'])
    installed_version(folder, version)
    argv = [path, '-i']
    bag_name = None
    if r.random() < .5:
        bag_name = os.path.join(folder, 'bag')
        argv += [r.choice(['-o', '--output']), bag_name]
    mcap = r.random() < .3
    if mcap:
        argv.append('--mcap')
    if r.random() < .3:
        argv.append(r.choice(['-v', '--verbose']))
    chosen = sorted(plan)
    if plan and not convertible and r.random() < .4:
        chosen = r.sample(sorted(plan), r.randint(1, len(plan)))
        argv += [r.choice(['-m', '--messages']), ','.join(chosen + (['no_such_topic'] if r.random() < .3 else []))]
        ctx.count('selections')
    bag, out = convert(folder, argv)
    what = f'rosbag2_py {version}, {argv[1:]}'
    ctx.expect(not bag.problems, f'{what}: {bag.problems}')
    ctx.expect(bag.state == 'closed', f'{what}: the bag is {bag.state}')
    ctx.expect(bag.storage.uri == (bag_name or 'rosbag_' + name.removesuffix('.ulg')) and
               bag.storage.storage_id == ('mcap' if mcap else 'sqlite3'),
               f'{what}: stored at {bag.storage.uri} as {bag.storage.storage_id}')
    want = {}
    for (topic, multi), ds in exp.datasets.items():
        if topic not in chosen:
            continue
        kind, tn, fields = plan[topic]
        ctx.count(f'topics {kind}' + (' by an alias' if kind == 'convertible' and tn != camel(topic) else ''))
        if topic in DECOYS:
            ctx.count('topics with a type beside that of a family')
        if kind == 'convertible':
            alone = {m for n, m in exp.datasets if n == topic} == {0}
            want[f'/px4/{topic}' if alone else f'/px4/{topic}_{multi}'] = (ds, tn, fields)
            if not alone:
                ctx.count('topics with an instance in their name')
    ctx.expect(sorted(bag.topics) == sorted(want), f'{what}: topics {sorted(bag.topics)} instead of {sorted(want)}')
    for topic, (ds, tn, fields) in want.items():
        meta = bag.topics[topic]
        ctx.expect(meta.type == f'px4_msgs/msg/{tn}' and meta.format == 'cdr', f'{topic}: type {meta.type} {meta.format}')
        check_messages(ctx, bag.messages[topic], ds, tn, fields, topic)
    m = re.search(r'(\d+) topics and (\d+) messages', out)
    total = (len(want), sum(len(v) for v in bag.messages.values()))
    ctx.expect(m is not None and (int(m.group(1)), int(m.group(2))) == total, f'{what}: reported {m and m.group(0)} for {total}')
    ctx.count(f'bags written with version {version}')
    ctx.nontrivial(uf.encode(log), argv[1:], version)
    ctx.sample(f'{what}: {len(want)} topics of {len(exp.datasets)}, {total[1]} messages')


def probe_collision(ctx):
    """An instance of one topic, and another topic named like it."""
    fields = [('uint64_t', 0, 'timestamp'), ('float', 0, 'x')]
    log = gen.make(ctx.rng, topics=(0, 0), samples=(0, 0))
    for name, multi in (('actuator_outputs', 1), ('actuator_outputs_1', 0)):
        log = tools.add_topic(ctx.rng, log, name, multi, fields, [tools.pack(fields, {'timestamp': 1000000, 'x': 1.0})])
    setattr(sys.modules['px4_msgs.msg'], 'ActuatorOutputs',
            message_type('ActuatorOutputs', {'timestamp': ('uint64', None), 'x': ('float', None)}))
    folder = ctx.dir()
    installed_version(folder, '0.26.5')
    bag, _ = convert(folder, [tools.write(folder, 'log.ulg', log), '-i'])
    ctx.expect(len(bag.topics) == 2 and not bag.problems, f'topics {sorted(bag.topics)} for two topics, {bag.problems}')


CHECK = Check(
    'C28', case, quick=7500, thorough=60000, setup=setup, probes=[('topic-name-collision', probe_collision),
                                                                          ('many', lambda ctx: case(ctx, gen.many(ctx.rng), True))],
    rule='case = one conversion of a random log with random message types available, recorded by a stand-in for the bag '
         'writer that watches its protocol; distinct by file bytes, arguments and version',
    required=['topics convertible', 'topics named almost like those of a family', 'topics convertible by an alias', 'topics nested', 'topics unknown', 'topics with a type beside that of a family',
              'topics mismatch: missing field', 'topics mismatch: longer array', 'topics mismatch: array for scalar',
              'topics mismatch: scalar for array', 'topics mismatch: kind', 'topics with an instance in their name',
              'messages compared', 'elements of boolean arrays compared', 'selections'],
    assumptions=['stand-ins for rclpy, rosbag2_py and px4_msgs, which are not installed, with the assertions of generated '
                 'ROS 2 message classes', 'times below 2^53 us',
                 'integer fields of a message type are the ones of the topic'])
