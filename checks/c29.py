"""C29: roll, pitch and yaw describe the same rotation as the logged quaternion."""
import struct

import numpy as np

from vlib import dbkit, gen, tools, ulogfmt as uf
from vlib.harness import Check

TOPICS = {'vehicle_attitude': '', 'vehicle_vision_attitude': '', 'vehicle_attitude_groundtruth': '',
          'vehicle_attitude_setpoint': '_d'}


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def from_euler(r, p, y):
    cr, sr, cp, sp, cy, sy = (f(a / 2) for a in (r, p, y) for f in (np.cos, np.sin))
    return [cr * cp * cy + sr * sp * sy, sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy]


def quaternion(r):
    """A unit quaternion, as the four single precision numbers of a log."""
    k = r.random()
    if k < .35:
        q = [r.gauss(0, 1) for _ in range(4)]
    elif k < .75:       # at and near gimbal lock
        pitch = r.choice([1, -1]) * (np.pi / 2 - r.choice([0, 0, 1e-6, 1e-4, 3e-4, 6e-4, 1e-3, 1e-2, .1, r.uniform(0, .01)]))
        quarter = np.pi / 2
        q = from_euler(r.choice([0, 1, 2, -1, r.uniform(-2, 2), r.uniform(-2, 2)]) * quarter, pitch,
                       r.choice([0, 1, 2, -1, r.uniform(-2, 2), r.uniform(-2, 2)]) * quarter)
    elif k < .9:        # multiples of 90 degrees
        q = from_euler(*(r.choice([0, 1, 2, 3, -1]) * np.pi / 2 for _ in range(3)))
    else:
        q = [0, 0, 0, 0]
        q[r.randrange(4)] = 1
        if r.random() < .5:
            q = [r.choice([.5, -.5]) for _ in range(4)]
    n = sum(x * x for x in q) ** .5
    s = r.choice([1, -1])
    return [f32(s * x / n) for x in q]


def rotation_q(q):
    w, x, y, z = q / np.linalg.norm(q, axis=0)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def rotation_e(r, p, y):
    cr, sr, cp, sp, cy, sy = (f(a) for a in (r, p, y) for f in (np.cos, np.sin))
    return np.array([[cp * cy, sr * sp * cy - cr * sy, cr * sp * cy + sr * sy],
                     [cp * sy, sr * sp * sy + cr * cy, cr * sp * sy - sr * cy],
                     [-sp, sr * cp, cr * cp]])


def check_angles(ctx, ds, suffix, quats, what):
    angles = []
    for name in ('roll', 'pitch', 'yaw'):
        ctx.expect(name + suffix in ds.data, f'{what}: no {name + suffix}')
        a = np.asarray(ds.data[name + suffix])
        ctx.expect(a.shape == (len(quats),), f'{what}: {name} has shape {a.shape} for {len(quats)} samples')
        ctx.expect(a.dtype.kind == 'f' and bool(np.isfinite(a).all()), f'{what}: {name} is {a[~np.isfinite(a)][:4]}')
        limit = (np.pi / 2 if name == 'pitch' else np.pi) + 1e-6
        ctx.expect(bool((np.abs(a) <= limit).all()), f'{what}: {name} beyond the range: {a[np.abs(a) > limit][:4]}')
        angles.append(a.astype(np.float64))
    q = np.array(quats, dtype=np.float64).T
    want = rotation_q(q)
    error = np.abs(want - rotation_e(*angles)).max(axis=(0, 1))
    cosp = np.sqrt(np.maximum(0, 1 - want[2, 0] ** 2))
    limit = 5e-6 + 2e-6 / np.maximum(cosp, 4e-4)
    bad = np.nonzero(error > limit)[0]
    ctx.expect(len(bad) == 0, lambda: f'{what}, sample {bad[0]}: quaternion {quats[bad[0]]}, roll pitch yaw '
               f'{[float(a[bad[0]]) for a in angles]}: off by {error[bad[0]]}')
    ctx.count('rotations compared', len(quats))
    ctx.count('rotations at gimbal lock', int((cosp < 4e-4).sum()))
    ctx.count('rotations near gimbal lock', int(((cosp >= 4e-4) & (cosp < .02)).sum()))
    ctx.count('rotations upside down', int((want[2, 2] < -.1).sum()))


def case(ctx, count=None):
    from pyulog.core import ULog
    from pyulog.px4 import PX4ULog
    r = ctx.rng
    database = not count and r.random() < .12
    log = gen.make(r, samples=(0, 25), topics=(0, 3), max_fields=4, nesting=r.random() < .3,
                   **(dbkit.PROFILE if database else {}))
    log = tools.rename_topics(log, {t: t + '_other' for t in TOPICS})
    quats = {}
    topics = dict(TOPICS)
    for name in ('my_attitude', 'my_attitude_d', 'q_d', 'vehicle_attitude_d'):
        if r.random() < .1:
            topics[name] = r.choice(['', '_d'])
    for topic, suffix in topics.items():
        if r.random() < .45:
            continue
        fields = [('float', 4, 'q' + suffix)]
        if r.random() < .5:
            fields.append(('float', 3, 'rollspeed'))
        if r.random() < .3:
            fields.insert(0, ('float', 4, 'delta_q_reset'))
        if r.random() < .1:
            fields.append((r.choice(['float', 'double', 'uint8_t']), 0, r.choice(['roll', 'yaw', 'pitch']) + suffix))
        if topic == 'vehicle_attitude_setpoint' and r.random() < .5:
            fields += [('float', 0, 'roll_body'), ('float', 4, 'q')]
        fields.insert(r.choice([0, len(fields)]), ('uint64_t', 0, 'timestamp'))
        if r.random() < .3:
            fields.append(('uint8_t', 4, '_padding0'))
        for multi in sorted(set(r.choice([0, 0, 1, 2, 255]) for _ in range(r.choice([1, 1, 2, 3])))):
            rows, mine = [], []
            for k in range(count or r.choice([1, 1, 5, 30])):
                q = quaternion(r)
                mine.append(q)
                values = {f'q{suffix}[{i}]': x for i, x in enumerate(q)}
                rows.append(tools.pack(fields, dict(values, timestamp=1000 + k), r))
            log = tools.add_topic(r, log, topic, multi, fields, rows)
            quats[(topic, multi)] = mine
    path = tools.write(ctx.dir(), 'log.ulg', log)
    ulog = dbkit.through_database(ctx.dir(), path) if database else ULog(path, None, True)
    if database:
        ctx.count('logs from a database')
    before = {(d.name, d.multi_id): d for d in ulog.data_list}
    fields = {k: [(f.field_name, f.type_str) for f in d.field_data] for k, d in before.items()}
    exp = uf.interpret(log)
    px4 = PX4ULog(ulog)
    chosen = set(TOPICS)
    if r.random() < .6:
        px4.add_roll_pitch_yaw()
    else:
        chosen = {t for t in topics if r.random() < .6}
        arg = [t + (':_d' if topics[t] else '') for t in sorted(chosen)]
        if chosen - set(TOPICS):
            ctx.count('selections of other topics')
        if r.random() < .3:
            arg.insert(r.randrange(len(arg) + 1), 'no_such_topic')
        r.shuffle(arg)
        px4.add_roll_pitch_yaw(arg)
        ctx.count('selections of topics')
    ctx.expect([(d.name, d.multi_id) for d in ulog.data_list] == list(before) and
               all(before[(d.name, d.multi_id)] is d for d in ulog.data_list), 'other datasets')
    for key, ds in before.items():
        added = set()
        if key[0] in chosen:
            suffix = topics[key[0]]
            check_angles(ctx, ds, suffix, quats[key], f'{key}')
            added = {n + suffix for n in ('roll', 'pitch', 'yaw')}
            if added & {n for n, _ in exp.datasets[key].fields}:
                ctx.count('topics with fields of these names')
            if key[1]:
                ctx.count('other instances')
            if suffix:
                ctx.count('setpoints')
        else:
            ctx.count('datasets left alone')
        ctx.expect([(f.field_name, f.type_str) for f in ds.field_data] == fields[key], f'{key}: field list changed')
        want = exp.datasets[key]
        ctx.expect(set(ds.data) == {n for n, _ in want.fields} | added, f'{key}: fields {sorted(ds.data)} {sorted(added)}')
        for name, _ in want.fields:
            if name in added:
                continue
            ctx.expect(np.asarray(ds.data[name]).tobytes() == want.column_bytes(name), f'{key}: {name} changed')
    if not quats:
        ctx.count('logs without attitude')
    elif r.random() < .3:       # the angles follow the quaternions when they are added again
        for key, ds in before.items():
            if key in quats:
                quats[key] = [quaternion(r) for _ in quats[key]]
                for i in range(4):
                    ds.data[f'q{topics[key[0]]}[{i}]'] = np.array([q[i] for q in quats[key]], dtype='<f4')
        px4.add_roll_pitch_yaw([t + (':_d' if topics[t] else '') for t in sorted(topics)])
        for key, ds in before.items():
            if key in quats:
                check_angles(ctx, ds, topics[key[0]], quats[key], f'{key}, with other quaternions')
                ctx.count('angles added again')
    ctx.nontrivial(uf.encode(log))
    ctx.sample(', '.join(f'{k}: {v[:2]}' for k, v in list(quats.items())[:2]))


CHECK = Check(
    'C29', case, quick=12000, thorough=150000,
    rule='case = a random log with attitude topics holding random unit quaternions, many of them at or near gimbal lock; '
         'distinct by file bytes',
    required=['rotations compared', 'rotations at gimbal lock', 'rotations near gimbal lock', 'rotations upside down',
              'other instances', 'setpoints', 'datasets left alone', 'selections of topics', 'selections of other topics', 'logs without attitude', 'angles added again', 'topics with fields of these names', 'logs from a database'],
    probes=[('many', lambda ctx: case(ctx, 70000))],
    assumptions=['unit quaternions rounded to single precision; tolerance 5e-6 + 2e-6 / cos(pitch) per element of the '
                 'rotation matrix, at most 5e-3 (single precision arithmetic is off by up to 1.2e-3 near gimbal lock)'])
