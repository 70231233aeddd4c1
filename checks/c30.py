"""C30: derived values follow from the logged contents."""
import struct

from vlib import dbkit, gen, tools, ulogfmt as uf
from vlib.harness import Check

VEHICLES = ['Generic', 'Fixed Wing', 'Quadrotor', 'Coaxial helicopter', 'Normal helicopter with tail rotor',
            'Ground installation', 'Ground Control Station', 'Airship, controlled', 'Free balloon, uncontrolled', 'Rocket',
            'Ground Rover', 'Surface Vessel, Boat, Ship', 'Submarine', 'Hexarotor', 'Octorotor', 'Tricopter',
            'Flapping wing', 'Kite', 'Onboard Companion Controller', 'Two-rotor VTOL (Tailsitter)',
            'Quad-rotor VTOL (Tailsitter)', 'Tiltrotor VTOL', 'VTOL Standard', 'VTOL Tailsitter', 'VTOL reserved 4',
            'VTOL reserved 5', 'Onboard Gimbal', 'Onboard ADSB Peripheral']
ESTIMATORS = {0: 'INAV', 1: 'LPE', 2: 'EKF2', 3: 'Q'}
LEVELS = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG']


def param(key, value):
    return ('P', 'int32_t', key, struct.pack('<i', value))


def changes(ctx, ulog, exp, lazy):
    for d in ulog.data_list:
        ds = exp.datasets[(d.name, d.multi_id)]
        if lazy:
            d = ulog.get_dataset(d.name, d.multi_id)
        times = ds.timestamps()
        for name, typ in ds.fields:
            col = ds.column(name)
            if any(v != v for v in col):
                continue
            want = []
            last = None
            for t, v in zip(times, col):
                if t and (last is None or v != last[0]):
                    want.append((t, v))
                if t:
                    last = (v,)
            got = d.list_value_changes(name)
            ctx.expect(len(got) == len(want) and all(
                int(g[0]) == w[0] and tools.same_scalar(typ, w[1], g[1]) for g, w in zip(got, want)),
                f'{d.name} {d.multi_id} {name}: changes {[(int(t), v) for t, v in got][:8]} ({len(got)}) instead of '
                f'{want[:8]} ({len(want)})')
            ctx.count('lists of changes compared')
            if len(want) > 1:
                ctx.count('lists with changes')
            if not want:
                ctx.count('lists without a usable sample')
        if 0 in times:
            ctx.count('datasets with times of zero')
            if times[0] == 0 and any(times):
                ctx.count('datasets that begin at time zero')


def version_text(v):
    kind = v & 255
    if kind < 64:
        return None
    name = ' (alpha)' if kind < 128 else ' (beta)' if kind < 192 else ' (RC)' if kind < 255 else ''
    return f'v{v >> 24 & 255}.{v >> 16 & 255}.{v >> 8 & 255}{name}'


def versions(ctx, ulog, exp):
    for key in ('ver_sw_release', 'ver_os_release', 'no_such_key'):
        args = () if key == 'ver_sw_release' and ctx.rng.random() < .7 else (key,)
        got, text = ulog.get_version_info(*args), ulog.get_version_info_str(*args)
        if key not in exp.info:
            ctx.expect(got is None and text is None, f'version {got} {text} without {key}')
            ctx.count('versions that are absent')
            continue
        v = exp.info[key][1]
        ctx.expect(got is not None and tuple(int(x) for x in got) == tuple(v >> s & 255 for s in (24, 16, 8, 0)),
                   f'{key} {v:#x}: {got}')
        ctx.expect(text == version_text(v), f'{key} {v:#x}: {text!r} instead of {version_text(v)!r}')
        ctx.count('versions compared')
        ctx.count('version types ' + ('release' if v & 255 == 255 else ['development', 'alpha', 'beta', 'candidate'][(v & 255) // 64]))


def levels(ctx, ulog, exp):
    tagged = [m for k in ulog.logged_messages_tagged for m in ulog.logged_messages_tagged[k]]
    wtagged = [x for k in ulog.logged_messages_tagged for x in exp.tagged[k]]
    for got, want, kind in ((ulog.logged_messages, exp.logs, 'levels of messages'), (tagged, wtagged, 'levels of tagged messages')):
        ctx.expect(len(got) == len(want), f'{len(got)} messages instead of {len(want)}')
        for m, (lv, _, _) in zip(got, want):
            name = LEVELS[lv - 48] if 48 <= lv <= 55 else 'UNKNOWN'
            ctx.expect(m.log_level_str() == name, f'level {lv}: {m.log_level_str()} instead of {name}')
            ctx.count(kind if name != 'UNKNOWN' else 'unknown levels')


def vehicle(ctx, ulog, exp):
    from pyulog.px4 import PX4ULog
    px4 = PX4ULog(ulog)
    mav = exp.init.get('MAV_TYPE', (None, None))[1]
    want = VEHICLES[mav] if mav is not None and 0 <= mav < len(VEHICLES) else 'unknown type'
    ctx.expect(px4.get_mav_type() == want, f'MAV_TYPE {mav}: {px4.get_mav_type()!r} instead of {want!r}')
    ctx.count('vehicle types unknown' if want == 'unknown type' else 'vehicle types known')
    group = exp.init.get('SYS_MC_EST_GROUP', (None, 2))[1]
    want = 'EKF2' if mav == 1 else ESTIMATORS.get(group)
    got = px4.get_estimator()
    ctx.expect(got == want if want else ('unknown' in got and str(group) in got),
               f'MAV_TYPE {mav} SYS_MC_EST_GROUP {group}: {got!r} instead of {want!r}')
    ctx.count('estimators known' if want else 'estimators unknown')
    if mav == 1 and group != 2:
        ctx.count('estimators of fixed wing vehicles')
    for channel in range(19):
        want = sorted(k[7:].capitalize() for k, v in exp.init.items() if k.startswith('RC_MAP_') and v[1] == channel + 1)
        got = px4.get_configured_rc_input_names(channel)
        ctx.expect(got is None if not want else got is not None and sorted(got) == want,
                   f'channel {channel}: {got} instead of {want}')
        ctx.count('channels with several functions' if len(want) > 1 else 'channels with a function' if want
                  else 'channels without a function')


def case(ctx, log=None):
    from pyulog.core import ULog
    r = ctx.rng
    database = log is None and r.random() < .12
    log = log or gen.make(r, samples=(0, 40), topics=(0, 3), max_fields=5, nesting=r.random() < .2, time=r.choice(['global', 'any']),
                   nan='none', **(dbkit.PROFILE if database else {}))
    log.records = [x for x in log.records if not (x[0] == 'P' and x[2] in ('MAV_TYPE', 'SYS_MC_EST_GROUP', 'RC_MAP_ROLL'))
                   and not (x[0] == 'I' and x[2].startswith('ver_'))]
    at = tools.data_start(log)
    # the values that count
    head = []
    if r.random() < .85:
        head.append(param('MAV_TYPE', r.choice([0, 1, 1, 2, 27, 28, -1, 100, r.randrange(28), r.randrange(28)])))
    if r.random() < .7:
        head.append(param('SYS_MC_EST_GROUP', r.choice([0, 1, 2, 3, 4, -1, 77])))
    for name in r.sample(['ROLL', 'PITCH', 'YAW', 'THROTTLE', 'MODE_SW', 'AUX1', 'AUX2', 'FLAPS', 'RETURN_SW'], r.randint(0, 9)):
        head.append(param('RC_MAP_' + name, r.choice([0, 1, 2, 3, 4, 4, 5, 18])))
    if r.random() < .3:
        head.append(param(r.choice(['XRC_MAP_ROLL', 'RC_MAPX_YAW', 'RC_CHAN_CNT', 'rc_map_roll']), r.choice([1, 4])))
    for key in ('ver_sw_release', 'ver_os_release', 'ver_sw', 'ver_hw'):
        if r.random() < .7:
            kind = r.choice([0, 1, 63, 64, 65, 127, 128, 191, 192, 193, 254, 255, 255])
            v = r.choice([0x01020300, 0xffffff00, 0, r.randrange(1 << 32) & 0xffffff00]) | kind
            if r.random() < .1:
                head.append(('I', 'int32_t', key, struct.pack('<I', v)))
            elif r.random() < .1:
                head.append(('I', 'uint64_t', key, struct.pack('<Q', v)))
            else:
                head.append(('I', 'uint32_t', key, struct.pack('<I', v)))
    r.shuffle(head)
    log.records[at:at] = head
    # changes of these parameters have no influence
    end = tools.data_start(log) + 1
    if end < len(log.records) and r.random() < .5:
        log.records.insert(r.randint(end, len(log.records)), param(r.choice(['MAV_TYPE', 'SYS_MC_EST_GROUP', 'RC_MAP_ROLL']),
                                                                 r.randrange(4)))
        ctx.count('logs with changes of these parameters')
    # few distinct values, and times of zero
    if r.random() < .8:
        fields = [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'nav_state'), ('bool', 0, 'armed'), ('float', 0, 'v'),
                  ('int64_t', 0, 'n')]
        rows = []
        t = r.choice([0, 1000])
        for _ in range(r.choice([1, 5, 40])):
            rows.append(tools.pack(fields, {'timestamp': t if r.random() < .85 else 0, 'nav_state': r.choice([3, 3, 3, 4, 255]),
                                            'armed': r.randrange(2), 'v': r.choice([0.0, 0.0, -0.0, 1.5, float('inf')]),
                                            'n': r.choice([0, -1, (1 << 53) + 1, 1 << 53])}))
            t += r.choice([0, 1000]) if t else r.choice([0, 0, 1000])
        log = tools.add_topic(r, log, 'changing', 0, fields, rows)
    exp = uf.interpret(log)
    path = tools.write(ctx.dir(), 'log.ulg', log)
    lazy = r.random() < .5
    if database:
        ulog = dbkit.through_database(ctx.dir(), path, lazy=lazy)
        ctx.count('logs loaded lazily from a database' if lazy else 'logs from a database')
    else:
        ulog = ULog(path, None, True)
    changes(ctx, ulog, exp, database and lazy)
    versions(ctx, ulog, exp)
    levels(ctx, ulog, exp)
    vehicle(ctx, ulog, exp)
    ctx.nontrivial(uf.encode(log))
    ctx.sample(gen.describe(log))


CHECK = Check(
    'C30', case, quick=15000, thorough=150000,
    rule='case = all derived values of a random log; distinct by file bytes',
    required=['lists of changes compared', 'lists with changes', 'lists without a usable sample',
              'datasets with times of zero', 'datasets that begin at time zero', 'versions compared',
              'versions that are absent', 'version types release', 'version types development', 'version types alpha',
              'version types beta', 'version types candidate', 'levels of messages', 'levels of tagged messages',
              'unknown levels', 'vehicle types known', 'vehicle types unknown', 'estimators known', 'estimators unknown',
              'estimators of fixed wing vehicles', 'channels with a function', 'channels with several functions',
              'channels without a function', 'logs with changes of these parameters',
              'logs from a database', 'logs loaded lazily from a database'],
    probes=[('many', lambda ctx: case(ctx, gen.many(ctx.rng, messages=66000)))],
    assumptions=['fields with not-a-number values have no definite changes'])
