"""C27: the KML track contains the logged positions and nothing else."""
import functools
import os
import xml.etree.ElementTree as ET

from vlib import gen, tools, ulogfmt as uf
from vlib.harness import Check

NS = '{http://www.opengis.net/kml/2.2}'
LIMIT = 1 << 50
VARIANTS = {
    'int': (('lon', 'int32_t'), ('lat', 'int32_t'), ('alt', 'int32_t')),
    'double': (('lon', 'double'), ('lat', 'double'), ('alt', 'float')),
    'new': (('longitude_deg', 'double'), ('latitude_deg', 'double'), ('altitude_msl_m', 'double')),
}


def coordinate(r, typ, scale, limit):
    if typ == 'int32_t':
        return r.choice([0, 1, -1, limit * scale, -limit * scale, r.randint(-limit * scale, limit * scale),
                         473977418 % (limit * scale)])
    v = r.choice([0.0, 1e-7, float(limit), -float(limit), r.uniform(-limit, limit), 8.5455939])
    return v


def position_topic(ctx, name, times, variant, multi=0, exact=None):
    """-> (fields, rows, [(t, fix or None, [lon, lat, alt in degrees/metres])])"""
    r = ctx.rng
    spec = VARIANTS[variant]
    fields = [('uint64_t', 0, 'timestamp')] + [(t, 0, n) for n, t in spec] + [('float', 0, 'eph')]
    fix = r.random() < .6
    if fix:
        fields.append(('uint8_t', 0, 'fix_type'))
    for other in (('int32_t', 0, 'alt_ellipsoid'), ('int32_t', 0, 'leap'), ('double', 0, 'lon_variance'), ('uint8_t', 0, 'alt_valid')):
        if r.random() < .15:
            fields.append(other)
    if r.random() < .5:
        fields[1:] = r.sample(fields[1:], len(fields) - 1)
    if r.random() < .4:
        fields.append(('uint8_t', 2, '_padding0'))
    rows, out = [], []
    for t in times:
        v = [coordinate(r, spec[0][1], 10 ** 7, 180), coordinate(r, spec[1][1], 10 ** 7, 90),
             coordinate(r, spec[2][1], 1000, 9000)]
        ft = r.choice([0, 1, 2, 3, 3, 3, 4, 5, 6, 255])
        values = {'timestamp': t, 'fix_type': ft}
        values.update((n, x) for (n, _), x in zip(spec, v))
        rows.append(tools.pack(fields, values))
        if variant == 'int':
            v = [v[0] / 1e7, v[1] / 1e7, v[2] / 1e3]
        out.append((t, ft if fix else None, v))
    del multi, exact
    return fields, rows, out


def draw(positions, interval_us, modes, offset):
    """-> [(mode, [points])]"""
    last = 0
    segs = [[modes[0][1] if modes else 0, []]]
    k = 0
    for t, fix, (lon, lat, alt) in positions:
        if fix is not None and fix <= 2:
            continue
        if t - last <= interval_us:
            continue
        last = t
        p = (lon, lat, alt + offset)
        segs[-1][1].append(p)
        while k + 1 < len(modes) and modes[k + 1][0] <= t:
            k += 1
            segs.append([modes[k][1], [p]])
    return [(m, pts) for m, pts in segs if pts]


def read_kml(path):
    """-> ([(name, color, points)], [(name, point)])"""
    root = ET.parse(path).getroot()
    colors = {s.get('id'): s.findtext(f'{NS}LineStyle/{NS}color') for s in root.iter(NS + 'Style')}
    lines, points = [], []
    for pm in root.iter(NS + 'Placemark'):
        name = pm.findtext(NS + 'name')
        ls, pt = pm.find(NS + 'LineString'), pm.find(NS + 'Point')
        coords = [tuple(float(x) for x in c.split(','))
                  for c in ((ls if ls is not None else pt).findtext(NS + 'coordinates') or '').split()]
        if ls is not None:
            url = pm.findtext(NS + 'styleUrl')
            lines.append((name, colors.get(url[1:]) if url else None, coords))
        else:
            points.append((name, coords[0] if len(coords) == 1 else coords))
    return lines, points


def close(a, b, single):
    """Same point; heights in single precision are added in single precision."""
    return len(a) == len(b) == 3 and all(
        abs(x - y) <= (1e-3 if k == 2 and single else 1e-11 * max(1, abs(y))) for k, (x, y) in enumerate(zip(a, b)))


SEEN = {}


def check_lines(ctx, got, topic, segs, modes, color, single):
    """Compare the lines of one topic."""
    if modes and got and got[-1][0] == f'{topic}:-1' and len(got[-1][2]) == 1:
        got = got[:-1]      # end of the log
    want = [(f'{topic}:{m}', pts) for m, pts in segs]
    ctx.expect([g[0] for g in got] == [w[0] for w in want],
               lambda: f'parts {[(g[0], len(g[2])) for g in got][:12]} instead of {[(w[0], len(w[1])) for w in want][:12]}')
    for (name, col, pts), (_, wpts), (mode, _) in zip(got, want, segs):
        ctx.expect(len(pts) == len(wpts) and all(close(a, b, single) for a, b in zip(pts, wpts)),
                   lambda: f'{name}: {len(pts)} points {pts[:4]} instead of {len(wpts)} {wpts[:4]}')    # pylint: disable=cell-var-from-loop
        if color is not None:
            ctx.expect(col == color(mode), f'{name}: color {col} instead of {color(mode)}')
        else:
            ctx.expect(col is not None and len(col) == 8 and int(col, 16) >= 0, f'{name}: color {col}')
            ctx.expect(SEEN.setdefault(mode, col) == col, f'{name}: color {col}, and {SEEN[mode]} elsewhere')
            for other, c in SEEN.items():
                ctx.expect(other == mode or c != col or not (0 <= other < 18 and 0 <= mode < 18),
                           f'modes {other} and {mode} have the same color')
            if mode > 17:
                ctx.count('parts with high mode numbers')
        ctx.count('points compared', len(pts))
    ctx.count('tracks split' if len(segs) > 1 else 'tracks in one part')


def case(ctx, count=None):
    from pyulog import ulog2kml
    r = ctx.rng
    log = gen.make(r, samples=(0, 15), topics=(0, 2), max_fields=3, nesting=False, time='global', ts_limit=1 << 40)
    taken = {x[1] for x in log.records if x[0] == 'F'} | {'vehicle_status'}
    for old in ('vehicle_status', 'vehicle_gps_position'):
        log = tools.rename_topics(log, {old: old + '_x'})
    use_cli = r.random() < .5
    interval = 100000 if use_cli else r.choice([100000, 100000, 0, 50000, 1000000, 1])
    start = r.choice([2000000, 112500176, 1 << 33])
    clocks = [start]
    for _ in range(count or r.choice([1, 8, 40])):
        clocks.append(clocks[-1] + r.choice([0, 1, interval, interval + 1, interval // 2, max(0, interval - 1), 100000, 100001,
                                             3 * interval + 7]))
    names = ['vehicle_gps_position'] if r.random() < .6 else [r.choice(['vehicle_global_position', 'sensor_gps', 'pos'])]
    if not use_cli and r.random() < .4:
        names.append('second_position')
    if not use_cli and r.random() < .1:
        names = ['vehicle_gps_position', 'other_position', 'vehicle_gps_position'][:2]
    tracks = {}
    names = [n if n not in taken else n + '_new' for n in names]
    for name in names:
        variant = r.choice(list(VARIANTS))
        times = sorted(r.choice(clocks) for _ in range(count or r.choice([1, 10, 60])))
        if r.random() < .5:
            times = sorted(set(times))
        if r.random() < .1:         # from the time before the clock was set
            times = sorted(times + [r.choice([0, 1, interval, interval + 1, 50000, 150000, 1000000]) for _ in range(3)])
        if r.random() < .2:
            k, n = r.randrange(len(times)), r.randint(1, 4)
            times[k:k + n] = reversed(times[k:k + n])
        elif r.random() < .1:
            r.shuffle(times)
        if times != sorted(times):
            ctx.count('tracks that are not in time order')
        fields, rows, out = position_topic(ctx, name, times, variant)
        log = tools.add_topic(r, log, name, 0, fields, rows)
        if r.random() < .4:
            _, more = 0, [tools.pack(fields, {'timestamp': t}, r) for t in times[:5]]
            log = tools.add_topic(r, log, name, r.choice([1, 2]), fields, more)
            ctx.count('topics with several instances')
        tracks[name] = (out, variant)
        ctx.count(f'tracks of kind {variant}')
        if any(o[1] is not None and o[1] <= 2 for o in out):
            ctx.count('tracks with positions without a fix')
    # flight modes
    modes = []
    if r.random() < .75:
        kind = r.choice(['uint8_t', 'uint8_t', 'uint8_t', 'uint16_t', 'uint32_t', 'int32_t'])
        fields = [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'arming_state'), (kind, 0, 'nav_state')]
        times = sorted(r.choice(clocks) + r.choice([0, 0, -1, 1, 5]) for _ in range((count or 0) // 20 or r.choice([1, 3, 12])))
        zero = r.random() < .15
        rows, mode, prev = [], r.choice([0, 3]), None
        if zero:
            rows.append(tools.pack(fields, {'timestamp': 0, 'nav_state': 99}))
        for t in times:
            mode = r.choice([mode, mode, r.randrange(18), r.randrange(18), r.choice([17, 18, 22, 36, 255])])
            rows.append(tools.pack(fields, {'timestamp': t, 'nav_state': mode}, r))
            if mode != prev:
                modes.append((t, mode))
            prev = mode
        log = tools.add_topic(r, log, 'vehicle_status', 0, fields, rows)
        if r.random() < .3:
            log = tools.add_topic(r, log, 'vehicle_status', 1, fields,
                                  [tools.pack(fields, {'timestamp': t, 'nav_state': 77}) for t in times])
    # camera
    camera, triggers = None, []
    if count or r.random() < .5:
        camera = r.choice(['camera_capture', 'camera_trigger'])
        new = r.random() < .3
        cn = ('longitude_deg', 'latitude_deg', 'altitude_msl_m') if new else ('lon', 'lat', 'alt')
        ct = ('double', 'double', r.choice(['float', 'double']))
        fields = [('uint64_t', 0, 'timestamp'), ('uint32_t', 0, 'seq')] + [(t, 0, n) for n, t in zip(cn, ct)]
        rows = []
        for k in range((count or 0) // 20 or r.choice([0, 1, 10])):
            p = [coordinate(r, 'double', 1, 180), coordinate(r, 'double', 1, 90), coordinate(r, 'double', 1, 9000)]
            seq = r.choice([k, k, 0, (1 << 32) - 1])
            rows.append(tools.pack(fields, dict(zip(cn, p), timestamp=r.choice(clocks), seq=seq)))
            triggers.append((seq, p))
        log = tools.add_topic(r, log, camera, 0, fields, rows)
        if r.random() < .3:
            log = tools.add_topic(r, log, camera, 1, fields, [tools.pack(fields, {'timestamp': clocks[0]}, r)])
    exp = uf.interpret(log)
    folder = ctx.dir()
    path = tools.write(folder, 'log.ulg', log)
    out = os.path.join(folder, 'track.kml')
    offset = 0 if use_cli else r.choice([0, 0, 10, -25.5, 1000])
    color, color_of = None, {}
    asked = camera if count or r.random() < .8 else None
    if asked is None and r.random() < .2:
        asked = 'no_such_trigger'
    missing = r.random() < .05
    if use_cli:
        name = names[0] if not missing else 'no_such_topic'
        argv = [path, '-o', out, '-i']
        if name != 'vehicle_gps_position' or r.random() < .3:
            argv += ['--topic', name]
        if asked:
            argv += ['--camera-trigger', asked]

        def convert():
            tools.run_tool('ulog2kml', *argv)
    else:
        kw = {'disable_str_exceptions': True}
        if missing:
            names = names + ['no_such_topic'] if r.random() < .5 else ['no_such_topic']
        if len(names) > 1 or r.random() < .5:
            shift = r.randrange(256)

            def color(mode, step=257):
                return f'ff{(int(mode) * step + shift) & 0xffffff:06x}'
        topic, colors = names[0], color
        if len(names) > 1 or (color and r.random() < .3):
            topic = names
            steps = [257, 263, 511, 1021, 65537]
            colors = [functools.partial(color, step=step) for step in steps[:len(names)]]
            color_of = dict(zip(names, colors))
        if color or topic is names:
            kw['colors'] = colors
        if interval != 100000 or r.random() < .3:
            kw['minimum_interval_s'] = interval / 1e6
        if offset:
            kw['altitude_offset'] = offset
        if asked:
            kw['camera_trigger_topic_name'] = asked

        def convert():
            ulog2kml.convert_ulog2kml(path, out, topic, **kw)
    if missing:
        try:
            convert()
        except LookupError:
            ctx.count('missing topics reported')
        else:
            ctx.fail('no error about a missing position topic')
        return
    convert()
    if not use_cli:
        names = [n for n in names if n in tracks]
    lines, points = read_kml(out)
    lines = [x for x in lines if x[2]]
    rest = list(lines)
    for name in names:
        mine = [x for x in rest if x[0].rsplit(':', 1)[0] == name]
        rest = [x for x in rest if x[0].rsplit(':', 1)[0] != name]
        data, variant = tracks[name]
        segs = draw(data, interval, modes, offset)
        check_lines(ctx, mine, name, segs, modes, color_of.get(name, color), variant == 'double')
        kept, last = sum(len(s[1]) for s in segs) - len(segs) + 1, None
        if kept < sum(d[1] is None or d[1] > 2 for d in data):
            ctx.count('tracks with positions too close in time')
        del last
    ctx.expect(not rest, f'more lines: {[x[0] for x in rest][:5]}')
    want = [(f'Camera Trigger {s}', (p[0], p[1], p[2] + offset)) for s, p in triggers] if asked == camera else []
    ctx.expect([p[0] for p in points] == [w[0] for w in want] and all(close(p[1], w[1], True) for p, w in zip(points, want)),
               f'points {points[:5]} instead of {want[:5]}')
    ctx.count('camera triggers compared', len(want))
    if offset:
        ctx.count('tracks with an offset')
    if len(names) > 1:
        ctx.count('files with several tracks')
    del exp
    ctx.nontrivial(uf.encode(log), interval, offset)
    ctx.sample(f'{len(lines)} parts with {[len(x[2]) for x in lines][:8]} points, {len(points)} triggers, interval {interval} us')


CHECK = Check(
    'C27', case, quick=6000, thorough=60000,
    rule='case = a random log with positions, flight modes and camera triggers, exported and read back; distinct by file '
         'bytes and options',
    required=['points compared', 'tracks split', 'tracks in one part', 'parts with high mode numbers',
              'topics with several instances', 'tracks of kind int', 'tracks of kind double', 'tracks of kind new',
              'tracks with positions without a fix', 'tracks with positions too close in time', 'camera triggers compared',
              'tracks with an offset', 'tracks that are not in time order', 'files with several tracks', 'missing topics reported'],
    probes=[('many', lambda ctx: case(ctx, 70000))],
    assumptions=['flight modes in time order',
                 'the part for the end of the log (mode -1), a single point, may be there or not'])
