"""
C23: the KML track shows exactly the logged positions, split by flight mode.

Logs are enumerated, converted by the real code and the KML file is read back with an XML parser; lines,
points, names and styles must be those of the reference model.
"""
import itertools
import os
import re
import struct
import xml.etree.ElementTree as ET
from pyulog import ulog2kml
from vlib.alpha import F, seqs
from vlib.cli import cli, put, quiet, require, scratch
from vlib.engine import Family, Violation, expect
from vlib.ulg import encode

ID, LEVEL = 'C23', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = 'every sequence of positions, mode changes and options stated; outcomes are distinct KML contents'
ASSUMPTIONS = ['time stamps of a topic increase', 'positions are finite']
NS = '{http://www.opengis.net/kml/2.2}'
RED, GREEN, BLUE = 'ff0000ff', 'ff008000', 'ffff0000'


def read_kml(path):
    """ ([(name, coordinates, altitude mode, extrude, color, width)], [(name, coordinates)]) """
    doc = ET.parse(path).getroot()
    styles = {}
    for s in doc.iter(NS + 'Style'):
        line = s.find(NS + 'LineStyle')
        if line is not None:
            styles['#' + s.get('id')] = (line.findtext(NS + 'color'), line.findtext(NS + 'width'))
    lines, points = [], []
    for p in doc.iter(NS + 'Placemark'):
        name = p.findtext(NS + 'name')
        for kind, out in (('LineString', lines), ('Point', points)):
            g = p.find(NS + kind)
            if g is None:
                continue
            text = g.findtext(NS + 'coordinates')
            if text == '0.0, 0.0, 0.0':     # what simplekml writes for no coordinates
                text = ''
            coords = [tuple(float(x) for x in c.split(',')) for c in text.split()]
            if kind == 'Point':
                out.append((name, coords))
            else:
                out.append((name, coords, g.findtext(NS + 'altitudeMode'), g.findtext(NS + 'extrude') or '0') +
                           styles[p.findtext(NS + 'styleUrl')])
    return lines, points


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 + 2e-7 * abs(y) * (i == 2)
                                    for i, (x, y) in enumerate(zip(a, b)))


def track(positions, modes, last, interval, offset=0.):
    """ positions: [(t us, lon, lat, alt)] with a fix; modes: [(t, mode)] or None; -> [(mode, coordinates)] """
    changes = []
    for t, m in modes or []:
        if t and (not changes or changes[-1][1] != m):
            changes.append((t, m))
    if modes is not None:
        changes.append((last, -1))
    out = [(changes[0][1] if changes else 0, [])]
    changes, shown = changes[1:], 0
    for t, lon, lat, alt in positions:
        if (t - shown) / 1e6 > interval:
            shown = t
            out[-1][1].append((lon, lat, alt + offset))
            while changes and changes[0][0] <= t:
                out.append((changes.pop(0)[1], [(lon, lat, alt + offset)]))
    return out


def check_kml(path, want_lines, want_points, ctx, topics=('vehicle_gps_position',), colors=None, width='3',
              extrude='0'):
    """ want_lines: one list of (mode, coordinates) for every topic """
    lines, points = read_kml(path)
    want = [(f'{t}:{m}', c, m) for t, l in zip(topics, want_lines) for m, c in l]
    expect([(n, len(c)) for n, c, _ in want], [(l[0], len(l[1])) for l in lines], 'lines and their number of points')
    ctx.executions += 1
    by_mode = {}
    for (name, coords, mode), got in zip(want, lines):
        for a, b in zip(got[1], coords):
            require(near(a, b), f'{name}: expected {b}, got {a}')
        expect(('absolute', extrude, width), (got[2], got[3], str(int(float(got[5])))),
               'altitude mode, extrusion and width')
        if colors:
            expect(colors[name.split(':')[0]](mode), got[4], f'color of {name}')
        else:
            require(re.fullmatch('[0-9a-f]{8}', got[4]), f'color {got[4]!r}')
            expect(by_mode.setdefault(mode, got[4]), got[4], f'color of mode {mode}')
    expect([n for n, _ in want_points], [n for n, _ in points], 'points')
    for (name, b), (_, a) in zip(want_points, points):
        require(len(a) == 1 and near(a[0], b), f'{name}: expected {b}, got {a}')
    ctx.outcome((lines, points))
    ctx.state((want, want_points))
    return by_mode


# ------------------------------------------------------------ sequences

GPS = F('vehicle_gps_position', 'uint64_t timestamp', 'int32_t lat', 'int32_t lon', 'int32_t alt', 'uint8_t fix_type')
STATUS = F('vehicle_status', 'uint64_t timestamp', 'uint8_t arming_state', 'uint8_t nav_state')
STEPS = [50000, 100000, 100001, 300000]
OPS = [('pos', s, 3) for s in STEPS] + [('pos', 150000, 2)] + [('mode', 10, m) for m in (0, 2, 3)] + \
    [('mode', 120000, 5)]


def gen_seqs(tier):
    for start in (0, 5000000):
        for s in seqs(OPS, 4 if tier == 'quick' else 5 if tier == 'thorough' else 6):
            yield start, s
        if tier == 'quick':
            for s in seqs(OPS[1:4:2] + OPS[4:7], 5, 5):
                yield start, s


def run_seqs(case, ctx):
    start, s = case
    msgs, positions, modes, t, last = [GPS, STATUS, ('A', 0, 1, 'vehicle_gps_position'), ('A', 0, 2, 'vehicle_status')], [], [], start, 0
    for k, (kind, step, v) in enumerate(s):
        t += step
        last = max(last, t)
        if kind == 'pos':
            lat, lon, alt = 473977000 + k * 13, -85456000 + k * 7, 488123 + 1001 * k
            msgs.append(('D', 1, struct.pack('<QiiiB', t, lat, lon, alt, v)))
            positions.append((t, lon / 1e7, lat / 1e7, alt / 1e3, v))
        else:
            msgs.append(('D', 2, struct.pack('<QBB', t, 9, v)))
            modes.append((t, v))
    d = scratch(ctx)
    path, out = put(os.path.join(d, 'log.ulg'), encode(msgs)), os.path.join(d, 'out.kml')
    ctx.transitions += len(msgs)
    try:
        with quiet():
            ulog2kml.convert_ulog2kml(path, out)
    except KeyError:
        require(not positions, 'positions not found')
        require(not os.path.exists(out), 'a file without positions')
        ctx.executions += 1
        return
    require(positions, 'a log without positions must raise KeyError')
    fixed = [p[:4] for p in positions if p[4] > 2]
    check_kml(out, [track(fixed, modes or None, last, 0.1)], [], ctx)


# ------------------------------------------------------------ flight modes

def gen_modes(_tier):
    yield from itertools.product(list(range(0, 32)) + [255], (0, 4))


def run_modes(case, ctx):
    """ every mode is converted, and has one color """
    mode, first = case
    times = [(0, 7), (1000000, first), (2000000, mode), (3000000, mode), (4000000, 1), (6000000, mode)]
    positions = [(k * 500000 + 1, k / 8, k / 4, float(k)) for k in range(13)]
    msgs = [F('pos', 'uint64_t timestamp', 'double lat', 'double lon', 'float alt'), STATUS, ('A', 0, 1, 'pos'),
            ('A', 0, 2, 'vehicle_status')]
    msgs += [('D', 2, struct.pack('<QBB', t, 9, m)) for t, m in times]
    msgs += [('D', 1, struct.pack('<Qddf', t, lat, lon, alt)) for t, lon, lat, alt in positions]
    d = scratch(ctx)
    path, out = put(os.path.join(d, 'log.ulg'), encode(msgs)), os.path.join(d, 'out.kml')
    _, code = cli(ulog2kml.main, path, '-o', out, '--topic', 'pos')
    require(not code, f'exit status {code}')
    by_mode = check_kml(out, [track(positions, times, max(6000000, positions[-1][0]), 0.1)], [], ctx, ('pos',))
    if mode < 15 and mode != first:
        require(by_mode[mode] != by_mode[first], f'modes {mode} and {first} have the same color')
    ctx.transitions += len(msgs)


# ------------------------------------------------------------ field names, types, camera, options

def gen_fields(_tier):
    for names in (('lon', 'lat', 'alt'), ('longitude_deg', 'latitude_deg', 'altitude_msl_m')):
        for typ in ('int32_t', 'double', 'float alt'):
            if typ == 'int32_t' and names[0] != 'lon':
                continue
            for fix in (None, (0, 1, 2, 3, 4, 5), (3, 2, 8, 2, 7, 255)):
                for camera in (None, 'lon', 'longitude_deg'):
                    for status in (0, 1, 2):
                        for offset in (0, -20.5, 100):
                            yield names, typ, fix, camera, status, offset


POS = [(1000000, 85456123, 473977654, 488123), (1100000, -1799999999, -900000000, -1500), (1200001, 0, 0, 0),
       (1900000, 1800000000, 899999999, 2147483647), (2000000, 1, -1, 1), (2500000, 7, 7, 7)]


def run_fields(case, ctx):
    names, typ, fix, camera, status, offset = case
    lon, lat, alt = names
    t1 = 'int32_t' if typ == 'int32_t' else 'double'
    t2 = 'float' if typ == 'float alt' else t1
    fields = [f'{t2} {alt}', 'uint64_t timestamp', f'{t1} {lon}', f'{t1} {lat}'] + (['uint8_t fix_type'] if fix else [])
    other = 'int32_t' if t1 != 'int32_t' else 'double'      # fields of another type with similar names
    extra = [f'{other} {n}{x}' for n in (lon, lat, alt, 'fix_type') for x in ('_reset_counter', '2')] if status == 1 else []
    first = camera is None
    fields = extra + fields if first else fields + extra
    extra = struct.pack('<' + {'int32_t': 'i', 'double': 'd'}[other] * len(extra), *range(1, len(extra) + 1))
    msgs = [F('pos', *fields), F('vehicle_status', 'uint64_t timestamp', 'uint8_t nav_state' if status else 'uint8_t x'),
            F('cam', 'uint64_t timestamp', *((f'double {x}' for x in (
                ('lon', 'lat', 'alt') if camera == 'lon' else ('longitude_deg', 'latitude_deg', 'altitude_msl_m')))),
              'uint32_t seq'),
            ('A', 1, 9, 'pos'), ('A', 0, 1, 'pos'), ('A', 0, 2, 'vehicle_status'), ('A', 0, 3, 'cam')]
    code = '<' + {'int32_t': 'i', 'double': 'd', 'float': 'f'}[t2] + 'Q' + ('ii' if t1 == 'int32_t' else 'dd')
    positions = []
    for k, (t, x, y, z) in enumerate(POS):
        if t1 != 'int32_t':
            x, y, z = x / 1e7, y / 1e7, z / 1e3
        if t2 == 'float':
            z, = struct.unpack('<f', struct.pack('<f', z))
        for i in (1, 9):    # the other instance has other positions
            body = struct.pack(code, z, t, x + (i > 1), y) + (bytes([fix[k]]) if fix else b'')
            msgs.append(('D', i, extra + body if first else body + extra))
        if not fix or fix[k] > 2:
            positions.append((t, x, y, z) if t1 != 'int32_t' else (t, x / 1e7, y / 1e7, z / 1e3))
    points = []
    if camera:
        for k in range(3):
            msgs.append(('D', 3, struct.pack('<QdddI', 1300000 + k, k + 1 / 3, k + 2e-8, k * 10., 70 + k)))
            points.append((f'Camera Trigger {70 + k}', (k + 1 / 3, k + 2e-8, k * 10. + offset)))
    modes = [(1150000, 2), (1850000, 3)]
    if status:
        msgs += [('D', 2, struct.pack('<QB', t, m)) for t, m in modes]
    elif camera:
        msgs.append(('D', 2, struct.pack('<QB', 3000000, 1)))
    last = 2500000
    d = scratch(ctx)
    path, out = put(os.path.join(d, 'log.ulg'), encode(msgs)), os.path.join(d, 'out.kml')
    interval = (0.1, 0, 0.7)[status]
    with quiet():
        ulog2kml.convert_ulog2kml(path, out, 'pos', altitude_offset=offset, minimum_interval_s=interval,
                                  style={'extrude': True} if status == 1 else {'line_width': 7} if status else None,
                                  camera_trigger_topic_name='cam' if camera else None)
    check_kml(out, [track(positions, modes if status else None, last, interval, offset)], points, ctx, ('pos',),
              width='7' if status == 2 else '3', extrude='1' if status == 1 else '0')
    ctx.transitions += len(msgs)


def gen_topics(_tier):
    for n in (1, 2, 3):
        for names in itertools.permutations(('p', 'pp', 'q'), n):
            for missing in (None, 'p', 'pp'):
                for camera in (None, 'p', 'nocam'):
                    yield names, missing, camera


def run_topics(case, ctx):
    """ several position topics with colors of their own """
    names, missing, camera = case
    all_names = ['p', 'pp', 'q']
    msgs = [F(n, 'uint64_t timestamp', 'double lon', 'double lat', 'double alt', 'uint8_t seq') for n in all_names] + \
        [STATUS, ('A', 0, 9, 'vehicle_status')]
    msgs += [('A', 0, i, n) for i, n in enumerate(all_names) if n != missing]
    want = {}
    for i, n in enumerate(all_names):
        if n == missing:
            continue
        for k in range(4):
            t = 1000000 + (k * 7 + i) * 100000
            msgs.append(('D', i, struct.pack('<QdddB', t, i + k / 4, i - k / 4, i * k * 1., k)))
            want.setdefault(n, []).append((t, i + k / 4, i - k / 4, i * k * 1.))
    modes = [(500000, 1), (1800000, 2), (2500000, 1)]
    msgs += [('D', 9, struct.pack('<QBB', t, 0, m)) for t, m in modes]
    used = set(names) | {'vehicle_status'} | ({camera} if camera else set())
    last = max([2500000] + [p[-1][0] for n, p in want.items() if n in used])
    colors = {n: (lambda m, i=i: f'ff{i:02x}{m & 255:02x}11') for i, n in enumerate(all_names)}
    d = scratch(ctx)
    path, out = put(os.path.join(d, 'log.ulg'), encode(msgs)), os.path.join(d, 'out.kml')
    try:
        with quiet():
            ulog2kml.convert_ulog2kml(path, out, list(names), [colors[n] for n in names],
                                      camera_trigger_topic_name=camera)
    except KeyError:
        require(missing in names, 'topic not found')
        ctx.executions += 1
        return
    if missing in names:
        raise Violation(f'missing topic {missing} must raise KeyError')
    points = [(f'Camera Trigger {k}', p[1:]) for k, p in enumerate(want.get(camera, []))]
    check_kml(out, [track(want[n], modes, last, 0.1) for n in names], points, ctx, names, colors)
    ctx.transitions += len(msgs)


def families():
    return [
        Family('sequences', gen_seqs, run_seqs, 'sequences of positions and mode changes'),
        Family('modes', gen_modes, run_modes, 'all flight modes'),
        Family('fields', gen_fields, run_fields, 'field names x types x fixes x camera x status x options'),
        Family('topics', gen_topics, run_topics, 'lists of position topics'),
    ]
