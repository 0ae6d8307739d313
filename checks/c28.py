"""
C28: the PX4 helpers: attitude angles, vehicle and estimator type, names of RC inputs, tagged levels.

The angles that are added for a quaternion must describe the same rotation as the quaternion (both are
turned into rotation matrices); the other helpers are compared with tables of the PX4 definitions.
"""
import itertools
import math
import struct
import warnings
from pyulog import ULog
from pyulog.db import DatabaseULog
from pyulog.px4 import PX4ULog
from vlib import dbtools
from vlib.alpha import F, stream
from vlib.engine import Family, Violation, expect
from vlib.model import observe
from vlib.ulg import encode

ID, LEVEL = 'C28', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = 'every case of the stated grids and tables; outcomes are distinct results'
ASSUMPTIONS = ['quaternions are of unit length up to rounding to float']


def quaternion(roll, pitch, yaw):
    """ rotations about x, y, z, in this order of the angles, as (w, x, y, z) """
    q = (1., 0., 0., 0.)
    for angle, axis in ((yaw, 3), (pitch, 2), (roll, 1)):
        r = [math.cos(angle / 2), 0., 0., 0.]
        r[axis] = math.sin(angle / 2)
        q = mul(q, r)
    return q


def mul(a, b):
    return (a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0])


def rotate(q, v):
    n = math.sqrt(sum(x * x for x in q))
    q = [x / n for x in q]
    return mul(mul(q, (0.,) + v), (q[0], -q[1], -q[2], -q[3]))[1:]


AXES = [(1., 0., 0.), (0., 1., 0.), (0., 0., 1.)]


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


TOPICS = [('vehicle_attitude', ''), ('vehicle_vision_attitude', ''), ('vehicle_attitude_groundtruth', ''),
          ('vehicle_attitude_setpoint', '_d')]


def attitude_log(quats, topics):
    """ topics: [(name, suffix, multi id)], all with the same quaternions, shifted """
    msgs = [F(n, 'uint64_t timestamp', 'float x', f'float[4] q{s}') for n, s in sorted({(n, s) for n, s, _ in topics})]
    msgs += [('A', m, i, n) for i, (n, _, m) in enumerate(topics)]
    for k, _ in enumerate(quats):
        for i in range(len(topics)):
            msgs.append(('D', i, struct.pack('<Q5f', k + 1, 0.5, *quats[(k + i) % len(quats)])))
    return msgs


def check_angles(data, suffix, quats, shift, ctx):
    cols = [data.data[n + suffix] for n in ('roll', 'pitch', 'yaw')]
    for c in cols:
        expect(len(quats), len(c), 'number of angles')
    for k in range(len(quats)):
        q = quats[(k + shift) % len(quats)]
        roll, pitch, yaw = (float(c[k]) for c in cols)
        if not abs(pitch) <= math.pi / 2 + 1e-6 or not abs(roll) <= math.pi + 1e-6 or not abs(yaw) <= math.pi + 1e-6:
            raise Violation(f'{q}: angles {roll}, {pitch}, {yaw} out of range')
        # near straight up or down, roll and yaw are only known as a sum: the angles lose half of the digits
        steep = abs(abs(pitch) - math.pi / 2) < 0.02
        r = quaternion(roll, pitch, yaw)
        if not steep:
            for v in AXES:
                if max(abs(a - b) for a, b in zip(rotate(q, v), rotate(r, v))) > 2e-5 / math.cos(pitch):
                    raise Violation(f'{q}: angles {roll}, {pitch}, {yaw} are another rotation')
        else:   # at least the direction of the nose
            if max(abs(a - b) for a, b in zip(rotate(q, AXES[0]), rotate(r, AXES[0]))) > 3e-2:
                raise Violation(f'{q}: angles {roll}, {pitch}, {yaw} point elsewhere')
        ctx.outcome((round(roll, 3), round(pitch, 3), round(yaw, 3)))


def gen_angles(tier):
    n = 48 if tier == 'quick' else 180 if tier == 'thorough' else 360
    yield from itertools.product(range(n), range(-(n // 4), n // 4 + 1), (n,))


def run_angles(case, ctx):
    i, j, n = case
    quats = []
    for k in range(n):
        q = quaternion(2 * math.pi * i / n, 2 * math.pi * j / n, 2 * math.pi * k / n)
        quats += [tuple(f32(x) for x in q), tuple(f32(-x) for x in q)]
    msgs = attitude_log(quats, [('vehicle_attitude', '', 0)])
    u = ULog(stream(encode(msgs)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        PX4ULog(u).add_roll_pitch_yaw()
    check_angles(u.data_list[0], '', quats, 0, ctx)
    ctx.executions += 1
    ctx.transitions += len(quats)
    ctx.state(case)


# ------------------------------------------------------------ topics and sources

def gen_topics(_tier):
    for k in range(0, 5):
        for topics in itertools.permutations(TOPICS, k):
            for source in ('file', 'database'):
                yield topics, source


QUATS = [(1., 0., 0., 0.), (0., 1., 0., 0.), (0.5, 0.5, -0.5, 0.5), (f32(0.9), f32(0.1), f32(0.3), f32(-0.3))]


def run_topics(case, ctx):
    topics, source = case
    subs = [(n, s, m) for n, s in topics for m in ((0, 1, 4, 255) if s == '' else (0, 9))]
    msgs = attitude_log(QUATS, subs) + [F('other', 'uint64_t timestamp', 'float[4] q'), ('A', 0, 99, 'other'),
                                        ('D', 99, struct.pack('<Q4f', 9, 1, 0, 0, 0))]
    u = ULog(stream(encode(msgs)))
    if source == 'database':
        handle = dbtools.fresh(ctx)
        d = DatabaseULog(handle, log_file=stream(encode(msgs)))
        d.save()
        u = DatabaseULog(handle, primary_key=d.primary_key, lazy=False)
    before = {(d.name, d.multi_id): {n: c.tobytes() for n, c in d.data.items()} for d in u.data_list}
    fields = [[f.field_name for f in d.field_data] for d in u.data_list]
    PX4ULog(u).add_roll_pitch_yaw()
    expect(fields, [[f.field_name for f in d.field_data] for d in u.data_list], 'field data')
    for i, (n, s, m) in enumerate(subs):
        check_angles(u.get_dataset(n, m), s, QUATS, i, ctx)
    for d in u.data_list:
        s = dict(TOPICS).get(d.name)
        new = {x + s for x in ('roll', 'pitch', 'yaw')} if s is not None else set()
        expect(set(before[d.name, d.multi_id]) | new, set(d.data), f'columns of {d.name}')
        for n, c in before[d.name, d.multi_id].items():
            expect(c, d.data[n].tobytes(), f'column {n} of {d.name}')
    ctx.executions += 1
    ctx.transitions += len(msgs)


def gen_chosen(_tier):
    names = ['vehicle_attitude', 'my_attitude', 'my_setpoint:_d', 'absent', 'absent:_d']
    for k in range(0, 4):
        yield from itertools.permutations(names, k)


def run_chosen(names, ctx):
    subs = [('vehicle_attitude', '', 0), ('my_attitude', '', 3), ('my_setpoint', '_d', 0)]
    msgs = attitude_log(QUATS, subs)
    u = ULog(stream(encode(msgs)))
    PX4ULog(u).add_roll_pitch_yaw(list(names))
    for i, (n, s, m) in enumerate(subs):
        d = u.get_dataset(n, m)
        if n + (':' + s if s else '') in names:
            check_angles(d, s, QUATS, i, ctx)
        elif 'roll' + s in d.data:
            raise Violation(f'{n} was not asked for')
    ctx.executions += 1
    ctx.state(names)


# ------------------------------------------------------------ parameters

MAV = ['Generic', 'Fixed Wing', 'Quadrotor', 'Coaxial helicopter', 'Normal helicopter with tail rotor', 'Ground installation',
       'Ground Control Station', 'Airship, controlled', 'Free balloon, uncontrolled', 'Rocket', 'Ground Rover',
       'Surface Vessel, Boat, Ship', 'Submarine', 'Hexarotor', 'Octorotor', 'Tricopter', 'Flapping wing', 'Kite',
       'Onboard Companion Controller', 'Two-rotor VTOL (Tailsitter)', 'Quad-rotor VTOL (Tailsitter)', 'Tiltrotor VTOL',
       'VTOL Standard', 'VTOL Tailsitter', 'VTOL reserved 4', 'VTOL reserved 5', 'Onboard Gimbal', 'Onboard ADSB Peripheral']
ESTIMATORS = ['INAV', 'LPE', 'EKF2', 'Q']


def gen_types(_tier):
    yield from itertools.product([None, -1] + list(range(30)) + [255], [None, -1, 0, 1, 2, 3, 4, 100])


def run_types(case, ctx):
    mav, est = case
    msgs = [('P', 'int32_t', n, v) for n, v in (('MAV_TYPE', mav), ('SYS_MC_EST_GROUP', est)) if v is not None]
    # a change during the flight is not the configured value
    msgs += [F('a', 'uint64_t timestamp'), ('A', 0, 0, 'a'), ('P', 'int32_t', 'MAV_TYPE', 3), ('P', 'int32_t', 'SYS_MC_EST_GROUP', 1)]
    p = PX4ULog(ULog(stream(encode(msgs))))
    expect(MAV[mav] if mav is not None and 0 <= mav < len(MAV) else 'unknown type', p.get_mav_type(), f'type {mav}')
    if mav == 1 or est is None:
        want = 'EKF2'
    else:
        want = ESTIMATORS[est] if 0 <= est < 4 else f'unknown ({est})'
    expect(want, p.get_estimator(), f'estimator {est} of type {mav}')
    ctx.executions += 1
    ctx.outcome((p.get_mav_type(), p.get_estimator()))


def gen_rc(_tier):
    names = ['RC_MAP_ROLL', 'RC_MAP_PITCH', 'RC_MAP_FLTMODE', 'RC_MAP_AUX1', 'XRC_MAP_YAW', 'RC_MAPPING', 'RC1_MAP_X']
    for values in itertools.product((None, 0, 1, 2), repeat=4):
        for order in (0, 1):
            for others in (0, 1, 2):
                yield tuple(zip(names[:4], values)), tuple((n, others) for n in names[4:]), order
    for names in itertools.permutations(('RC_MAP_ACRO_SW', 'RC_MAP_MODE_SW', 'RC_MAP_', 'RC_MAP_a_B', 'RC_MAP_RC_MAP_X', 'RC_MAP_2ND'), 4):
        yield tuple(zip(names, (1, 1, 2, 18))), (('RC_MAP', 1), ('MAP_RC_MAP_A', 2)), 0


def run_rc(case, ctx):
    mapped, others, order = case
    params = [(n, v) for n, v in mapped + others if v is not None]
    if order:
        params.reverse()
    p = PX4ULog(ULog(stream(encode([('P', 'int32_t', n, v) for n, v in params]))))
    for channel in (0, 1, 2, 3, 17):
        want = [n[7:].capitalize() for n, v in params if n.startswith('RC_MAP_') and v == channel + 1]
        got = p.get_configured_rc_input_names(channel)
        expect(sorted(want) or None, sorted(got) if got is not None else None, f'names of channel {channel}')
        ctx.outcome((channel, got))
        ctx.executions += 1


# ------------------------------------------------------------ levels of logged strings

LEVELS = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG']


def gen_levels(_tier):
    yield from range(256)


def run_levels(level, ctx):
    u = ULog(stream(encode([('L', level, 5, 'x'), ('C', level, 3, 6, 'y')])))
    want = LEVELS[level - 48] if 48 <= level < 56 else 'UNKNOWN'
    expect(want, u.logged_messages[0].log_level_str(), f'level {level}')
    expect(want, u.logged_messages_tagged[3][0].log_level_str(), f'level {level} of a tagged message')
    expect(observe(u)['logged'], [(level, 5, 'x')], 'logged string')
    ctx.executions += 1
    ctx.outcome(want)


def families():
    return [
        Family('angles', gen_angles, run_angles, 'grid of attitudes'),
        Family('topics', gen_topics, run_topics, 'attitude topics x sources'),
        Family('chosen', gen_chosen, run_chosen, 'lists of topics'),
        Family('types', gen_types, run_types, 'vehicle types x estimators'),
        Family('rc', gen_rc, run_rc, 'RC mappings'),
        Family('levels', gen_levels, run_levels, 'log levels'),
    ]
