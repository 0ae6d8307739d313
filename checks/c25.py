"""
C25: a converted ROS 2 bag holds every convertible sample, under the right topic, type, time and values.

ROS 2 is not installed: stand-ins for its serialisation, bag writer and message package record the calls.
The message types behave like generated ones: the fields have fixed types and refuse other values.
"""
import contextlib
import importlib
import importlib.metadata
import io
import itertools
import os
import struct
import sys
import types
from unittest import mock
import numpy as np
from checks.c18 import SEC
from vlib.alpha import F, VALUES
from vlib.cli import cli, put, require, same, scratch, value
from vlib.engine import Family, Violation, expect
from vlib.model import run
from vlib.ulg import BASIC, encode

ID, LEVEL = 'C25', 'model_checking'
RULE = 'every case of the stated spaces, converted with recording stand-ins; outcomes are distinct bags'
ASSUMPTIONS = ['ROS 2, its serialisation and px4_msgs are replaced by stand-ins that record what they are given',
               'time stamps fit in 64 bits as nanoseconds']

NP = {'int8': np.int8, 'uint8': np.uint8, 'int16': np.int16, 'uint16': np.uint16, 'int32': np.int32,
      'uint32': np.uint32, 'int64': np.int64, 'uint64': np.uint64, 'float': np.float32, 'double': np.float64}
ROS = {'int8_t': 'int8', 'uint8_t': 'uint8', 'int16_t': 'int16', 'uint16_t': 'uint16', 'int32_t': 'int32',
       'uint32_t': 'uint32', 'int64_t': 'int64', 'uint64_t': 'uint64', 'float': 'float', 'double': 'double',
       'bool': 'boolean', 'char': 'uint8'}


def make_type(name, fields):
    """ a message class: fields [(ulog type, array size, name)] """
    spec = {n: (ROS[t], size) for t, size, n in fields}

    class Msg:
        def __init__(self):
            for n, (t, size) in spec.items():
                if size:
                    object.__setattr__(self, n, [False] * size if t == 'boolean' else np.zeros(size, NP[t]))
                else:
                    object.__setattr__(self, n, False if t == 'boolean' else 0.0 if t in ('float', 'double') else 0)

        @classmethod
        def get_fields_and_field_types(cls):
            return {n: f'{t}[{size}]' if size else t for n, (t, size) in spec.items()}

        def __setattr__(self, n, v):
            t, size = spec[n]
            if size:
                raise AssertionError('arrays are set by element')
            if t == 'boolean':
                assert isinstance(v, bool), (n, v)
            elif t in ('float', 'double'):
                assert isinstance(v, float), (n, v)
            else:
                info = np.iinfo(NP[t])
                assert isinstance(v, int) and info.min <= v <= info.max, (n, v)
            object.__setattr__(self, n, v)

    Msg.__name__ = name
    return Msg


class Bag:
    """ everything the converter did with the bag """

    def __init__(self):
        self.opened, self.topics, self.messages, self.closed = None, [], [], 0


def load_module(bag, version, msgs):
    """ pyulog.ulog2ros2bag with stand-ins for ROS 2 """
    rosbag, rclpy, ser = (types.ModuleType(n) for n in ('rosbag2_py', 'rclpy', 'rclpy.serialization'))
    number = tuple(map(int, version.split('.')[:3]))
    new_meta, new_write = number >= (0, 25, 0), number >= (0, 32, 0)

    class Storage:
        def __init__(self, uri, storage_id):
            self.uri, self.storage_id = uri, storage_id

    class Converter:
        def __init__(self, input_serialization_format, output_serialization_format):
            self.formats = (input_serialization_format, output_serialization_format)

    class Meta:
        def __init__(self, *args, name, type, serialization_format):     # pylint: disable=redefined-builtin
            assert len(args) == (1 if new_meta else 0), args
            self.name, self.type, self.format = name, type, serialization_format

    class Writer:
        def open(self, storage, converter):
            assert bag.opened is None
            bag.opened = (storage.uri, storage.storage_id, converter.formats)

        def create_topic(self, meta):
            assert bag.opened and meta.format == 'cdr'
            bag.topics.append((meta.name, meta.type))

        def write(self, topic, data, stamp, *seq):
            assert len(seq) == (1 if new_write else 0), seq
            assert isinstance(stamp, int) and topic in [t for t, _ in bag.topics], topic
            bag.messages.append((topic, stamp, data))

        def close(self):
            bag.closed += 1

    rosbag.SequentialWriter, rosbag.StorageOptions = Writer, Storage
    rosbag.ConverterOptions, rosbag.TopicMetadata = Converter, Meta

    def serialize(m):
        """ a copy of the values """
        out = {}
        for n in m.get_fields_and_field_types():
            v = getattr(m, n)
            out[n] = v.copy() if hasattr(v, 'copy') else v
        return type(m).__name__, out
    ser.serialize_message = serialize
    rclpy.serialization = ser
    pkg, sub = types.ModuleType('px4_msgs'), types.ModuleType('px4_msgs.msg')
    for name, fields in msgs.items():
        setattr(sub, name, make_type(name, fields))
    pkg.msg = sub
    sys.modules.pop('pyulog.ulog2ros2bag', None)
    fakes = {'rosbag2_py': rosbag, 'rclpy': rclpy, 'rclpy.serialization': ser, 'px4_msgs': pkg, 'px4_msgs.msg': sub}
    sys.modules.update(fakes)
    try:
        mod = importlib.import_module('pyulog.ulog2ros2bag')
    finally:
        for n in fakes:
            del sys.modules[n]
    patch = mock.patch.object(mod, 'version', lambda name: version) if hasattr(mod, 'version') else \
        mock.patch('importlib.metadata.version', lambda name: version)
    return mod, patch


def check_bag(log, ctx, types_, expected, *argv, version='0.26.0', names=None, uri=None, storage='sqlite3'):
    """ expected: {ulog topic name: message type name or None if it cannot be converted} """
    ref = run(log)
    path = put(os.path.join(scratch(ctx), 'log.ulg'), encode(log))
    bag = Bag()
    mod, patch = load_module(bag, version, types_)
    with patch:
        _, code = cli(mod.main, path, *argv)
    require(not code, f'exit status {code}')
    ctx.executions += 1
    ctx.transitions += len(log)
    expect((uri or 'rosbag_log', storage, ('cdr', 'cdr')), bag.opened, 'bag')
    expect(1, bag.closed, 'number of times the bag is closed')
    topics = [t for t in ref.topics.values() if t.rows and (names is None or t.name in names)]
    want = {}
    for t in topics:
        if expected.get(t.name):
            alone = [x.multi_id for x in topics if x.name == t.name] == [0]
            want[f'/px4/{t.name}' + ('' if alone else f'_{t.multi_id}')] = t
    expect(sorted((n, f'px4_msgs/msg/{expected[t.name]}') for n, t in want.items()), sorted(bag.topics), 'topics')
    expect(sum(len(t.rows) for t in want.values()), len(bag.messages), 'number of messages')
    for name, t in want.items():
        got = [(stamp, m) for topic, stamp, m in bag.messages if topic == name]
        expect(len(t.rows), len(got), f'number of messages of {name}')
        spec = {n: (typ, size) for typ, size, n in types_[expected[t.name]]}
        for k, (row, (stamp, (cls, values))) in enumerate(zip(t.rows, got)):
            ts, = struct.unpack_from('<Q', row, t.ts_off)
            expect(ts * 1000, stamp, f'time of message {k} of {name}')
            expect(expected[t.name], cls, f'type of message {k} of {name}')
            used = set()
            for (f, typ), off in zip(t.fields, t.offsets):
                b = row[off:off + BASIC[typ][1]]
                base, _, idx = f.partition('[')
                v = values[base][int(idx[:-1])] if idx else values[base]
                used.add((base, int(idx[:-1]) if idx else None))
                ok = v == value('char', b) if typ == 'char' else \
                    v == (b != b'\0') if spec[base][0] == 'bool' else same(typ, b, v)
                require(ok, f'{f} of message {k} of {name}: expected {typ} {b!r}, got {v!r}')
            for base, (typ, size) in spec.items():      # fields that are not in the log keep their default
                for i in range(size) if size else (None,):
                    if (base, i) not in used:
                        v = values[base] if i is None else values[base][i]
                        require(v == 0, f'{base} of message {k} of {name}: expected the default, got {v!r}')
    ctx.outcome((bag.opened, bag.topics, [(n, s, m[0], sorted((k, str(v)) for k, v in m[1].items()))
                                          for n, s, m in bag.messages]))
    ctx.state(sorted((n, t.rows) for n, t in want.items()))
    return bag


# ------------------------------------------------------------ values

def gen_values(_tier):
    for t in BASIC:
        for n in (0, 1, 2, 12):
            yield t, n


def run_values(case, ctx):
    t, n = case
    fields = [('uint64_t', 0, 'timestamp'), (t, n, 'value'), ('bool', 0, 'flag'), ('int8_t', 0, 'small')]
    log = [('F', 'my_topic', tuple(fields)), ('A', 0, 3, 'my_topic')]
    code = {'char': 'c', 'bool': '?'}.get(t, BASIC[t][0])
    vals = VALUES[t]
    for k in range(len(vals)):
        row = [vals[(k + i) % len(vals)] for i in range(n or 1)]
        log.append(('D', 3, struct.pack(f'<Q{n or 1}{code}?b', k * SEC, *row, k % 2, -k)))
    types_ = {'MyTopic': fields + [('float', 0, 'later'), ('bool', 3, 'later2')]}
    check_bag(log, ctx, types_, {'my_topic': 'MyTopic'})


# ------------------------------------------------------------ instances, order, filters, options

def gen_topics(tier):
    subs = [(m, n) for n in ('aa', 'aa_b', 'cc') for m in (0, 1, 10)]
    for k in range(0, 5 if tier == 'quick' else 6):
        yield from itertools.permutations(subs, k)


def run_topics(s, ctx):
    names = ['aa', 'aa_b', 'cc']
    camel = {'aa': 'Aa', 'aa_b': 'AaB', 'cc': 'Cc'}
    fields = {n: [('uint64_t', 0, 'timestamp'), ('uint16_t', 2, f'f{i}')] for i, n in enumerate(names)}
    log = [('F', n, tuple(f)) for n, f in fields.items()] + [('A', m, i, n) for i, (m, n) in enumerate(s)]
    for k in range(3):
        log += [('D', i, struct.pack('<QHH', k * 10 + i, i, k)) for i in range(len(s)) if (i + k) % 4 != 3]
    types_ = {camel[n]: f for n, f in fields.items()}
    types_['Cc'] = [x for x in types_['Cc'] if x[2] == 'timestamp'] if len(s) == 2 else types_['Cc']
    want = {'aa': 'Aa', 'aa_b': 'AaB', 'cc': None if len(s) == 2 else 'Cc'}
    check_bag(log, ctx, types_, want)
    for f in (['aa'], ['aa_b', 'cc'], ['cc', 'nope']):
        check_bag(log, ctx, types_, want, '-m', ','.join(f), '-v', names=f)


def gen_options(_tier):
    for version in ('0.3.11', '0.9.2', '0.15.9', '0.24.9', '0.25.0', '0.26.4', '0.31.9', '0.32.0', '0.33.1', '0.100.0', '1.0.0'):
        for out in (None, 'mybag', '/somewhere/b.ulg'):
            for mcap in (False, True):
                for verbose in (False, True):
                    yield version, out, mcap, verbose


def run_options(case, ctx):
    version, out, mcap, verbose = case
    fields = [('uint64_t', 0, 'timestamp'), ('float', 3, 'x')]
    log = [('F', 'my_topic', tuple(fields)), ('F', 'nested', (('my_topic', 0, 'in'), ('uint64_t', 0, 'timestamp'))),
           F('unknown_type', 'uint64_t timestamp'), F('other_fields', 'uint64_t timestamp', 'uint8_t q', 'uint8_t r')]
    log += [('A', 0, i, f[1]) for i, f in enumerate(log)]
    log += [('D', 0, struct.pack('<Q3f', 5, 1, 2, 3)), ('D', 1, bytes(28)), ('D', 2, bytes(8)), ('D', 3, bytes(10)),
            ('D', 0, struct.pack('<Q3f', 2**64 // 1000 - 1, -1, 0, 3))]
    types_ = {'MyTopic': fields[::-1], 'Nested': [('uint64_t', 0, 'timestamp')],
              'OtherFields': [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'q')]}
    argv = (['-o', out] if out else []) + (['--mcap'] if mcap else []) + (['-v'] if verbose else [])
    check_bag(log, ctx, types_, {'my_topic': 'MyTopic'}, *argv, version=version, uri=out,
              storage='mcap' if mcap else 'sqlite3')


# ------------------------------------------------------------ message types of topics

# topic -> type, from the message definitions of PX4 (types that serve several topics)
KNOWN = {
    'actuator_controls_status_0': 'ActuatorControlsStatus', 'actuator_controls_status_1': 'ActuatorControlsStatus',
    'actuator_outputs': 'ActuatorOutputs', 'actuator_outputs_sim': 'ActuatorOutputs',
    'actuator_outputs_debug': 'ActuatorOutputs', 'config_overrides': 'ConfigOverrides',
    'config_overrides_request': 'ConfigOverrides',
    'estimator_aid_src_ev_yaw': 'EstimatorAidSource1d', 'estimator_aid_src_gnss_yaw': 'EstimatorAidSource1d',
    'estimator_aid_src_fake_hgt': 'EstimatorAidSource1d', 'estimator_aid_src_airspeed': 'EstimatorAidSource1d',
    'estimator_aid_src_sideslip': 'EstimatorAidSource1d', 'estimator_aid_src_baro_hgt': 'EstimatorAidSource1d',
    'estimator_aid_src_ev_hgt': 'EstimatorAidSource1d', 'estimator_aid_src_gnss_hgt': 'EstimatorAidSource1d',
    'estimator_aid_src_rng_hgt': 'EstimatorAidSource1d',
    'estimator_aid_src_drag': 'EstimatorAidSource2d', 'estimator_aid_src_aux_vel': 'EstimatorAidSource2d',
    'estimator_aid_src_optical_flow': 'EstimatorAidSource2d', 'estimator_aid_src_ev_pos': 'EstimatorAidSource2d',
    'estimator_aid_src_fake_pos': 'EstimatorAidSource2d', 'estimator_aid_src_gnss_pos': 'EstimatorAidSource2d',
    'estimator_aid_src_aux_global_position': 'EstimatorAidSource2d',
    'estimator_aid_src_ev_vel': 'EstimatorAidSource3d', 'estimator_aid_src_gnss_vel': 'EstimatorAidSource3d',
    'estimator_aid_src_gravity': 'EstimatorAidSource3d', 'estimator_aid_src_mag': 'EstimatorAidSource3d',
    'estimator_ev_pos_bias': 'EstimatorBias3d', 'estimator_baro_bias': 'EstimatorBias',
    'estimator_gnss_hgt_bias': 'EstimatorBias', 'estimator_innovations': 'EstimatorInnovations',
    'estimator_innovation_variances': 'EstimatorInnovations',
    'estimator_innovation_test_ratios': 'EstimatorInnovations', 'px4io_status': 'Px4ioStatus',
    'vehicle_gps_position': 'SensorGps', 'sensors_status_baro': 'SensorsStatus', 'sensors_status_mag': 'SensorsStatus',
    'vehicle_angular_velocity': 'VehicleAngularVelocity',
    'vehicle_angular_velocity_groundtruth': 'VehicleAngularVelocity',
    'vehicle_attitude': 'VehicleAttitude', 'vehicle_attitude_groundtruth': 'VehicleAttitude',
    'estimator_attitude': 'VehicleAttitude', 'external_ins_attitude': 'VehicleAttitude',
    'vehicle_attitude_setpoint': 'VehicleAttitudeSetpoint', 'mc_virtual_attitude_setpoint': 'VehicleAttitudeSetpoint',
    'fw_virtual_attitude_setpoint': 'VehicleAttitudeSetpoint', 'vehicle_command': 'VehicleCommand',
    'gimbal_v1_command': 'VehicleCommand', 'vehicle_command_mode_executor': 'VehicleCommand',
    'vehicle_control_mode': 'VehicleControlMode', 'config_control_setpoints': 'VehicleControlMode',
    'vehicle_global_position': 'VehicleGlobalPosition', 'vehicle_global_position_groundtruth': 'VehicleGlobalPosition',
    'estimator_global_position': 'VehicleGlobalPosition', 'aux_global_position': 'VehicleGlobalPosition',
    'external_ins_global_position': 'VehicleGlobalPosition',
    'vehicle_local_position': 'VehicleLocalPosition', 'vehicle_local_position_groundtruth': 'VehicleLocalPosition',
    'estimator_local_position': 'VehicleLocalPosition', 'external_ins_local_position': 'VehicleLocalPosition',
    'vehicle_odometry': 'VehicleOdometry', 'vehicle_mocap_odometry': 'VehicleOdometry',
    'vehicle_visual_odometry': 'VehicleOdometry', 'estimator_odometry': 'VehicleOdometry',
    'vehicle_optical_flow_vel': 'VehicleOpticalFlowVel', 'estimator_optical_flow_vel': 'VehicleOpticalFlowVel',
    'vehicle_thrust_setpoint': 'VehicleThrustSetpoint',
    'vehicle_thrust_setpoint_virtual_mc': 'VehicleThrustSetpoint',
    'vehicle_torque_setpoint': 'VehicleTorqueSetpoint', 'vehicle_torque_setpoint_virtual_fw': 'VehicleTorqueSetpoint',
    'wind': 'Wind', 'estimator_wind': 'Wind',
}
# topics with a type of their own name
OWN = {'sensor_combined': 'SensorCombined', 'battery_status': 'BatteryStatus', 'vehicle_status': 'VehicleStatus',
       'vehicle_command_ack': 'VehicleCommandAck', 'sensor_gps': 'SensorGps', 'vehicle_imu': 'VehicleImu',
       'vehicle_angular_velocity_x': None, 'estimator_bias3d': 'EstimatorBias3D', 'position_setpoint_triplet': 'PositionSetpointTriplet',
       'actuator_controls_status': 'ActuatorControlsStatus', 'vehicle_local_position_setpoint': 'VehicleLocalPositionSetpoint',
       'follow_target': 'FollowTarget', 'rc_channels': 'RcChannels', 'xwind': None, 'winds': None, 'wind_2': None}


def gen_types(_tier):
    for t in list(KNOWN) + list(OWN):
        for have in (True, False):
            yield t, have


def run_types(case, ctx):
    """ the type of a topic if px4_msgs has it (with all other known types), else the topic is left out """
    topic, have = case
    want = KNOWN.get(topic) or OWN.get(topic)
    if topic == 'vehicle_angular_velocity_x':
        want = 'VehicleAngularVelocity'
    fields = [('uint64_t', 0, 'timestamp'), ('float', 0, 'x')]
    names = {v for v in list(KNOWN.values()) + list(OWN.values()) if v}
    types_ = {n: fields for n in names if have or n != want}
    if not have and topic in OWN:
        types_ = {}
    log = [('F', topic, tuple(fields)), ('A', 0, 0, topic), ('D', 0, struct.pack('<Qf', 7, 1.5))]
    check_bag(log, ctx, types_, {topic: want if have else None})


def gen_missing(_tier):
    yield 'missing'


def run_missing(_case, ctx):
    """ without ROS 2 nothing is converted, and the command ends normally """
    path = put(os.path.join(scratch(ctx), 'log.ulg'), encode([]))
    sys.modules.pop('pyulog.ulog2ros2bag', None)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod = importlib.import_module('pyulog.ulog2ros2bag')
        _, code = cli(mod.main, path)
    except Exception as e:
        raise Violation(f'without ROS 2: {e!r}') from e
    finally:
        sys.modules.pop('pyulog.ulog2ros2bag', None)
    require(not code, f'exit status {code}')
    ctx.executions += 1


def families():
    return [
        Family('values', gen_values, run_values, 'types x array sizes x boundary values'),
        Family('topics', gen_topics, run_topics, 'sets of topic instances x filters'),
        Family('options', gen_options, run_options, 'versions of ROS 2 x output x storage; topics that cannot be converted'),
        Family('types', gen_types, run_types, 'topics of PX4 x available message types'),
        Family('missing', gen_missing, run_missing, 'missing ROS 2 packages'),
    ]
