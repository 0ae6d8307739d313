"""
C27: loading or exporting a log is independent of everything else the process does.

Sequences: after any sequence of other operations (also failing ones, and changes to the returned
containers) an operation gives its own result.  Threads: two operations run at the same time, on objects of
their own; all interleavings up to a preemption bound are executed with a scheduling point at every line of
the code in pyulog.
"""
import io
import itertools
import os
import re
import struct
import sys
import tempfile
import types
from unittest import mock
from checks import c24
from pyulog import ULog, extract_gps_dump, info as info_tool, params, ulog2csv, ulog2kml
from pyulog.db import DatabaseULog
from pyulog.extract_message import extract_message
from pyulog.px4 import PX4ULog
from vlib import dbtools, sched
from vlib.alpha import F, FA, FB, FC, FN, cstr, da, db, dc, seqs, stream
from vlib.cli import cli, put, quiet, scratch
from vlib.engine import Family, Violation, expect
from vlib.model import diff, observe, run
from vlib.ulg import decode, encode, header

ID, LEVEL = 'C27', 'model_checking'
RULE = ('every sequence of operations, and every schedule of two threads up to the preemption bound; outcomes are distinct '
        'results')
ASSUMPTIONS = ['threads switch between lines of the code in pyulog, each thread uses objects of its own']

BAD = b'caf\xe9 \xff'
GOOD = [FN, FA, FB, ('I', 'int32_t', 'k', 5), cstr('sys_name', 'PX4'), ('P', 'float', 'P1', 0.5), ('A', 0, 0, 'a'), ('A', 0, 2, 'b'),
        da(0, 10, 1.0), db(2, 1, 11), ('L', 54, 12, 'good'), ('O', 3), ('P', 'float', 'P1', 1.5), da(0, 13, 2.0)]
TEXT = [FN, FA, FC, cstr('name', BAD), cstr('ver', b'x\xc3\xa9'), ('P', 'int32_t', 'P2', 7), ('A', 1, 0, 'c'), ('A', 0, 7, 'a'),
        ('L', 52, 5, BAD), ('C', 51, 2, 6, BAD), dc(0, 8, b'\xff\xfe\0\0'), da(7, 9, 3.0), ('M', 'char[3]', 'm', b'\xe9ab', 0)]
FLAG = [('B', (1,) + (0,) * 7, (0,) * 8, (0, 0, 0)), FA, ('Q', 3, 'int32_t', 'P3', 1), ('A', 2, 4, 'a'), da(4, 100, 9.0),
        ('D', 77, b'nobody'), da(4, 101, 8.0)]
# data of ids, and a subscription of a format, that only other logs define
LACK = [FA, ('A', 0, 9, 'a'), da(9, 5, 1.0)]
LACKS = {f'lack {i}': LACK + [m] for i, m in enumerate([da(0, 6, 2.0), da(4, 6, 2.0), db(2, 1, 6), ('A', 0, 8, 'b'), ('A', 0, 8, 'c')])}
# short ones for the threads
GOOD2 = [FA, cstr('k', 'v'), ('P', 'float', 'P', 0.5), ('A', 0, 0, 'a'), ('L', 54, 12, 'good'), da(0, 10, 1.0), ('D', 9, b'xx')]
TEXT2 = [FB, cstr('k', BAD), ('A', 1, 0, 'b'), db(0, 1, 11), ('C', 51, 2, 6, BAD), ('P', 'int32_t', 'Q', 1)]
LOGS = {'good': GOOD, 'text': TEXT, 'flag': FLAG, 'good2': GOOD2, 'text2': TEXT2}
BYTES = {n: encode(m, 2) for n, m in LOGS.items()}
REFS = {n: run(m, 2).result() for n, m in LOGS.items()}
HEADERS = {n: run(LOGS[n][:[m[0] for m in LOGS[n]].index('A')], 2).result() for n in LOGS}


def report(u, want):
    d = diff(want, observe(u))
    return 'right' if d is None else d


def op_load(name, **kw):
    def op(_ctx):
        u = ULog(stream(BYTES[name]), disable_str_exceptions=True, **kw)
        return report(u, REFS[name])
    return op, 'right'


def op_lack(_name):
    """ what a log does not define stays undefined """
    want = dict(run(LACK, 2).result(), corrupt=True)

    def op(_ctx):
        for n, m in LACKS.items():
            d = diff(want, observe(ULog(stream(encode(m, 2)))))
            if d:
                return f'{n}: {d}'
        return 'right'
    return op, 'right'


def op_strict(name):
    def op(_ctx):
        try:
            u = ULog(stream(BYTES[name]), None, False)
        except UnicodeDecodeError:
            return 'UnicodeDecodeError'
        return report(u, REFS[name])
    return op, 'UnicodeDecodeError' if name.startswith('text') else 'right'


def op_header(name):
    def op(_ctx):
        return report(ULog(stream(BYTES[name]), parse_header_only=True), HEADERS[name])
    return op, 'right'


def op_filter(name, names):
    want = run(LOGS[name], 2).result(names)

    def op(_ctx):
        u = ULog(stream(BYTES[name]), names)
        d = diff(want, observe(u), ('last', 'dropouts', 'changed'))
        return 'right' if d is None else d
    return op, 'right'


def op_write(name):
    def op(_ctx):
        u = ULog(stream(BYTES[name]))
        out = io.BytesIO()
        u.write_ulog(out)
        decode(out.getvalue())
        return 'right' if ULog(stream(out.getvalue())) == u else 'different when loaded again'
    return op, 'right'


def op_broken(_name):
    def op(_ctx):
        try:
            ULog(stream(header()[:9]))
        except TypeError:
            return 'TypeError'
        return 'loaded'
    return op, 'TypeError'


def spoil(value, seen):
    """ empties a container and everything it holds """
    if id(value) in seen:
        return
    seen.add(id(value))
    if isinstance(value, (dict, list)):
        for v in list(value.values() if isinstance(value, dict) else value):
            spoil(v, seen)
        value.clear()
    elif type(value).__module__.startswith('pyulog'):
        for v in list(vars(value).values()):
            spoil(v, seen)


def op_scribble(name):
    """ changes everything an object returns """
    def op(_ctx):
        u = ULog(stream(BYTES[name]))
        out = report(u, REFS[name])
        u.msg_info_dict['sys_name'] = 'changed'
        u.msg_info_multiple_dict['m'] = [['changed']]
        u.initial_parameters['P1'] = -1
        u.changed_parameters.append((1, 'x', 2))
        u.logged_messages.clear()
        u.logged_messages_tagged[9] = []
        u.dropouts.append(u)
        u.get_default_parameters(0)['P3'] = 99
        for d in u.data_list:
            d.data['timestamp'][:] = 0
            d.field_data.clear()
            d.data.clear()
        for value in (u.message_formats, u.msg_info_dict, u.msg_info_multiple_dict, u.initial_parameters, u.changed_parameters,
                      u.logged_messages_tagged, u.data_list, u.dropouts, u.logged_messages):
            spoil(value, {id(u)})
        return out
    return op, 'right'


def op_database(name):
    def op(ctx):
        handle = DatabaseULog.get_db_handle(dbtools.fresh_path(ctx, f'iso{name}.sqlite3'))
        u = DatabaseULog(handle, log_file=stream(BYTES[name]))
        u.save()
        v = DatabaseULog(handle, primary_key=u.primary_key, lazy=False)
        d = diff(REFS[name], observe(v), ('corrupt',))
        return 'right' if d is None else d
    return op, 'right'


def op_extract(name):
    def op(ctx):
        path = os.path.join(scratch(ctx, f'ext{name}'), 'log.ulg')
        with open(path, 'wb') as f:
            f.write(BYTES[name])
        for n in (name, 'good2', name):      # the file is replaced in between
            with open(path, 'wb') as f:
                f.write(BYTES[n])
            records = extract_message(path, 'a')
            got = [(int(r['timestamp']), float(r['x'])) for r in records]
            if got != {'good': [(10, 1.0), (13, 2.0)], 'good2': [(10, 1.0)]}[n]:
                return repr(got)
            spoil(records, set())
        return 'right'
    return op, 'right'


OPS = {
    'load good': op_load('good'), 'load text': op_load('text'), 'load flag': op_load('flag'), 'strict good': op_strict('good'),
    'strict text': op_strict('text'), 'header text': op_header('text'), 'filter good': op_filter('good', ['b']),
    'write text': op_write('text'), 'write good': op_write('good'), 'broken': op_broken(''), 'scribble good': op_scribble('good'),
    'scribble flag': op_scribble('flag'), 'lack': op_lack(''), 'database text': op_database('text'), 'extract good': op_extract('good'),
}


def call(name, ctx, ops=None):
    op, want = (ops or OPS)[name]
    ctx.executions += 1
    got = op(ctx)
    ctx.outcome((name, got))
    return want, got


# ------------------------------------------------------------ sequences

def gen_seqs(tier):
    yield from seqs(list(OPS), 3 if tier == 'quick' else 4, 1)


def run_seqs(s, ctx):
    done = []
    for name in s:
        want, got = call(name, ctx)
        expect(want, got, f'{name} after {done}')
        done.append(name)
        ctx.state(tuple(done))
        ctx.transitions += 1


# ------------------------------------------------------------ tools

TRACK = [F('pos', 'uint64_t timestamp', 'double lat', 'double lon', 'float alt'), F('cam', 'uint64_t timestamp', 'double lat', 'double lon', 'float alt', 'uint32_t seq'),
         F('vehicle_status', 'uint64_t timestamp', 'uint8_t nav_state'),
         F('gps_dump', 'uint64_t timestamp', 'uint8_t instance', 'uint8_t len', 'uint8_t[4] data'),
         F('vehicle_attitude', 'uint64_t timestamp', 'float[4] q'), cstr('sys_name', 'PX4'), ('I', 'uint32_t', 'ver_sw_release', 0x010203ff),
         ('P', 'int32_t', 'RC_MAP_ROLL', 1), ('P', 'int32_t', 'MAV_TYPE', 2), ('Q', 3, 'float', 'A', 1.5), ('P', 'float', 'A', 2.5)] + \
    [('A', 0, i, n) for i, n in enumerate(('pos', 'cam', 'vehicle_status', 'gps_dump', 'vehicle_attitude'))] + \
    [m for k in range(4) for m in (
        ('D', 0, struct.pack('<Qddf', 1000000 * k + 1, k / 2, k / 4, 7.0 * k)), ('D', 1, struct.pack('<QddfI', 1000000 * k + 2, k / 2, k / 4, 3.0 * k, k)),
        ('D', 2, struct.pack('<QB', 1000000 * k + 3, (3, 4, 4, 2)[k])), ('D', 3, struct.pack('<QBB4s', k + 1, k & 1, k | k << 6 & 128, bytes(range(k, k + 4)))),
        ('D', 4, struct.pack('<Q4f', k + 1, 1.0, k / 8, 0.25, 0.0)), ('L', 54, 1000000 * k + 4, f'text {k}'), ('P', 'float', 'A', k / 2), ('O', k))]
TOOL_LOGS = dict(BYTES, track=encode(TRACK, 2), none=encode([FA, ('L', 48, 5, 'nothing')], 2))


def relabel(text, d):
    """ without the directory, and with ids of KML objects by first use (simplekml numbers them per process) """
    ids = {}
    return re.sub(r'(?<=id=")(\w*?)\d+(?=")|(?<=<styleUrl>#)(\w*?)\d+', lambda m: str(ids.setdefault(m[0], len(ids))), text).replace(d, 'DIR')


def tool(main, log, *argv):
    """ output, status and files of a command """
    def op(ctx):
        d = scratch(ctx, 'tool')
        path = put(os.path.join(d, 'log.ulg'), TOOL_LOGS[log])
        try:
            out, code = cli(main, path, *[a.replace('DIR', d) for a in argv])
        except Exception as e:     # pylint: disable=broad-except
            out, code = '', f'{type(e).__name__}: {e}'
        files = {}
        for n in sorted(os.listdir(d)):
            with open(os.path.join(d, n), 'rb') as f:
                files[n] = f.read()
        return relabel(repr((out, code, files)), d)
    return op


def tool_events(ctx):
    messages, _ = c24.modules()
    with mock.patch('urllib.request.OpenerDirector.open', side_effect=OSError('no network')):
        return tool(messages.main, 'track')(ctx) + tool(messages.main, 'text')(ctx)


def tool_px4(ctx):
    out = []
    for n in ('track', 'good', 'track'):
        p = PX4ULog(ULog(stream(TOOL_LOGS[n])))
        p.add_roll_pitch_yaw()
        out.append((p.get_mav_type(), p.get_estimator(), p.get_configured_rc_input_names(0),
                    [(d.name, {k: v.tolist() for k, v in d.data.items()}) for d in p._ulog.data_list]))
    ctx.executions += 1
    return repr(out)


def tool_kml_lists(ctx):
    """ the arguments stay as they are """
    d = scratch(ctx, 'tool')
    path, out = put(os.path.join(d, 'log.ulg'), TOOL_LOGS['track']), os.path.join(d, 'out.kml')
    names, style = ['pos', 'cam'], {'line_width': 5}
    colors = [lambda m: 'ff00%02x00' % (m & 255)] * 2
    with quiet():
        ulog2kml.convert_ulog2kml(path, out, names, colors, style=style, camera_trigger_topic_name='cam')
        ulog2kml.convert_ulog2kml(path, out + '2', names[0])
    with open(out, encoding='utf-8') as f, open(out + '2', encoding='utf-8') as g:
        return relabel(repr((names, style, len(colors))) + f.read() + g.read(), d)


TOOLS = {
    'csv track': tool(ulog2csv.main, 'track'), 'csv text': tool(ulog2csv.main, 'text', '-m', 'a,c', '-d', ';', '-i'),
    'csv strict': tool(ulog2csv.main, 'text'), 'csv window': tool(ulog2csv.main, 'track', '-ts', '1', '-te', '3', '-o', 'DIR'),
    'kml': tool(ulog2kml.main, 'track', '-o', 'DIR/x.kml', '--topic', 'pos', '--camera-trigger', 'cam'),
    'kml none': tool(ulog2kml.main, 'none', '-o', 'DIR/x.kml', '--topic', 'pos'), 'kml lists': tool_kml_lists,
    'params': tool(params.main, 'track', '-t', '-f', 'csv'), 'params initial': tool(params.main, 'track', '-i', '-f', 'octave'),
    'info': tool(info_tool.main, 'track', '-v'), 'info text': tool(info_tool.main, 'text', '-i'), 'dump': tool(extract_gps_dump.main, 'track', '-o', 'DIR'),
    'dump none': tool(extract_gps_dump.main, 'none'), 'messages': tool_events, 'px4': tool_px4,
}


def first_results():
    """ the result of every tool in a process of its own that did nothing before """
    out = {}
    for name, op in TOOLS.items():
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                with tempfile.TemporaryDirectory() as tmp:
                    res = op(types.SimpleNamespace(tmp=tmp, executions=0))
            except BaseException as e:      # pylint: disable=broad-except
                res = f'{type(e).__name__}: {e}'
            try:
                os.close(r)
                with os.fdopen(w, 'wb') as f:
                    f.write(res.encode('utf-8', 'surrogateescape'))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            out[name] = f.read().decode('utf-8', 'surrogateescape')
        os.waitpid(pid, 0)
    return out


FIRST = first_results()
MIX = ('strict text', 'scribble good', 'broken')


def gen_tools(tier):
    yield from seqs(list(TOOLS) + list(MIX), 3 if tier == 'quick' else 4, 1)


def run_tools(s, ctx):
    done = []
    for name in s:
        if name in TOOLS:
            ctx.executions += 1
            got = TOOLS[name](ctx)
            expect(FIRST[name], got, f'{name} after {done}')
            ctx.outcome(got)
        else:
            expect(*call(name, ctx), f'{name} after {done}')
        done.append(name)
        ctx.state(tuple(done))
        ctx.transitions += 1


# ------------------------------------------------------------ threads

THREADS = {
    'load good': op_load('good2'), 'load text': op_load('text2'), 'strict good': op_strict('good2'),
    'strict text': op_strict('text2'), 'header text': op_header('text2'), 'filter good': op_filter('good2', ['b']),
    'write text': op_write('text2'),
}
PKG = os.path.dirname(os.path.abspath(sys.modules['pyulog'].__file__)) + os.sep
PARTS = 4
DEEP = [('strict text', 'load text'), ('load good', 'header text')]


def execute(names, choices, ctx):
    results = [None] * len(names)

    def body(i):
        def trace(frame, _event, _arg):
            return line if frame.f_code.co_filename.startswith(PKG) else None

        def line(_frame, event, _arg):
            if event == 'line':
                r.point()
            return line

        def go():
            sys.settrace(trace)
            try:
                results[i] = call(names[i], ctx, THREADS)
            finally:
                sys.settrace(None)
        return go
    r = sched.Run([body(i) for i in range(len(names))], choices)
    r.run()
    ctx.transitions += len(r.points)
    for n, (want, got) in zip(names, results):
        if want != got:
            raise Violation(f'{n} next to {names}, schedule {r.made}: expected {want}, got {got}')
    return r


def gen_threads(tier):
    for pair in itertools.combinations_with_replacement(list(THREADS), 2):
        for start in (0, 1):
            for part in range(PARTS):
                yield pair, 1, start, part
    if tier != 'quick':
        for start in (0, 1, 2):
            for part in range(64):
                yield ('strict text', 'load good', 'load text'), 1, start, part
        for pair in DEEP:
            for start in (0, 1):
                for part in range(256):
                    yield pair, 2, start, part


def run_threads(case, ctx):
    names, bound, start, part = case
    parts = PARTS if bound == 1 and len(names) == 2 else 64 if bound == 1 else 256
    with quiet():
        execute(names, (), ctx)     # imports and caches
        ctx.count('schedules', sched.explore(lambda c: execute(names, c, ctx), bound, lambda i: i % parts == part, (start,)))


# ------------------------------------------------------------ mixed use of objects

def gen_objects(tier):
    yield from itertools.product(itertools.permutations(('good', 'text', 'flag')), range(8))


def run_objects(case, ctx):
    """ objects stay as they are while others are loaded, written, compared and changed """
    order, bits = case
    objs = [ULog(stream(BYTES[n]), None, True) for n in order]
    for k, n in enumerate(order):
        if bits >> k & 1:
            op_scribble(n)[0](ctx)
            objs[k].write_ulog(io.BytesIO())
            for o in objs:
                _ = objs[k] == o
            try:
                ULog(stream(BYTES['text']), None, False)
            except UnicodeDecodeError:
                pass
    for n, o in zip(order, objs):
        expect('right', report(o, REFS[n]), f'object of {n}')
        ctx.executions += 1
        ctx.outcome(observe(o))
    ctx.state(case)


def families():
    return [
        Family('sequences', gen_seqs, run_seqs, f'sequences of {len(OPS)} operations'),
        Family('objects', gen_objects, run_objects, 'objects that live together'),
        Family('tools', gen_tools, run_tools, f'sequences of {len(TOOLS)} commands and conversions, against those of a fresh process'),
        Family('threads', gen_threads, run_threads, 'pairs of operations in two threads, preemption at every line'),
    ]
