""" Running command line entry points, and the model's view of exported values. """
import contextlib
import io
import math
import os
import shutil
import struct
import sys
from .engine import Violation
from .model import text
from .ulg import BASIC


def cli(main, *argv):
    """ (standard output, exit status or None) of a command line entry point, run in this process """
    out, saved, code = io.StringIO(), sys.argv, None
    sys.argv = ['prog'] + [str(a) for a in argv]
    try:
        with contextlib.redirect_stdout(out):
            main()
    except SystemExit as e:
        code = e.code
    finally:
        sys.argv = saved
    return out.getvalue(), code


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as out:
        yield out


def scratch(ctx, name='work'):
    """ a new empty directory """
    d = os.path.join(ctx.tmp, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)
    return path


def raw(topic, row, field):
    """ bytes of a field in one sample of a model topic """
    i = [f for f, _ in topic.fields].index(field)
    return row[topic.offsets[i]:topic.offsets[i] + BASIC[topic.fields[i][1]][1]]


def value(typ, b):
    if typ == 'char':
        return b[0]
    return struct.unpack('<' + BASIC[typ][0], b)[0]


def same(typ, b, got):
    """ is `got`, a number or its text, exactly the value of a field with the bytes b """
    want = value(typ, b)
    try:
        if typ in ('float', 'double'):
            got = float(got)
            if math.isnan(want) or math.isnan(got):
                return math.isnan(want) and math.isnan(got)
            return struct.pack('<' + BASIC[typ][0], got) == b
        if isinstance(got, str) and got in ('True', 'False'):
            got = got == 'True'
        if int(got) != got and not isinstance(got, str):
            return False
        if typ == 'char':
            return int(got) in (want, want - 256)
        if typ == 'bool':
            return int(got) in (b[0], b[0] - 256)
        return int(got) == want
    except (ValueError, OverflowError, struct.error):
        return False


def export_columns(topic, strings):
    """ [(column, [flat fields] of a string or None, type)] with the time stamp first """
    out, seen = [], {}
    for f, t in topic.fields:
        if strings and f.startswith('_padding'):
            continue
        if strings and t == 'char' and f.endswith(']'):
            base = f[:f.rindex('[')]
            if base not in seen:
                seen[base] = []
                out.append((base, seen[base], t))
            seen[base].append(f)
        else:
            out.append((f, None, t))
    return [c for c in out if c[0] == 'timestamp'] + [c for c in out if c[0] != 'timestamp']


def string(topic, row, fields):
    return text(b''.join(raw(topic, row, f) for f in fields).split(b'\0')[0])


def window(topic, start, end):
    """ samples with start <= time < end, in seconds; 0 and None are no limit """
    out = []
    for row in topic.rows:
        ts, = struct.unpack_from('<Q', row, topic.ts_off)
        if (not start or ts >= start * 1000000) and (not end or ts < end * 1000000):
            out.append(row)
    return out


def require(cond, message):
    if not cond:
        raise Violation(message)
