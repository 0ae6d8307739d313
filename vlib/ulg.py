"""
Independent ULog encoder (from the published ULog file format, not from /repo).

A log is a list of abstract messages (tuples); the first element is the message type letter:

  ('B', compat[8], incompat[8], offsets[3])        flag bits
  ('F', name, ((type, array_size, field), ...))    format  (array_size 0: scalar)
  ('I', type, key, value)                          information
  ('M', type, key, value, continued)               multi information
  ('P', type, key, value)                          parameter
  ('Q', bits, type, key, value)                    default parameter
  ('A', multi_id, msg_id, name)                    subscription
  ('R', msg_id)                                    unsubscription
  ('D', msg_id, payload bytes)                     data
  ('L', level, timestamp, text bytes)              logged string
  ('C', level, tag, timestamp, text bytes)         tagged logged string
  ('O', duration)                                  dropout
  ('S',)                                           sync
  ('X', type byte, payload bytes)                  anything else
  ('RAW', bytes)                                   bytes put in the file as they are
"""
import struct

MAGIC = b'\x55\x4c\x6f\x67\x01\x12\x35'
SYNC = b'\x2F\x73\x13\x20\x25\x0C\xBB\x12'

# ULog basic types: struct code, size, kind
BASIC = {
    'int8_t': ('b', 1, 'i'), 'uint8_t': ('B', 1, 'u'),
    'int16_t': ('h', 2, 'i'), 'uint16_t': ('H', 2, 'u'),
    'int32_t': ('i', 4, 'i'), 'uint32_t': ('I', 4, 'u'),
    'int64_t': ('q', 8, 'i'), 'uint64_t': ('Q', 8, 'u'),
    'float': ('f', 4, 'f'), 'double': ('d', 8, 'f'),
    'bool': ('?', 1, 'b'), 'char': ('c', 1, 'c'),
}


def enc(v):
    return v if isinstance(v, bytes) else v.encode('utf-8')


def value_bytes(typ, value):
    """ bytes of an information/parameter value of the given type """
    if isinstance(value, (bytes, bytearray)):
        return bytes(value)
    if isinstance(value, str):
        return value.encode('utf-8')
    return struct.pack('<' + BASIC[typ][0], value)


def body(m):
    """ (type letter as int, payload) of one abstract message """
    k = m[0]
    if k == 'B':
        return 66, bytes(m[1]) + bytes(m[2]) + struct.pack('<QQQ', *m[3])
    if k == 'F':
        s = ''.join((f'{t}[{n}] {f};' if n else f'{t} {f};') for t, n, f in m[2])
        return 70, f'{m[1]}:{s}'.encode()
    if k in ('I', 'P'):
        key = enc(m[1]) + b' ' + enc(m[2])
        return ord(k), struct.pack('<B', len(key)) + key + value_bytes(m[1], m[3])
    if k == 'M':
        key = enc(m[1]) + b' ' + enc(m[2])
        return 77, struct.pack('<BB', m[4], len(key)) + key + value_bytes(m[1], m[3])
    if k == 'Q':
        key = enc(m[2]) + b' ' + enc(m[3])
        return 81, struct.pack('<BB', m[1], len(key)) + key + value_bytes(m[2], m[4])
    if k == 'A':
        return 65, struct.pack('<BH', m[1], m[2]) + enc(m[3])
    if k == 'R':
        return 82, struct.pack('<H', m[1])
    if k == 'D':
        return 68, struct.pack('<H', m[1]) + m[2]
    if k == 'L':
        return 76, struct.pack('<BQ', m[1], m[2]) + enc(m[3])
    if k == 'C':
        return 67, struct.pack('<BHQ', m[1], m[2], m[3]) + enc(m[4])
    if k == 'O':
        return 79, struct.pack('<H', m[1])
    if k == 'S':
        return 83, SYNC
    if k == 'X':
        return m[1], m[2]
    raise ValueError(k)


_cache = {}


def message(m):
    """ the bytes of one message """
    if m[0] == 'RAW':
        return m[1]
    if m[-1] == 0:      # 0.0 and -0.0 are equal
        t, b = body(m)
        return struct.pack('<HB', len(b), t) + b
    try:
        return _cache[m]
    except KeyError:
        t, b = body(m)
        out = struct.pack('<HB', len(b), t) + b
        if len(_cache) < 20000 and len(out) < 4096:
            _cache[m] = out
        return out


def header(start=0, version=1):
    return MAGIC + struct.pack('<BQ', version, start)


def encode(msgs, start=0, version=1):
    return header(start, version) + b''.join([message(m) for m in msgs])


def boundaries(msgs, start=0, version=1):
    """ file offsets of the end of the header and of every message """
    out = [16]
    for m in msgs:
        out.append(out[-1] + len(message(m)))
    return out


class Malformed(Exception):
    """ the bytes are not a complete, well-formed log """


def decode(data):
    """ (version, start, messages) of a complete log; the inverse of encode() for well-formed logs """
    if data[:7] != MAGIC or len(data) < 16:
        raise Malformed('header')
    version, start = struct.unpack_from('<BQ', data, 7)
    pos, out = 16, []
    while pos < len(data):
        if pos + 3 > len(data):
            raise Malformed(f'incomplete message header at {pos}')
        size, typ = struct.unpack_from('<HB', data, pos)
        p = data[pos + 3:pos + 3 + size]
        if len(p) < size:
            raise Malformed(f'message of {size} bytes at {pos}, only {len(p)} left')
        try:
            out.append(_decode_one(chr(typ), p))
        except (struct.error, ValueError, IndexError, AssertionError) as e:
            raise Malformed(f'message {chr(typ)!r} {p!r} at {pos}: {e!r}') from e
        pos += 3 + size
    return version, start, out


def _key_value(p):
    n = p[0]
    assert len(p) > n
    typ, key = p[1:1 + n].decode('utf-8').split(' ')
    raw = bytes(p[1 + n:])
    if typ in BASIC:
        assert len(raw) == BASIC[typ][1], 'size of the value'
        if typ != 'char':
            return typ, key, struct.unpack('<' + BASIC[typ][0], raw)[0]
    return typ, key, raw


def _decode_one(k, p):
    if k == 'B':
        assert len(p) == 40
        return 'B', tuple(p[:8]), tuple(p[8:16]), struct.unpack('<QQQ', p[16:])
    if k == 'F':
        name, rest = p.decode('utf-8').split(':')
        fields = []
        for f in rest.split(';'):
            if not f:
                continue
            t, field = f.split(' ')
            n = 0
            if t.endswith(']'):
                t, n = t[:-1].split('[')
                assert int(n) > 0, 'array of no elements'
            fields.append((t, int(n), field))
        return 'F', name, tuple(fields)
    if k in 'IP':
        return (k,) + _key_value(p)
    if k == 'M':
        assert p[0] in (0, 1)
        return ('M',) + _key_value(p[1:]) + (p[0],)
    if k == 'Q':
        return ('Q', p[0]) + _key_value(p[1:])
    if k == 'A':
        return ('A',) + struct.unpack_from('<BH', p) + (p[3:].decode('utf-8'),)
    if k == 'D':
        assert len(p) >= 2
        return 'D', p[0] | p[1] << 8, bytes(p[2:])
    if k == 'L':
        return ('L',) + struct.unpack_from('<BQ', p) + (bytes(p[9:]),)
    if k == 'C':
        return ('C',) + struct.unpack_from('<BHQ', p) + (bytes(p[11:]),)
    if k in 'OR':
        return k, struct.unpack('<H', p)[0]
    if k == 'S':
        return ('S',) if p == SYNC else ('X', ord('S'), bytes(p))
    return 'X', ord(k), bytes(p)
