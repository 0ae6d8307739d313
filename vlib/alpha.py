""" Message alphabets and small helpers shared by the checks. """
import io
import itertools
import struct
from .ulg import BASIC, SYNC, encode, message

U64 = (0, 1, 255, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1)

# boundary values of each basic type
VALUES = {
    'int8_t': (0, 1, -1, 127, -128), 'uint8_t': (0, 1, 127, 128, 255),
    'int16_t': (0, 1, -1, 255, 256, 32767, -32768), 'uint16_t': (0, 1, 255, 256, 32768, 65535),
    'int32_t': (0, 1, -1, 65536, 2**24 + 1, 2**31 - 1, -2**31),
    'uint32_t': (0, 1, 65536, 2**31 - 1, 2**31, 2**32 - 1),
    'int64_t': (0, 1, -1, 2**32, 2**53 + 1, 2**63 - 1, -2**63, -2**53 - 1),
    'uint64_t': U64,
    'float': (0.0, -0.0, 1.0, -1.5, 3.4028234663852886e38, 1.401298464324817e-45, float('inf'),
              float('-inf'), float('nan')),
    'double': (0.0, -0.0, 1.0, -1.5, 0.1, 1.7976931348623157e308, 5e-324, float('inf'),
               float('-inf'), float('nan')),
    'bool': (False, True), 'char': (b'\0', b'A', b'\x7f', b'\x80', b'\xff'),
}


# names that are unlike the usual ones
NAMES = ('é', '日本', 'a/b', '-', 'A.b', 'k=1', '%s', '{}', "'", '"', '\\', '_', '0', 'timestamp', 'padding', 'nan', 'inf', 'NULL', 'ÿ' * 50, '\t', 'k\n', "'--")


def named(k):
    """ a log in which everything has the name k """
    return [F(k, 'uint64_t timestamp', f'uint8_t x{k}', f'char[2] {k}_'), F('t', f'{k} x', 'uint64_t timestamp', f'int8_t {k}y'),
            ('I', 'uint8_t', k, 3), ('P', 'int32_t', k, 4), ('M', 'char[1]', k, 'a', 0), ('M', 'char[1]', k, 'b', 1),
            ('Q', 1, 'float', k, 1.0), ('A', 0, 1, k), ('A', 3, 2, 't'), ('D', 1, struct.pack('<QB2s', 2, 3, b'ab')), ('L', 48, 2, k),
            ('D', 2, struct.pack('<QB2sQb', 2, 3, b'ab', 4, -5)), ('P', 'float', k, 4.5), ('C', 48, 2, 9, k), ('I', 'char[1]', k + k, 'x')]


def F(name, *fields):
    """ F('a', 'uint64_t timestamp', 'float[3] x') """
    out = []
    for f in fields:
        t, n = f.split(' ', 1)
        size = 0
        if '[' in t:
            t, size = t.rstrip(']').split('[')
        out.append((t, int(size), n))
    return ('F', name, tuple(out))


def D(msg_id, code, *values):
    return ('D', msg_id, struct.pack('<' + code, *values))


def info(typ, key, value):
    return ('I', typ, key, value)


def cstr(key, s):
    """ a string information message """
    n = len(s if isinstance(s, bytes) else s.encode())
    return ('I', f'char[{n}]', key, s)


# formats used throughout; b has its time stamp in the middle and trailing padding
FA = F('a', 'uint64_t timestamp', 'float x')
FB = F('b', 'int16_t y', 'uint64_t timestamp', 'uint8_t[3] z', 'uint8_t[3] _padding0')
FC = F('c', 'uint64_t timestamp', 'char[4] s', 'bool f', 'double d', 'n[2] in')
FN = F('n', 'int8_t k', 'uint16_t[2] w')


def da(msg_id, ts, x=0.0):
    return D(msg_id, 'Qf', ts, x)


def db(msg_id, y, ts, z=(1, 2, 3)):
    return D(msg_id, 'hQ3B', y, ts, *z)


def dc(msg_id, ts, s=b'ab\0\0', f=1, d=0.5, n=(1, 2, 3, -1, 5, 6)):
    return ('D', msg_id, struct.pack('<Q4s?dbHHbHH', ts, s, f, d, *n))


def seqs(ops, depth, low=0):
    """ all sequences over ops of length low..depth, shortest first """
    for n in range(low, depth + 1):
        yield from itertools.product(ops, repeat=n)


def stream(data):
    return io.BytesIO(data)


def pad(n):
    """ unknown but valid messages with n bytes in total, n == 0 or n >= 4 """
    out = []
    while n:
        k = n if n <= 9000 else 8000
        out.append(('X', 0x7a, b'\x55' * (k - 3)))
        n -= k
    return out


# ------------------------------------------------------------ the same message again and again

_BIG = F('big', 'uint64_t timestamp', 'uint8_t[100] v', 'char[3] s', 'float x')
REPEATED = [da(0, 10, 1.5), da(0, 0, 0.0), db(2, 0, 0), db(2, 1, 10), dc(3, 13), ('D', 4, struct.pack('<Q100s3sf', 10, b'\0' * 100, b'abc', 0.0)),
            ('D', 4, struct.pack('<Q100s3sf', 10, bytes(range(100)), b'\0\0\0', -1.0)), ('L', 54, 10, 'text'), ('L', 48, 0, ''),
            ('C', 49, 513, 10, 'tag'), ('C', 48, 0, 0, ''), ('O', 0), ('O', 5), ('P', 'int32_t', 'PAR', 5), ('P', 'int32_t', 'NEW', 0),
            ('P', 'float', 'QAR', 0.0), ('M', 'char[1]', 'm', 'a', 0), ('M', 'char[1]', 'm', 'a', 1), ('M', 'char[0]', 'm', '', 1),
            ('M', 'uint8_t[2]', 'r', b'\0\0', 0), ('M', 'uint8_t[2]', 'r', b'\0\0', 1), ('I', 'char[1]', 'i', 'x'), ('Q', 3, 'int32_t', 'PAR', 5), ('S',)]
BETWEEN = [(), (da(1, 10, 1.5),), (('O', 0),), (('L', 54, 10, 'text'), ('C', 49, 513, 10, 'tag')), (('P', 'int32_t', 'PAR', 5),)]


def gen_repeats(_tier):
    for i in range(len(REPEATED)):
        for n in (2, 3, 4, 9, 33, 300):
            for k in range(len(BETWEEN)):
                yield i, n, k


def repeats(case):
    """ a log with one message many times, alone or with others in between """
    i, n, k = case
    return [FN, FA, FB, FC, _BIG, ('P', 'int32_t', 'PAR', 5), ('P', 'float', 'QAR', 0.0), ('A', 0, 0, 'a'), ('A', 1, 1, 'a'), ('A', 0, 2, 'b'),
            ('A', 0, 3, 'c'), ('A', 0, 4, 'big'), da(0, 10, 1.5)] + ([REPEATED[i], *BETWEEN[k]] * n) + [('L', 54, 11, 'end'), da(1, 11, 2.0)]
