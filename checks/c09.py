"""
C09: a header-only load reports exactly the definitions section.
"""
from pyulog import ULog
from vlib.alpha import F, FA, FB, U64, da, db, seqs, stream
from vlib.common import compare
from vlib.engine import Family, Violation
from vlib.model import run
from vlib.ulg import encode

ID, LEVEL = 'C09', 'model_checking'
RULE = 'every sequence of definitions x what follows them; outcomes are distinct header-only results'

DEFS = [
    ('I', 'char[3]', 'k', 'abc'), ('I', 'int32_t', 'k', -7), ('M', 'char[2]', 'm', 'ab', 0), ('M', 'char[2]', 'm', 'cd', 1),
    ('P', 'int32_t', 'PAR', 5), ('P', 'float', 'PAR', 0.25), ('P', 'int32_t', 'QAR', -1), ('Q', 1, 'int32_t', 'PAR', 1),
    ('Q', 3, 'float', 'QAR', 2.0), F('a', 'uint64_t timestamp', 'float x'), F('b', 'uint8_t q', 'a[2] n'),
    ('X', ord('z'), b'12345'),
]
# what follows the definitions: nothing, a data section, or anything that is not readable as one
FOLLOW = {
    'none': [],
    'data': [('A', 0, 0, 'zz'), da(0, 99), ('L', 48, 98, 'text'), ('I', 'char[3]', 'k', 'xyz'), ('P', 'int32_t', 'PAR', 77),
             ('M', 'char[2]', 'm', 'ef', 1), ('Q', 3, 'int32_t', 'PAR', 8), ('O', 3), ('C', 48, 3, 97, 'tag'), ('S',)],
    'logged': [('L', 48, 98, 'text'), ('P', 'int32_t', 'PAR', 77), ('I', 'char[3]', 'new', 'xyz')],
    'tagged': [('C', 48, 5, 98, 'text'), ('P', 'int32_t', 'PAR', 77), ('Q', 1, 'float', 'PAR', 8.0)],
    'garbage': [('A', 0, 0, 'zz'), ('RAW', bytes(range(1, 256)) * 3)],
    'zeros': [('L', 48, 98, ''), ('RAW', bytes(1000))],
    'short': [('A', 0, 0, 'zz'), ('RAW', b'\x10\x00')],
    'unknown-topic': [('A', 0, 0, 'not there'), da(0, 1)],
}
ZZ = F('zz', 'uint64_t timestamp', 'float x')


def gen_seqs(tier):
    for s in seqs(DEFS, 4 if tier == 'quick' else 5):
        for follow in FOLLOW:
            yield s, follow


def run_seqs(case, ctx):
    s, follow = case
    defs = [ZZ] + list(s)
    ref = run(defs, 4).result()
    ctx.state(ref)
    ctx.transitions += len(defs)
    data = encode(defs + FOLLOW[follow], 4)
    for kw in ({}, {'message_name_filter_list': ['zz']}):
        u = ULog(stream(data), parse_header_only=True, **kw)
        compare(ref, u, ctx, what=f'followed by {follow}: ')
    if follow in ('none', 'data', 'logged', 'tagged'):
        full = ULog(stream(data))
        for p in ('start_timestamp', 'initial_parameters', 'message_formats', 'has_data_appended',
                  'has_default_parameters'):
            if getattr(u, p) != getattr(full, p):
                raise Violation(f'followed by {follow}: {p} differs from the full load')


def gen_flags(_tier):
    for start in U64:
        for version in (0, 1, 2, 255):
            for bit in (0, 1):
                for app in (0, 1):
                    yield start, version, bit, app


def run_flags(case, ctx):
    start, version, bit, app = case
    flags = ('B', (bit,) + (0,) * 7, (app,) + (0,) * 7, (0, 0, 0))
    defs = [FA, FB] + DEFS
    for off in (0, 60, len(encode([flags] + defs)), 10**9):
        msgs = [('B', flags[1], flags[2], (off, 0, 0))] + defs
        u = ULog(stream(encode(msgs + [('A', 1, 1, 'b'), db(1, 3, 2**64 - 1)], start, version)),
                 parse_header_only=True)
        ctx.transitions += len(msgs)
        compare(run(msgs, start).result(), u, ctx)


def gen_sources(_tier):
    yield from ('path', 'file', 'raw', 'stream')


def run_sources(how, ctx):
    data = encode([ZZ] + DEFS + FOLLOW['data'], 5)
    path = ctx.tmp + '/h.ulg'
    with open(path, 'wb') as f:
        f.write(data)
    arg = {'path': lambda: path, 'file': lambda: open(path, 'rb'),
           'raw': lambda: open(path, 'rb', buffering=0), 'stream': lambda: stream(data)}[how]()
    compare(run([ZZ] + DEFS, 5).result(), ULog(arg, None, True, True), ctx)
    if how != 'path' and not arg.closed:
        raise Violation('the file is still open')
    if ULog(path, parse_header_only=True) != ULog(stream(data), parse_header_only=True):
        raise Violation('two header-only loads of the same log are not equal')


# ------------------------------------------------------------ the size and content of what follows

def gen_next(_tier):
    for n in range(0, 600):
        yield n


def run_next(n, ctx):
    """ the first message of the data section has every size: its first byte is every byte """
    defs = [FA, FB] + DEFS
    ref = run(defs, 9).result()
    ctx.state(n)
    for first in ([('A', 0, 0, 'n' * n)], [('L', 48, 9, 'x' * n)], [('C', 48, 3, 9, 'x' * n)]):
        compare(ref, ULog(stream(encode(defs + first + [('P', 'int32_t', 'PAR', 77)], 9)), parse_header_only=True), ctx,
                what=f'followed by {first[0][0]} with {n} characters: ')
        ctx.transitions += len(defs)


def families():
    return [
        Family('sequences', gen_seqs, run_seqs, 'sequences of definitions x what follows'),
        Family('flags', gen_flags, run_flags, 'start times, versions, flags and offsets'),
        Family('sources', gen_sources, run_sources, 'kinds of input'),
        Family('next', gen_next, run_next, 'sizes of the message that follows'),
    ]
