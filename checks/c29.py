"""
C29: text that is not valid UTF-8.

Every kind of text in a log x every kind of invalid (and valid) byte sequence x its position x every way of
loading and every tool: a tolerant load reports the log as if the invalid bytes were not there, a strict one
refuses exactly the logs that contain such text in what it reads.
"""
import itertools
import os
import re
import struct
from pyulog import ULog
from vlib.alpha import F, FA, FB, cstr, da, db, stream
from vlib.cli import cli, put, require, scratch
from vlib.common import compare
from vlib.engine import Family, Violation, expect
from vlib.model import observe, run, text
from vlib.ulg import encode

ID, LEVEL = 'C29', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = 'every kind of text x byte sequence x position x way of loading; outcomes are distinct results'
ASSUMPTIONS = []

BAD = [b'\xff', b'\x80', b'\xc3', b'\xe2\x82', b'\xf0\x9d\x84', b'\xed\xa0\x80', b'\xc0\xaf', b'\xf5\x80\x80\x80',
       b'\xe9', b'\xc3\xc3\xa9', b'\xfe\xff']
GOOD = [b'', b'a', 'é'.encode(), '€'.encode(), '\U0001d11e'.encode(), b'\x7f', b'\0', '\ufeff'.encode(), b'\x01', b'\r\n']


def texts(tier):
    """ bytes of texts: a valid start and end around 1 or 2 sequences """
    for seq in BAD + GOOD:
        for pre, post in itertools.product((b'', b'x', 'ü'.encode()), (b'', b'y', '€'.encode())):
            yield pre + seq + post
    for a, b in itertools.product(BAD, BAD + GOOD[2:5]):
        yield b'x' + a + b'-' + b
        yield a + b
        yield b'x' + b + a + b'y'
        if tier != 'quick':
            for c in BAD + GOOD:
                yield a + c + b
                yield b'x' + b + c + b'z' + a + b'y'
        if tier == 'deep':
            for c, d in itertools.product(BAD[::2] + GOOD[::2], repeat=2):
                yield a + c + b + d
                yield c + a + d + b'-' + b


def is_valid(b):
    """ well-formed UTF-8, from the definition """
    i = 0
    while i < len(b):
        c = b[i]
        n, low = (1, 0) if c < 0x80 else (2, 0x80) if 0xc2 <= c < 0xe0 else (3, 0x800) if 0xe0 <= c < 0xf0 \
            else (4, 0x10000) if 0xf0 <= c < 0xf5 else (0, 0)
        if not n or i + n > len(b):
            return False
        v = c if n == 1 else c & (0x7f >> n)
        for k in b[i + 1:i + n]:
            if k >> 6 != 2:
                return False
            v = v << 6 | k & 0x3f
        if v < low or v > 0x10ffff or 0xd800 <= v < 0xe000:
            return False
        i += n
    return True


DEFS = [FA, FB, ('I', 'char[2]', 'first', 'ab'), ('P', 'int32_t', 'PAR', 1)]
SUBS = [('A', 0, 0, 'a'), ('A', 1, 1, 'b')]
DATA = [da(0, 100, 1.5), db(1, 1, 101), da(0, 102, 2.5)]
# kind of text: (in the definitions, in the data, message with the text, NUL and spaces allowed)
KINDS = {
    'info': lambda s: ('I', f'char[{len(s)}]', 'key', s),
    'info key': lambda s: ('I', 'uint32_t', s, 5),
    'multi': lambda s: ('M', f'char[{len(s)}]', 'key', s, 0),
    'multi part': lambda s: ('M', f'char[{len(s)}]', 'key', s, 1),
    'multi key': lambda s: ('M', 'uint8_t', s, 5, 0),
    'parameter': lambda s: ('P', 'float', s, 1.5),
    'default': lambda s: ('Q', 3, 'int32_t', s, 7),
    'logged': lambda s: ('L', 52, 103, s),
    'tagged': lambda s: ('C', 52, 8, 103, s),
    'format': lambda s: ('X', ord('F'), s + b':uint64_t timestamp;'),
    'field': lambda s: ('X', ord('F'), b'fmt:uint64_t timestamp;uint8_t ' + s + b';'),
}
IN_DEFS = [k for k in KINDS if k not in ('logged', 'tagged')]
IN_DATA = [k for k in KINDS if k not in ('format', 'field')]


def cleaned(kind, s):
    """ the same message without the invalid bytes, as the model understands it """
    t = text(s)
    if kind == 'format':
        return ('F', t, (('uint64_t', 0, 'timestamp'),))
    if kind == 'field':
        return ('F', 'fmt', (('uint64_t', 0, 'timestamp'), ('uint8_t', 0, t)))
    if kind in ('info', 'multi', 'multi part', 'logged', 'tagged'):
        return KINDS[kind](s)    # the model decodes it
    return KINDS[kind](t)


def gen_texts(tier):
    for place, kinds in (('definitions', IN_DEFS), ('data', IN_DATA)):
        for kind in kinds:
            for s in texts(tier):
                if kind in ('format', 'field') and (not s or text(s) in ('a', 'b')):
                    continue
                yield place, kind, s


def put_in(place, m):
    if place == 'definitions':
        return DEFS[:3] + [m] + DEFS[3:] + SUBS + DATA
    return DEFS + SUBS + DATA[:2] + [m] + DATA[2:]


def strict_load(data, bad, ctx, what, **kw):
    ctx.executions += 1
    try:
        u = ULog(stream(data), disable_str_exceptions=False, **kw)
    except UnicodeDecodeError as e:
        ctx.outcome((what, type(e).__name__))
        require(bad, f'{what}: a log without invalid text is refused: {e}')
        return None
    require(not bad, f'{what}: invalid text is not reported')
    return u


def run_texts(case, ctx):
    place, kind, s = case
    bad = not is_valid(s)
    data = encode(put_in(place, KINDS[kind](s)), 3)
    ref = run(put_in(place, cleaned(kind, s)), 3)
    full = ref.result()
    ctx.state(full)
    ctx.transitions += len(DEFS + SUBS + DATA) + 1
    for what, kw in (('load', {}), ('tolerant load', {'disable_str_exceptions': True})):
        compare(full, ULog(stream(data), **kw), ctx, (), what + ': ')
    compare(ref.result([]), ULog(stream(data), []), ctx, ('last', 'changed'), 'filtered load: ')
    u = ULog(stream(data), parse_header_only=True)
    ctx.executions += 1
    got = observe(u)
    want = run((put_in(place, cleaned(kind, s)))[:len(DEFS) + (place == 'definitions')], 3).result()
    for k in ('info', 'multi', 'init', 'defaults', 'formats'):
        expect(want[k], got[k], f'header: {k}')
    u = strict_load(data, bad, ctx, 'strict load')
    if u is not None:
        compare(full, u, ctx, (), 'strict load: ')
    u = strict_load(data, bad and place == 'definitions', ctx, 'strict header', parse_header_only=True)
    u = strict_load(data, bad, ctx, 'strict filtered load', message_name_filter_list=['a'])
    if u is not None:
        compare(ref.result(['a']), u, ctx, ('last', 'changed'), 'strict filtered load: ')


# ------------------------------------------------------------ names of topics

def gen_names(tier):
    for s in texts(tier):
        if b'\0' not in s and s != b'' and text(s) not in ('', 'a', 'b'):
            yield s,


def run_names(case, ctx):
    """ the name in a subscription, and in the format it refers to """
    s, = case
    t, bad = text(s), not is_valid(s)
    fmt = F('zz', 'uint64_t timestamp', 'uint16_t v')
    clean = DEFS + [('F', t, fmt[2])] + SUBS + [('A', 0, 7, t)] + DATA + [('D', 7, struct.pack('<QH', 104, 9))]
    ref = run(clean).result()
    ctx.state(ref)
    ctx.transitions += len(clean)
    for where in ('subscription', 'both'):
        msgs = list(clean)
        if where == 'both':
            msgs[len(DEFS)] = ('X', ord('F'), s + b':uint64_t timestamp;uint16_t v;')
        msgs[len(DEFS) + 3] = ('A', 0, 7, s)
        data = encode(msgs)
        compare(ref, ULog(stream(data)), ctx, (), f'name in the {where}: ')
        for names in ([t], ['a']):
            u = ULog(stream(data), names)
            compare(run(clean).result(names), u, ctx, ('last',), f'name in the {where}, filter {names}: ')
        u = strict_load(data, bad, ctx, 'strict load')
        if u is not None:
            compare(ref, u, ctx, (), 'strict load: ')
        strict_load(data, bad, ctx, 'strict filtered load', message_name_filter_list=['a'])
        strict_load(data, bad and where == 'both', ctx, 'strict header', parse_header_only=True)


# ------------------------------------------------------------ tools

GPS = F('vehicle_gps_position', 'uint64_t timestamp', 'int32_t lon', 'int32_t lat', 'int32_t alt', 'uint8_t fix_type')
DUMP = F('gps_dump', 'uint64_t timestamp', 'uint8_t instance', 'uint8_t len', 'uint8_t[79] data')
TOOL_LOG = [FA, GPS, DUMP, ('I', 'char[3]', 'sys_name', 'PX4'), ('P', 'int32_t', 'PAR', 1)]
TOOL_DATA = [('A', 0, 0, 'a'), ('A', 0, 1, 'vehicle_gps_position'), ('A', 0, 2, 'gps_dump'), da(0, 100, 1.5),
             ('D', 1, struct.pack('<QiiiB', 101, 10, 20, 30, 3)),
             ('D', 2, struct.pack('<QBB', 102, 0, 3) + b'abc' + bytes(76)), ('L', 52, 103, 'end')]


def tools():
    from checks.c24 import modules
    from pyulog import extract_gps_dump, info, params, ulog2csv, ulog2kml
    messages = modules()[0]
    return {'info': (info.main, '-i', ['-v']), 'params': (params.main, '--ignore', []),
            'csv': (ulog2csv.main, '-i', []), 'kml': (ulog2kml.main, '-i', ['-o', 'out.kml']),
            'gps': (extract_gps_dump.main, '-x', []), 'messages': (messages.main, '-i', [])}


def gen_tools(_tier):
    for tool in ('info', 'params', 'csv', 'kml', 'gps', 'messages', 'extract'):
        for s in (b'x\xffy', b'caf\xe9', b'a\xc3', 'é€'.encode()):
            for place, kind in (('definitions', 'info'), ('definitions', 'multi'), ('definitions', 'parameter'),
                                ('data', 'logged'), ('data', 'tagged'), ('data', 'info'), ('data', 'parameter')):
                yield tool, place, kind, s


def call(tool, argv, path):
    """ (output, files) of a tool, or the exception """
    if tool == 'extract':
        from pyulog.extract_message import extract_message
        args = (True,) if argv else ()
        try:
            return repr(extract_message(path, 'a', None, None, *args)), {}
        except UnicodeDecodeError as e:
            return e
    main, flag, extra = tools()[tool]
    try:
        out, code = cli(main, *extra, *([flag] if argv else []), path)
    except UnicodeDecodeError as e:
        return e
    files = {}
    for f in sorted(os.listdir('.')):
        if not f.endswith('.ulg'):
            files[f] = re.sub(rb'(id="|#)\d+', rb'\1', open(f, 'rb').read())    # ids are unique in the process
            os.remove(f)
    return (out, code), files


def run_tools(case, ctx):
    tool, place, kind, s = case
    bad = not is_valid(s)
    clean = text(s).encode()
    msgs = [TOOL_LOG + [KINDS[kind](x)] + TOOL_DATA if place == 'definitions' else TOOL_LOG + TOOL_DATA[:5] +
            [KINDS[kind](x)] + TOOL_DATA[5:] for x in (s, clean)]
    old = os.getcwd()
    os.chdir(scratch(ctx))
    try:
        put('log.ulg', encode(msgs[1]))
        want = [call(tool, argv, 'log.ulg') for argv in (0, 1)]
        put('log.ulg', encode(msgs[0]))
        got = [call(tool, argv, 'log.ulg') for argv in (0, 1)]
    finally:
        os.chdir(old)
    ctx.executions += 4
    ctx.transitions += len(msgs[0])
    ctx.state((tool, bad))
    for w in want:
        require(not isinstance(w, Exception), f'{tool} refuses valid text: {w}')
    expect(want[0], want[1], f'{tool}: the option to ignore invalid text changes the result for a valid log')
    if isinstance(got[1], Exception):
        raise Violation(f'{tool}: refuses invalid text that it was told to ignore: {got[1]}')
    expect(want[1], got[1], f'{tool}: result with the invalid bytes ignored')
    ctx.outcome((tool, got[1]))
    if bad:
        require(isinstance(got[0], Exception), f'{tool}: invalid text is accepted without being told to ignore it')
    else:
        expect(want[0], got[0], f'{tool}')


def families():
    return [
        Family('texts', gen_texts, run_texts, f'{len(IN_DEFS) + len(IN_DATA)} kinds of text x byte sequences x loads'),
        Family('names', gen_names, run_names, 'topic names x byte sequences x loads'),
        Family('tools', gen_tools, run_tools, '7 tools x text x place, with and without the option'),
    ]
