"""
C22: the extracted GPS communication is byte for byte what was logged, per direction and receiver.
"""
import itertools
import os
import struct
from pyulog import extract_gps_dump
from vlib.alpha import F, FA, da
from vlib.cli import cli, put, require, scratch
from vlib.engine import Family, expect
from vlib.ulg import encode

ID, LEVEL = 'C22', 'model_checking'
RULE = 'every sequence of dump messages of the stated alphabets x receivers; outcomes are distinct pairs of files'
ASSUMPTIONS = ['the stated number of bytes is at most the size of the data array',
               'of several instances of the topic the first one is written; receivers are told apart by the instance field']


def fmt(size, instance, order=0):
    fields = ['uint64_t timestamp'] + (['uint8_t instance'] if instance else []) + \
        ['uint8_t len', f'uint8_t[{size}] data']
    if order:
        fields.reverse()
    return F('gps_dump', *fields)


def sample(size, instance, order, k, inst, length, time=None):
    """ the k-th message; data bytes differ in every position and message """
    data = bytes((k * 83 + i * 7 + 1) & 255 for i in range(size))
    parts = [struct.pack('<Q', k + 1 if time is None else time)] + ([bytes([inst])] if instance else []) + [bytes([length]), data]
    if order:
        parts.reverse()
    return data, ('D', 5, b''.join(parts))


def check_dump(msgs, want, ctx, receivers, name='log.ulg', output=True, inside=False):
    """ inside: the paths are relative to the current directory """
    for r in receivers:
        d = scratch(ctx)
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        path = put(os.path.join(d, name), encode(msgs))
        out = os.path.join(d, 'out')
        os.mkdir(out)
        work = scratch(ctx, 'cwd') if output else out
        if inside:
            work = d
        rel = lambda p: os.path.relpath(p, work) if inside else p       # noqa: E731
        argv = [rel(path)] + (['-o', rel(out)] if output else []) + (['-i', r] if r is not None else [])
        cwd = os.getcwd()
        os.chdir(work)
        try:
            before = sorted(os.listdir('.'))
            _, code = cli(extract_gps_dump.main, *argv)
            if output:
                expect(before, sorted(os.listdir('.')), 'files in the current directory')
        finally:
            os.chdir(cwd)
        require(not code, f'exit status {code}')
        ctx.executions += 1
        base = os.path.basename(name)
        prefix = f'{base[:-4] if base.lower().endswith(".ulg") else base}_{r or 0}'
        if inside and not output:
            out, files = d, [f for f in os.listdir(d) if f not in ('out', name.split('/')[0])]
        else:
            files = os.listdir(out)
        expect([f'{prefix}_from_device.dat', f'{prefix}_to_device.dat'] if want is not None else [], sorted(files), 'files')
        if want is None:
            continue
        files = []
        for to in (True, False):
            with open(os.path.join(out, f'{prefix}_{"to" if to else "from"}_device.dat'), 'rb') as f:
                files.append(f.read())
            expect(b''.join(b for i, t, b in want if i == (r or 0) and t == to), files[-1],
                   f'receiver {r}, {"to" if to else "from"} the device')
        ctx.outcome((r, files))
        ctx.state((r, want))
    ctx.transitions += len(msgs)


# ------------------------------------------------------------ sequences

LENS = (0, 1, 2, 5, 128, 129, 133)


def gen_seqs(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for s in itertools.product(itertools.product((0, 1), LENS), repeat=n):
            yield s, True
        for s in itertools.product(LENS, repeat=n):
            yield tuple((0, x) for x in s), False


def run_seqs(case, ctx):
    s, instance = case
    order = len(s) % 2
    msgs, want = [FA, fmt(5, instance, order), ('A', 0, 5, 'gps_dump'), ('A', 0, 6, 'a')], []
    for k, (inst, length) in enumerate(s):
        time = (None, 9 - k, 5, 2**63)[sum(x for _, x in s) % 4]    # forwards, backwards or standing still
        data, m = sample(5, instance, order, k, inst, length, time)
        msgs += [m, da(6, 3)]
        want.append((inst, length > 127, data[:length & 127]))
    check_dump(msgs, want, ctx, (None, 0, 1, 2))


# ------------------------------------------------------------ lengths and receivers

def gen_lens(_tier):
    for size in (1, 9, 10, 11, 79, 127):
        for length in range(size + 1):
            yield size, length


def run_lens(case, ctx):
    size, length = case
    for instance in (0, 1):
        msgs, want = [fmt(size, instance), ('A', 0, 5, 'gps_dump')], []
        for k, bit in enumerate((0, 128, 0)):
            data, m = sample(size, instance, 0, k, 0, length | bit)
            msgs.append(m)
            want.append((0, bool(bit), data[:length]))
        check_dump(msgs, want, ctx, (None,), output=bool(instance))


def gen_receivers(_tier):
    yield from itertools.product((0, 1, 2, 9, 10, 127, 128, 255), repeat=2)


def run_receivers(case, ctx):
    msgs, want = [fmt(8, True), ('A', 0, 5, 'gps_dump')], []
    for k, inst in enumerate(case + case):
        length = (3, 130, 136, 8)[k]
        data, m = sample(8, True, 0, k, inst, length)
        msgs.append(m)
        want.append((inst, length > 127, data[:length & 127]))
    check_dump(msgs, want, ctx, (None,) + case + (3,))


# ------------------------------------------------------------ options and unusable logs

def gen_options(_tier):
    for name in ('log.ulg', 'LOG.ULG', 'a.b.ulg', 'x.ulg.ulg', 'a.log', 'ulg', 'x.ulg.log', 'd.ulg/x', 'd/x.ulg'):
        for output in (False, True):
            for kind in ('good', 'none', 'empty', 'instances', 'no len', 'no data', 'only data'):
                for inside in (False, True):
                    yield name, output, kind, inside


def run_options(case, ctx):
    name, output, kind, inside = case
    data, m = sample(4, True, 0, 7, 1, 131)
    if kind in ('good', 'none', 'empty'):
        msgs = [FA, fmt(4, True), ('A', 0, 6, 'a'), da(6, 1)] + ([('A', 0, 5, 'gps_dump')] if kind != 'none' else [])
        msgs += [m, m] if kind == 'good' else []
        check_dump(msgs, [(1, True, data[:3])] * 2 if kind == 'good' else None, ctx, (1, None), name, output, inside)
        return
    if kind == 'instances':
        # a second instance of the topic: the first one is written
        other, m2 = sample(4, True, 0, 8, 1, 2)
        msgs = [fmt(4, True), ('A', 1, 6, 'gps_dump'), ('A', 0, 5, 'gps_dump'), m, ('D', 6, m2[2]), ('D', 6, m2[2]), ('D', 6, m2[2]), m]
        check_dump(msgs, [(1, True, data[:3])] * 2, ctx, (1, None), name, output, inside)
        return
    f = F('gps_dump', 'uint64_t timestamp', {'no len': 'uint8_t v', 'no data': 'uint8_t len', 'only data': 'uint8_t[1] data'}[kind])
    msgs = [f, ('A', 0, 5, 'gps_dump'), ('D', 5, bytes(9))]
    d = scratch(ctx)
    name = os.path.basename(name)
    path = put(os.path.join(d, name), encode(msgs))
    _, code = cli(extract_gps_dump.main, path, '-o', d)
    require(code, 'a wrong format must give an error status')
    expect([name], os.listdir(d), 'files')
    missing = os.path.join(d, 'nowhere')
    _, code = cli(extract_gps_dump.main, path, '-o', missing)
    require(code and not os.path.exists(missing), 'an output directory that is not there')
    ctx.executions += 1


def families():
    return [
        Family('sequences', gen_seqs, run_seqs, 'sequences of dump messages: receivers x directions x lengths'),
        Family('lengths', gen_lens, run_lens, 'array sizes x lengths'),
        Family('receivers', gen_receivers, run_receivers, 'pairs of receivers'),
        Family('options', gen_options, run_options, 'file names, output directories, logs without dumps'),
    ]
