"""C26: a hexadecimal dump shows every byte at its position."""
import contextlib
import io
import os
import re
import subprocess
import sys
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import pdfsyntax as pdf

ID = 'C26'
RULE = 'A case is a file of any bytes, a way to open it and a range. The dump is parsed and put together again. Non-trivial: at least two lines, or a range that is not the whole file, or an empty file.'
ASSUMPTIONS = ['ranges begin at a position from 0 and do not end before they begin; both are in bytes']
LINE = re.compile(r'^(\d+)  ((?:[0-9a-f]{2})(?: [0-9a-f]{2})*) +\|(.*)\|$')


def parse_dump(text, what):
    """[(offset, bytes)]"""
    out = []
    if text == '':
        return out
    ensure(text.endswith('\n'), '%s: the last line is not ended', what)
    for l in text[:-1].split('\n'):
        m = LINE.match(l)
        ensure(m, '%s: line %r', what, l)
        b = bytes.fromhex(m.group(2))
        chars = ''.join(chr(c) if 32 <= c <= 126 else '.' for c in b)
        ensure(m.group(3) == chars, '%s: characters %r instead of %r', what, m.group(3), chars)
        out.append((int(m.group(1)), b))
    return out


def check_lines(lines, data, start, stop, what):
    first = start // 10 * 10
    if start >= stop:
        ensure(all(data[o:o + len(b)] == b for o, b in lines), '%s: wrong bytes', what)
        ensure(sum(len(b) for _, b in lines) <= 9, '%s: the dump of an empty range shows %r', what, lines)
        return
    ensure(lines and lines[0][0] == first, '%s: the dump begins at %r instead of %d', what, lines[:1], first)
    pos = first
    for k, (o, b) in enumerate(lines):
        ensure(o == pos, '%s: a line is at %d instead of %d', what, o, pos)
        ensure(o % 10 == 0 and len(b) <= 10 and (len(b) == 10 or k == len(lines) - 1), '%s: line %d has %d bytes', what, o, len(b))
        ensure(data[o:o + len(b)] == b, '%s: line %d shows %r instead of %r', what, o, b, data[o:o + 10])
        pos += len(b)
    ensure(pos == stop, '%s: the dump ends at %d instead of %d', what, pos, stop)


def check(case):
    data, source, start, stop = case
    p = None
    if source != 'bytes':
        p = pbt.tmp_path('h.bin')
        with open(p, 'wb') as f:
            f.write(data)
    f = open(p, 'rb') if p else None
    try:
        fd = pdf.bdata_provider(data) if source == 'bytes' else pdf.bdata_provider(f, 'SINGLE' if source == 'file' else 'CONTINUOUS')
        args = () if start is None and stop is None else (start,) if stop is None else (start, stop)
        text = pdf.hexdump(fd, *args)
        again = pdf.hexdump(fd, *args)
        ensure(text == again, 'a second dump is different')
    finally:
        if f:
            f.close()
            os.unlink(p)
    a = start or 0
    z = len(data) if stop is None else min(stop, len(data))
    check_lines(parse_dump(text, 'dump'), data, a, z, 'dump')
    return len(text) > 60 or a > 0 or z < len(data) or not data, [source, 'range' if args else 'whole']


def check_cli(case):
    data, = case
    p = pbt.tmp_path('cli.bin')
    with open(p, 'wb') as f:
        f.write(data)
    env = dict(os.environ, PYTHONPATH=pbt.REPO, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-m', 'pdfsyntax', 'hexdump', p], capture_output=True, env=env, cwd=os.path.dirname(p))
    os.unlink(p)
    ensure(r.returncode == 0, 'the command ends with %d: %s', r.returncode, r.stderr[-300:])
    text = r.stdout.decode('ascii').rstrip('\n')
    lines = parse_dump(text + '\n' if text else '', 'command')
    check_lines(lines, data, 0, len(data), 'command')
    return len(lines) > 1, ['command']


def datas():
    edge = st.builds(lambda n, b: (b * n)[:n] if b else b'', st.sampled_from([0, 1, 9, 10, 11, 19, 20, 21, 100, 255]), st.binary(min_size=1, max_size=7))
    return st.one_of(st.binary(max_size=60), edge, st.binary(min_size=20, max_size=200), st.binary(max_size=20).map(lambda b: b'%PDF-1.4\n|  ||' + b))


@st.composite
def cases(draw):
    data = draw(datas())
    n = len(data)
    src = draw(st.sampled_from(['bytes', 'file', 'seek']))
    pos = lambda: draw(st.one_of(st.integers(0, n + 15), st.sampled_from([0, n, max(0, n - 1), 10, 20, n // 10 * 10])))
    k = draw(st.integers(0, 5))
    if k == 0:
        a = z = None
    elif k == 1:
        a, z = pos(), None
    elif k == 2:
        a, z = None, pos()
    else:
        a, z = sorted((pos(), pos()))
    return data, src, a, z


SUBS = [Sub('dump', cases, check, 20000, 800000), Sub('command', lambda: st.tuples(datas()), check_cli, 24, 800)]
