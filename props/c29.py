"""C29: the command line prints what the library gives, and leaves its input alone."""
import contextlib
import io
import os
import re
import subprocess
import sys
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import pagegen
import pdfgen
import c23
import refpdf
import specs
import pdfsyntax as pdf
from pdfsyntax import cli

ID = 'C29'
RULE = ('A case is one or two files (any layout, page tree, or pages of text) and a sequence of commands given to the command line, including wrong ones. '
        'What each prints is compared with the facts of the library on the same file, read back where it is a dump or a file. Non-trivial: two commands or more, or a compression.')
ASSUMPTIONS = ['files are well formed and not encrypted', 'what the library reports is judged by the other properties', 'standard output takes any character (UTF-8)']


def capture(argv):
    """(exit status, bytes written on standard output)."""
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding='utf-8', newline='\n')
    saved = sys.argv
    sys.argv = ['pdfsyntax'] + argv
    status = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                cli.main()
            except SystemExit as e:
                status = e.code if type(e.code) == int else 0 if e.code is None else 1
            out.flush()
    finally:
        sys.argv = saved
    return status, raw.getvalue()


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def lines_of(facts):
    return ''.join('%s: %s\n' % kv for kv in facts.items())


def expected_overview(data):
    doc = pdf.loads(data)
    s, m = pdf.structure(doc), pdf.metadata(doc)
    if s['Encrypted']:
        m = {k: '#Encrypted#' if v else v for k, v in m.items()}
    return '# Structure\n' + lines_of(s) + '\n# Metadata\n' + lines_of(m)


def expected_text(data):
    doc = pdf.loads(data)
    return ''.join(pdf.extract_page_text(doc, i) + '\n' for i in range(len(pdf.pages(doc))))


def check_fonts(out, data):
    want = pdf.fonts(pdf.loads(data))
    rows = [l for l in out.split('\n') if l.strip()]
    ensure(rows and rows[0].split() == ['Name', 'Type', 'Encoding', 'Obj', 'Pages'], 'header %r', rows[:1])
    got = sorted((l[:30].rstrip(), l[31:41].rstrip(), l[42:58].rstrip(), l[59:67].rstrip(), l[68:].strip()) for l in rows[1:])
    exp = sorted((f['name'][:30].rstrip(), f['type'][:10], f['encoding'][:16], ('%d,%d' % (r.imag, r.real))[:8], '%d' % len(f['pages'])) for r, f in want.items())
    ensure(got == exp, 'fonts prints %r instead of %r', got, exp)


def check_hexdump(out, data):
    back = b''
    for l in out.split('\n'):
        if l.strip():
            m = re.match(r'(\d{10})  ((?:[0-9a-f]{2} ?)*)', l)
            ensure(m and int(m.group(1)) == len(back), 'hexdump line %r at %d', l, len(back))
            back += bytes.fromhex(m.group(2))
    ensure(back == data, 'the hexdump holds %r', back)


def check_compressed(got, data):
    want, path = pdf.compress(pdf.loads(data)), pbt.tmp_path('want.pdf')
    pdf.writefile(want, path)
    exp = read(path)
    os.unlink(path)
    ensure(got == exp, 'compress writes %d bytes instead of %d', len(got), len(exp))
    _, errs = refpdf.read(got)
    ensure(not errs, 'the file compressed is not valid: %r', errs[:3])


def check(case):
    files, commands = case
    paths, datas = [], []
    for i, (kind, f, name) in enumerate(files):
        data = f if kind == 'bytes' else c23_file(f) if kind == 'text' else pdfgen.build(f).data
        p = pbt.tmp_path('%d%s' % (i, name))
        with open(p, 'wb') as h:
            h.write(data)
        paths.append(p)
        datas.append(data)
    extra = pbt.tmp_path('out.pdf')
    labels = set()
    try:
        for k, (cmd, which, opt) in enumerate(commands):
            w = which % len(paths)
            p, data = paths[w], datas[w]
            what = 'command %d, %s' % (k, cmd)
            if cmd == 'text' and files[w][0] != 'text':
                try:
                    expected_text(data)
                except KeyError:        # text in a font that the page does not declare
                    continue
            labels.add(cmd)
            if os.path.exists(extra):
                os.unlink(extra)
            if cmd == 'unknown':
                s, out = capture(['nothing', p] if opt else [])
                ensure(s != 0 and not out, 'an unknown command ends with status %r and prints %r', s, out)
            elif cmd == 'missing':
                try:
                    s, out = capture(opt[0] + [p + '.none'])
                except OSError:
                    s, out = 1, b''
                ensure(s != 0 and not out, 'a missing file ends with status %r and prints %r', s, out)
                ensure(not os.path.exists(p + '.none'), 'a missing file is created')
            elif cmd == 'compress':
                target = {'out': extra, 'stdout': None, 'same': p}[opt]
                s, out = capture(['compress', p] + ([['-o', target], ['--output', target], ['--output=' + target]][k % 3] if target else []))
                ensure(s == 0, '%s: status %r', what, s)
                if target:
                    ensure(out == b'', '%s prints %r', what, out)
                    out = read(target)
                check_compressed(out, data)
                labels.add('compress to ' + opt)
                if opt == 'same':
                    datas[w] = data = out
            else:
                s, out = capture([cmd, p])
                ensure(s == 0, '%s: status %r', what, s)
                try:
                    out = out.decode('utf-8')
                except UnicodeDecodeError:
                    fail('%s prints bytes that are not text', what)
                if cmd == 'overview':
                    ensure(out == expected_overview(data), '%s prints %r instead of %r', what, out, expected_overview(data))
                elif cmd == 'text':
                    exp = expected_text(data)
                    ensure(out == exp, '%s prints %r instead of %r', what, out, exp)
                elif cmd == 'fonts':
                    check_fonts(out, data)
                elif cmd == 'hexdump':
                    check_hexdump(out, data)
                else:
                    fn = {'browse': cli.browse, 'disasm': cli.dump_disasm}[cmd]
                    o = io.StringIO()
                    with contextlib.redirect_stdout(o):
                        fn(p)
                    ensure(out == o.getvalue(), '%s does not print what %s prints', what, fn.__name__)
            for q, d in zip(paths, datas):
                ensure(read(q) == d, '%s changes %s', what, 'its input' if q == p else 'another file')
        if len(commands) == 1 and commands[0][0] in ('overview', 'text', 'browse', 'disasm', 'fonts', 'hexdump') and commands[0][2]:
            labels.add('process')
            argv = [commands[0][0], paths[commands[0][1] % len(paths)]]
            root = os.path.dirname(os.path.dirname(os.path.abspath(cli.__file__)))
            r = subprocess.run([sys.executable, '-B', '-m', 'pdfsyntax'] + argv, cwd=root, capture_output=True, timeout=120, env=dict(os.environ, PYTHONUTF8='1'))
            ensure(r.returncode == 0, 'python -m pdfsyntax %s ends with status %d: %s', argv[0], r.returncode, r.stderr[-300:])
            ensure(r.stdout == capture(argv)[1], 'python -m pdfsyntax %s prints something else', argv[0])
    finally:
        for q in paths + [extra]:
            if os.path.exists(q):
                os.unlink(q)
    return len(commands) > 1 or 'compress' in labels, sorted(labels)


def c23_file(case):
    """A page of text."""
    program, font_spec, cuts, shape, fmt, form = case
    fonts = c23.Fonts(*font_spec)
    s = c23.Style(fmt)
    return c23.document(c23.cut(c23.tokens(c23.spelled(program, fonts, s), s), cuts, s), shape, fonts, fmt, form)


def files():
    name = st.sampled_from(['.pdf', ' a b.pdf', '-\u00e9.PDF', '<b>&.pdf', ''])
    one = st.one_of(st.tuples(st.just('spec'), specs.specs(max_revs=3)), st.tuples(st.just('spec'), pagegen.page_specs(max_pages=4)),
                    st.tuples(st.just('text'), c23.shown_programs()))
    return st.lists(st.tuples(one, name).map(lambda x: x[0] + (x[1],)), min_size=1, max_size=2)


def commands():
    w = st.integers(0, 1)
    plain = st.tuples(st.sampled_from(['overview', 'text', 'fonts', 'browse', 'disasm', 'hexdump']), w, st.integers(0, 11).map(lambda i: i == 11))
    other = st.one_of(st.tuples(st.just('compress'), w, st.sampled_from(['out', 'stdout', 'same'])), st.tuples(st.just('unknown'), w, st.booleans()),
                      st.tuples(st.just('missing'), w, st.lists(st.sampled_from(['overview', 'text', 'fonts', 'browse', 'disasm', 'hexdump', 'compress']).map(lambda c: [c]), min_size=1, max_size=1)))
    return st.lists(st.one_of(plain, plain, plain, other), min_size=1, max_size=4)


SUBS = [Sub('commands', lambda: st.tuples(files(), commands()), check, 1600, 80000)]
