"""C03: reading damaged or hostile bytes always finishes."""
import contextlib
import io
import os
import re
import resource
import zlib
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import mutate
import pagegen
import pdfgen
import specs
import values as V
import pdfsyntax as pdf
from pdfsyntax import cli

ID = 'C03'
RULE = ('objects: token soups; files: valid files with 1 to 4 mutations, given to every reader of the library and command line; streams: hostile filter parameters, xref and object streams; text: strings, CMaps and widths. '
        'Each call runs under a step budget and a memory limit. Non-trivial: the input is at least 8 bytes long.')
ASSUMPTIONS = ['RecursionError counts as an ordinary exception; MemoryError does not', 'chains of highly compressed data (decompression bombs) are out of scope',
               'object numbers up to the architectural limit of 8388607 may cost as many steps']
MEMORY = 3 << 30
limited = False


def limit_memory():
    global limited
    if not limited:
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY if hard < 0 else min(MEMORY, hard), hard))
        limited = True


def finishes(what, f, budget):
    """Run f; its result, or None if it raises an ordinary exception."""
    limit_memory()
    out = [None]

    def g():
        try:
            out[0] = f()
        except MemoryError:
            out[0] = MemoryError
        except Exception:
            pass
    try:
        pbt.count_steps(g, budget)
    except pbt.StepLimit:
        fail('%s: more than %d steps', what, budget)
    if out[0] is MemoryError:
        fail('%s: exhausts memory', what)
    return out[0]


def budget(n, data=b''):
    big = max([int(x) for x in re.findall(rb'[0-9]+', data) if len(x) < 8] + [0])
    return 100000 + 1500 * n + 60 * (big if big > 20000 else 0)


def check_objects(data):
    n = len(data)
    b = budget(n)

    def tokens():
        i = 0
        while i < n:
            h, j, t = pdf.next_token(data, i)
            if j <= i:
                return
            i = j
    finishes('next_token', tokens, b)
    for f in (pdf.next_token, pdf.next_obj_token, pdf.parse_obj, pdf.parse_region, pdf.parse_indirect_obj, pdf.parse_xref_table_raw, pdf.next_line):
        for i in {0, n // 2, n}:
            finishes('%s at %d' % (f.__name__, i), lambda: f(data, i), b)
    finishes('file_object_map', lambda: pdf.file_object_map(pdf.bdata_provider(data)), b)
    finishes('loads', lambda: pdf.loads(data), b)
    return n >= 8, []


def check_files(case):
    base, ops = case
    data = pdfgen.build(base).data if type(base) == dict else base
    data = mutate.apply(data, ops)
    n = len(data)
    b = budget(n, data)
    labels = {op[0] for op in ops}
    prov = pdf.bdata_provider(data)
    m = finishes('file_object_map', lambda: pdf.file_object_map(prov), b)
    seq = finishes('build_xref_sequence', lambda: pdf.build_xref_sequence(prov), b)
    if seq:
        index = finishes('build_index_from_xref_sequence', lambda: pdf.build_index_from_xref_sequence(*seq), b)
    finishes('hexdump', lambda: pdf.hexdump(prov), b)
    doc = finishes('loads', lambda: pdf.loads(data), b)
    path = pbt.tmp_path('m.pdf')
    with open(path, 'wb') as f:
        f.write(data)

    def disasm():
        with contextlib.redirect_stdout(io.StringIO()):
            cli.dump_disasm(path)
    finishes('dump_disasm', disasm, b)
    finishes('load on demand', lambda: pdf.load(io.BytesIO(data), 'CONTINUOUS'), b)
    os.unlink(path)
    if doc is not None:
        labels.add('loaded')
        used = finishes('in_use', lambda: pdf.in_use(doc), b) or []
        for r in used[:40]:
            finishes('object %r' % r, lambda: pdf.get_object(doc, r), b)
        finishes('number_pages', lambda: pdf.number_pages(doc), b)
        finishes('structure', lambda: pdf.structure(doc), b)
        finishes('metadata', lambda: pdf.metadata(doc), b)
        finishes('changes', lambda: pdf.changes(doc), b)
        prev = finishes('rewind', lambda: pdf.rewind(doc), b * 4)
        finishes('fonts', lambda: pdf.fonts(doc), b * 4)
    return n >= 8, sorted(labels)


def check_streams(case):
    kind, entries, data = case
    n = len(data) + len(repr(entries))
    b = budget(n) + 3000 * n
    finishes('decode_stream of %r' % (entries,), lambda: pdf.decode_stream(data, entries), b)
    text = V.plain(entries) + b'\nstream\n' + data + b'\nendstream'
    finishes('parse_obj', lambda: pdf.parse_obj(text), b)
    s = pdf.Stream(entries, data, data)
    if kind == 'xref':
        finishes('parse_xref_stream_raw of %r' % (entries,), lambda: pdf.parse_xref_stream_raw(s, 0), b)
        finishes('parse_xref_stream', lambda: pdf.parse_xref_stream(s, 0, 1), b)
    elif kind == 'objstm':
        finishes('parse_object_stream of %r' % (entries,), lambda: pdf.parse_object_stream(s, 1), b)
    return n >= 8, [kind]


def check_text(case):
    kind, a, s = case
    n = len(s) + len(repr(a))
    b = budget(n) + 3000 * n
    if kind == 'string':
        finishes('text_string', lambda: pdf.text_string(s), b)
        finishes('apply_encoding', lambda: pdf.apply_encoding(a, s), b)
    elif kind == 'cmap':
        cmap = finishes('parse_obj', lambda: pdf.parse_obj(b'[' + a + b'\n]'), b)
        if type(cmap) == list:
            for simple in (False, True):
                finishes('apply_tounicode', lambda: pdf.apply_tounicode(cmap, s, simple), b)
    elif kind == 'widths':
        def use():
            f = pdf.prepare_w(a, 1000)
            return [f(c) for c in (0, 1, 300, 65535)]
        finishes('prepare_w of %r' % (a,), use, b)
    return n >= 8, [kind]


def soups():
    tok = st.one_of(st.sampled_from(mutate.TOKENS), st.sampled_from(mutate.TOKENS), st.sampled_from(mutate.NUMBERS), st.binary(min_size=1, max_size=4), V.names().map(lambda x: x.encode('latin-1')))
    return st.one_of(st.lists(tok, max_size=40).map(b''.join), st.lists(tok, max_size=40).map(b' '.join), st.binary(max_size=80),
                     st.builds(lambda t, u, k, m: t * k + u * m, st.sampled_from(mutate.TOKENS), st.sampled_from(mutate.TOKENS), st.integers(1, 150), st.integers(0, 150)))


@st.composite
def nests(draw):
    """Deeply nested arrays, dictionaries and strings, closed or not."""
    pairs = draw(st.lists(st.sampled_from([(b'[', b']'), (b'<</A ', b'>>'), (b'[1 ', b' 2]'), (b'<</A[', b']/B 1>>'), (b'[[]', b']'), (b'(', b')'), (b'[%c\n', b'%c\n]'), (b'<</A 1 0 R/B', b'>>')]), min_size=1, max_size=3))
    n = draw(st.integers(1, 60))
    k = n if draw(st.integers(0, 2)) else draw(st.integers(0, n))
    seq = [pairs[i % len(pairs)] for i in range(n)]
    return draw(st.sampled_from([b'', b'1 0 obj\n', b'x ', b'1 0 obj ['])) + b''.join(o for o, c in seq) + draw(st.sampled_from([b'', b'1', b'null', b'/A', b'1 0 R', b'(', b'<'])) + b''.join(c for o, c in seq[::-1][:k]) + draw(st.sampled_from([b'', b'\nendobj', b'\nstream\n\nendstream', b' R']))


def big():
    return st.sampled_from([0, 1, 2, 3, 8, -1, -8, -9, 99, 10 ** 9, 10 ** 12, -10 ** 12, 1.5])


def stream_cases():
    num = big()
    parms = st.dictionaries(st.sampled_from(['/Predictor', '/Columns', '/Colors', '/BitsPerComponent']), st.one_of(num, st.sampled_from([12, 15])), max_size=4)
    flt = st.one_of(st.sampled_from(['/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode', '/X']), st.lists(st.sampled_from(['/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode']), max_size=3))
    data = st.one_of(st.binary(max_size=60), st.binary(max_size=60).map(zlib.compress))
    a = st.tuples(st.just('filter'), st.fixed_dictionaries({'/Filter': flt}, optional={'/DecodeParms': st.one_of(parms, st.lists(parms, max_size=2)), '/Length': num}), data)
    b = st.tuples(st.just('xref'), st.fixed_dictionaries({'/W': st.lists(num, max_size=4), '/Size': num}, optional={'/Index': st.lists(num, max_size=6), '/Type': st.just('/XRef')}), st.binary(max_size=60))
    c = st.tuples(st.just('objstm'), st.fixed_dictionaries({'/N': num, '/First': num}, optional={'/Extends': num}), st.one_of(soups(), st.binary(max_size=60)))
    return st.one_of(a, a, b, c)


def text_cases():
    string = st.one_of(st.lists(st.sampled_from([b'(', b')', b'\\', b'<', b'>', b'\xfe\xff', b'a', b'0', b'7', b'\\777', b'\\\r\n', b'\r', b'\xd8\x00']), max_size=20).map(b''.join), st.binary(max_size=30))
    hexs = st.one_of(st.binary(max_size=3).map(lambda b: b'<' + b.hex().encode() + b'>'), st.just(b'(ab)'), st.sampled_from([b'<ffffffffffffffff>', b'<>', b'5', b'/x', b'[', b']', b'[<0041>]']))
    word = st.one_of(st.sampled_from([b'beginbfchar', b'endbfchar', b'beginbfrange', b'endbfrange', b'begincodespacerange', b'endcodespacerange', b'1', b'%c\n', b'>>', b'<<']), hexs, hexs)
    num = big()
    return st.one_of(st.tuples(st.just('string'), st.sampled_from(['/WinAnsiEncoding', '/MacRomanEncoding', None]), string),
                     st.tuples(st.just('cmap'), st.lists(word, max_size=30).map(b' '.join), st.one_of(string, hexs)),
                     st.tuples(st.just('widths'), st.lists(st.one_of(num, num, st.lists(num, max_size=3)), max_size=8), st.just(b'')))


@st.composite
def chains(draw):
    """A file whose cross-reference sections are linked to each other in any way, loops included."""
    n = draw(st.integers(1, 5))
    link = st.one_of(st.none(), st.integers(0, n - 1), st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from([-1, 0, 1, 10 ** 7]).map(str))
    secs = draw(st.lists(st.tuples(st.booleans(), link, link), min_size=n, max_size=n))
    last = draw(st.integers(0, n - 1))
    hops = draw(st.booleans())
    head = b'%PDF-1.5\n1 0 obj\n<< /Type /Catalog /Pages 2 0 R >>\nendobj\n2 0 obj\n<< /Type /Pages /Kids [] /Count 0 >>\nendobj\n'
    tail = b'startxref\n%010d\n%%%%EOF\n' if hops else b''
    pos = [0] * n

    def number(l):
        return b'%010d' % pos[l] if type(l) == int else l.encode()

    for _ in range(2):  # numbers have a fixed width: the second pass knows the positions
        out = head
        for i, (stream, prev, stm) in enumerate(secs):
            pos[i] = len(out)
            links = (b' /Prev ' + number(prev) if prev is not None else b'') + (b' /XRefStm ' + number(stm) if stm is not None else b'')
            if stream:
                rows = b'\0\0\0\xff\x01\0\x09\0\x01\0\x3a\0'
                out += b'%d 0 obj\n<< /Type /XRef /Size 3 /W [1 2 1] /Root 1 0 R /Length %d%s >>\nstream\n' % (3 + i, len(rows), links) + rows + b'\nendstream\nendobj\n'
            else:
                out += b'xref\n0 3\n0000000000 65535 f \n0000000009 00000 n \n0000000058 00000 n \ntrailer\n<< /Size 3 /Root 1 0 R%s >>\n' % links
            out += tail % pos[i] if tail else b''
    return out + b'startxref\n%d\n%%%%EOF\n' % pos[last]


def files():
    base = st.one_of(specs.specs(max_revs=3), specs.specs(max_revs=3), pagegen.page_specs(max_pages=3))
    return st.tuples(base, mutate.mutations())


SUBS = [Sub('chains', lambda: st.tuples(chains(), st.one_of(st.just([]), st.just([]), mutate.mutations(1))), check_files, 800, 20000), Sub('objects', lambda: st.one_of(soups(), soups(), nests()), check_objects, 1600, 150000), Sub('files', files, check_files, 1200, 80000),
        Sub('streams', stream_cases, check_streams, 3000, 150000), Sub('text', text_cases, check_text, 3000, 150000)]
