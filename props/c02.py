"""C02: the value read does not depend on how it is spelled."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import values as V
import pdfsyntax as pdf

ID = 'C02'
RULE = ('A case is a PDF value and a formatting style (a finite list of choices that selects white space, comments, delimiters without '
        'white space, spellings of numbers). Non-trivial: the spelled bytes differ from the plain spelling and hold a comment, a token '
        'boundary without white space, or an unusual number spelling.')
ASSUMPTIONS = ['the speller in lib/values.py writes the syntax of ISO 32000-1 7.2 and 7.3 only',
               'the input continues after the object with white space or a delimiter, as inside a file']


def check(case):
    v, style, lead, follow = case
    if type(v) == complex:
        v = {'/Ref': v}
    s = V.Style(style)
    text = V.spell(v, s)
    got = pdf.parse_obj(lead + text + follow)
    ensure(V.same(got, v), '%r is read as %r instead of %r', lead + text + follow, got, v)
    plain = pdf.parse_obj(V.plain(v) + b' ')
    ensure(V.same(plain, v), 'plain spelling %r is read as %r instead of %r', V.plain(v), plain, v)
    labels = []
    if b'%' in text and any(c in text for c in V.COMMENTS):
        labels.append('comment')
    if text != V.plain(v):
        labels.append('respelled')
    if lead.strip():
        labels.append('leading comment')
    return 'respelled' in labels and (len(text) > 6), labels


def s_spell():
    return st.tuples(V.values(10), V.styles(), st.sampled_from([b'', b'', b' ', b'\r\n', b'%c\n', b' % >>\r ']),
                     st.sampled_from([b' ', b'\n', b'\r', b'\x00', b'\t', b'\x0c', b'%x\n', b'/N ', b' endobj', b'[', b'(', b'<']))


def check_offset(case):
    """Parsing at an offset in a bigger buffer sees the same value, whatever is around it."""
    vals, style, = case
    s = V.Style(style)
    vals = [[v] if type(v) == complex else v for v in vals]
    buf = b''
    pos = []
    for v in vals:
        t = V.spell(v, s)
        pos.append(len(buf))
        buf += t + s.choose([b' ', b'\n', b'\r\n', b' %z\n', b'\t\t'])
    for p, v in zip(pos, vals):
        got = pdf.parse_obj(buf, p)
        ensure(V.same(got, v), 'at offset %d of %r: %r instead of %r', p, buf, got, v)
    return len(vals) > 1 and any(type(v) in (list, dict) for v in vals), ['values=%d' % len(vals)]


def s_offset():
    return st.tuples(st.lists(V.values(5), min_size=1, max_size=6), V.styles())


def check_string(case):
    """Any byte sequence with balanced unescaped parentheses is one opaque string token."""
    bodies, style, kind = case
    s = V.Style(style)
    vals = [b'(' + b + b')' for b in bodies]
    obj = {'/K%d' % i: x for i, x in enumerate(vals)} if kind == 'dict' else ([vals] if kind == 'nested' else vals)
    text = V.spell(obj, s)
    got = pdf.parse_obj(text + b' ')
    ensure(V.same(got, obj), '%r is read as %r', text, got)
    return any(set(b) & set(b'()<>[]{}/%\\') for b in bodies), [kind]


def s_string():
    return st.tuples(st.lists(V.literal_string_body(), min_size=1, max_size=4), V.styles(), st.sampled_from(['dict', 'list', 'nested']))


def check_deep(case):
    depth, leaf, kinds, style = case
    v = leaf
    for i in range(depth):
        k = kinds[i % len(kinds)]
        v = [v, i] if k == 0 else ({'/A': v, '/B': [i]} if k == 1 else [v])
    s = V.Style(style)
    text = V.spell(v, s)
    got = pdf.parse_obj(text + b' ')
    ensure(V.same(got, v), 'depth %d: %r is read as %r', depth, text, got)
    return depth > 4, ['depth %d+' % (depth // 10 * 10)]


def s_deep():
    return st.tuples(st.integers(1, 40), V.scalars(), st.lists(st.integers(0, 2), min_size=1, max_size=4), V.styles())


def check_length(case):
    """A stream whose /Length is missing or wrong extends up to its endstream."""
    entries, content, length, eols, follow = case
    n = len(content)
    e = dict(entries)
    if length is not None and not n - 3 < length < n + 3:
        e['/Length'] = length
    else:
        length = None
    text = V.plain(e) + eols[0] + b'stream' + eols[1] + content + eols[2] + b'endstream' + follow
    got = pdf.parse_obj(text)
    ensure(type(got) == pdf.Stream and got['encoded'] == content, '%r is read as %r', text, got)
    want = dict(e)
    rest = {k: v for k, v in got['entries'].items() if k != '/Length' or k in want}
    ensure(V.same(rest, want), 'the dictionary of %r is read as %r', text, got['entries'])
    return n > 0, ['wrong' if length is not None else 'missing', 'empty' if not n else 'content']


def s_length():
    piece = st.one_of(st.binary(max_size=12), st.sampled_from([b'stream', b'endobj', b'(', b'<<', b'% c', b'\r\n', b'endstrea', b'xref', b'/Length 3']))
    content = st.lists(piece, max_size=5).map(b''.join).map(lambda b: b.replace(b'endstream', b'')).filter(lambda b: b'endstream' not in b and b[-1:] not in (b'\r', b'\n'))
    entries = st.dictionaries(V.keys().filter(lambda k: k not in ('/Filter', '/DecodeParms', '/Length')), V.scalars(), max_size=2)
    eols = st.tuples(st.sampled_from([b'\n', b' ', b'', b'\r\n', b' % c\n']), st.sampled_from([b'\n', b'\r\n']), st.sampled_from([b'\n', b'\r\n', b'\r']))
    return st.tuples(entries, content, st.one_of(st.none(), st.integers(0, 60), st.sampled_from([-1, 10 ** 6])), eols, st.sampled_from([b'\nendobj', b'\n', b' endobj\n2 0 obj\nnull']))


SUBS = [Sub('length', s_length, check_length, 1600, 60000),
        Sub('spellings', s_spell, check, 5000, 300000),
        Sub('offsets', s_offset, check_offset, 1600, 60000),
        Sub('strings', s_string, check_string, 3000, 120000),
        Sub('deep', s_deep, check_deep, 400, 10000)]
