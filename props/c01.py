"""C01: serialising a PDF value and parsing the bytes back gives the same value."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import values as V
import pdfsyntax as pdf

ID = 'C01'
RULE = ('A case is a PDF value (or a stream with its filters and content) built from the grammar of PDF objects. '
        'Non-trivial: it contains at least one container nested in another, or a string holding a delimiter, or a real that '
        'Python would print with an exponent, or a reference with a non-zero generation, or (streams) content that is not empty.')
ASSUMPTIONS = ['names are in the raw spelling pdfsyntax exposes (#xx not decoded)', 'reals are finite']


def facts(v, labels, depth=0):
    t = type(v)
    if t in (list, dict):
        if depth:
            labels.add('nested')
        if not v:
            labels.add('empty container')
        for x in (v.values() if t == dict else v):
            facts(x, labels, depth + 1)
    elif t == bytes:
        body = v[1:-1]
        if v[:1] == b'<':
            labels.add('hex string')
        elif any(c in body for c in b'()<>[]{}/%\\'):
            labels.add('delimiter in string')
    elif t == float and 'e' in repr(v):
        labels.add('exponent real')
    elif t == complex:
        labels.add('gen ref' if v.real else 'ref')
    elif t == str and any(ord(c) > 126 for c in v):
        labels.add('8-bit name')


def check_value(case):
    v, follow = case
    if type(v) == complex:
        v = [v]  # parse_obj reads one token, and a reference is three: it is read inside a container
    ser = pdf.serialize(v)
    ensure(type(ser) == bytes, 'serialize returned %s', type(ser).__name__)
    back = pdf.parse_obj(ser + follow)
    ensure(V.same(back, v), 'parse(serialize(x)) != x: x=%r serialised=%r parsed=%r', v, ser, back)
    again = pdf.parse_obj(pdf.serialize(back) + follow)
    ensure(V.same(again, v), 'a second round trip changes %r into %r', v, again)
    # the same value keeps its meaning inside containers
    w = pdf.parse_obj(pdf.serialize({'/First': v, '/Second': [v, 7], '/Third': 'null'}) + follow)
    ensure(V.same(w, {'/First': v, '/Second': [v, 7], '/Third': 'null'}), 'value %r changes inside a dictionary: %r', v, w)
    labels = set()
    facts(v, labels)
    return bool(labels & {'nested', 'delimiter in string', 'exponent real', 'gen ref', '8-bit name'}), sorted(labels)


def name_8bit():
    return st.sampled_from(['/caf\xe9', '/\xc3\xa9t\xe9', '/\x80\xff'])


def s_values():
    return st.tuples(V.values(10, st.one_of(V.refs(), name_8bit())), st.sampled_from([b' ', b'\n', b'\r\nendobj\n', b' endobj']))


FILTERS = [None, '/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode', ['/FlateDecode'], ['/ASCIIHexDecode', '/FlateDecode'],
           ['/ASCII85Decode', '/FlateDecode'], ['/ASCII85Decode', '/ASCIIHexDecode'], ['/FlateDecode', '/ASCIIHexDecode'],
           ['/ASCIIHexDecode', '/ASCII85Decode', '/FlateDecode']]

CONTENT_PIECES = [b'endstream', b'\nendstream\n', b'stream\n', b'endobj', b'\r', b'\n', b'\r\n', b'>>', b'<<', b'BT (x) Tj ET', b'\x00\x00\x00\x00', b'zzzz', b'~>', b'xref']


def contents():
    return st.one_of(st.binary(max_size=30),
                     st.lists(st.one_of(st.sampled_from(CONTENT_PIECES), st.binary(max_size=4)), max_size=6).map(b''.join))


def check_stream(case):
    entries, flt, content, follow = case
    entries = dict(entries)
    if flt is not None:
        entries['/Filter'] = flt
    s, _ = pdf.forge_stream(dict(entries), content)
    ser = pdf.serialize(s)
    back = pdf.parse_obj(ser + follow)
    ensure(type(back) == pdf.Stream, 'a serialised stream is read back as %r from %r', back, ser)
    ensure(back['stream'] == content, 'stream content %r (filters %r) is read back as %r from %r', content, flt, back['stream'], ser)
    ensure(back['encoded'] == s['encoded'], 'encoded bytes differ')
    for k in entries:
        ensure(V.same(back['entries'].get(k), entries[k]), 'entry %s changes from %r to %r', k, entries[k], back['entries'].get(k))
    extra = set(back['entries']) - set(entries) - {'/Length'}
    ensure(not extra, 'invented entries %r', extra)
    labels = ['filters=%s' % (flt,)]
    if s['encoded'][-1:] == b'\r':
        labels.append('encoded ends in CR')
    if b'endstream' in s['encoded']:
        labels.append('endstream in data')
    if not content:
        labels.append('empty content')
    return bool(content), labels


def s_streams():
    e = st.dictionaries(V.keys(), V.values(4), max_size=3)
    return st.tuples(e, st.sampled_from(FILTERS), contents(), st.sampled_from([b'', b'\nendobj\n', b' endobj', b'\rendobj\nendstream']))


SUBS = [Sub('values', s_values, check_value, 4000, 200000),
        Sub('streams', s_streams, check_stream, 4000, 200000)]
