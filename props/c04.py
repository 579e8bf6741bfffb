"""C04: stream filters are lossless and interoperable."""
import zlib
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import docs
import history
import pdfgen
import refcodec
import refpdf
import specs
import values as V
import pdfsyntax as pdf

ID = 'C04'
RULE = ('chains: contents, filter chains (up to 3), spellings of the encoder and predictor geometries; encode: contents and chains; apply: files and sequences of filter changes. '
        'Non-trivial: the content is not empty and at least one filter is used; for apply, at least one stream changes its filter.')
ASSUMPTIONS = ['a decoded content that itself begins with the error marker of pdfsyntax (#PDFSyntaxException:) is out of domain', 'data given to a predictor is made of whole rows']

FILTERS = ['/ASCIIHexDecode', '/ASCII85Decode', '/FlateDecode']
MARK = b'#PDFSyntaxException:'


def contents():
    return st.one_of(st.binary(max_size=40), st.binary(max_size=40), st.lists(st.sampled_from([b'\0', b'\0\0\0\0', b'\xff', b'~', b'>', b'<~', b'z', b'zz', b'\x80', b' ', b'\n', b'ab', b'endstream']), max_size=14).map(b''.join),
                     st.lists(st.integers(0, 3), max_size=60).map(bytes))


def chains(max_size=3, min_size=0):
    return st.lists(st.sampled_from(FILTERS), min_size=min_size, max_size=max_size)


def geometries():
    return st.one_of(st.none(), st.fixed_dictionaries({}, optional={'/Predictor': st.just(1), '/Columns': st.integers(1, 9)}),
                     st.fixed_dictionaries({'/Predictor': st.integers(10, 15), '__tags': st.lists(st.integers(0, 4), min_size=1, max_size=5)},
                                           optional={'/Colors': st.integers(1, 4), '/BitsPerComponent': st.sampled_from([1, 2, 4, 8, 16]), '/Columns': st.integers(1, 9)}))


def row_length(p):
    return (p.get('/Columns', 1) * p.get('/Colors', 1) * p.get('/BitsPerComponent', 8) + 7) // 8


def check_chain(case):
    content, chain, geos, style, single, pad = case
    labels = set(chain)
    if content.startswith(MARK):
        return False, []
    parms = []
    data = content
    sty = V.Style(style)
    first = True
    for f, g in reversed(list(zip(chain, geos))):
        if f != '/FlateDecode' or g is None:
            g = None
        elif g.get('/Predictor', 1) >= 10:
            n = row_length(g)
            if len(data) % n:
                if first:
                    content = data = data + bytes(n - len(data) % n)
                else:
                    g = dict(g, **{'/Columns': len(data), '/Colors': 1, '/BitsPerComponent': 8})
            labels.add('predictor, colors %d, bits %d' % (g.get('/Colors', 1), g.get('/BitsPerComponent', 8)))
        first = False
        data = refcodec.encode_one(f, data, sty.pick, g)
        parms.insert(0, g)
    entries = {}
    if len(chain) == 1 and single:
        entries['/Filter'] = chain[0]
        if parms[0] is not None:
            entries['/DecodeParms'] = pdfgen.strip_tags(parms[0])
    elif chain or single:
        entries['/Filter'] = list(chain)
        if any(p is not None for p in parms):
            entries['/DecodeParms'] = ['null' if p is None else p for p in pdfgen.strip_tags(parms)]
    entries['/Length'] = len(data)
    got = pdf.decode_stream(data, entries)
    ensure(got == content, '%r with %r decodes to %r instead of %r', data, entries, got, content)
    text = V.spell(entries, V.Style(style)) + [b'\nstream\n', b'stream\r\n', b' stream\n'][pad % 3] + data + [b'\nendstream', b'\r\nendstream', b'endstream'][pad // 3 % 3]
    o = pdf.parse_obj(text)
    ensure(type(o) == pdf.Stream and o['stream'] == content and o['encoded'] == data, 'the stream %r is read as %r', text, o)
    return bool(content and chain), sorted(labels)


def check_encode(case):
    content, chain, single, extra = case
    entries = dict(extra)
    if len(chain) == 1 and single:
        entries['/Filter'] = chain[0]
    elif chain:
        entries['/Filter'] = list(chain)
    raw = pdf.encode_stream(content, entries)
    ensure(refcodec.decode(chain, raw) == content, 'the encoding %r of %r with %r is decoded by others as %r', raw, content, chain, refcodec.decode(chain, raw))
    ensure(pdf.decode_stream(raw, entries) == content, 'the encoding %r of %r with %r decodes to %r', raw, content, chain, pdf.decode_stream(raw, entries))
    before = repr(entries)
    s, length = pdf.forge_stream(entries, content)
    ensure(repr(entries) == before, 'forge_stream alters the entries it is given: %r', entries)
    ensure(s['stream'] == content and refcodec.decode(chain, s['encoded']) == content and s['entries']['/Length'] == length == len(s['encoded']), 'forge_stream gives %r', s)
    text = pdf.serialize(s)
    o = pdf.parse_obj(text)
    ensure(type(o) == pdf.Stream and o['stream'] == content, '%r is read back as %r', text, o)
    return bool(content and chain), sorted(chain)


def check_apply(case):
    base, steps, bad = case
    doc = pdf.loads(pdfgen.build(base).data)
    if bad:
        flt, raw = bad  # data that are not what the filter says
        doc, _ = pdf.add_object(doc, pdf.parse_obj(b'<< /Filter %s /Length %d >>\nstream\n%s\nendstream' % (flt, len(raw), raw)))
    before = {r: pdf.get_object(doc, r) for r in pdf.in_use(doc)}
    first = dict(before)
    labels = set()
    changed = 0

    def known(o):
        return refcodec.filter_list(o['entries'].get('/Filter')) == [f for f in refcodec.filter_list(o['entries'].get('/Filter')) if f in FILTERS] and not o['stream'].startswith(MARK)
    for pick, flt in steps:
        streams = [n for n in pdf.list_streams(doc) if not history.is_structure(pdf.obj(doc, n))]
        chosen = [n for i, n in enumerate(streams) if pick >> i % 8 & 1]
        old = {r: pdf.get_object(doc, r) for r in pdf.in_use(doc)}
        new = pdf.apply_filter(doc, chosen, flt)
        now = {r: pdf.get_object(new, r) for r in pdf.in_use(new)}
        ensure(set(now) == set(old), 'apply_filter changes the objects in use')
        for r, o in now.items():
            p = old[r]
            if int(r.imag) not in chosen or not known(p):
                if type(p) == pdf.Stream:
                    ensure(type(o) == pdf.Stream and o['entries'] == p['entries'] and o['encoded'] == p['encoded'], 'stream %r which is not to be changed becomes %r instead of %r', r, o, p)
                else:
                    ensure(o == p, 'object %r which is not a stream becomes %r instead of %r', r, o, p)
                continue
            ensure(type(o) == pdf.Stream and o['stream'] == p['stream'], 'the content of stream %r becomes %r instead of %r', r, o, p)
            ensure(refcodec.filter_list(o['entries'].get('/Filter')) == refcodec.filter_list(flt or None), 'the filter of stream %r is %r', r, o['entries'])
            keep = lambda e: {k: v for k, v in e.items() if k not in ('/Filter', '/DecodeParms', '/Length')}
            ensure(keep(o['entries']) == keep(p['entries']), 'the entries of stream %r become %r instead of %r', r, o['entries'], p['entries'])
            changed += o['entries'].get('/Filter') != p['entries'].get('/Filter')
            if p['entries'].get('/DecodeParms'):
                labels.add('predictor removed')
        doc = new
    _, data = history.write(doc)
    r, errors = refpdf.read(data)
    ensure(not errors, 'the file written is not valid: %r', errors)
    for ref, o in first.items():
        if type(o) != pdf.Stream or history.is_structure(o):
            continue
        g, v = r.objects[int(ref.imag)]
        ensure(known(o) or v.raw == o['encoded'], 'the stream %r with an unsupported filter is written with other bytes', ref)
        if known(o):
            c = refcodec.decode(v.entries.get('/Filter'), v.raw, v.entries.get('/DecodeParms'))
            ensure(c == o['stream'], 'the stream %r is written with content %r instead of %r', ref, c, o['stream'])
        else:
            labels.add('unsupported filter')
    return changed > 0, sorted(labels)


def corrupt():
    return st.one_of(st.none(), st.sampled_from([(b'/FlateDecode', b'not deflate'), (b'/ASCIIHexDecode', b'6x>'), (b'[/FlateDecode /ASCIIHexDecode]', b'7a>'), (b'/ASCII85Decode', b'\x7f!~>'),
                                                  (b'/LZWDecode', b'\x80\x0b'), (b'[/ASCIIHexDecode /DCTDecode]', b'ff>'), (b'/Fl', b''), (b'[/Crypt /FlateDecode]', zlib.compress(b'x'))]))


def apply_steps():
    return st.lists(st.tuples(st.integers(1, 255), st.sampled_from(['/FlateDecode', '', '/ASCIIHexDecode', '/ASCII85Decode', ['/ASCII85Decode', '/FlateDecode'], ['/FlateDecode']])), min_size=1, max_size=3)


def chain_cases():
    return st.tuples(contents(), chains(), st.lists(geometries(), min_size=3, max_size=3), V.styles(), st.booleans(), st.integers(0, 8))


SUBS = [Sub('chains', chain_cases, check_chain, 5000, 300000),
        Sub('encode', lambda: st.tuples(contents(), chains(), st.booleans(), st.dictionaries(V.keys(), V.values(2), max_size=2)), check_encode, 3000, 150000),
        Sub('apply', lambda: st.tuples(specs.specs(max_revs=2, max_objs=7), apply_steps(), corrupt()), check_apply, 1500, 60000)]
