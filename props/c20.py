"""C20: text strings decode to their characters in every legal spelling."""
from hypothesis import strategies as st
from pbt import Sub, ensure
import pdfgen
import reftext
import values as V
import pdfsyntax as pdf

ID = 'C20'
RULE = 'A case is a text, an encoding and a spelling (a list of choices). Non-trivial: the text is not empty and the spelling is not the plainest one or holds a special character.'
ASSUMPTIONS = ['a PDFDocEncoded text does not begin with the characters of a byte order mark (UTF-16 or UTF-8)', 'texts hold no lone surrogate', 'lib/reftext.py spells strings as the standard says (cross-checked by its own reader)']


def spelled(text, utf16, hexa, style):
    data = reftext.encode(text, utf16)
    s = V.Style(style)
    tok = reftext.spell_hex(data, s) if hexa else reftext.spell_literal(data, s)
    if reftext.read_string(tok) != data or reftext.decode(data) != text:
        raise AssertionError('the encoder of the check is wrong')
    return data, tok


def check(case):
    text, utf16, hexa, style = case
    data, tok = spelled(text, utf16, hexa, style)
    got = pdf.text_string(tok)
    ensure(got == text, '%r decodes to %r instead of %r', tok, got, text)
    ensure(pdf.string_content(tok) == data, '%r stands for %r instead of %r', tok, pdf.string_content(tok), data)
    labels = ['utf-16' if data[:2] == reftext.BOM else 'pdfdoc', 'hex' if hexa else 'literal']
    return bool(text) and (tok[1:-1] != data or not text.isalnum()), labels


def check_inside(case):
    """The same through files: strings in an object are delimited and kept, and metadata reads them."""
    items, style = case
    toks = [spelled(*i) for i in items]
    s = V.Style(style)
    arr = pdf.parse_obj(V.spell([t for _, t in toks], s))
    ensure(arr == [t for _, t in toks], 'an array of strings is read as %r instead of %r', arr, [t for _, t in toks])
    keys = ['/Title', '/Author', '/Subject', '/Keywords', '/Creator', '/Producer', '/CreationDate', '/ModDate']
    info = {k: t for k, (_, t) in zip(keys, toks)}
    spec = {'ver': '1.4', 'fmt': style, 'tail': b'', 'linear': 0, 'revs': [{'form': ['table', 'stream'][len(style) % 2], 'free': [], 'pack': [[4]] if len(style) % 2 else [], 'trailer': {'/Root': 1j, '/Info': 4j}, 'set': {
        1: (0, {'/Type': '/Catalog', '/Pages': 2j}), 2: (0, {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}), 3: (0, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 9, 9]}), 4: (0, info)}}]}
    m = pdf.metadata(pdf.loads(pdfgen.build(spec).data))
    for k, i in zip(keys, items):
        ensure(m[k[1:]] == (i[0] or None), 'metadata %s is %r instead of %r', k, m[k[1:]], i[0])
    return any(i[0] for i in items), []


def cases():
    return st.tuples(reftext.texts(), st.booleans(), st.booleans(), V.styles())


def enumerate_cases(tier):
    for c in range(256):
        for b in (bytes([c]), bytes([c]) + b'7', b'(' + bytes([c])):
            if all(x in reftext.PDFDOC for x in b):
                t = reftext.decode(b)
                for k in range(12):
                    for l in range(3):
                        yield (t, False, False, bytes([k, l]))
                yield (t, False, True, b'\0')
                yield (t, True, False, b'\x08')


SUBS = [Sub('spelling', cases, check, 12000, 600000, enumerate_cases),
        Sub('inside', lambda: st.tuples(st.lists(cases(), min_size=1, max_size=8), V.styles()), check_inside, 1500, 60000)]
