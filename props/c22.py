"""C22: shown strings map to the characters and codes that the font defines, with their widths."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import pdfgen
import reftext
import values as V
from values import Style
import pdfsyntax as pdf

ID = 'C22'
RULE = ('A case is a font (a ToUnicode CMap made of generated bfchar and bfrange sections in any spelling, or WinAnsi/MacRoman, /Widths or /W and /DW) and strings shown with it, read through a document; a table from code to text and width is the oracle. '
        'Non-trivial: a mapped code and an unmapped one, or a range, or a width.')
ASSUMPTIONS = ['no code is mapped twice', 'strings are made of whole codes', 'increments do not overflow the last byte of the target (required by the standard)',
               'the codes left undefined by WinAnsi and MacRoman, and the widths of codes outside /Widths, are not looked at', 'the code of a composite font is its CID (Identity-H)']

WIN = {c: chr(c) for c in range(0x20, 0x7f)}
WIN.update({c: chr(c) for c in range(0xa1, 0x100) if c != 0xad})
for _base, _s in ((0x80, '\u20ac-\u201a\u0192\u201e\u2026\u2020\u2021\u02c6\u2030\u0160\u2039\u0152-\u017d-'), (0x90, '-\u2018\u2019\u201c\u201d\u2022\u2013\u2014\u02dc\u2122\u0161\u203a\u0153-\u017e\u0178')):
    for _i, _c in enumerate(_s):
        if _c != '-':
            WIN[_base + _i] = _c
MAC = {c: chr(c) for c in range(0x20, 0x7f)}
for _base, _s in ((0x80, 'ÄÅÇÉÑÖÜáàâäãåçéè'), (0x90, 'êëíìîïñóòôöõúùûü'), (0xa0, '†°¢£§•¶ß®©™´¨\0ÆØ'), (0xb0, '\0±\0\0¥µ\0\0\0\0\0ªº\0æø'),
                  (0xc0, '¿¡¬\0ƒ\0\0«»…\0ÀÃÕŒœ'), (0xd0, '–—“”‘’÷\0ÿŸ⁄¤‹›\ufb01\ufb02'), (0xe0, '‡·‚„‰ÂÊÁËÈÍÎÏÌÓÔ'), (0xf0, '\0ÒÚÛÙıˆ˜¯˘˙˚¸˝˛ˇ')):
    for _i, _c in enumerate(_s):
        if _c != '\0':
            MAC[_base + _i] = _c


# ---- CMaps
def code_hex(code, size, s):
    return reftext.spell_hex_exact(code.to_bytes(size, 'big'), s)


def cmap_bytes(sections, size, s, frame):
    """Text of a CMap; sections: [('char', [(code, text)]) | ('range', [(lo, [texts], 'inc'|'arr')])]."""
    ws = lambda need=True: s.choose([b' ', b'\n', b'\r\n', b'\t', b'  ', b' % note <41> beginbfchar\n', b'\n']) if need else s.choose([b'', b' ', b'\n', b''])
    out = b''
    if frame == 1:
        out += (b'/CIDInit /ProcSet findresource begin' + ws() + b'12 dict begin' + ws() + b'begincmap' + ws() +
                b'/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def' + ws() + b'/CMapName /Adobe-Identity-UCS def /CMapType 2 def' + ws())
    elif frame == 2:
        out += b'%!PS-Adobe-3.0 Resource-CMap\n' + b'12 dict begin begincmap /CIDSystemInfo 3 dict dup begin /Registry (A) def /Ordering (B) def /Supplement 0 def end def' + ws()
    if frame:
        k = s.pick(3)
        rng = code_hex(0, size, s) + ws(False) + code_hex(256 ** size - 1, size, s)
        if k == 1:
            rng = code_hex(0, size, s) + ws(False) + code_hex(0x7f, size, s) + ws(False) + code_hex(0x80, size, s) + code_hex(256 ** size - 1, size, s)
        out += (b'2' if k == 1 else b'1') + ws() + b'begincodespacerange' + ws(False) + rng + ws(False) + b'endcodespacerange' + ws()
    for kind, items in sections:
        out += b'%d' % len(items) + ws() + b'beginbf' + kind.encode() + ws(False)
        for it in items:
            if kind == 'char':
                out += code_hex(it[0], size, s) + ws(False) + code_target(it[1], s)
            else:
                lo, texts, how = it
                out += code_hex(lo, size, s) + ws(False) + code_hex(lo + len(texts) - 1, size, s) + ws(False)
                if how == 'inc':
                    out += code_target(texts[0], s)
                else:
                    out += b'[' + ws(False) + b''.join(code_target(t, s) + ws(False) for t in texts) + b']'
            out += ws(False)
        out += b'endbf' + kind.encode() + ws()
    if frame:
        out += b'endcmap CMapName currentdict /CMap defineresource pop end' + ws() + b'end'
        if s.pick(4) == 3:
            out += b' %%EOF'
    return out


def code_target(text, s):
    return reftext.spell_hex_exact(text.encode('utf-16be'), s)


def table_of(sections):
    t = {}
    for kind, items in sections:
        for it in items:
            if kind == 'char':
                t[it[0]] = it[1]
            else:
                for i, x in enumerate(it[1]):
                    t[it[0] + i] = x
    return t


def spell_shown(codes, size, s):
    data = b''.join(c.to_bytes(size, 'big') for c in codes)
    return reftext.spell_hex(data, s) if s.pick(2) else reftext.spell_literal(data, s)


def check_cmap(case):
    sections, size, fmt, frame, strings = case
    s = Style(fmt)
    text = cmap_bytes(sections, size, s, frame)
    cmap = pdf.parse_obj(b'[' + text + b'\n]')
    table = table_of(sections)
    some = bool(table)
    labels = {k for k, _ in sections} | {'size=%d' % size}
    seen = set()
    for codes in strings:
        if not some and size == 2 and s.pick(2):
            continue
        tok = spell_shown(codes, size, s)
        got = pdf.apply_tounicode(cmap, tok, size == 1)
        want = ''.join(table.get(c, '') for c in codes)
        ensure(got[0] == want, 'string %r is %r instead of %r with the CMap %r', tok, got[0], want, text)
        ensure(list(got[1]) == list(codes), 'the codes of %r are %r instead of %r', tok, got[1], codes)
        seen |= {c in table for c in codes}
    if len(seen) == 2:
        labels.add('mapped and unmapped')
    return bool(table) and True in seen, sorted(labels)


def check_font(case):
    kind, font, extra, sections, frame, fmt, strings = case
    s = Style(fmt)
    size = 2 if kind == 'composite' else 1
    objs, nxt = {}, 10
    put = lambda v: None

    def ref(v):
        nonlocal nxt
        objs[nxt] = (0, v)
        nxt += 1
        return complex(0, nxt - 1)
    maybe = lambda v: ref(v) if s.pick(3) == 2 else v
    f = {'/Type': '/Font', '/Subtype': '/Type0' if size == 2 else extra['sub'], '/BaseFont': '/Foo'}
    widths = {}
    if kind == 'composite':
        f['/Encoding'] = '/Identity-H'
        d = {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': '/Foo'}
        dw = extra['dw']
        if dw is not None:
            d['/DW'] = maybe(dw)
        default = 1000 if dw is None else dw
        if font is not None:
            w = []
            for first, ws, form in font:
                if form == 'arr':
                    w += [first, maybe(list(ws))]
                    widths.update({first + i: x for i, x in enumerate(ws)})
                else:
                    w += [first, first + len(ws) - 1, ws[0]]
                    widths.update({first + i: ws[0] for i in range(len(ws))})
            d['/W'] = maybe(w)
        f['/DescendantFonts'] = maybe([ref(d)])
    else:
        default = None
        if extra['enc'] is not None:
            f['/Encoding'] = maybe(extra['enc'])
        if font is not None:
            first, ws = font
            f['/FirstChar'] = maybe(first)
            f['/LastChar'] = first + len(ws) - 1
            f['/Widths'] = maybe([maybe(x) for x in ws])
            widths = {first + i: x for i, x in enumerate(ws)}
    table = None
    if sections is not None:
        table = table_of(sections)
        f['/ToUnicode'] = ref(('stream', {}, cmap_bytes(sections, size, s, frame), s.choose([None, '/FlateDecode']), None, 'direct'))
    fr = ref(f)
    objs[1] = (0, {'/Type': '/Catalog', '/Pages': 2j})
    objs[2] = (0, {'/Type': '/Pages', '/Kids': [3j], '/Count': 1})
    objs[3] = (0, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 9, 9], '/Resources': {'/Font': {'/F1': fr}}})
    spec = {'ver': '1.5', 'fmt': fmt, 'tail': b'', 'linear': 0, 'revs': [{'form': extra['form'], 'set': objs, 'free': [], 'pack': [sorted(objs)] if extra['form'] == 'stream' else [], 'trailer': {'/Root': 1j}}]}
    doc = pdf.loads(pdfgen.build(spec).data)
    got = pdf.get_page_fonts(doc, [0])[0]
    ensure(list(got) == ['/F1'], 'fonts of the page: %r', list(got))
    g = got['/F1']
    labels = {kind}
    hit = False
    for codes in strings:
        codes = [c % 256 for c in codes] if size == 1 else codes
        tok = spell_shown(codes, size, s)
        if table is not None:
            text, chars = g['dec_fun'](tok)
            want = ''.join(table.get(c, '') for c in codes)
            ensure(text == want and list(chars) == codes, 'string %r: %r, %r instead of %r, %r', tok, text, chars, want, codes)
            hit = hit or any(c in table for c in codes)
        elif size == 1 and extra['enc']:
            m = MAC if extra['enc'] == '/MacRomanEncoding' else WIN
            text, chars = g['dec_fun'](tok)
            ensure(list(chars) == codes, 'string %r has codes %r instead of %r', tok, chars, codes)
            ensure(len(text) == len(codes), 'string %r is %r: %d characters for %d codes', tok, text, len(text), len(codes))
            for c, x in zip(codes, text):
                ensure(c not in m or m[c] == x, '%s: code %d is %r instead of %r', extra['enc'], c, x, m.get(c))
            hit = hit or any(c in m for c in codes)
            labels.add(extra['enc'])
        for c in codes:
            w = widths.get(c, default)
            if w is None:       # some default, but a number
                x = g['char_width'](c)
                ensure(type(x) in (int, float) and x >= 0, 'the width of code %d is %r', c, x)
            else:
                got = g['char_width'](c)
                ensure(got == w and type(got) != bool, 'the width of code %d is %r instead of %r', c, got, w)
                hit = True
                labels.add('width' if c in widths else 'default width')
    return hit, sorted(labels)


# ---- generation
@st.composite
def targets(draw):
    one = st.one_of(st.sampled_from('AbZ0 é€ﬁ'), st.characters(exclude_categories=('Cs',)))
    return ''.join(draw(st.lists(one, min_size=1, max_size=draw(st.sampled_from([1, 1, 1, 2, 3])))))


def increments(text, n):
    """Texts of a range of n codes from text, or fewer when the last byte would overflow or leave the legal characters."""
    out = []
    b = text.encode('utf-16be')
    for i in range(n):
        if b[-1] + i > 255:
            break
        try:
            out.append((b[:-1] + bytes([b[-1] + i])).decode('utf-16be'))
        except UnicodeDecodeError:
            break
    return out


@st.composite
def cmap_sections(draw, size):
    used = set()
    top = 256 ** size - 1
    start = st.one_of(st.integers(0, 0x60), st.integers(0, top), st.sampled_from([0, top, 255, 0x7f, 0x80] + ([0x100, 0xff00, 0x4100] if size == 2 else [])))
    res = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4]))):
        kind = draw(st.sampled_from(['char', 'range']))
        items = []
        for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3, 5]))):
            lo = draw(start)
            if lo in used:
                continue
            if kind == 'char':
                used.add(lo)
                t = draw(targets()) if draw(st.integers(0, 19)) else ''
                items.append((lo, t))
            else:
                n = draw(st.sampled_from([1, 2, 3, 4, 10, 200]))
                k = 0
                while k < n and lo + k <= top and lo + k not in used and (lo + k) // 256 == lo // 256:
                    k += 1
                how = draw(st.sampled_from(['inc', 'inc', 'arr']))
                if how == 'inc':
                    texts = increments(draw(targets()), k)
                else:
                    texts = [draw(targets()) for _ in range(min(k, 5))]
                used |= set(range(lo, lo + len(texts)))
                items.append((lo, texts, how))
        if kind == 'range':
            items = [x for x in items if x[1]]
        res.append((kind, items))
    return res


@st.composite
def shown(draw, sections, size, more=()):
    codes = sorted(table_of(sections)) if sections else []
    top = 256 ** size - 1
    edge = sorted({max(0, min(top, c + d)) for c in codes for d in (-1, 0, 1)} | set(more))
    one = st.one_of(st.integers(0, top), *([st.sampled_from(edge), st.sampled_from(edge)] if edge else []))
    return draw(st.lists(st.lists(one, max_size=8), min_size=1, max_size=3))


@st.composite
def cmaps(draw):
    size = draw(st.sampled_from([1, 2]))
    sec = draw(cmap_sections(size))
    return sec, size, draw(st.binary(max_size=30)), draw(st.integers(0, 2)), draw(shown(sec, size))


WIDTHS = st.one_of(st.integers(0, 2000), st.sampled_from([0, 500, 1000]), st.integers(0, 8000).map(lambda x: x / 4))


@st.composite
def fonts(draw):
    kind = draw(st.sampled_from(['simple', 'composite']))
    form = draw(st.sampled_from(['table', 'stream']))
    size = 2 if kind == 'composite' else 1
    edge = set()
    if kind == 'simple':
        extra = {'sub': draw(st.sampled_from(['/Type1', '/TrueType'])), 'enc': draw(st.sampled_from([None, '/WinAnsiEncoding', '/MacRomanEncoding'])), 'form': form}
        font = None
        if draw(st.integers(0, 3)):
            first = draw(st.sampled_from([0, 1, 31, 32, 65, 200, 255]))
            ws = draw(st.lists(WIDTHS, min_size=1, max_size=min(12, 256 - first)))
            font = (first, ws)
            edge = set(range(first, first + len(ws)))
        sec = draw(cmap_sections(1)) if draw(st.booleans()) else None
    else:
        extra = {'dw': draw(st.sampled_from([None, 0, 500, 750.5])), 'form': form}
        font = None
        k = draw(st.integers(0, 5))
        if k:
            font, c = [], 0
            for _ in range(draw(st.integers(0, 4))):
                c += draw(st.sampled_from([0, 1, 2, 50, 300]))
                how = draw(st.sampled_from(['arr', 'range']))
                ws = draw(st.lists(WIDTHS, min_size=1, max_size=4)) if how == 'arr' else [draw(WIDTHS)] * draw(st.sampled_from([1, 2, 5, 300]))
                font.append((c, ws, how))
                edge |= {max(0, c - 1), c, c + len(ws) - 1, c + len(ws)}
                c += len(ws)
            font = draw(st.permutations(font))
        sec = draw(cmap_sections(2)) if draw(st.integers(0, 3)) else None
    return kind, font, extra, sec, draw(st.integers(0, 2)), draw(st.binary(max_size=30)), draw(shown(sec, size, edge))


def all_bytes(tier):
    for enc in ('/WinAnsiEncoding', '/MacRomanEncoding'):
        for k in range(8):
            yield ('simple', None, {'sub': '/Type1', 'enc': enc, 'form': 'table'}, None, 0, bytes([k]), [list(range(32 * k, 32 * k + 32))])


SUBS = [Sub('cmap', cmaps, check_cmap, 6000, 300000),
        Sub('font', fonts, check_font, 3000, 120000, enumerate_cases=all_bytes)]
