"""C23: content streams: the commands, the graphics and text state they reach, and the text extracted from a page."""
import contextlib
import io
import math
import os
import sys
from fractions import Fraction
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import pdfgen
import reftext
import values as V
from values import Style
import pdfsyntax as pdf

ID = 'C23'
RULE = ('A case is a content stream: a list of commands in any spelling; a program of graphics state, text state, text positioning and text showing operators; or a page whose lines of text are placed by several operators, fonts and content streams. '
        'The commands written, a reference interpreter in exact arithmetic, and the text placed are the oracles. Non-trivial: two commands, a q/Q pair or a matrix, a shown string, or two lines.')
ASSUMPTIONS = ['the data of an inline image holds no EI between white space', 'q, Q and cm are not used inside a text object (required by the standard)', 'horizontal writing, and fonts that the page declares',
               'for the order of the text extracted: lines are level, evenly spaced, at least as far apart as the largest font size; blank lines are counted where one size is used and most lines of the columns follow the one just before; texts less than 10 units and more than 1 apart are separated or not',
               'positions stay within a few thousand units']

OPERATORS = ("w J j M d ri i gs q Q cm m l c v y h re S s f F f* B B* b b* n W W* BT ET Tc Tw Tz TL Tf Tr Ts Td TD Tm T* Tj TJ ' \" d0 d1 CS cs SC SCN sc scn G g RG rg K k sh Do MP DP BMC BDC EMC BX EX").split()


# ---- commands as they are written
def spell_commands(commands, s, tail=b''):
    return V.gap(s, False) + join(tokens(commands, s), s) + tail


def tokens(program, s):
    toks = []
    for c in program:
        if c[-1] == 'EI':           # one white space before the data, and one after
            toks[-1] += s.choose([b' ', b'\n', b'\r', b'\t']) + c[0] + s.choose([b'\n', b' ', b'\r', b'\x00']) + b'EI'
            continue
        for x in c[:-1]:
            toks += V.tokens_of(x, s)
        toks.append(c[-1].encode())
    return toks


def join(toks, s):
    """Tokens with gaps, where the data of an inline image is not followed at once by a delimiter."""
    out = b''
    for i, x in enumerate(toks):
        if i:
            out += V.gap(s, V.need_gap(toks[i - 1], x) or toks[i - 1][:2] == b'ID')
        out += x
    return out


def check_commands(case):
    commands, fmt, tail = case
    text = spell_commands(commands, Style(fmt), tail)
    got = pdf.parse_stream_content(text)
    if not V.same([list(c) for c in got], commands):
        n = next((i for i in range(min(len(got), len(commands))) if not V.same(list(got[i]), commands[i])), min(len(got), len(commands)))
        fail('%d commands instead of %d; number %d is %r instead of %r in %r', len(got), len(commands), n, got[n:n + 1], commands[n:n + 1], text)
    labels = set()
    for c in commands:
        labels |= {'operand ' + type(x).__name__ for x in c[:-1]}
    if tail:
        labels.add('tail')
    return len(commands) > 1, sorted(labels)


NUM = st.one_of(st.integers(-10, 1000), st.integers(-2000, 2000).map(lambda i: i / 8), V.ints(), V.reals())


# data that holds no EI between white space
IMAGE = st.lists(st.one_of(st.sampled_from([b'(', b')', b'[', b'<<', b'>>', b'%', b'ET', b'EI', b'EIx', b' E I ', b'\nBT', b'Q', b'\\', b'endstream']), st.binary(max_size=6)), max_size=6).map(b''.join).filter(
    lambda d: not any((b' ' + d + b' ')[i:i + 2] == b'EI' and (b' ' + d + b' ')[i - 1] in b'\x00\t\n\x0c\r ' for i in range(1, len(d) + 1)))


@st.composite
def commands(draw):
    plain = st.one_of(NUM, V.names(), V.strings())
    inner = st.one_of(plain, st.booleans(), st.just('null'))
    nested = st.recursive(inner, V.composite, max_leaves=6)
    operand = st.one_of(plain, plain, st.lists(st.one_of(V.strings(), NUM), max_size=5), st.lists(nested, max_size=3), st.dictionaries(V.keys(), nested, max_size=3))
    one = st.builds(lambda o, n: o + [n], st.lists(operand, max_size=4), st.sampled_from(OPERATORS))
    image = st.tuples(st.just([['BI']]), st.lists(st.tuples(V.names(), inner).map(list), max_size=3), IMAGE).map(lambda x: x[0] + [sum(x[1], []) + ['ID'], [x[2], 'EI']])
    cs = sum(draw(st.lists(st.one_of(*[one.map(lambda c: [c])] * 8, image), max_size=12)), [])
    return cs, draw(V.styles()), draw(st.sampled_from([b'', b'', b'\n', b'\r', b' ', b'\n% end', b'%]', b' % (\r\n', b'\x00']))


# ---- reference interpreter
I = tuple(Fraction(x) for x in (1, 0, 0, 1, 0, 0))


def mul(m, n):
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a * A + b * C, a * B + b * D, c * A + d * C, c * B + d * D, e * A + f * C + E, e * B + f * D + F)


def num(x):
    return Fraction(x)


class Interpreter:
    """Graphics state operators of ISO 32000-1 8.4.4, 9.3, 9.4; the glyphs are (code, size of the code, width in thousandths)."""

    def __init__(self):
        self.ctm = I
        self.t = {'Tc': Fraction(0), 'Tw': Fraction(0), 'Th': Fraction(100), 'Tl': Fraction(0), 'Tf': None, 'Tfs': None, 'Tmode': 0, 'Trise': Fraction(0)}
        self.stack = []
        self.tm = self.tlm = I
        self.shown = []         # (matrix before, glyphs, matrix after)
        self.kern = []

    def trm(self):
        return mul(mul((self.t['Tfs'] * self.t['Th'] / 100, num(0), num(0), self.t['Tfs'], num(0), self.t['Trise']), self.tm), self.ctm)

    def move(self, x, y):
        self.tm = self.tlm = mul((num(1), num(0), num(0), num(1), x, y), self.tlm)

    def glyph(self, width, space):
        t = self.t
        tx = (width / 1000 * t['Tfs'] + t['Tc'] + (t['Tw'] if space else 0)) * t['Th'] / 100
        self.tm = mul((num(1), num(0), num(0), num(1), tx, num(0)), self.tm)

    def show(self, items, measure):
        """items: lists of codes and numbers."""
        before = self.trm()
        for it in items:
            if isinstance(it, list):
                for c in it:
                    w, space = measure(self.t['Tf'], c)
                    self.glyph(num(w), space)
            else:
                tx = -num(it) / 1000 * self.t['Tfs'] * self.t['Th'] / 100
                self.tm = mul((num(1), num(0), num(0), num(1), tx, num(0)), self.tm)
        self.shown.append((before, items, self.trm()))

    def run(self, c, measure=None):
        op, a = c[-1], c[:-1]
        t = self.t
        if op == 'q':
            self.stack.append((self.ctm, dict(t)))
        elif op == 'Q':
            if self.stack:
                self.ctm, self.t = self.stack.pop()
        elif op == 'cm':
            self.ctm = mul(tuple(num(x) for x in a), self.ctm)
        elif op == 'BT':
            self.tm = self.tlm = I
        elif op == 'Tc':
            t['Tc'] = num(a[0])
        elif op == 'Tw':
            t['Tw'] = num(a[0])
        elif op == 'Tz':
            t['Th'] = num(a[0])
        elif op == 'TL':
            t['Tl'] = num(a[0])
        elif op == 'Tf':
            t['Tf'], t['Tfs'] = a[0], num(a[1])
        elif op == 'Tr':
            t['Tmode'] = a[0]
        elif op == 'Ts':
            t['Trise'] = num(a[0])
        elif op == 'Td':
            self.move(num(a[0]), num(a[1]))
        elif op == 'TD':
            t['Tl'] = -num(a[1])
            self.move(num(a[0]), num(a[1]))
        elif op == 'Tm':
            self.tm = self.tlm = tuple(num(x) for x in a)
        elif op == 'T*':
            self.move(num(0), -t['Tl'])
        elif op in ("'", '"'):
            if op == '"':
                t['Tw'], t['Tc'] = num(a[0]), num(a[1])
            self.move(num(0), -t['Tl'])
            if measure:
                self.show([a[-1]], measure)
        elif op == 'Tj' and measure:
            self.show([a[0]], measure)
        elif op == 'TJ' and measure:
            self.show(a[0], measure)


def near(got, want, scale):
    return abs(Fraction(got) - want) <= Fraction(1, 10 ** 9) * max(1, scale)


def same_matrix(got, want, what, *args):
    scale = max(abs(x) for x in want)
    ok = len(got) == 6 and all(near(g, w, scale * 1000) for g, w in zip(got, want))
    if not ok:
        fail('%s: matrix %r instead of %r', what % args, list(got), [float(x) for x in want])


def same_state(gs, ts, it, what, in_text):
    same_matrix(gs[-1]['ctm'], it.ctm, '%s: ctm', what)
    for k, w in it.t.items():
        g = ts[k]
        ok = g == w if k in ('Tf', 'Tmode') or w is None else g is not None and near(g, w, abs(w))
        ensure(ok, '%s: %s is %r instead of %r', what, k, g, w)
    if in_text:
        same_matrix(ts['tm'], it.tm, '%s: tm', what)
        same_matrix(ts['tlm'], it.tlm, '%s: tlm', what)


def check_state(case):
    program, fmt = case
    got = pdf.parse_stream_content(spell_commands(program, Style(fmt)))
    gs, ts, it = [], {}, Interpreter()
    in_text = False
    done = []
    labels = set()
    depth = 0
    for c, w in zip(got, program):
        pdf.apply_command(c, gs, ts)
        it.run(w)
        done.append(w)
        labels.add(w[-1])
        if w[-1] == 'EI':
            labels.add('image')
        if w[-1] == 'BT':
            in_text = True
        elif w[-1] == 'ET':
            in_text = False
        elif w[-1] == 'Q' and not depth:
            labels.add('unmatched Q')
        depth = max(0, depth + (w[-1] == 'q') - (w[-1] == 'Q'))
        same_state(gs, ts, it, 'after %s' % ' '.join(' '.join(map(str, x)) for x in done[-12:]), in_text)
    if in_text and it.t['Tfs'] is not None:
        same_matrix(pdf.trm(ts, gs), it.trm(), 'text rendering matrix after %r', done[-8:])
    return bool(labels & {'q', 'cm', 'Td', 'Tm', 'TD'}), sorted(labels)


SMALL = st.one_of(st.integers(-3, 12), st.sampled_from([0, 1, 0.5, -0.25, 100, 72.5, -700]))
M = st.one_of(st.tuples(SMALL, SMALL, SMALL, SMALL, SMALL, SMALL), st.sampled_from([(1, 0, 0, 1, 50, 700), (0, 1, -1, 0, 100, 0), (2, 0, 0, 2, 0, 0), (1, 0, 0, -1, 0, 792), (12, 0, 0, 12, 72, 720.5), (0, 0, 0, 0, 0, 0)])).map(list)


@st.composite
def state_command(draw, in_text):
    ops = ['Tc', 'Tw', 'Tz', 'TL', 'Tf', 'Tr', 'Ts']
    ops = ops + (['Td', 'Td', 'TD', 'TD', 'Tm', 'T*', 'T*', "'", '"', 'ET'] if in_text else ['q', 'q', 'Q', 'Q', 'cm', 'cm', 'BT', 'BT', 'BT', 'w', 'rg', 're', 'gs', 'BI'])
    op = draw(st.sampled_from(ops))
    n = lambda k: [draw(SMALL) for _ in range(k)]
    if op in ('cm', 'Tm'):
        return draw(M) + [op]
    if op in ('Td', 'TD'):
        return n(2) + [op]
    if op == 'Tf':
        return [draw(st.sampled_from(['/F1', '/F2'])), draw(st.sampled_from([1, 12, 8.5, 0, -10])), op]
    if op == 'Tr':
        return [draw(st.integers(0, 7)), op]
    if op == 'Tz':
        return [draw(st.sampled_from([100, 50, 120.5, 0, -100])), op]
    if op in ('Tc', 'Tw', 'TL', 'Ts', 'w'):
        return n(1) + [op]
    if op == "'":
        return [b'(a)', op]
    if op == '"':
        return n(2) + [b'(a b)', op]
    if op == 'rg':
        return [1, 0, 0, op]
    if op == 're':
        return n(4) + [op]
    if op == 'gs':
        return ['/G', op]
    if op == 'BI':
        return [draw(IMAGE), 'EI']
    return [op]


def with_images(c):
    """The three commands of an inline image."""
    return [['BI'], ['/W', 1, '/H', 1, 'ID'], c] if c[-1] == 'EI' else [c]


@st.composite
def programs(draw):
    res, in_text = [], False
    for _ in range(draw(st.integers(1, 30))):
        c = draw(state_command(in_text))
        in_text = True if c[-1] == 'BT' else False if c[-1] == 'ET' else in_text
        res += with_images(c)
    return res, draw(V.styles())


# ---- fonts and pages
FIRST, LAST = 32, 126


class Fonts:
    """Three fonts: /F1 with one byte codes, /F2 composite, /F3 with one byte codes that a CMap turns into letters."""

    def __init__(self, w1, w2, dw, w3):
        self.w1, self.w2, self.dw, self.w3 = w1, w2, dw, w3

    def width(self, font, code):
        if font == '/F2':
            return self.w2[code - 32] if code - 32 < len(self.w2) else self.dw
        w = self.w1 if font == '/F1' else self.w3
        return w[(code - FIRST) % len(w)]

    def measure(self, font, code):
        return self.width(font, code), code == 32 and font != '/F2'

    def text(self, font, codes):
        if font == '/F3':
            return ''.join(chr(c + 0x380) for c in codes)
        return ''.join(map(chr, codes))

    def size(self, font):
        return 2 if font == '/F2' else 1

    def objects(self, start, s):
        n = start
        o = {}
        widths = lambda w: [w[i % len(w)] for i in range(LAST - FIRST + 1)]
        o[n] = (0, {'/Type': '/Font', '/Subtype': '/TrueType', '/BaseFont': '/Foo', '/Encoding': '/WinAnsiEncoding', '/FirstChar': FIRST, '/LastChar': LAST, '/Widths': widths(self.w1)})
        cm = b'1 begincodespacerange <0000> <ffff> endcodespacerange 1 beginbfrange <0020> <007e> <0020> endbfrange'
        o[n + 1] = (0, {'/Type': '/Font', '/Subtype': '/Type0', '/BaseFont': '/Foo', '/Encoding': '/Identity-H', '/DescendantFonts': [complex(0, n + 2)], '/ToUnicode': complex(0, n + 3)})
        d = {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': '/Foo', '/DW': self.dw}
        if self.w2:
            d['/W'] = [32, list(self.w2)]
        o[n + 2] = (0, d)
        o[n + 3] = (0, ('stream', {}, cm, None, None, 'direct'))
        cm3 = b'1 begincodespacerange <00> <ff> endcodespacerange 1 beginbfrange <20> <7e> <03a0> endbfrange'
        o[n + 4] = (0, {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Foo', '/FirstChar': FIRST, '/LastChar': LAST, '/Widths': widths(self.w3), '/ToUnicode': complex(0, n + 5)})
        o[n + 5] = (0, ('stream', {}, cm3, None, None, 'direct'))
        return o, {'/F1': complex(0, n), '/F2': complex(0, n + 1), '/F3': complex(0, n + 4)}, n + 6


def spelled(program, fonts, s):
    """The program with its lists of codes turned into strings; also the font in use by each."""
    out, font, stack = [], None, []
    for c in program:
        if c[-1] == 'Tf':
            font = c[0]
        elif c[-1] == 'q':
            stack.append(font)
        elif c[-1] == 'Q' and stack:
            font = stack.pop()
        if c[-1] in ('Tj', 'TJ', "'", '"'):
            z = fonts.size(font)

            def string(codes):
                data = b''.join(x.to_bytes(z, 'big') for x in codes)
                return reftext.spell_hex(data, s) if s.pick(3) == 0 else reftext.spell_literal(data, s)
            if c[-1] == 'TJ':
                c = [[string(x) if isinstance(x, list) else x for x in c[0]], 'TJ']
            else:
                c = c[:-2] + [string(c[-2]), c[-1]]
        out.append(c)
    return out


def document(contents, shape, fonts, fmt, form):
    """contents: list of bytes, shape: how /Contents refers to them."""
    s = Style(fmt)
    objs, res, nxt = fonts.objects(10, s)
    page = {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 612, 792]}
    refs = []
    for c in contents:
        objs[nxt] = (0, ('stream', {}, c, s.choose([None, '/FlateDecode', '/ASCIIHexDecode']), None, 'direct'))
        refs.append(complex(0, nxt))
        nxt += 1
    if shape == 'ref' and len(refs) == 1:
        page['/Contents'] = refs[0]
    elif shape == 'array':
        page['/Contents'] = refs
    elif shape == 'refarray':
        objs[nxt] = (0, refs)
        page['/Contents'] = complex(0, nxt)
        nxt += 1
    elif shape == 'missing' and not refs:
        page['/Contents'] = complex(0, nxt + 7)
    elif shape == 'null' and not refs:
        page['/Contents'] = 'null'
    elif refs:
        page['/Contents'] = refs if s.pick(2) else refs[0] if len(refs) == 1 else refs
    resources = {'/Font': res}
    k = s.pick(4)
    root = {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}
    if k == 1:
        root['/Resources'] = resources
    elif k == 2:
        objs[nxt] = (0, resources)
        page['/Resources'] = complex(0, nxt)
    else:
        page['/Resources'] = resources
    objs[1] = (0, {'/Type': '/Catalog', '/Pages': 2j})
    objs[2] = (0, root)
    objs[3] = (0, page)
    pack = [[n for n, v in sorted(objs.items()) if not pdfgen.is_stream(v[1])]] if form == 'stream' else []
    spec = {'ver': '1.5', 'fmt': fmt, 'tail': b'', 'linear': 0, 'revs': [{'form': form, 'set': objs, 'free': [], 'pack': pack, 'trailer': {'/Root': 1j}}]}
    return pdfgen.build(spec).data


def cut(text_tokens, cuts, s):
    """Content streams made of consecutive tokens."""
    n = len(text_tokens)
    at = sorted({c * n // 256 for c in cuts})
    parts, a = [], 0
    for b in at + [n]:
        parts.append(join(text_tokens[a:b], s))
        a = b
    return parts


def check_fragments(case):
    program, font_spec, cuts, shape, fmt, form = case
    fonts = Fonts(*font_spec)
    s = Style(fmt)
    parts = cut(tokens(spelled(program, fonts, s), s), cuts, s)
    doc = pdf.loads(document(parts, shape, fonts, fmt, form))
    got = pdf.build_text_fragments(pdf.get_page_contents(doc, 0), pdf.get_page_fonts(doc, [0]))
    it = Interpreter()
    want, kinds = [], set()
    for c in program:
        n = len(it.shown)
        it.run(c, fonts.measure)
        if len(it.shown) > n:
            want.append(it.t['Tf'])
            kinds.add(c[-1])
    ensure(len(got) == len(want), '%d strings are shown instead of %d by %r', len(got), len(want), parts)
    for (m1, text, m2), font, (w1, items, w2) in zip(got, want, it.shown):
        codes = [c for x in items if isinstance(x, list) for c in x]
        wt = fonts.text(font, codes)
        kern = [x for x in items if not isinstance(x, list)]
        if any(x < 0 for x in kern):
            ensure(text.replace(' ', '') == wt.replace(' ', '') and text.count(' ') >= wt.count(' '), '%r is shown as %r in %r', wt, text, parts)
        else:
            ensure(text == wt, '%r is shown as %r in %r', wt, text, parts)
        same_matrix(m1, w1, 'start of %r (%s) in %r', wt, font, parts)
        same_matrix(m2, w2, 'end of %r (%s, %r) in %r', wt, font, items, parts)
    labels = {form, 'parts=%d' % min(3, len(parts))} | kinds | {x for x in want} | ({'kerning'} if 'TJ' in kinds else set())
    return bool(want), sorted(labels)


WIDTH = st.one_of(st.sampled_from([500, 250, 1000, 0, 600.5]), st.integers(1, 1200))
FONTS = st.tuples(st.lists(WIDTH, min_size=1, max_size=4), st.lists(WIDTH, max_size=3), st.sampled_from([1000, 500, 0]), st.lists(WIDTH, min_size=1, max_size=2))
CODES = st.lists(st.one_of(st.integers(FIRST, LAST), st.sampled_from([32, 32, 40, 41, 92, 65])), max_size=6)
KERN = st.one_of(st.integers(-1500, 600), st.sampled_from([0, -120.5, -250, 33.25]))


@st.composite
def shown_programs(draw):
    res, in_text, has_font, stack = [], False, False, []
    for _ in range(draw(st.integers(2, 24))):
        if in_text and draw(st.integers(0, 2)):
            if not has_font:
                res.append([draw(st.sampled_from(['/F1', '/F2', '/F3'])), draw(st.sampled_from([1, 12, 8.5, -10])), 'Tf'])
                has_font = True
            op = draw(st.sampled_from(['Tj', 'Tj', 'TJ', 'TJ', "'", '"']))
            if op == 'TJ':
                res.append([draw(st.lists(st.one_of(CODES, KERN), max_size=5)), op])
            elif op == '"':
                res.append([draw(SMALL), draw(SMALL), draw(CODES), op])
            else:
                res.append([draw(CODES), op])
            continue
        c = draw(state_command(in_text))
        if c[-1] in ("'", '"'):
            continue
        if c[-1] == 'Tf':
            c = [draw(st.sampled_from(['/F1', '/F2', '/F3'])), c[1], 'Tf']
            has_font = True
        if c[-1] == 'q':
            stack.append(has_font)
        if c[-1] == 'Q' and stack:
            has_font = stack.pop()
        in_text = True if c[-1] == 'BT' else False if c[-1] == 'ET' else in_text
        res += with_images(c)
    return res, draw(FONTS), draw(st.lists(st.integers(1, 255), max_size=3)), draw(st.sampled_from(['ref', 'array', 'refarray'])), draw(V.styles()), draw(st.sampled_from(['table', 'stream']))


# ---- text of a page
def check_layout(items, leading, base, fonts, got):
    """White space of a page: between the texts of a line, before a line, between lines."""
    lines = {}
    for it in items:
        lines.setdefault(it[0], []).append(it)
    texts = {n: sorted(l, key=lambda it: it[1]) for n, l in lines.items()}
    full = [n for n in sorted(texts) if any(fonts.text(it[3], it[2]).strip() for it in texts[n])]
    out = got.split('\n')
    shown = [k for k, l in enumerate(out) if l.strip()]
    labels = set()
    starts = {}                     # x: [(column, text)]
    left = min([it[1] for it in items], default=0)
    widest = max([num(fonts.width(it[3], c)) * num(it[4]) / 1000 for it in items for c in it[2]] + [num(6)])
    for n, k in zip(full, shown):
        row, at = out[k], 0
        before, end, clear = None, None, True       # what is before on the line: the last text, where it ends on the page
        for j, it in enumerate(texts[n]):
            text = fonts.text(it[3], it[2])
            x = num(it[1])
            if text.strip():
                a = at
                for i, ch in enumerate(text.strip().replace(' ', '')):
                    a = row.index(ch, a) if i == 0 else a
                    if i == 0:
                        first = a
                    while row[a] != ch:
                        a += 1
                    a += 1
                lead = len(text) - len(text.lstrip())
                pad = first - lead - at
                if j and before is not None:
                    pad -= before[1]
                    gap = (x - end) * num(base[0])
                    if gap > 10:
                        ensure(first > at, '%r and %r are %s apart, and not separated in %r', before[0], text, float(gap), row)
                        labels.add('separated')
                    elif clear and abs(gap) <= 1:
                        ensure(pad == 0, '%r and %r touch each other, and are separated in %r', before[0], text, row)
                        labels.add('touching')
                if j == 0 or clear and before is not None and pad >= 2:
                    starts.setdefault(it[1], set()).add(first - lead)
                    labels.add('aligned' if j else 'first')
                if j == 0:
                    if it[1] == left:
                        ensure(first == lead, '%r is the leftmost text, and indented in %r', text, row)
                    elif x - num(left) > widest + 2 / num(base[0]):
                        ensure(first > lead, '%r is not indented in %r', text, row)
                at = a
                before = (text, len(text) - len(text.rstrip()))
                clear = True
            else:
                clear = False
            w = sum((num(fonts.width(it[3], c)) for c in it[2]), num(0)) * num(it[4]) / 1000
            end = max(end, x + w) if end is not None else x + w
            if end != x + w:
                clear = False
    for x, c in starts.items():
        ensure(len(c) == 1, 'what is at %r begins at the columns %r in %r', x, sorted(c), got)
    if len(full) == len(texts) and usual_leading(items):
        want = [n - full[0] for n in full]
        ensure(shown == want, 'the lines %r are at %r in %r', want, shown, got)
        labels.add('blank lines' if want[-1] >= len(want) else 'no blank line')
    return labels


def usual_leading(items):
    """One size, and most of the lines of the columns with three lines or more follow the line just before."""
    deltas = []
    for x in {it[1] for it in items}:
        col = sorted(it[0] for it in items if it[1] == x)
        if len(col) > 2:
            deltas += [b - a for a, b in zip(col, col[1:])]
    return len({it[4] for it in items}) == 1 and deltas.count(1) > len(deltas) / 2


def check_page(case):
    items, leading, top, order, base, font_spec, cuts, shape, fmt, form = case
    fonts = Fonts(*font_spec)
    s = Style(fmt)
    program, labels = [], {form, shape}
    where = {}                      # (line, x) of what is being written in the text object
    placed = []
    in_bt, last, cur = False, None, None
    for k in order:
        line, x, codes, font, size, how = items[k]
        y = top - leading * line
        show = [codes, 'Tj'] if how % 3 else [[codes[:1], 0, codes[1:]], 'TJ']
        set_font = [] if cur == (font, size) and how % 5 else [[font, size, 'Tf']]
        how = how % 8
        if how in (0, 1, 2) or not in_bt:
            if how == 2 and not in_bt:
                program += [['q'], [1, 0, 0, 1, x, y, 'cm'], ['BT']] + [[font, size, 'Tf'], show, ['ET'], ['Q']]
                labels.add('cm')
                placed.append(k)
                continue
            if in_bt and how == 0:
                program.append(['ET'])
                in_bt = False
            if not in_bt:
                program.append(['BT'])
                in_bt = True
                last = (0, 0)
            program += set_font + [[1, 0, 0, 1, x, y, 'Tm'], show]
            labels.add('Tm')
        elif last is not None and how in (3, 4) and x == last[0] and y == last[1] - leading:
            program += set_font + [[leading, 'TL'], [codes, "'"] if how == 3 else [0, 0, codes, '"']]
            labels.add("'" if how == 3 else '"')
        elif how == 5:
            program += set_font + [[x - last[0], y - last[1], 'TD'], show]
            labels.add('TD')
        elif how == 6 and x == last[0]:
            program += set_font + [[last[1] - y, 'TL'], ['T*'], show]
            labels.add('T*')
        else:
            program += set_font + [[x - last[0], y - last[1], 'Td'], show]
            labels.add('Td')
        cur = (font, size)
        last = (x, y)
        placed.append(k)
    if in_bt:
        program.append(['ET'])
    if base != (1, 0, 0):
        program = [['q'], [base[0], 0, 0, base[0], base[1], base[2], 'cm']] + program + [['Q']]
        labels.add('base')
    if not items:
        parts = [] if shape in ('missing', 'null', 'none') else [b'']
    else:
        parts = cut(tokens(spelled(program, fonts, s), s), cuts, s)
    data = document(parts, shape, fonts, fmt, form)
    doc = pdf.loads(data)
    got = pdf.extract_page_text(doc, 0)
    want = [''.join(fonts.text(items[k][3], items[k][2]) for k in sorted((k for k in range(len(items)) if items[k][0] == line), key=lambda k: items[k][1])) for line in sorted({i[0] for i in items})]
    strip = lambda t: ''.join(t.split())
    ensure(strip(got) == strip(''.join(want)), 'the text is %r instead of %r, from %r', got, want, parts)
    shown = [strip(l) for l in got.split('\n') if strip(l)]
    wl = [strip(l) for l in want if strip(l)]
    ensure(shown == wl, 'the lines are %r instead of %r, from %r', shown, wl, parts)
    labels |= check_layout(items, leading, base, fonts, got)
    if len(data) % 8 == 0:
        labels.add('cli')
        p = pbt.tmp_path('.pdf')
        with open(p, 'wb') as f:
            f.write(data)
        out = io.StringIO()
        argv = sys.argv
        sys.argv = ['pdfsyntax', 'text', p]
        try:
            with contextlib.redirect_stdout(out):
                import pdfsyntax.cli
                pdfsyntax.cli.main()
        finally:
            sys.argv = argv
            os.unlink(p)
        ensure(out.getvalue() == got + '\n', 'the command text prints %r instead of %r', out.getvalue(), got)
    if len(parts) > 1:
        labels.add('parts')
    labels.add('lines=%d' % min(3, len(wl)))
    return len(wl) > 1, sorted(labels)


@st.composite
def pages(draw):
    size = draw(st.sampled_from([10, 12, 8.5]))
    leading = draw(st.sampled_from([12, 14, 24, 13.5, 36]))
    n = draw(st.integers(0, 6))
    xs = draw(st.lists(st.sampled_from([0, 10, 72, 200, 300.5, 450, 72.25, 500, -1]), min_size=1, max_size=4, unique=True))
    items = []
    lines = draw(st.lists(st.sampled_from([1, 1, 1, 1, 2, 3]), min_size=6, max_size=6))
    lines = [sum(lines[:k]) for k in range(6)]
    if draw(st.booleans()):
        lines = list(range(6))
    measures = draw(FONTS)
    fonts = Fonts(*measures)
    for j, x in enumerate(xs):
        a, b = (0, n) if j == 0 else sorted((draw(st.integers(0, n)), draw(st.integers(0, n))))
        font = draw(st.sampled_from(['/F1', '/F2', '/F3']))
        for line in range(a, b):
            z = size if j == 0 or draw(st.integers(0, 3)) else draw(st.sampled_from([size, 6]))
            items.append((lines[line], x, draw(CODES if j else CODES.map(lambda c: c or [65])), font, z, draw(st.integers(0, 119))))
    for it in draw(st.lists(st.sampled_from(items), max_size=3)) if items else []:
        # what follows on the line: at once, or a little further
        w = sum(num(fonts.width(it[3], c)) for c in it[2]) * num(it[4]) / 1000
        x = math.ceil((it[1] + w) * 8) / 8 + draw(st.sampled_from([0, 0, 0, 0.5, 10.5, 12, 20, 24]))
        if all(o[1] != x or o[0] != it[0] for o in items):
            items.append((it[0], x, draw(CODES.map(lambda c: c or [66])), it[3], it[4], draw(st.integers(0, 119))))
    if lines[5] > 5 and not usual_leading(items):
        back = {l: k for k, l in enumerate(lines)}
        items = [(back[it[0]],) + it[1:] for it in items]
    order = list(range(len(items)))
    if draw(st.booleans()):
        order = draw(st.permutations(order))
    base = draw(st.sampled_from([(1, 0, 0), (1, 0, 0), (1, 30, -20), (2, 0, 0), (0.5, 10, 100.25)]))
    return (items, leading, draw(st.sampled_from([700, 720.5, 0, -1])), order, base, measures, draw(st.lists(st.integers(1, 255), max_size=3)),
            draw(st.sampled_from(['ref', 'array', 'refarray', 'missing', 'null', 'none'])), draw(V.styles()), draw(st.sampled_from(['table', 'stream'])))


# ---- any text matrix: nothing is lost
def check_any(case):
    program, font_spec, cuts, shape, fmt, form = case
    fonts = Fonts(*font_spec)
    s = Style(fmt)
    parts = cut(tokens(spelled(program, fonts, s), s), cuts, s)
    it = Interpreter()
    want, labels = [], set()
    for c in program:
        n = len(it.shown)
        it.run(c, fonts.measure)
        if len(it.shown) > n:
            m = it.shown[-1][0]
            m2 = it.shown[-1][2]
            if max(abs(m[4]), abs(m[5]), abs(m2[4]), abs(m2[5])) > 3000:
                return False, ['too far']
            labels.add('singular' if m[0] * m[3] == m[1] * m[2] else 'rotated' if m[0] == 0 else 'mirrored' if m[0] < 0 else 'upright')
            want.append(fonts.text(it.t['Tf'], [c for x in it.shown[-1][1] if isinstance(x, list) for c in x]))
    doc = pdf.loads(document(parts, shape, fonts, fmt, form))
    got = pdf.extract_page_text(doc, 0)
    strip = lambda t: ''.join(t.split())
    left = strip(got)
    ensure(sorted(left) == sorted(strip(''.join(want))), 'the text is %r instead of %r, from %r', got, want, parts)
    for w in want:
        ensure(strip(w) in left, '%r is not in the text %r, from %r', w, got, parts)
    return bool(want), sorted(labels)


SUBS = [Sub('commands', commands, check_commands, 3000, 200000),
        Sub('state', programs, check_state, 2500, 150000),
        Sub('fragments', shown_programs, check_fragments, 1500, 80000),
        Sub('page', pages, check_page, 1800, 80000),
        Sub('any', shown_programs, check_any, 700, 60000)]
