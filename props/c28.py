"""C28: Markdown rendering."""
import html.parser
import re
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
from values import Style
import pdfsyntax as pdf

ID = 'C28'
RULE = ('A case is a Markdown document: blocks (titles, paragraphs, lists, tables, block quotes, code blocks) of generated inline spans, whose elements and words are known, or lines of arbitrary markup characters and unique words. '
        'The HTML is read by an independent parser. Non-trivial: two blocks, or three words.')
ASSUMPTIONS = ['raw HTML in Markdown text is passed through and is left out', 'lists are flat and their items hold one line', 'emphasis holds plain words or a link',
               'arbitrary text: only termination, absence of errors and the words are looked at; the words on the line that opens a fenced code block are not shown']

VOID = {'br', 'img'}
KNOWN = {'h%d' % i for i in range(1, 7)} | {'p', 'pre', 'code', 'ul', 'ol', 'li', 'table', 'thead', 'tbody', 'tr', 'th', 'td', 'blockquote', 'em', 'strong', 'a', 'img', 'br'}


class Tree(html.parser.HTMLParser):
    """[name, attributes, children]; text is a str."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.root = ['root', {}, []]
        self.open = [self.root]
        self.feed(text)
        self.close()
        ensure(len(self.open) == 1, 'element %s is not closed in %r', self.open[-1][0], text)

    def handle_starttag(self, tag, attrs):
        ensure(tag in KNOWN, 'element %s is not one of Markdown', tag)
        e = [tag, dict(attrs), []]
        self.open[-1][2].append(e)
        if tag not in VOID:
            self.open.append(e)

    def handle_endtag(self, tag):
        ensure(self.open[-1][0] == tag, 'element %s is closed inside %s', tag, self.open[-1][0])
        self.open.pop()

    def handle_data(self, data):
        self.open[-1][2].append(data)

    def handle_decl(self, decl):
        fail('declaration %r', decl)

    handle_pi = unknown_decl = handle_comment = handle_decl


def flat(e):
    return ''.join(x if isinstance(x, str) else flat(x) for x in e[2])


def norm_inline(children):
    """Texts with single spaces, and elements."""
    out = []
    for x in children:
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(x)
    res = []
    for x in out:
        if isinstance(x, str):
            x = ' '.join(x.split())
            if x:
                res.append(x)
        elif x[0] == 'code':
            res.append(('code', flat(x)))
        elif x[0] == 'br':
            res.append(('br',))
        elif x[0] == 'img':
            res.append(('img', x[1].get('src'), x[1].get('alt')))
        elif x[0] == 'a':
            res.append(('a', x[1].get('href'), norm_inline(x[2])))
        else:
            res.append((x[0], norm_inline(x[2])))
    return res


def norm_blocks(children):
    out = []
    for x in children:
        if isinstance(x, str):
            if x.strip():
                out.append(('text', x))
        elif x[0] == 'pre':
            out.append(('pre', flat(x)))
        elif x[0] in ('ul', 'ol', 'table', 'thead', 'tbody', 'tr', 'blockquote'):
            out.append((x[0], norm_blocks(x[2])))
        else:
            n = norm_inline(x[2])
            if n or x[0] != 'p':
                out.append((x[0], n))
    return out


# ---- documents whose elements are known
def inline_md(spans, s):
    """Markdown of spans; words are separated by spaces."""
    out, want = [], []
    for k, x in spans:
        if k == 'w':
            out.append(x)
            want.append(x)
        elif k == 'em':
            m = '*' if s.pick(2) else '_'
            out.append(m + x + m)
            want.append(('em', [x]))
        elif k == 'strong':
            m = '**' if s.pick(2) else '__'
            out.append(m + x + m)
            want.append(('strong', [x]))
        elif k == 'both':
            out.append('***' + x + '***')
            want.append(('em', [('strong', [x])]))
        elif k == 'code':
            out.append('`' + x + '`')
            want.append(('code', x))
        elif k == 'a':
            t, u = x
            tm, tw = inline_md(t, s)
            out.append('[' + tm + '](' + u + ')')
            want.append(('a', u[:-3] + '.html' if u.endswith('.md') else u, tw))
        elif k == 'img':
            out.append('![' + x[0] + '](' + x[1] + ')')
            want.append(('img', x[1], x[0]))
    res = []
    for w in want:
        if isinstance(w, str) and res and isinstance(res[-1], str):
            res[-1] += ' ' + w
        else:
            res.append(w)
    return ' '.join(out), res


def block_md(b, s, after_list):
    """(lines, expected)"""
    k = b[0]
    if k == 'h':
        t, w = inline_md(b[2], s)
        return ['#' * b[1] + ' ' + t], ('h%d' % b[1], w)
    if k == 'u':
        t, w = inline_md(b[2], s)
        return [t, '=-'[b[1] - 1] * b[3]], ('h%d' % b[1], w)
    if k == 'p':
        lines, want = [], []
        for i, (spans, br) in enumerate(b[1]):
            t, w = inline_md(spans, s)
            last = i == len(b[1]) - 1
            lines.append(t + ('  ' if br and not last else ''))
            if want and isinstance(want[-1], str) and w and isinstance(w[0], str):
                want[-1] += ' ' + w[0]
                w = w[1:]
            want += w + ([('br',)] if br and not last else [])
        return lines, ('p', want)
    if k in ('ul', 'ol'):
        lines, want = [], []
        ind = ' ' * b[2]
        for i, spans in enumerate(b[1]):
            t, w = inline_md(spans, s)
            lines.append(ind + (b[3] if k == 'ul' else '%d.' % (b[3] + i)) + ' ' + t)
            want.append(('li', w))
        return lines, (k, want)
    if k == 'table':
        rows = [[inline_md(c, s) for c in r] for r in b[1]]
        lines = ['| ' + ' | '.join(c[0] for c in r) + ' |' for r in rows]
        lines.insert(1, '| ' + ' | '.join('-' * (3 + s.pick(3)) for _ in b[1][0]) + ' |')
        return lines, ('table', [('thead', [('tr', [('th', c[1]) for c in rows[0]])]), ('tbody', [('tr', [('td', c[1]) for c in r]) for r in rows[1:]])])
    if k == 'quote':
        lines, want = [], []
        for spans in b[1]:
            t, w = inline_md(spans, s)
            lines.append('> ' + t)
            if want and isinstance(want[-1], str) and w and isinstance(w[0], str):
                want[-1] += ' ' + w[0]
                w = w[1:]
            want += w
        return lines, ('blockquote', [('p', want)])
    if k == 'fence':
        return ['```' + b[2]] + list(b[1]) + ['```'], ('pre', '\n'.join(b[1]) + ('\n' if b[1] else ''))
    if k == 'indent':
        return ['    ' + l for l in b[1]], ('pre', '\n'.join(b[1]) + '\n')
    raise AssertionError(k)


def document(case):
    blocks, fmt = case
    s = Style(fmt)
    lines, want = [], []
    prev = None
    for b in blocks:
        l, w = block_md(b, s, prev)
        glue = prev is not None and s.pick(3) == 0 and ok_after(prev, b)
        if prev is not None and not glue:
            lines += [['', '', '', '  ', '\t'][s.pick(5)]] * (1 + s.pick(2))
        lines += l
        want.append(w)
        prev = b
    return ['\n', '\n', '\r\n'][s.pick(3)].join(lines) + ('\n' if s.pick(2) else ''), want


def ok_after(prev, b):
    """May b follow prev without a blank line?"""
    if prev[0] in ('h', 'u', 'fence'):
        return b[0] != 'indent' or prev[0] != 'p'
    if prev[0] == 'p':
        return b[0] in ('h', 'fence', 'ul', 'quote')
    if prev[0] in ('ul', 'ol', 'quote', 'table', 'indent'):
        return b[0] in ('h', 'fence') or b[0] in ('table',) and prev[0] != 'table' or prev[0] == 'indent' and b[0] in ('p', 'ul', 'quote')
    return False


def same_block(g, w):
    if g[0] != w[0]:
        return False
    if g[0] == 'pre':
        strip = lambda t: [l.strip() for l in t.split('\n')]
        return g[1] == w[1] or strip(g[1]) == strip(w[1]) and all(a.endswith(b) for a, b in zip(g[1].split('\n'), w[1].split('\n')))
    return g == w


def check_document(case):
    md, want = document(case)
    out = pdf.render_html(md)
    got = norm_blocks(Tree(out).root[2])
    for code in re.findall(r'<(?:code|pre)>(.*?)</(?:code|pre)>', out, re.S):
        ensure(not re.search(r'[<>]|&(?!(?:lt|gt|amp|quot|apos|#[0-9]+|#x[0-9a-fA-F]+);)', code), 'code %r is not escaped in %r', code, md)
    for i, w in enumerate(want):
        ensure(i < len(got) and same_block(got[i], w), 'block %d is %r instead of %r in %r', i, got[i:i + 1], w, md)
    ensure(len(got) == len(want), 'more blocks than written: %r in %r', got[len(want):], md)
    return len(want) > 1, sorted({b[0] for b in case[0]})


WORD = st.one_of(st.sampled_from(['a', 'word', 'PDF', 'xref', '12', 'été', 'R&D', 'x=y', "it's", 'end.', '3.14', 'a-b', 'a+b', '(see)', 'snake_case', '&', '"q"', 'wow!', 'A']), st.text('abcdefXYZ', min_size=1, max_size=7))
PLAIN = st.lists(st.text('abcdefXYZ019', min_size=1, max_size=6), min_size=1, max_size=3).map(' '.join)
URL = st.sampled_from(['x.html', 'doc.md', 'https://a.b/c_d_e?x=1&y=2', '#top', 'mailto:a@b', 'img.png', 'a-b/c*d.md', '.md', "a'b", 'a_b', '_x_'])
CODE = st.lists(st.sampled_from(list('ab<>&*_[]() #|"\'\\') + ['](', '<b>', '&lt;', '**', '1 0 R', '!['] ), min_size=1, max_size=8).map(''.join).filter(lambda t: t.strip() == t and t)


def spans_(table=False):
    code = CODE.filter(lambda c: '|' not in c) if table else CODE
    first = st.one_of(st.tuples(st.just('w'), st.text('abcXYZ', min_size=1, max_size=6)))
    emph = st.one_of(st.tuples(st.sampled_from(['em', 'strong', 'both']), PLAIN))
    linktext = st.lists(st.one_of(st.tuples(st.just('w'), st.text('abcXYZ', min_size=1, max_size=5)), emph), min_size=1, max_size=3)
    one = st.one_of(st.tuples(st.just('w'), WORD), st.tuples(st.just('w'), WORD), emph, st.tuples(st.just('code'), code),
                    st.tuples(st.just('a'), st.tuples(linktext, URL)), st.tuples(st.just('img'), st.tuples(PLAIN, URL)))
    return st.one_of(st.tuples(first, st.lists(one, max_size=5)).map(lambda t: [t[0]] + t[1]), st.lists(one.filter(lambda x: x[0] != 'w'), min_size=1, max_size=3))


LINE = st.one_of(st.sampled_from(['# not a title', '* not a list', '<b>&amp;</b>', '', '  deep', '    deeper', '| a |', '> q', '---', '===', '1. x', '`c`', '[a](b)', '**x**', '\ttab', 'a  ', '``', '    ```', '     ```py', 'x ```', '\t```']), st.text('ab <>&*_`[]()#\'"', max_size=12).filter(lambda t: not t.startswith('```')))


@st.composite
def documents(draw):
    spans = spans_()
    one_line = spans
    blocks = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(['h', 'u', 'p', 'p', 'ul', 'ol', 'table', 'quote', 'fence', 'fence', 'indent']))
        if k == 'h':
            blocks.append((k, draw(st.integers(1, 6)), draw(one_line)))
        elif k == 'u':
            blocks.append((k, draw(st.integers(1, 2)), draw(one_line), draw(st.integers(3, 8))))
        elif k == 'p':
            blocks.append((k, draw(st.lists(st.tuples(one_line, st.booleans()), min_size=1, max_size=3))))
        elif k == 'ul':
            blocks.append((k, draw(st.lists(one_line, min_size=1, max_size=4)), draw(st.integers(0, 2)), draw(st.sampled_from('*+-'))))
        elif k == 'ol':
            blocks.append((k, draw(st.lists(one_line, min_size=1, max_size=4)), draw(st.integers(0, 2)), draw(st.sampled_from([1, 1, 9, 98]))))
        elif k == 'table':
            n = draw(st.integers(1, 3))
            cell = spans_(True)
            blocks.append((k, draw(st.lists(st.lists(cell, min_size=n, max_size=n), min_size=1, max_size=4))))
        elif k == 'quote':
            blocks.append((k, draw(st.lists(one_line, min_size=1, max_size=3))))
        elif k == 'fence':
            blocks.append((k, draw(st.lists(LINE, max_size=5)), draw(st.sampled_from(['', 'Python', ' python']))))
        else:
            blocks.append((k, draw(st.lists(LINE.filter(lambda t: t.strip() and '\t' not in t), min_size=1, max_size=4))))
    # two lists or two block quotes or two indented blocks in a row are one
    res = []
    for b in blocks:
        if res and (b[0] == res[-1][0] and b[0] in ('ul', 'ol', 'quote', 'indent', 'table') or {b[0], res[-1][0]} == {'ul', 'ol'} or b[0] == 'indent' and res[-1][0] in ('ul', 'ol', 'p', 'quote')):
            res.append(('p', [([('w', 'sep')], False)]))
            if b[0] == 'indent':
                res.append(('h', 2, [('w', 'sep')]))
        res.append(b)
    return res, draw(st.binary(max_size=16))


# ---- arbitrary text
def check_any(case):
    lines, nl = case
    md = nl.join(''.join(l) for l in lines)
    outs = []
    try:
        pbt.count_steps(lambda: outs.append(pdf.render_html(md)), 20000 + 3000 * len(md))
    except pbt.StepLimit:
        fail('rendering of %d characters does not end within %d steps: %r', len(md), 20000 + 3000 * len(md), md)
    out = outs[0]
    words = []
    for l in lines:
        t = ''.join(l)
        words += [] if t.startswith('```') or t.lstrip(' >\t').startswith('```') else re.findall(r'w\d+w', t)
    fence = set(re.findall(r'w\d+w', ' '.join(''.join(l) for l in lines if '```' in ''.join(l))))     # may be the name of a language
    got = [w for w in re.findall(r'w\d+w', out) if w not in fence]
    words = [w for w in words if w not in fence]
    ensure(sorted(got) == sorted(words), 'words lost %r, repeated %r in %r: %r', sorted(set(words) - set(got)), sorted({w for w in got if got.count(w) > 1}), md, out)
    text = [int(w[1:-1]) for w in re.findall(r'w\d+w', re.sub(r"(href|src|alt)='[^']*'", '', out))]
    ensure(text == sorted(text), 'the words are not in order in %r: %r', md, out)
    return len(words) > 2, ['lines=%d' % min(4, len(lines))]


TOKENS = st.sampled_from(['W'] * 12 + [' '] * 8 + list('*_`#-+|[]()!>.\'"=&') + ['**', '```', '##', '1.', '12.', '](', '    ', '\t', '===', '---', '\r', 'é', '| ', '* ', '> ', '- ', '# ', '  ', '1. ', '![', '| --- |', '~~~'])


@st.composite
def texts(draw):
    n = 0
    lines = []
    for l in draw(st.lists(st.lists(TOKENS, max_size=8), max_size=8)):
        out = []
        for t in l:
            if t == 'W':
                t = 'w%dw' % n
                n += 1
            out.append(t)
        lines.append(out)
    return lines, draw(st.sampled_from(['\n', '\n', '\r\n']))


SUBS = [Sub('document', documents, check_document, 4000, 150000),
        Sub('any', texts, check_any, 5000, 300000)]
