"""C25: the HTML view shows every object safely and its links resolve."""
import contextlib
import copy
import html
import html.parser
import io
import os
import re
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import docs
import pagegen
import pdfgen
import specs
import values as V
import pdfsyntax as pdf
from pdfsyntax import cli

ID = 'C25'
RULE = ('A case is a description of a file written by lib/pdfgen.py (which records where each object of each revision lies), hostile names, strings, comments and stream contents put in its objects, and a file name. '
        'Non-trivial: something hostile is in the file, or it has several revisions or packed objects.')
ASSUMPTIONS = ['files are well formed and not encrypted', 'arrays without references and long strings may be cut', 'the closing tag of the html element may be left out, as HTML allows']

VOID = {'meta', 'br', 'hr', 'link', 'img', 'input'}
ELEMENTS = set('html head meta title style body div pre span strong em a details summary p ul li nav code'.split())
ATTRS = {'class': r'[a-zA-Z0-9 -]*', 'id': r'idx\d+(\.\d+)?|obj[0-9.]+|end', 'href': r'#[a-z]+[0-9.]*|https://pdfsyntax\.dev'}


class View(html.parser.HTMLParser):
    """Checks the markup and collects blocks, links and anchors."""

    def __init__(self):
        super().__init__(convert_charrefs=False)
        self.stack = []
        self.ids = {}
        self.blocks = []       # {'ids', 'text', 'links': [(href, text)], 'streams': [text]}
        self.block = None
        self.nav = {}          # title -> [(href, text)]
        self.section = None
        self.link = None
        self.in_nav = 0
        self.texts = {'nav': '', 'header': ''}
        self.zone = None
        self.items = []        # what follows the links of the minimap
        self.warn = None

    def handle_starttag(self, tag, attrs):
        if tag not in ELEMENTS:
            fail('element <%s> in the page', tag)
        if self.stack[:2] != ['html', 'head'] and tag not in ('html', 'head'):
            for k, v in attrs:
                ensure(k in ATTRS and re.fullmatch(ATTRS[k], v or ''), 'attribute %s=%r in <%s>', k, v, tag)
        attrs = dict(attrs)
        if tag not in VOID:
            self.stack.append(tag)
        if 'id' in attrs:
            ensure(attrs['id'] not in self.ids, 'anchor %s is not unique', attrs['id'])
            self.ids[attrs['id']] = None
        if tag == 'div' and attrs.get('class') == 'block':
            ensure(self.block is None, 'a block inside a block')
            self.block = {'ids': [], 'text': '', 'links': [], 'details': [], 'depth': len(self.stack), 'head': '', 'pos': '', 'warnings': []}
            self.blocks.append(self.block)
        if self.block is not None and 'id' in attrs:
            self.block['ids'].append(attrs['id'])
            self.ids[attrs['id']] = len(self.blocks) - 1
        if self.block is not None and tag == 'pre' and attrs.get('class') == 'detail':
            self.block['details'].append(['', len(self.stack)])
        if tag == 'span' and attrs.get('class') == 'warning':
            ensure(self.block is not None and self.warn is None, 'a warning outside blocks')
            self.warn = ['', len(self.stack)]
        if tag == 'span' and self.block is not None and 'obj-header' in attrs.get('class', ''):
            self.zone = ('head', len(self.stack))
        elif tag == 'span' and self.block is not None and attrs.get('class') == 'c1' and not self.block['pos']:
            self.zone = ('pos', len(self.stack))
        elif tag == 'div' and 'header' in attrs.get('class', '').split():
            self.zone = ('title', len(self.stack))
        elif tag == 'nav':
            self.zone = ('nav', len(self.stack))
        elif tag == 'summary' and self.block is None:
            self.section = ['', len(self.stack)]
        if tag == 'a':
            ensure(self.link is None, 'a link inside a link')
            self.link = [attrs.get('href'), '']

    def handle_endtag(self, tag):
        ensure(self.stack and self.stack[-1] == tag, '</%s> closes %s', tag, self.stack[-3:])
        n = len(self.stack)
        self.stack.pop()
        if tag == 'a':
            if self.block is not None:
                self.block['links'].append(tuple(self.link))
            elif isinstance(self.section, str):
                if self.section == 'Minimap':
                    self.items.append('')
                self.nav.setdefault(self.section, []).append(tuple(self.link))
            self.link = None
        if self.zone and self.zone[1] == n and self.zone[0] != 'nav':
            self.zone = None
        if self.warn and self.warn[1] == n:
            self.block['warnings'].append(self.warn[0].strip())
            self.warn = None
        if isinstance(self.section, list) and self.section[1] == n:
            self.section = self.section[0].strip()
        if self.block is not None:
            for d in self.block['details']:
                if d[1] == n:
                    d[1] = None
            if self.block['depth'] == n:
                self.block = None

    def text(self, s):
        if self.link is not None:
            self.link[1] += s
        if self.warn:
            self.warn[0] += s
        if isinstance(self.section, list):
            self.section[0] += s
        if self.block is not None:
            if self.zone and self.zone[0] in ('head', 'pos'):
                self.block[self.zone[0]] += s
            else:
                self.block['text'] += s
            for d in self.block['details']:
                if d[1] is not None:
                    d[0] += s
        elif self.section == 'Minimap' and self.items and self.link is None and 'li' in self.stack:
            self.items[-1] += s
        elif self.zone and self.zone[0] == 'title':
            self.texts['header'] += s
        else:
            self.texts['nav'] += s

    def handle_data(self, data):
        self.text(data)

    def handle_entityref(self, name):
        self.text(html.unescape('&' + name + ';'))

    def handle_charref(self, name):
        self.text(html.unescape('&#' + name + ';'))

    def handle_comment(self, data):
        fail('comment %r in the markup', data[:50])

    def handle_pi(self, data):
        fail('processing instruction %r in the markup', data[:50])

    def unknown_decl(self, data):
        fail('declaration %r in the markup', data[:50])

    def handle_decl(self, decl):
        ensure(decl == 'DOCTYPE html' and not self.stack, 'declaration %r', decl)


ADDED = ('/Length', '/Filter', '/DecodeParms')       # of streams, by the writer
HOSTILE = [b'<b>', b'</pre>', b'</div></div>', b'<script>alert(1)</script>', b'"><img src=x>', b'<!--', b'&lt;b&gt;', b'&copy', b'&#60;', b"' onclick=x", b'<a href="#x">', b'<?x', b']]>', b'<em>', b'a & b']
NAMES = ['/a&amp;b', '/b"c', "/d'e", '/&lt;i&gt;', '/x&copy;', '/JS', '/JavaScript', '/Prev', '/Next', '/Subtype', '/Type', '/' + 'L' * 25]
FILE_NAMES = ['a.pdf', 'a<b>.pdf', 'x&amp;y.pdf', '"q".pdf', "<script>.pdf", 'a b.pdf', '&lt;.pdf']


def hostile_string():
    return st.lists(st.one_of(st.sampled_from(HOSTILE), st.sampled_from([b'x', b' ', b'abc', b'\\(', b'\\\\', b"'", b'\\n'])), min_size=1, max_size=3).map(lambda l: b'(' + b''.join(l) + b')')


def hostile_value(ref):
    leaf = st.one_of(hostile_string(), hostile_string(), st.sampled_from(NAMES), ref, st.sampled_from([0, 5, 123456, 1.5, True, 'null', b'<3c623e>']))
    leaf = st.one_of(leaf, leaf, leaf, st.sampled_from([[{'/JS': b'(x)'}], [{'/S': '/JavaScript'}], {'/JS': [{'/S': '/JavaScript', '/JS': b'(<b>)'}]}]))
    return st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=6), st.dictionaries(st.sampled_from(NAMES), c, max_size=3)), max_leaves=8)


def comments():
    return st.lists(st.one_of(st.sampled_from(HOSTILE).map(lambda b: b'%' + b), st.sampled_from([b'%note', b'%\xe2\xe3', b'%%EO', b'%%EOF ', b'%', b'%a\x0cb'])), max_size=3)


def contents():
    return st.one_of(st.lists(st.sampled_from(HOSTILE), min_size=1, max_size=3).map(b'\n'.join), st.sampled_from([b'\x00\x01', b'a\x01', b'\x07' * 25, b'\x07' * 26, b'\x07' * 27, b'\x07' * 28, b'\x07' * 29, b'\x07' * 30, b'q\r\nQ', b'\xe9<b>', b'\n<b>', b'a\tb']))


def show(path):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        cli.browse(path)
    return o.getvalue()


def refs_of(v, out):
    if isinstance(v, complex):
        out.add(v)
    elif isinstance(v, dict):
        for x in v.values():
            refs_of(x, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            refs_of(x, out)
    return out


def scalar(x):
    """How a plain value is shown; None if that is not looked at."""
    if isinstance(x, complex):
        return '%d %d R' % (x.imag, x.real)
    if isinstance(x, bytes):
        return None if x[:1] == b'(' and (len(x) > 30 or re.search(rb"[^ -~]|\\|'", x)) else x.decode('latin-1')
    return str(x) if isinstance(x, (int, float, str)) else None


def toks(v, out):
    """Lines that the view of a value must show: a name and a plain value, or the beginning of an array."""
    if isinstance(v, dict):
        for k, x in v.items():
            t = scalar(x)
            if isinstance(x, dict):
                t = '<<' if x else None
                toks(x, out)
            elif isinstance(x, list):
                l = [scalar(y) for y in x]
                if None not in l and not any(isinstance(y, complex) for y in x):
                    t = '[ ' + ''.join(y + ' ' for y in l)
                    t = t[:30] + ' ...(truncated) ]' if len(t) > 30 else t + ']'
            if t is not None:
                out.append('%-20s%s' % (k, t))
    return out


def scripts(v, out):
    """What must be shown as a warning: the names /JS, and the values /JavaScript of a dictionary, that are not in a list."""
    if isinstance(v, dict):
        for k, x in v.items():
            if k == '/JS':
                out.append(k)
            elif x == '/JavaScript' and k not in ('/Type', '/Subtype'):
                out.append(x)
            scripts(x, out)
    elif isinstance(v, list):
        for x in v:
            scripts(x, out)
    return out


def listed_dict(v):
    """A dictionary is inside a list, and shown without its indentation."""
    if isinstance(v, dict):
        return any(listed_dict(x) for x in v.values())
    return isinstance(v, list) and any(isinstance(x, dict) or listed_dict(x) for x in v)


class Expect:
    """Blocks expected, in order, and where the definitions current at each revision are."""

    def __init__(self, b):
        self.blocks = []           # (kind, start, info)
        for kind, s, e, info in b.regions:
            self.blocks.append((kind, s, info))
            if kind == 'IND_OBJ':
                for n, p, i in info['embedded']:
                    self.blocks.append(('EMB', s, {'num': n, 'gen': 0, 'env': info['num'], 'seq': i}))
        self.current = []          # revision -> {num: block}
        self.born = {}
        cur, k = {}, 0
        for m in b.revs:
            while k < len(self.blocks) and self.blocks[k][1] < m.end:
                kind, s, info = self.blocks[k]
                if kind in ('IND_OBJ', 'EMB') and not info.get('orphan'):
                    cur[info['num']] = k
                    self.born[k] = len(self.current)
                k += 1
            self.current.append({n: x for n, x in cur.items() if n in m.objs and self.blocks[x][2]['gen'] == m.objs[n][0]})

    def when(self, k):
        """Revisions at which the definition of block k is current."""
        n = self.blocks[k][2]['num']
        return [r for r, c in enumerate(self.current) if c.get(n) == k]


def check(case):
    spec, inj, notes, cons, fname, hver = case
    spec = copy.deepcopy(spec)
    if notes:
        spec['comments'] = notes
    hostile = bool(notes or hver)
    if hver:
        spec['ver'] = hver
    dicts = [(r, n) for r in range(len(spec['revs'])) for n in spec['revs'][r]['set'] if type(spec['revs'][r]['set'][n][1]) == dict]
    for i, k, v in inj:
        r, n = dicts[i % len(dicts)]
        d = spec['revs'][r]['set'][n][1]
        if k == '/Version':
            if d.get('/Type') != '/Catalog':
                continue
            v = '/1.7' + NAMES[len(str(v)) % len(NAMES)][1:]
        if k != '/Type' or k not in d:
            d[k] = v
            hostile = True
    strs = [(r, n) for r in range(len(spec['revs'])) for n in spec['revs'][r]['set'] if pdfgen.is_stream(spec['revs'][r]['set'][n][1])]
    for i, c in cons:
        if strs:
            r, n = strs[i % len(strs)]
            g, v = spec['revs'][r]['set'][n]
            if v[1].get('/Type') in (None, '/Page'):
                spec['revs'][r]['set'][n] = (g, ('stream', v[1], c, v[3] if v[4] is None else None, None, 'direct'))
                hostile = True
    for r in spec['revs']:
        for n, (g, v) in r['set'].items():
            raw = pdfgen.stream_parts(v)[2] if pdfgen.is_stream(v) else b''
            if raw and v[5] == 'indirect' and (b'endstream' in raw or raw[-1:] in b'\r\n'): #read without the value of /Length
                r['set'][n] = (g, v[:5] + ('direct',))
    b = pdfgen.build(spec)
    x = Expect(b)
    folder = pbt.tmp_path('h')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, fname)
    with open(path, 'wb') as f:
        f.write(b.data)
    try:
        page = show(path)
    finally:
        os.unlink(path)
        os.rmdir(folder)
    v = View()
    v.feed(page)
    v.close()
    ensure(v.stack in ([], ['html']), 'elements left open: %r', v.stack)
    ensure(fname in v.texts['header'], 'the file name is shown as %r', v.texts['header'])

    # blocks
    ensure(len(v.blocks) == len(x.blocks), '%d blocks instead of %d', len(v.blocks), len(x.blocks))
    for k, ((kind, s, info), blk) in enumerate(zip(x.blocks, v.blocks)):
        if kind == 'EMB':
            ensure(blk['pos'].split() == ['%d' % info['env'], '#%d' % info['seq']], 'block %r instead of object %d of container %d', blk['pos'], info['num'], info['env'])
        else:
            ensure(blk['pos'].strip() == '%010d' % s, 'block at %r instead of %d', blk['pos'], s)
        if kind in ('IND_OBJ', 'EMB'):
            ensure(blk['head'].split() == ['%d' % info['num'], '%d' % info['gen'], 'obj'], 'block %r instead of object %d %d', blk['head'], info['num'], info['gen'])
        elif kind == 'COMMENT':
            c = b.data[s:].split(b'\n')[0].split(b'\r')[0]
            want = c[:10].decode('ascii') if all(y < 128 for y in c[:10]) else '<' + c.hex() + '>'
            ensure(blk['head'] == want, 'comment shown as %r instead of %r', blk['head'], want)
        elif kind == 'STARTXREF':
            ensure(blk['text'].split() == ['%d' % info], 'startxref shown as %r instead of %d', blk['text'], info)

    def target(href, what):
        if href.startswith('https:'):
            return None
        ensure(href[1:] in v.ids, '%s: link to %s, which does not exist', what, href)
        return v.ids[href[1:]]

    def block_of(k):
        return x.blocks[k] if k is not None else None
    users = {}
    last = x.current[-1]
    for k, ((kind, s, info), blk) in enumerate(zip(x.blocks, v.blocks)):
        for href, text in blk['links']:
            what = 'link %r of the block at %r' % (text, blk['pos'])
            t = target(href, what)
            m = re.fullmatch(r'(\d+) (\d+) R', text)
            if m:
                n, g = int(m.group(1)), int(m.group(2))
                ensure(t is not None and x.blocks[t][0] in ('IND_OBJ', 'EMB') and (x.blocks[t][2]['num'], x.blocks[t][2]['gen']) == (n, g), '%s leads to %r', what, block_of(t))
                if kind == 'IND_OBJ' and info.get('orphan'):
                    both = last.get(n) == t
                elif kind in ('IND_OBJ', 'EMB'):
                    both = set(x.when(k)) & set(x.when(t))
                else:
                    both = [r for r in range(len(b.revs)) if s < b.revs[r].end][0] in x.when(t)
                ensure(both, '%s leads to another revision of the object', what)
        if kind == 'STARTXREF' and info:
            ensure(len(blk['links']) == 1 and block_of(target(blk['links'][0][0], 'startxref'))[1] == info, 'startxref %d leads elsewhere', info)
        ent = info.get('entries') or info.get('xref') if type(info) == dict else None
        if ent:
            got = {}
            for href, text in blk['links']:
                m = re.fullmatch(r'#(\d+) (\d+)', text)
                if m:
                    got[int(m.group(1))] = target(href, text)
            for n, e in ent.items():
                if n == 0 or e[0] == 'f':
                    ensure(n not in got, 'free entry %d is a link', n)
                    continue
                ensure(n in got and got[n] is not None, 'entry %d of the section at %d is not a link', n, s)
                tk, ts, ti = x.blocks[got[n]]
                ok = (tk, ts) == ('IND_OBJ', e[1]) if e[0] == 'n' else tk == 'EMB' and (ti['env'], ti['seq'], ti['num']) == (e[1], e[2], n)
                ensure(ok, 'entry %d of the section at %d leads to %r', n, s, x.blocks[got[n]])
            rows = [r.split() for r in blk['text'].split('\n')]
            for n, e in ent.items():
                if kind == 'XREFTABLE':
                    r = ['%010d' % e[1], '%05d' % e[2], e[0]] + (['#%d' % n, '%d' % e[2]] if e[0] == 'n' else [])
                elif n == 0:
                    continue
                elif e[0] == 'f':
                    r = ['#%d' % n, '%d' % e[2], 'Next', 'free', '%010d' % e[1], 'f']
                elif e[0] == 'n':
                    r = ['#%d' % n, '%d' % e[2], 'At', 'absolute', 'position', '%010d' % e[1], 'n']
                else:
                    r = ['#%d' % n, '0', 'In', 'object', 'stream', '%d' % e[1], 'at', '%010d' % e[2], 'n']
                ensure(r in rows, 'entry %d of the section at %d: %r is not shown in %r', n, s, ' '.join(r), blk['text'])
        if kind not in ('IND_OBJ', 'EMB') or not x.when(k):
            continue
        # the text
        revs = x.when(k)
        val = b.revs[revs[-1]].objs[info['num']][1]
        if isinstance(val, pdfgen.Container):
            continue
        cur = x.current[revs[-1]]
        sources = set()
        if pdfgen.is_stream(val):
            e, content, raw = pdfgen.stream_parts(val)
            if pdfgen.supported(val[3]) and content:
                printable = all(c >= 20 or c in (10, 13) for c in content)
                d = [y[0] for y in blk['details']]
                if not printable:
                    h = '<' + content.hex() + '>'
                    h = h if len(h) <= 60 else h[:60] + ' ...(truncated)'
                    ensure(h in blk['text'], 'stream %r is not shown in %r', h, blk['text'])
                if printable:
                    ensure(d == [content.decode('latin-1') + '\n'] or d == [content.decode('latin-1')], 'stream shown as %r instead of %r', d, content)
            want = toks({q: w for q, w in e.items()}, [])
            refs = refs_of(e, set())
        else:
            want = toks(val, [])
            refs = refs_of(val, set())
        d = e if pdfgen.is_stream(val) else val
        ensure(sorted(blk['warnings']) == sorted(scripts(d, [])), 'object %d: %r are shown as scripts instead of %r', info['num'], blk['warnings'], scripts(d, []))
        if type(d) == dict:
            rows = re.split(r'>>  *\n+stream\n', blk['text'])[0].split('\n') if pdfgen.is_stream(val) else blk['text'].split('\n')
            keys = [m.group(1) for m in (re.match(r'  (/\S*)', r) for r in rows) if m]
            ensure(listed_dict(d) or sorted(k for k in keys if k not in ADDED or k in d) == sorted(k for k in d), 'object %d: the names %r are shown instead of %r', info['num'], keys, sorted(d))
            for q, w in d.items():
                if isinstance(w, bytes) and w[:1] == b'(' and len(w) > 30:
                    r = [r for r in rows if r.startswith('  %-20s' % q)][0]
                    ensure('(truncated)' in r or len(r) >= len(w), 'object %d: %r is cut to %r', info['num'], w, r)
        for t in want:
            ensure(t in blk['text'], 'object %d: %r is not shown in %r', info['num'], t, blk['text'][:300])
        shown = {text for href, text in blk['links']}
        for r in refs:
            n, g = int(r.imag), int(r.real)
            if n in cur and x.blocks[cur[n]][2]['gen'] == g:
                ensure('%d %d R' % (n, g) in shown, 'object %d: reference %d %d R is not a link', info['num'], n, g)
        if last.get(info['num']) == k:
            for r in refs:
                n = int(r.imag)
                if n in last and x.blocks[last[n]][2]['gen'] == int(r.real):
                    users.setdefault(last[n], set()).add(k)
    # reverse index
    since = b.revs[-2].end if len(b.revs) > 1 else 0
    tops = {int(r.imag) for r in refs_of(b.revs[-1].trailer, set()) if int(r.imag) in last and x.blocks[last[int(r.imag)]][2]['gen'] == int(r.real)}
    trailers = False
    for n, k in last.items():
        got = set()
        for href, text in v.blocks[k]['links']:
            if re.fullmatch(r'\d+', text) and href.startswith('#idx'):
                t = target(href, 'used in')
                if x.blocks[t][0] in ('IND_OBJ', 'EMB') and x.blocks[t][2]['num'] == int(text) and v.blocks[k]['text'].find('used in') >= 0 \
                        and not isinstance(b.revs[-1].objs.get(int(text), (0, None))[1], pdfgen.Container):
                    got.add(t)
        if isinstance(b.revs[-1].objs[n][1], pdfgen.Container):
            continue
        want = users.get(k, set())
        if type(b.revs[-1].objs[n][1]) == int: #the length of a stream
            got = {t for t in got if t in want or not pdfgen.is_stream(b.revs[-1].objs[x.blocks[t][2]['num']][1])}
        ensure(want <= got, 'object %d is not shown as used in %r', n, [x.blocks[y][2]['num'] for y in want - got])
        ensure(got <= want, 'object %d is shown as used in %r', n, [x.blocks[y][2]['num'] for y in got - want])
        got = {target(href, 'used in') for href, text in v.blocks[k]['links'] if text == 'trailer'}
        for t in got:
            tk, ts, ti = x.blocks[t]
            ensure(tk == 'XREFTABLE' and ts >= since and complex(b.revs[-1].objs[n][0], n) in refs_of(ti.get('trailer') or b.revs[-1].trailer, set()), 'object %d is shown as used in the trailer at %d', n, ts)
        if b.revs[-1].form in ('table', 'hybrid') and n in tops:
            ensure(got, 'object %d is not shown as used in the trailer', n)
            trailers = True
    # navigation
    version = pdf.structure(pdf.loads(b.data))['Version']
    ensure(re.search(r'Version: +' + re.escape(version) + r'(?!\S)', v.texts['nav']), 'version %r is not shown in %r', version, v.texts['nav'][:300])
    yes = lambda c: 'yes' if c else 'no'
    for what, fact in (('Revision', len(b.revs)), ('Hybrid', yes(any(m.form == 'hybrid' for m in b.revs))), ('Linearized', yes(spec.get('linear')) if len(b.revs) == 1 and not hver else ''), ('File size', '%d bytes' % len(b.data))):
        m = re.search(what + r'(?:\(s\))?: +(\S.*?) *(?=[A-Z][a-z ()]*:|$)', v.texts['nav'].replace('\n', ' '))
        ensure(m and m.group(1).strip().startswith(str(fact)), '%s is shown as %r instead of %s', what, m and m.group(1), fact)
    objs = {n: o for n, o in b.revs[-1].objs.items()}
    leaves = [n for n, _, _ in pagegen.flatten(objs, b.revs[-1].trailer)]
    nav = v.nav.get('Pages', [])
    ensure([t for h, t in nav] == [str(i + 1) for i in range(len(leaves))], 'pages of the menu: %r', nav)
    for n, (href, text) in zip(leaves, nav):
        ensure(target(href, 'page') == last[n], 'page %s leads to %r instead of object %d', text, block_of(target(href, 'page')), n)
    mini = v.nav.get('Minimap', [])
    want = [(str(i['num']) if kind != 'XREFTABLE' else 'xref', k) for k, (kind, s, i) in enumerate(x.blocks) if kind in ('IND_OBJ', 'EMB', 'XREFTABLE')]
    ensure([(t, target(h, 'minimap')) for h, t in mini] == want, 'minimap %r instead of %r', mini, want)
    for (n, k), tail in zip(want, v.items):
        kind, s, info = x.blocks[k]
        if kind == 'XREFTABLE' or not x.when(k):
            continue
        val = b.revs[x.when(k)[-1]].objs[info['num']][1]
        e = val[1] if pdfgen.is_stream(val) else val
        t = e.get('/Type', '') if type(e) == dict else ''
        if isinstance(t, str) and not isinstance(val, pdfgen.Container):
            ensure(tail.strip() == t, 'object %s of type %r is %r in the minimap', n, t, tail)
    for sec in v.nav:
        for href, text in v.nav[sec]:
            target(href, sec)
    l = docs.spec_labels(spec)
    if hostile:
        l.add('hostile')
    if trailers:
        l.add('trailers')
    return bool(hostile or len(spec['revs']) > 1 or 'packed' in l), sorted(l)


def s_files():
    ref = st.builds(complex, st.sampled_from([0, 0, 0, 1]), st.integers(1, 12))
    spec = st.one_of(specs.specs(max_revs=3), specs.specs(max_revs=3, linear=False), pagegen.page_specs(max_pages=4))
    inj = st.lists(st.tuples(st.integers(0, 20), st.sampled_from(['/zH', '/a&amp;b', '/zz"', '/z&lt;', '/Type', '/Type', '/Version']), hostile_value(ref)), max_size=3)
    return st.tuples(spec, inj, comments(), st.lists(st.tuples(st.integers(0, 9), contents()), max_size=2), st.sampled_from(FILE_NAMES), st.sampled_from(['', '', '', '<b>', '1.7<b>', '&lt;']))


SUBS = [Sub('browse', s_files, check, 1600, 60000)]
