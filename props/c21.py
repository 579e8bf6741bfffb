"""C21: structure, version, metadata and overview report the document as it is."""
import contextlib
import copy
import io
import os
import re
import subprocess
import sys
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import docs
import history
import pagegen
import pdfgen
import reftext
import values as V
from values import Style
import pdfsyntax as pdf

ID = 'C21'
RULE = ('A case is a document (any layout, several revisions, /Version in the catalog, document information, /Encrypt, boxes) and a history of edits of the catalog and of the document information, '
        'commits, rewinds, reloads, squashes and compressions; the facts expected follow in a model. Non-trivial: a version in the catalog, a metadata field, /Encrypt, a hybrid or linearized layout, or two revisions.')
ASSUMPTIONS = ['one digit on each side of the point of a version', 'encrypted documents are only flagged (their strings are not decrypted)',
               'the linearized flag of a linearized file that was then updated is not looked at', 'texts hold no lone surrogate']

FIELDS = ['Title', 'Author', 'Subject', 'Keywords', 'Creator', 'Producer', 'CreationDate', 'ModDate']
MM = {'A%d' % i: s for i, s in enumerate([(841, 1189), (594, 841), (420, 594), (297, 420), (210, 297), (148, 210), (105, 148), (74, 105), (52, 74), (37, 52), (26, 37)])}
SIZES = {k: (round(a / 25.4 * 72), round(b / 25.4 * 72)) for k, (a, b) in MM.items()}
SIZES.update({'US Tabloid': (792, 1224), 'US Legal': (612, 1008), 'US Letter': (612, 792)})


# ---- oracle
def expect_text(objs, v):
    v = pagegen.deref(objs, v)
    if type(v) != bytes:
        return None
    return reftext.decode(reftext.read_string(v)) or None


def header_version(a, cat):
    v = pagegen.deref(cat[0], cat[1].get('/Version'))
    if type(v) == str and v != 'null' and v[1:] > a:
        return v[1:]
    return a


def is_null(objs, v):
    v = pagegen.deref(objs, v)
    return v is None or v == 'null'


class Facts:
    """Facts of one state of the document: computed from the model objects."""

    def __init__(self, objs, trailer):
        self.objs = {n: (g, v) for n, (g, v) in objs.items()}
        self.trailer = dict(trailer)

    def copy(self):
        return Facts(self.objs, self.trailer)

    def catalog(self):
        return pagegen.deref(self.objs, self.trailer['/Root'])

    def info(self):
        v = pagegen.deref(self.objs, self.trailer.get('/Info'))
        return v if type(v) == dict else {}

    def metadata(self):
        i = self.info()
        return {f: expect_text(self.objs, i.get('/' + f)) for f in FIELDS}

    def pages(self):
        return len(pagegen.flatten(self.objs, self.trailer))

    def encrypted(self):
        return not is_null(self.objs, self.trailer.get('/Encrypt'))

    def box(self):
        here = pagegen.flatten(self.objs, self.trailer)[0][1]
        return [pagegen.deref(self.objs, x) for x in pagegen.deref(self.objs, here['/MediaBox'])]


def check_paper(text, box):
    w, h = abs(box[2] - box[0]), abs(box[3] - box[1])
    m = re.fullmatch(r'(-?\d+)x(-?\d+)mm or (-?[\d.]+)x(-?[\d.]+)in \((.+)\)', text)
    ensure(m, 'the size of the first page is printed as %r', text)
    for got, want in ((m.group(1), w), (m.group(2), h)):
        ensure(abs(int(got) - want * 25.4 / 72) <= 1, 'the first page %r is said to be %s', box, text)
    for got, want in ((m.group(3), w), (m.group(4), h)):
        ensure(abs(float(got) - want / 72) <= 0.011, 'the first page %r is said to be %s', box, text)
    name = m.group(5)
    exact = [k for k, s in SIZES.items() if s == (w, h)]
    near = [k for k, (a, b) in SIZES.items() if (abs(a - w) <= 3 and abs(b - h) <= 3) or (abs(a - h) <= 3 and abs(b - w) <= 3)]
    if exact:
        ensure(name in exact, 'a page of size %r is said to be %s instead of %s', (w, h), name, exact[0])
    elif not near:
        ensure(name == 'unknown', 'a page of size %r is said to be %s', (w, h), name)
    return bool(exact)


def printed(fn, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn(*args)
    return out.getvalue()


def check_overview(text, struct, meta, encrypted):
    want = '# Structure\n' + ''.join('%s: %s\n' % (k, struct[k]) for k in struct) + '\n# Metadata\n'
    ensure(text.startswith(want), 'the overview %r does not begin with the structure %r', text, want)
    rest = text[len(want):]
    for k in FIELDS:
        line = '%s: %s\n' % (k, '#Encrypted#' if encrypted and meta[k] else meta[k])
        ensure(line in rest, 'the overview %r does not show %r', rest, line)


class Run:
    def __init__(self, spec):
        self.built = pdfgen.build(spec)
        self.doc = pdf.loads(self.built.data)
        self.stack = [Facts(r.objs, r.trailer) for r in self.built.revs]
        self.cur = self.stack[-1].copy()
        self.dirty = False
        self.hybrids = [r.form == 'hybrid' for r in self.built.revs]
        self.base = spec['ver']
        self.linear = bool(spec['linear'])
        self.fresh = True      # the first revision is the one loaded
        self.labels = set()

    def check(self, what):
        doc, f = self.doc, self.cur
        s = pdf.structure(doc)
        v = header_version(self.base, (f.objs, f.catalog()))
        ensure(s['Version'] == v and pdf.version(doc) == v, '%s: version %r instead of %r', what, s['Version'], v)
        ensure(s['Pages'] == f.pages(), '%s: %r pages instead of %d', what, s['Pages'], f.pages())
        n = len(self.stack)
        ensure(s['Revisions'] == n and pdf.updates(doc) == n, '%s: %r revisions instead of %d', what, s['Revisions'], n)
        r = re.fullmatch(r'<PDF Doc in revision (\d+) with (\d+) modified object\(s\)>', repr(doc))
        ensure(r and int(r.group(1)) == n and (int(r.group(2)) > 0) == self.dirty, '%s: %d revisions, modified %r, shown as %r', what, n, self.dirty, repr(doc))
        ensure(s['Encrypted'] == f.encrypted() and type(s['Encrypted']) == bool, '%s: encrypted %r', what, s['Encrypted'])
        if self.hybrids is not None:
            h = any(self.hybrids)
            ensure(s['Hybrid'] == h and type(s['Hybrid']) == bool, '%s: hybrid %r', what, s['Hybrid'])
        if not self.linear or (self.fresh and n == 1 and not self.dirty):
            ensure(s['Linearized'] is self.linear, '%s: linearized %r', what, s['Linearized'])
        if check_paper(s['Paper of 1st page'], f.box()):
            self.labels.add('known paper')
        m, want = pdf.metadata(doc), f.metadata()
        for k in FIELDS:
            got = m[k]
            ensure(got == want[k], '%s: %s is %r instead of %r', what, k, got, want[k])
        ensure(set(m) == set(FIELDS), '%s: metadata fields %r', what, sorted(m))
        if any(want.values()):
            self.labels.add('metadata')
        if v != self.base:
            self.labels.add('version in catalog')
        if f.encrypted():
            self.labels.add('encrypted')
        if self.hybrids and any(self.hybrids):
            self.labels.add('hybrid')
        if self.linear and n == 1:
            self.labels.add('linear')
        if n > 1:
            self.labels.add('revisions')
        return s, m

    def commit_model(self):
        if self.dirty:
            if not self.stack: # the file is written again from its first byte
                self.base = header_version(self.base, (self.cur.objs, self.cur.catalog()))
            self.stack.append(self.cur)
            if self.hybrids is not None:
                self.hybrids.append(False)
            self.cur = self.cur.copy()
            self.dirty = False

    def edit(self, n, v):
        g = self.cur.objs[n][0]
        self.doc = pdf.update_object(self.doc, n, history.to_pdf(v))
        self.cur.objs[n] = (g, v)
        self.dirty = True

    def reload(self):
        _, data = history.write(self.doc)
        self.commit_model()
        self.doc = pdf.loads(data)
        self.data = data

    def step(self, op):
        k = op[0]
        if k == 'info':
            r = self.cur.trailer.get('/Info')
            if type(r) != complex or type(pagegen.deref(self.cur.objs, r)) != dict:
                return False
            self.edit(int(r.imag), op[1])
        elif k == 'version':
            r = self.cur.trailer['/Root']
            old = pagegen.deref(self.cur.objs, self.cur.catalog().get('/Version'))
            c = dict(self.cur.catalog())
            if header_version('0.0', (self.cur.objs, c)) >= op[1]:      # never a downgrade
                v = pdf.version(self.doc)
                ensure(pdf.version(pdf.update_version(self.doc, op[1])) == v, 'asked for version %s, a document in version %s becomes %s', op[1], v, pdf.version(pdf.update_version(self.doc, op[1])))
                return False
            c['/Version'] = '/' + op[1]
            if type(old) == str and old != 'null' or type(self.cur.catalog().get('/Version')) == complex:
                self.edit(int(r.imag), c)
            else:
                given = self.doc
                self.doc = pdf.update_version(self.doc, op[1])
                self.cur.objs[int(r.imag)] = (int(r.real), c)
                self.dirty = True
        elif k == 'commit':
            self.doc = pdf.commit(self.doc)
            self.commit_model()
        elif k == 'rewind':
            self.doc = pdf.rewind(self.doc)
            if self.stack:
                self.cur = self.stack.pop().copy()
                self.hybrids = None
                self.fresh = False
                self.dirty = bool(pdf.changes(self.doc))
        elif k == 'reload':
            self.reload()
        elif k in ('squash', 'compress'):
            used = pdf.in_use(self.doc)
            f = self.cur
            meta, box, pages, enc, v = f.metadata(), f.box(), f.pages(), f.encrypted(), header_version(self.base, (f.objs, f.catalog()))
            doc = pdf.squash(self.doc) if k == 'squash' else pdf.compress(self.doc)
            s, m = pdf.structure(doc), pdf.metadata(doc)
            if k == 'compress':
                v = max(v, '1.5')
            ensure(s['Version'] == v, 'after %s: version %r instead of %r', k, s['Version'], v)
            ensure(s['Pages'] == pages, 'after %s: %r pages instead of %d', k, s['Pages'], pages)
            ensure(s['Revisions'] == (1 if k == 'compress' else 0), 'after %s: %r revisions', k, s['Revisions'])
            ensure(s['Encrypted'] == enc and s['Hybrid'] is False and s['Linearized'] is False, 'after %s: flags %r', k, s)
            check_paper(s['Paper of 1st page'], box)
            ensure(all(m[x] == meta[x] for x in FIELDS), 'after %s: metadata %r instead of %r', k, m, meta)
            _, data = history.write(doc)
            again = pdf.structure(pdf.loads(data))
            for x in s:
                if x != 'Revisions':
                    ensure(again[x] == s[x], 'after %s and a reload: %s is %r instead of %r', k, x, again[x], s[x])
            ensure(again['Revisions'] == 1, 'after %s and a reload: %r revisions', k, again['Revisions'])
            self.labels.add(k)
            return False
        return True


def check(case):
    spec, ops = case
    run = Run(spec)
    s, m = run.check('loaded')
    p = pbt.tmp_path('facts.pdf')
    with open(p, 'wb') as f:
        f.write(run.built.data)
    check_overview(printed(pdf_overview, p), s, m, s['Encrypted'])
    os.unlink(p)
    for op in ops:
        if run.step(op):
            run.check('after ' + op[0])
    return bool(run.labels), sorted(run.labels)


def pdf_overview(path):
    import pdfsyntax.cli
    pdfsyntax.cli.overview(path)


def check_cli(case):
    spec = case
    run = Run(spec)
    s, m = run.check('loaded')
    p = pbt.tmp_path('cli.pdf')
    with open(p, 'wb') as f:
        f.write(run.built.data)
    env = dict(os.environ, PYTHONPATH=pbt.REPO, PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-m', 'pdfsyntax', 'overview', p], capture_output=True, env=env, cwd=os.path.dirname(p))
    os.unlink(p)
    ensure(r.returncode == 0, 'the command ends with %d: %s', r.returncode, r.stderr[-300:])
    check_overview(r.stdout.decode('utf-8'), s, m, s['Encrypted'])
    return bool(run.labels), sorted(run.labels)


def check_blank(case):
    size, = case
    doc = pdf.blank(size)
    s = pdf.structure(doc)
    ensure(s['Pages'] == 1 and s['Version'] == '1.4' and not s['Encrypted'] and not s['Hybrid'] and not s['Linearized'], 'structure of a blank document: %r', s)
    w, h = SIZES[size]
    check_paper(s['Paper of 1st page'], [0, 0, w, h])
    ensure('(%s)' % size in s['Paper of 1st page'], 'the page of a blank %s document is %s', size, s['Paper of 1st page'])
    ensure(not any(pdf.metadata(doc).values()), 'metadata of a blank document: %r', pdf.metadata(doc))
    return True, [size]


def check_units(case):
    x, = case
    ensure(abs(pdf.in2pt(x) - x * 72) < 1.001, '%r inches are %r points', x, pdf.in2pt(x))
    ensure(abs(pdf.mm2pt(x) * 25.4 - x * 72) < 25.4 * 0.501, '%r millimeters are %r points', x, pdf.mm2pt(x))
    return x != int(x), [type(x).__name__]


# ---- generation
@st.composite
def string_tokens(draw):
    text = draw(reftext.texts(12))
    data = reftext.encode(text, draw(st.booleans()) or not reftext.pdfdoc_ok(text))
    s = Style(draw(st.binary(max_size=16)))
    return reftext.spell_literal(data, s) if draw(st.booleans()) else reftext.spell_hex(data, s)


@st.composite
def info_dicts(draw, pool=()):
    keys = draw(st.lists(st.sampled_from(FIELDS + ['Trapped', 'zMine']), max_size=5, unique=True))
    d = {}
    for k in keys:
        c = draw(st.integers(0, 9))
        if k == 'Trapped':
            v = '/False'
        elif pool and c <= 1:
            v = draw(st.sampled_from(pool))
        elif c == 2:
            v = draw(st.sampled_from(['null', b'()', b'<>', 900j]))
        elif k.endswith('Date'):
            v = b'(D:%04d0203040506+01\'00\')' % draw(st.integers(1990, 2030))
        else:
            v = draw(string_tokens())
        d['/' + k] = v
    return d


VERSIONS = ['1.0', '1.3', '1.4', '1.5', '1.6', '1.7', '2.0']


@st.composite
def boxes(draw):
    w, h = draw(st.one_of(st.sampled_from(sorted(SIZES.values())), st.tuples(st.integers(1, 3000), st.integers(1, 3000)), st.tuples(st.integers(400, 12000).map(lambda x: x / 4), st.integers(400, 12000).map(lambda x: x / 4))))
    x, y = draw(st.sampled_from([(0, 0), (0, 0), (10, 20), (-5, -7)]))
    k = draw(st.integers(0, 9))
    if k == 0:
        return [x + w, y + h, x, y]
    if k == 1:
        return [x, y + h, x + w, y]
    return [x, y, x + w, y + h]


@st.composite
def fact_specs(draw):
    spec = draw(pagegen.page_specs(max_pages=4, max_revs=3, trailer_info=False))
    revs = [dict(r, set=dict(r['set']), trailer=dict(r['trailer'])) for r in spec['revs']]
    spec = dict(spec, revs=revs, ver=draw(st.sampled_from(VERSIONS)), long=draw(st.sampled_from([0, 0, 3, 100, 600])))
    first = revs[0]['set']
    nxt = max(first) + 1
    pool = []
    for _ in range(draw(st.integers(0, 3))):
        first[nxt] = (0, draw(string_tokens()))
        pool.append(complex(0, nxt))
        nxt += 1
    info_num = nxt
    first[nxt] = (0, draw(info_dicts(pool)))
    nxt += 1
    vers_num = nxt
    first[nxt] = (0, '/' + draw(st.sampled_from(VERSIONS)))
    nxt += 1
    first[nxt] = (0, {'/Filter': '/Standard'})
    enc_num = nxt
    nxt += 1
    box_nums = []
    if draw(st.integers(0, 4)) == 0:
        first[nxt] = (0, draw(st.integers(500, 700)))
        box_nums.append(complex(0, nxt))
        nxt += 1
    cat = revs[0]['trailer']['/Root']
    # the box of the first page
    base = {n: v for n, v in first.items()}
    if draw(st.integers(0, 2)):
        num = pagegen.flatten(base, revs[0]['trailer'])[0][0]
        box = draw(boxes())
        if box_nums:
            box[2] = box_nums[0]
        if draw(st.integers(0, 3)) == 0:
            first[nxt] = (0, box)
            box = complex(0, nxt)
            nxt += 1
        for r in revs:
            if num in r['set']:
                g, v = r['set'][num]
                r['set'][num] = (g, dict(v, **{'/MediaBox': box}))
    has_info = draw(st.integers(0, 4))
    enc = draw(st.sampled_from([None] * 6 + ['dict', 'ref', 'null', 'gone']))
    catv = draw(st.sampled_from([None, None, 'own', 'own', 'ref', 'null']))
    last = dict(first[int(cat.imag)][1])
    for i, r in enumerate(revs):
        t = r['trailer']
        if has_info:
            t['/Info'] = complex(0, info_num) if has_info < 4 else draw(st.sampled_from(['null', 900j, complex(0, info_num)]))
        if enc == 'dict':
            t['/Encrypt'] = {'/Filter': '/Standard', '/V': 1}
        elif enc == 'ref':
            t['/Encrypt'] = complex(0, enc_num)
        elif enc == 'null':
            t['/Encrypt'] = 'null'
        elif enc == 'gone':
            t['/Encrypt'] = 900j
        n = int(cat.imag)
        if n in r['set']:
            last = dict(r['set'][n][1])
        if i == 0 or draw(st.integers(0, 2)) == 0:
            v = dict(last)
            v.pop('/Version', None)
            if catv == 'own':
                v['/Version'] = '/' + draw(st.sampled_from(VERSIONS))
            elif catv == 'ref':
                v['/Version'] = complex(0, vers_num)
            elif catv == 'null':
                v['/Version'] = draw(st.sampled_from(['null', 900j]))
            last = v
            r['set'][n] = (int(cat.real), v)
        if i and draw(st.integers(0, 2)) == 0:
            r['set'][info_num] = (0, draw(info_dicts(pool)))
    return spec


def ops():
    one = st.one_of(st.tuples(st.just('info'), info_dicts()), st.tuples(st.just('info'), info_dicts()), st.tuples(st.just('version'), st.sampled_from(VERSIONS)),
                    st.sampled_from([('commit',), ('rewind',), ('rewind',), ('reload',), ('squash',), ('compress',)]))
    return st.lists(one, max_size=7)


SUBS = [Sub('facts', lambda: st.tuples(fact_specs(), ops()), check, 2000, 100000),
        Sub('blank', lambda: st.tuples(st.sampled_from(sorted(SIZES))), check_blank, 60, 200),
        Sub('units', lambda: st.tuples(st.one_of(st.integers(0, 2000), st.floats(0, 2000))), check_units, 200, 2000),
        Sub('command', fact_specs, check_cli, 24, 800)]
