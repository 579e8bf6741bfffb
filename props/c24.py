"""C24: disassembly covers the file and marks what is indexed."""
import contextlib
import io
import os
import re
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import docs
import pagegen
import pdfgen
import refcodec
import specs
import pdfsyntax as pdf
from pdfsyntax import cli

ID = 'C24'
RULE = ('A case is a description of a file written by lib/pdfgen.py (which records where each region lies), wrong entries put in its cross-reference sections, links between revisions cut, and white space at the end. '
        'Non-trivial: objects are packed, there are several sections, or an entry is wrong.')
ASSUMPTIONS = ['a stream holding the word endstream has a direct /Length', 'entries of a section that nothing links to may be marked either way when they lead to nothing']
WS = b'\0\t\n\x0c\r '
TYPES = {dict: 'dict', list: 'array', int: 'int'}
FILTERS = {'/ASCIIHexDecode': 'AHex', '/ASCII85Decode': 'A85', '/LZWDecode': 'LZW', '/FlateDecode': 'Flate', '/RunLengthDecode': 'RunL', '/CCITTFaxDecode': 'Fax',
           '/JBIG2Decode': 'JBIG2', '/DCTDecode': 'DCT', '/JPXDecode': 'JPX', '/Crypt': 'Crypt'}


def fix(spec):
    """Sequential reading cannot follow an indirect /Length when the content looks like the end of the stream."""
    for r in spec['revs']:
        for n, (g, v) in r['set'].items():
            if pdfgen.is_stream(v) and v[5] == 'indirect' and b'endstream' in pdfgen.stream_parts(v)[2]:
                r['set'][n] = (g, v[:5] + ('direct',))
    return spec


def sections(b):
    return [r for r in b.regions if r[0] == 'XREFTABLE' or (r[0] == 'IND_OBJ' and 'xref' in r[3])]


def entries_of(r):
    return r[3]['xref'] if r[0] == 'IND_OBJ' else r[3]['entries']


class Truth:
    def __init__(self, b, spec):
        self.objs = {}                     # key -> line facts
        for k, s, e, info in b.regions:
            if k == 'IND_OBJ':
                self.objs[('DIR', info['num'], info['gen'], s)] = True
                for n, p, i in info['embedded']:
                    self.objs[('EMB', n, info['num'], i)] = True
        linked, self.linked = set(), set()
        secs = sections(b)
        # the sections of a revision share a startxref; those of a revision without /Prev hide what comes before
        cut = max([r for r in spec.get('unlinked', ()) if 0 < r < len(b.revs)] + [0])
        begin = b.revs[cut - 1].end if cut else 0
        self.keys = {}
        for r in secs:
            if r[1] >= begin:
                self.linked.add(r[1])
            for n, x in entries_of(r).items():
                k = None
                if n and x[0] == 'n':
                    k = ('DIR', n, x[2], x[1])
                elif n and x[0] == 'c':
                    k = ('EMB', n, x[1], x[2])
                self.keys.setdefault(r[1], {})[n] = k
                if k and r[1] >= begin:
                    linked.add(k)
        self.indexed = linked
        self.b, self.spec = b, spec

    def value(self, num, pos):
        """Value of the object whose region (or container) begins there, when it is one of the description."""
        for r, rev in zip(self.b.revs, self.spec['revs']):
            if pos < r.end and not self.spec.get('orphans'):
                return rev['set'][num][1] if num in rev['set'] else None


def parse_line(l):
    """(sign, pos, size, tokens before the region type, region type, tokens after)."""
    m = re.match(r'([+-]) +(?:(\d+) )? *(?:\[(\d+) *\] )?(.*)$', l, re.S)
    ensure(m, 'line %r cannot be read', l)
    rest = m.group(4)
    t = re.search(r'(?:^|(?<= ))(void|comment|startxref|xreftable|ind_obj|xref)(?: |$)', rest)
    ensure(t, 'line %r has no type', l)
    return m.group(1), m.group(2) and int(m.group(2)), m.group(3) and int(m.group(3)), rest[:t.start()].split(), t.group(1), rest[t.end():]


def check_facts(before, cl, detail, v, what):
    """Class, filters, ratio and details of an object."""
    stream = pdfgen.is_stream(v)
    want = 'stream' if stream else TYPES.get(type(v), 'other')
    ensure(cl == want, '%s is of class %r instead of %r', what, cl, want)
    entries = v
    if stream:
        entries, content, raw = pdfgen.stream_parts(v)
        flt = entries.get('/Filter')
        names = ''.join('_' + FILTERS[f] for f in (flt if type(flt) == list else [flt] if flt else []))
        ensure(names in before if names else not any(x[0] == '_' and x != '_' for x in before), '%s, of filters %r, has %r', what, flt, before)
        if pdfgen.supported(flt):
            ratio = '%d%%' % int(len(raw) / len(content) * 100) if content else '!!'
            ensure(ratio in before, '%s, of %d bytes for %d, has %r instead of %s', what, len(raw), len(content), before, ratio)
    else:
        ensure(not [x for x in before if x[-1] == '%' or x[0] == '_' or x == '!!'], '%s is not a stream and has %r', what, before)
    if type(entries) == dict:
        ensure('/JS' not in entries or '!/JS!' in detail, '%s has /JS: %r', what, detail)
        ensure('/JS' in entries or '!/JS!' not in detail, '%s has no /JS: %r', what, detail)
        t = entries.get('/Type')
        ensure(type(t) != str or t in detail, '%s has type %r: %r', what, t, detail)
    if stream:
        check_keys(detail, entries, what)


def check_keys(detail, entries, what):
    """The values of some entries of a stream are shown."""
    for k in ('/Root', '/Prev', '/N', '/First'):
        x = entries.get(k)
        shown = [d for d in detail if d.startswith(k + '=')]
        if x is None:
            ensure(not shown, '%s has no %s: %r', what, k, detail)
        elif type(x) in (int, complex):
            t = '%s=%s' % (k, x if type(x) == int else '%d,%d' % (x.imag, x.real))
            ensure(shown == [t], '%s has %s: %r', what, t, detail)


def check_lines(out, b, truth):
    lines = [parse_line(l) for l in out.split('\n') if l]
    lines = [l for l in lines if l[4] != 'void']
    i = 0

    def take(what):
        nonlocal i
        ensure(i < len(lines), 'the listing ends before %s', what)
        i += 1
        return lines[i - 1]

    def mark(tokens):
        m = [x for x in tokens if x in ('@-', '?-', '-@', '-?')]
        ensure(len(m) == 1, 'marks %r', tokens)
        return '@' in m[0]
    for kind, s, e, info in b.regions:
        sign, pos, size, before, t, after = take((kind, s))
        ensure(sign == '+' and (pos, size, t) == (s, e - s, kind.lower()), 'line %r instead of %s at %d, size %d', lines[i - 1], kind.lower(), s, e - s)
        if kind == 'STARTXREF':
            ensure(int(after) == info, 'startxref to %s instead of %d', after, info)
        elif kind == 'COMMENT':
            c = b.data[s:e]
            want = c[:8] if c[:4] == b'%PDF' else c[:5] if c[:5] == b'%%EOF' else c[:10]
            try:
                want = want.decode('ascii')
            except UnicodeDecodeError:
                want = '<' + want.hex() + '>'
            ensure(after.strip() == want.strip(), 'comment shown as %r instead of %r', after, want)
        elif kind == 'IND_OBJ':
            a = after.split()
            ensure(a[0] == '%d,%d' % (info['num'], info['gen']), 'object %r instead of %d %d', a[0], info['num'], info['gen'])
            key = ('DIR', info['num'], info['gen'], s)
            ensure(mark(before) == (key in truth.indexed), 'object %d %d at %d marked %r', info['num'], info['gen'], s, before)
            n_emb = len(info['embedded'])
            v = truth.value(info['num'], s)
            if v is not None and not n_emb and 'xref' not in info:
                check_facts(before, a[1], a[2:], v, 'object %d at %d' % (info['num'], s))
            if n_emb:
                ensure('/Type' not in a[2:] and '/ObjStm' in a[2:] and '/N=%d' % n_emb in a[2:], 'object stream %d, of %d objects, has %r', info['num'], n_emb, a[2:])
            if 'xref' in info:
                ensure('/XRef' in a[2:], 'xref stream %d has %r', info['num'], a[2:])
                if 'dict' in info:
                    check_keys(a[2:], info['dict'], 'xref stream %d' % info['num'])
            stream = b.data[s:e].rstrip().endswith(b'endobj') and b'endstream' in b.data[s:e]
            ensure(not (n_emb or 'xref' in info) or a[1] == 'stream', 'class %r', a[1])
            if a[1] == 'stream':
                ensure(stream, 'object %d is shown as a stream', info['num'])
        table = None
        if kind == 'XREFTABLE':
            table = info['entries']
            tr = info.get('trailer')
            if tr:
                want = []
                for k in ('/XRefStm', '/Prev') if '/XRefStm' in tr else ('/Root', '/Prev'):
                    v = tr.get(k)
                    if v is not None:
                        want.append('%s=%s' % (k, '%d,%d' % (v.imag, v.real) if type(v) == complex else v))
                ensure(after.split() == want, 'trailer details %r instead of %r', after, want)
        elif kind == 'IND_OBJ' and 'xref' in info:
            table = info['xref']
        if table is not None:
            got = {}
            for _ in table:
                sg, p, z, bf, t, af = take('the entries of the section at %d' % s)
                ensure(sg == '-' and t == 'xref' and p is None, 'line %r instead of an entry of the section at %d', lines[i - 1], s)
                a = af.split()
                n = int(a[0].split(',')[0])
                ensure(n not in got, 'entry %d is listed twice', n)
                got[n] = True
                x = table.get(n)
                ensure(x is not None, 'entry of %d does not exist', n)
                want = ['%d,%d' % (n, 0 if x[0] == 'c' else x[2])]
                if kind == 'IND_OBJ':
                    want.append('%d,' % x[1] if x[0] == 'c' else 'abs')
                g = a[:-2] + [str(int(a[-2])), a[-1]]
                want += [str(x[2] if x[0] == 'c' else x[1]), 'free' if x[0] == 'f' else 'inuse']
                ensure(g == want, 'entry shown as %r instead of %r', g, want)
                k = truth.keys[s][n]
                good = k is None or k in truth.objs
                m = mark(bf)
                if good or s in truth.linked:
                    ensure(m == good, 'entry %d of the section at %d, %r, marked %r', n, s, x, bf)
        for n, p, j in (info['embedded'] if kind == 'IND_OBJ' else ()):
            sg, pp, z, bf, t, af = take('object %d embedded in %d' % (n, info['num']))
            ensure(sg == '-' and t == 'ind_obj', 'line %r instead of object %d embedded in %d', lines[i - 1], n, info['num'])
            ensure(pp == p, 'embedded object %d at %r instead of %d', n, pp, p)
            a = af.split()
            ensure(a[0] == '%d,' % n, 'embedded object %r instead of %d', a[0], n)
            v = truth.value(n, s)
            if v is not None and not isinstance(v, complex):
                check_facts(bf, a[1], a[2:], v, 'object %d embedded in %d' % (n, info['num']))
            ensure(bf[-3:-1] == [str(j), '%d,' % info['num']], 'embedded object %d shown with %r', n, bf)
            key = ('EMB', n, info['num'], j)
            ensure(mark(bf) == (key in truth.indexed), 'embedded object %d of %d, at index %d, marked %r', n, info['num'], j, bf)
    ensure(i == len(lines), 'unexpected line %r', lines[i] if i < len(lines) else None)


def check_map(m, b, data):
    at = 0
    got = []
    cont = None
    for start, end, kind, content in m:
        if type(start) == int and type(end) == int:
            ensure(start == at, 'region %s starts at %d instead of %d', kind, start, at)
            ensure(end > start, 'region %s at %d is empty', kind, start)
            at = end
            if kind == 'VOID':
                ensure(not data[start:end].strip(WS), 'void region %r', data[start:end])
            else:
                got.append((kind, start, end))
        elif kind == 'IND_OBJ':
            ensure(type(start) == float and int(start) == got[-1][1] and end[0] == got[-1][1], 'embedded object at %r, %r, after %r', start, end, got[-1])
    ensure(at == len(data), 'the map stops at %d of %d', at, len(data))
    want = [r[:3] for r in b.regions]
    ensure(got == want, 'regions %r instead of %r', [x for x in got if x not in want][:3], [x for x in want if x not in got][:3])


def check(case):
    spec, wrong, unlinked, tail = case
    spec = dict(fix(spec))
    if not spec['linear']:
        spec['wrong'] = wrong
        spec['unlinked'] = unlinked
    b = pdfgen.build(spec)
    data = b.data
    if tail == 'strip':
        data = data.rstrip(WS)
    elif tail:
        data += tail
    truth = Truth(b, spec)
    m = pdf.file_object_map(pdf.bdata_provider(data))
    check_map(m, b, data)
    path = pbt.tmp_path('d.pdf')
    with open(path, 'wb') as f:
        f.write(data)
    for mode in (None, 'FIXED'):
        o = io.StringIO()
        with contextlib.redirect_stdout(o):
            if mode:
                cli.dump_disasm(path, mode)
            else:
                cli.dump_disasm(path)
        check_lines(o.getvalue(), b, truth)
    os.unlink(path)
    labels = docs.spec_labels(spec)
    bad = [k for r in truth.keys for k in truth.keys[r].values() if k and k not in truth.objs]
    lost = [k for k in truth.objs if k not in truth.indexed]
    if bad:
        labels.add('wrong entry')
    if lost:
        labels.add('unindexed object')
    if len(truth.linked) < len(sections(b)):
        labels.add('unlinked section')
    return bool(bad or lost or 'packed' in labels or len(sections(b)) > 1), sorted(labels)


def wrongs():
    one = st.tuples(st.integers(0, 4), st.integers(0, 12), st.sampled_from(['shift', 'other', 'gen', 'free', 'drop', 'zero', 'container']))
    return st.one_of(st.just([]), st.lists(one, max_size=4))


def s_files():
    spec = st.one_of(specs.specs(max_revs=4), specs.specs(max_revs=3, linear=False), specs.specs(max_revs=4, linear=False, forms=('stream', 'hybrid')), pagegen.page_specs(max_pages=3))
    return st.tuples(spec, wrongs(), st.one_of(st.just([]), st.just([]), st.lists(st.integers(1, 3), max_size=1)), st.sampled_from([b'', b'', b'\n', b'  \r\n', b'\n\n', 'strip']))


def s_big():
    spec = specs.big(sizes=(3, 257, 300), starts=(4, 250), pads=(0, 66000), forms=('table', 'stream', 'stream', 'stream', 'hybrid'))
    return st.tuples(spec, st.one_of(st.just([]), wrongs()), st.just([]), st.just(b''))


SUBS = [Sub('disasm', s_files, check, 1800, 100000),
        Sub('big', s_big, check, 40, 3000)]
