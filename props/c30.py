"""C30: the inspection printouts tell the state of the document."""
import contextlib
import io
import re
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import docs
import history
import pagegen
import pdfgen
import specs
import pdfsyntax as pdf

ID = 'C30'
RULE = ('A case is a document with any history of edits, commits, rewinds, saves and reloads, whose printouts (summary, index, cache, data history) are read back and compared with the model of its revisions, '
        'or a document with any page tree whose printed hierarchy and contents are compared with the tree generated. Non-trivial: two revisions or more, or three pages or more.')
ASSUMPTIONS = ['a deleted object number is not given a new value', 'objects that hold the file structure are not edited']


def printed(f, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*args)
    return out.getvalue()


class Run(history.Run):
    """Knows which objects each revision defines or frees."""

    def __init__(self, base):
        super().__init__(base)
        self.now = set()
        if base == 'blank':
            self.touched = [{1, 2, 3}]
        else:
            self.touched = [set(r.added) | set(r.updated) | set(r.deleted) for r in self.built.revs]

    def commit_model(self, dirty):
        super().commit_model(dirty)
        if dirty:
            self.touched.append(self.now)
            self.now = set()

    def step(self, op):
        k = op[0]
        before = dict(self.cur.objs)
        pop = k == 'rewind' and bool(self.stack)
        done = super().step(op)
        if pop:
            self.now = self.touched.pop()
        elif done and k in ('set', 'mod', 'add', 'del'):
            self.now = self.now | {n for n in set(before) | set(self.cur.objs) if before.get(n) is not self.cur.objs.get(n)}
        return done


def check_index(run, compact):
    out = printed(pdf.pprint_index, run.doc, compact)
    lines = out.split('\n')
    states = run.stack + [run.cur]
    touched = run.touched + [run.now]
    rows = {}
    for l in lines[:lines.index('')]:
        cells = [c.strip() for c in l.split('|')]
        ensure(re.fullmatch(r'\d+', cells[0]) and len(cells) == 1 + len(states), 'pprint_index: line %r for %d revisions', l, len(states))
        ensure(int(cells[0]) not in rows, 'pprint_index: object %s twice', cells[0])
        rows[int(cells[0])] = cells[1:]
    known = set(run.user) | set(run.fixed)
    for n in sorted(known):
        used = [n in s.objs for s in states]
        if not any(used):           # added and deleted in one revision, or dropped by a rewind
            for j, cell in enumerate(rows.get(n, [])):
                ensure(not re.match(r'\d+/\d+/\d+', cell), 'pprint_index: object %d in revision %d: %r, although no revision defines it', n, j, cell)
            continue
        ensure(n in rows, 'pprint_index: no line for object %d', n)
        last = None
        for j, cell in enumerate(rows[n]):
            m = re.match(r'(\d+)/(\d+)/(\d+)( \S+)*$', cell)
            what = 'pprint_index: object %d in revision %d: %r' % (n, j, cell)
            if used[j]:
                if n in touched[j]:
                    ensure(m, '%s, although it is defined there', what)
                    gen, ver, dver = (int(x) for x in m.groups()[:3])
                    ensure(gen == states[j].objs[n][0], '%s instead of generation %d', what, states[j].objs[n][0])
                    ensure(dver == j, '%s instead of revision %d', what, j)
                    ensure(last is None or ver > last, '%s follows version %r', what, last)
                    last = ver
                else:
                    ensure(cell == 'idem', '%s, although it is as before', what)
            elif any(used[:j]):
                ensure(cell.startswith('Deleted'), '%s, although it is deleted', what)
                last = None
            else:
                ensure(not m, '%s, although it does not exist yet', what)


def check_cache(run):
    out = printed(pdf.pprint_cache, run.doc)
    ch = {int(r.imag): a for r, a in pdf.changes(run.doc)}
    letters = ''
    lines = [l for l in out.split('\n') if l.strip()]
    ensure(lines and lines[0].strip() == '0123456789', 'pprint_cache: header %r', lines[:1])
    for i, l in enumerate(lines[1:]):
        m = re.fullmatch(r' *(\d+)_ (\S{1,10})', l)
        ensure(m and int(m.group(1)) == i and (len(m.group(2)) == 10 or i == len(lines) - 2), 'pprint_cache: line %r', l)
        letters += m.group(2)
    ensure(max(run.cur.objs) < len(letters), 'pprint_cache: %d objects up to %d', len(letters), max(run.cur.objs))
    for n, c in enumerate(letters):
        ensure(c == ch[n] if n in ch else c in 'x-', 'pprint_cache: %r for object %d, whose change is %r', c, n, ch.get(n))


def check_data(run):
    out = printed(pdf.pprint_data_history, run.doc)
    rows = {l.split('|')[0].strip(): [c.strip() for c in l.split('|')[1:]] for l in out.split('\n') if l}
    n = len(run.stack) + 1
    for k in ('data_sz', 'add_data', 'eof_cut'):
        ensure(len(rows.get(k, [])) == n, 'pprint_data_history: %d revisions and %s = %r', n, k, rows.get(k))
    _, written = history.write(run.doc)
    end = 0
    for j in range(len(run.stack)):
        add, cut = rows['add_data'][j], rows['eof_cut'][j]
        what = 'pprint_data_history: revision %d adds %s, ends at %s' % (j, add, cut)
        if add != 'None':
            ensure(cut == 'None', what)
            end += int(add)
            ensure(int(rows['data_sz'][j]) == end, '%s and has size %s instead of %d', what, rows['data_sz'][j], end)
        else:
            ensure(cut != 'None' and int(cut) > end, what)
            end = int(cut)
            ensure(int(rows['data_sz'][j]) >= end, '%s in %s bytes', what, rows['data_sz'][j])
        ensure(end <= len(written) and written[:end].rstrip(b'\r\n').endswith(b'%%EOF'), '%s: no end of revision there', what)
        ensure(written[:end].count(b'startxref') >= j + 1, '%s: too short', what)
        if run.ends and j < len(run.ends) and j < run.keep:
            ensure(end >= run.ends[j] and not written[run.ends[j]:end].strip(b'\r\n'), '%s instead of %d', what, run.ends[j])
    if not pdf.changes(run.doc):
        ensure(end == len(written), 'pprint_data_history: %d bytes instead of %d', end, len(written))


def check_history(case):
    base, ops = case
    run = Run(base)
    run.run(ops)
    text = repr(run.doc)
    ch = pdf.changes(run.doc)
    ensure(text == '<PDF Doc in revision %d with %d modified object(s)>' % (len(run.stack), len(ch)), 'summary %r in revision %d with %d changes', text, len(run.stack), len(ch))
    check_index(run, False)
    check_index(run, True)
    check_cache(run)
    check_data(run)
    return len(run.stack) > 1, sorted(run.labels)


def places(b):
    """Per revision, where its own entries put each object it defines: ('n', position) or ('c', container)."""
    res, start = [], 0
    for m in b.revs:
        found = {}
        for kind, s, e, info in b.regions:
            if start <= s < m.end and type(info) == dict:
                for n, x in (info.get('entries') or info.get('xref') or {}).items():
                    if x[0] in 'nc':
                        found.setdefault(n, set()).add((x[0], x[1]))
        start = m.end
        res.append({n: next(iter(f)) for n, f in found.items() if len(f) == 1 and n in set(m.added) | set(m.updated)})
    return res


def check_places(case):
    spec, compact = case
    b = pdfgen.build(spec)
    doc = pdf.loads(b.data)
    out = printed(pdf.pprint_index, doc, compact)
    rows = {}
    for l in out[:out.index('\n\n')].split('\n'):
        cells = [c.strip() for c in l.split('|')]
        rows[int(cells[0])] = cells[1:]
    where = places(b)
    moves = 0
    labels = set()
    last = {}
    for j, w in enumerate(where):
        for n, (t, x) in sorted(w.items()):
            cell = rows[n][j]
            what = 'pprint_index: object %d in revision %d: %r' % (n, j, cell)
            parts = cell.split()[1:]
            if t == 'n':
                ensure(parts == [str(x)], '%s instead of position %d', what, x)
            else:
                ensure(parts[-1:] == [str(x)] or last.get(n) == ('c', x), '%s instead of container %d', what, x)
            if n in last:
                moves += last[n] != (t, x)
                labels.add('%s-%s' % (last[n][0], t))
            last[n] = (t, x)
    return moves > 0, sorted(labels)


def check_pages(spec):
    b = pdfgen.build(spec)
    doc = pdf.loads(b.data)
    objs, trailer = b.revs[-1].objs, b.revs[-1].trailer
    out = printed(pdf.pprint_page_hierarchy, doc)
    want = []

    def walk(ref, level, n):
        node = pagegen.deref(objs, ref)
        if node['/Type'] == '/Pages':
            kids = pagegen.deref(objs, node['/Kids'])
            want.append((level, '/Pages', ref, len(kids)))
            for k in kids:
                n = walk(k, level + 1, n)
            return n
        want.append((level, '/Page', ref, n))
        return n + 1
    cat = pagegen.deref(objs, trailer['/Root'])
    total = walk(cat['/Pages'], 1, 0)
    lines = [l for l in out.split('\n') if l.strip()]
    ensure(lines and lines[0] == 'Page count = %d' % total, 'pprint_page_hierarchy: %r for %d pages', lines[:1], total)
    ensure(len(lines) == 1 + len(want), 'pprint_page_hierarchy: %d lines for %d nodes', len(lines) - 1, len(want))
    for l, (level, kind, ref, n) in zip(lines[1:], want):
        indent = len(l) - len(l.lstrip(' '))
        ensure(indent // 4 == level, 'pprint_page_hierarchy: %r at level %d', l, level)
        if kind == '/Pages':
            ensure(l.strip() == '/Pages node at %r, kids count = %d:' % (ref, n), 'pprint_page_hierarchy: %r for the node %r with %d kids', l, ref, n)
        else:
            m = l.strip()
            ensure(m.startswith('/Page [%d] at %r with content' % (n, ref)), 'pprint_page_hierarchy: %r for page %d at %r', l, n, ref)
    for i, (level, kind, ref, n) in enumerate([w for w in want if w[1] == '/Page']):
        text = printed(pdf.pprint_page_contents, doc, i)
        contents = [c['stream'].decode('latin-1') for c in pdf.get_page_contents(doc, i)]
        parts = re.split(r'\${40,}\n', text)[1:]
        ensure(len(parts) == len(contents), 'pprint_page_contents: page %d has %d contents, %d are printed', i, len(contents), len(parts))
        for p, c in zip(parts, contents):
            if '$$' not in c and all(x.isprintable() or x in '\n\r' for x in c):
                ensure(p.strip() == c.strip(), 'pprint_page_contents: page %d: %r instead of %r', i, p, c)
    return total >= 3, []


SUBS = [Sub('history', lambda: st.tuples(history.bases(), history.ops(rewind=False)), check_history, 2000, 100000),
        Sub('rewind-history', lambda: st.tuples(history.bases(empty=False), history.ops(rewind=True)), check_history, 1200, 100000),
        Sub('places', lambda: st.tuples(specs.specs(), st.booleans()), check_places, 1600, 80000),
        Sub('pages', lambda: pagegen.page_specs(), check_pages, 1600, 80000)]
