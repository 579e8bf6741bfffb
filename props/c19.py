"""C19: a text annotation is added once, to its page, with its exact text."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import docs
import graph
import history
import pagegen
import pdfgen
import refpdf
import reftext
import values as V
import pdfsyntax as pdf

ID = 'C19'
RULE = ('A case is a document with a generated page tree (annotations absent, null, direct or indirect) and a sequence of annotations with any text, commits and reloads; a model of the expected objects follows. '
        'Non-trivial: a text that needs escaping or encoding, or two annotations, or a page that already has some.')
ASSUMPTIONS = ['the tree is well formed', 'the array of annotations of a page is not shared with another page', 'texts hold no lone surrogate']


def value_of(objs, v):
    v = pagegen.deref(objs, v)
    return [] if v is None or v == 'null' else v


def table(objs):
    """{num: (gen, plain value)} without the structure streams."""
    live = {n: g for n, (g, v) in objs.items()}
    return {n: (g, graph.canon(v, live)) for n, (g, v) in objs.items()
            if not (history.is_structure(v) or isinstance(v, pdfgen.Container) or (isinstance(v, refpdf.RStream) and v.entries.get('/Type') in ('/XRef', '/ObjStm')))}


def text_of(v):
    ensure(type(v) == bytes and v[:1] in (b'(', b'<'), 'the text %r is not a string', v)
    return reftext.decode(reftext.read_string(v))


KEYS = {'/' + k for k in 'Type Subtype Rect Contents P NM M F AP AS Border C StructParent OC T Popup CA RC CreationDate IRT Subj RT IT ExData Open Name State StateModel'.split()}  # ISO 32000-1 12.5.2, 12.5.6


def check_annots(objs, trailer, expect, what):
    """expect: for each page, (annotations it had, [(text, rect, open) added])."""
    leaves = pagegen.flatten(objs, trailer)
    ensure(len(leaves) == len(expect), '%s: %d pages instead of %d', what, len(leaves), len(expect))
    live = {n: g for n, (g, v) in objs.items()}
    added = set()
    for (num, _, _), (had, new) in zip(leaves, expect):
        l = value_of(objs, objs[num][1].get('/Annots'))
        ensure(type(l) == list and len(l) == len(had) + len(new), '%s: page object %d has annotations %r instead of %d + %d', what, num, l, len(had), len(new))
        ensure(tuple(graph.canon(x, live) for x in l[:len(had)]) == had, '%s: the annotations page object %d had become %r', what, num, l[:len(had)])
        for r, (text, rect, opened) in zip(l[len(had):], new):
            a = value_of(objs, r)
            ensure(type(a) == dict and type(r) == complex and int(r.imag) not in added, '%s: annotation %r is %r', what, r, a)
            added.add(int(r.imag))
            ensure(a.get('/Subtype') == '/Text' and a.get('/Type', '/Annot') == '/Annot', '%s: annotation %r is %r', what, r, a)
            ensure(set(a) <= KEYS, '%s: annotation %r has the entries %r', what, r, sorted(a))
            ensure(V.same(value_of(objs, a.get('/Rect')), rect), '%s: rectangle %r instead of %r', what, a.get('/Rect'), rect)
            ensure(value_of(objs, a.get('/Open', False)) is opened or (not opened and '/Open' not in a), '%s: open flag %r instead of %r', what, a.get('/Open'), opened)
            got = text_of(value_of(objs, a.get('/Contents')))
            ensure(got == text, '%s: text %r instead of %r (%r)', what, got, text, a.get('/Contents'))
    return added


def frame(before, objs, trailer, expect, added, what):
    """Nothing else is changed."""
    now = table(objs)
    leaves = [x[0] for x in pagegen.flatten(objs, trailer)]
    mine = set(added)
    touched = {n for n, (had, new) in zip(leaves, expect) if new}
    arrays = set()
    for n in touched:
        r = objs[n][1].get('/Annots')
        if type(r) == complex:
            arrays.add(int(r.imag))
    for n in now:
        if n not in before:
            ensure(n in mine or n in arrays, '%s: object %d is added: %r', what, n, now[n])
        elif now[n] != before[n]:
            ensure(n in touched or n in arrays, '%s: object %d becomes %r instead of %r', what, n, now[n], before[n])
            if n in touched:
                strip = lambda t: (t[0], ('dict', tuple(x for x in t[1][1] if x[0] != '/Annots')))
                ensure(now[n][1][0] == 'dict' and strip(now[n]) == strip(before[n]), '%s: page object %d is changed beyond its annotations', what, n)
    for n in before:
        ensure(n in now, '%s: object %d disappears', what, n)


def check(case):
    spec, steps = case
    built = pdfgen.build(spec)
    doc = pdf.loads(built.data)
    rev = built.revs[-1]
    before = table(rev.objs)
    leaves = pagegen.flatten(rev.objs, rev.trailer)
    live = {n: g for n, (g, v) in rev.objs.items()}
    expect = [(tuple(graph.canon(x, live) for x in value_of(rev.objs, rev.objs[num][1].get('/Annots'))), []) for num, _, _ in leaves]
    labels = set()
    for step in steps:
        if step[0] == 'add':
            _, page, text, rect, opened = step
            page %= len(leaves)
            given = list(rect)
            before0 = pagegen.doc_objs(doc)
            new = pdf.add_text_annotation(doc, page, text, given, opened) if opened else pdf.add_text_annotation(doc, page, text, given)
            ensure(table(pagegen.doc_objs(doc)) == table(before0), 'annotating alters the document it is given')
            doc = new
            expect[page][1].append((text, rect, bool(opened)))
            labels.add('%s array' % type(rev.objs[leaves[page][0]][1].get('/Annots')).__name__)
            if not text.isalnum():
                labels.add('special text')
        elif step[0] == 'commit':
            doc = pdf.commit(doc)
        else:
            _, data = history.write(doc)
            doc = pdf.loads(data)
            r, errs = refpdf.read(data)
            ensure(r is not None and not errs, 'the file written is not valid: %s', errs[:2])
            t = docs.user_trailer(r.trailer)
            added = check_annots(r.objects, t, expect, 'in the file')
            frame(before, r.objects, t, expect, added, 'in the file')
            labels.add('reload')
        objs = pagegen.doc_objs(doc)
        added = check_annots(objs, doc.trailer(), expect, 'after %s' % step[0])
        frame(before, objs, doc.trailer(), expect, added, 'after %s' % step[0])
        for had, new in expect:
            for text, _, _ in new:
                pass
        for r in added:
            t = pdf.text_string(pdf.get_object(doc, pdf.obj(doc, r)['/Contents']))
            ensure(t in [x[0] for _, new in expect for x in new], 'text_string reads an added text as %r', t)
    n = sum(len(new) for _, new in expect)
    return n > 1 or (n and bool(labels - {'reload', 'NoneType array'})), sorted(labels)


def steps():
    rect = st.one_of(st.just([100, 100, 120, 120]), st.lists(st.one_of(st.integers(-900, 900), st.integers(-900, 900).map(lambda x: x / 4)), min_size=4, max_size=4))
    add = st.tuples(st.just('add'), st.integers(0, 8), reftext.texts(), rect, st.booleans())
    return st.lists(st.one_of(add, add, add, st.tuples(st.just('commit')), st.tuples(st.just('reload'))), min_size=1, max_size=6).map(lambda l: l + [('reload',)])


def blanks():
    return st.just({'ver': '1.4', 'fmt': b'\0', 'tail': b'', 'linear': 0, 'revs': [{'form': 'table', 'free': [], 'pack': [], 'trailer': {'/Root': 1j}, 'set': {
        1: (0, {'/Type': '/Catalog', '/Pages': 2j}), 2: (0, {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}), 3: (0, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 9, 9]})}}]})


SUBS = [Sub('annotate', lambda: st.tuples(st.one_of(blanks(), pagegen.page_specs(max_pages=5), pagegen.page_specs(max_pages=5), pagegen.page_specs(max_pages=5)), steps()), check, 2000, 100000)]
