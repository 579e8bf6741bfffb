"""C18: concatenation gives the pages of both documents, unmixed."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import docs
import graph
import history
import pagegen
import pdfgen
import refpdf
import pdfsyntax as pdf

ID = 'C18'
RULE = ('A case is a list of documents with generated page trees (or blank ones), the way each is prepared, and a sequence of concatenations on either side. '
        'Non-trivial: the documents have three pages or more in all, or attributes are inherited.')
ASSUMPTIONS = ['page trees are well formed', 'what the pages of the added document reach through its catalog is not looked at']


def plain(objs):
    return {n: o for n, o in objs.items() if not (history.is_structure(o[1]) or isinstance(o[1], pdfgen.Container)
                                                  or (isinstance(o[1], refpdf.RStream) and o[1].entries.get('/Type') in ('/XRef', '/ObjStm')))}


class Shot:
    """A document as seen: objects, trailer, pages."""

    def __init__(self, objs, trailer):
        self.objs = plain(objs)
        self.trailer = docs.user_trailer(trailer)
        self.pages = pagegen.page_trees(self.objs, self.trailer)


def shot(doc):
    return Shot(pagegen.doc_objs(doc), doc.trailer())


def same_target(a, b, what):
    """Everything of the target a is in b, apart from the root of pages and the link to it."""
    la = {n: g for n, (g, v) in a.objs.items()}
    lb = {n: g for n, (g, v) in b.objs.items()}
    cat = int(a.trailer['/Root'].imag)
    root = int(a.objs[cat][1]['/Pages'].imag)
    lb2 = {n: g for n, g in lb.items() if n in la}  # a reference to nothing stays so
    for n, (g, v) in a.objs.items():
        if n not in b.objs or b.objs[n][0] != g:
            fail('%s: object %d of the target has disappeared', what, n)
        x, y = v, b.objs[n][1]
        if n == cat:
            x, y = {k: e for k, e in x.items() if k != '/Pages'}, {k: e for k, e in y.items() if k != '/Pages'}
        if n == root:
            x, y = {k: e for k, e in x.items() if k != '/Parent'}, {k: e for k, e in y.items() if k != '/Parent'}
        cx, cy = graph.canon(x, la), graph.canon(y, lb2)
        ensure(cx == cy, '%s: object %d of the target is %r instead of %r', what, n, cy, cx)
    ensure(graph.canon(a.trailer, la) == graph.canon(b.trailer, lb2), '%s: trailer %r instead of %r', what, b.trailer, a.trailer)


def compare(l, r, new, target, what):
    n = len(l.pages)
    leaves = pagegen.flatten(new.objs, new.trailer)
    ensure(len(leaves) == n + len(r.pages), '%s: %d pages instead of %d', what, len(leaves), n + len(r.pages))
    left = pagegen.page_trees(new.objs, new.trailer, 0, n)
    right = pagegen.page_trees(new.objs, new.trailer, n)
    for side, want, got in (('left', l.pages, left), ('right', r.pages, right)):
        for i, (x, y) in enumerate(zip(want, got)):
            ensure(x[0] == y[0], '%s: page %d of the %s document is %r instead of %r', what, i, side, y[0], x[0])
            ensure(x[1] == y[1], '%s: page %d of the %s document has attributes %r instead of %r', what, i, side, y[1], x[1])
    errs = pagegen.tree_errors(new.objs, new.trailer)
    ensure(not errs, '%s: %s', what, errs[:2])
    same_target(target, new, what)


def structures(doc):
    """Numbers of the streams that only hold the structure of the file."""
    return {int(r.imag) for r in pdf.in_use(doc) if history.is_structure(pdf.get_object(doc, r))}


def check(case):
    inputs, steps = case
    pool = []
    labels = set()
    for spec, prep in inputs:
        if spec == 'blank':
            doc = pdf.blank()
            labels.add('blank')
        else:
            doc = pdf.loads(pdfgen.build(spec).data)
        if prep == 1:
            doc = pdf.rotate(doc, 90, [0])
        elif prep == 2:
            doc = pdf.squash(doc)
        elif prep == 3:
            doc, _ = pdf.add_object(doc, {'/zNew': 1})
            doc = pdf.commit(doc)
        elif prep == 4:
            doc = pdf.compress(doc)
        if prep:
            labels.add('prep%d' % prep)
        pool.append((doc, shot(doc)))
    pages = 0
    for i, j, how, then in steps:
        a, sa = pool[i % len(pool)]
        b, sb = pool[j % len(pool)]
        if how == 0:
            new = a + b
        elif how == 1:
            new = pdf.concat(a, b)
        else:
            new = pdf.concat(a, b, target_left=False)
        target = sb if how == 2 else sa
        labels.add('right target' if how == 2 else 'left target')
        if i % len(pool) == j % len(pool):
            labels.add('itself')
        sn = shot(new)
        compare(sa, sb, sn, target, 'in memory')
        ensure(structures(new) <= structures(b if how == 2 else a), 'file-structure streams of the other document are brought over')
        ensure(pdf.number_pages(new) == len(sn.pages) == len(pdf.pages(new)), 'number of pages %d', pdf.number_pages(new))
        pages = max(pages, len(sn.pages))
        for d, s in ((a, sa), (b, sb)):
            t = shot(d)
            la = {n: g for n, (g, v) in s.objs.items()}
            lb = {n: g for n, (g, v) in t.objs.items()}
            ensure(la == lb and graph.canon(s.trailer, la) == graph.canon(t.trailer, lb)
                   and all(graph.canon(s.objs[n][1], la) == graph.canon(t.objs[n][1], lb) for n in la), 'an input of the concatenation is altered')
        if then:
            _, data = history.write(new)
            r, errs = refpdf.read(data)
            ensure(r is not None and not errs, 'the file written is not valid: %s', errs[:2])
            compare(sa, sb, Shot(r.objects, r.trailer), target, 'independent reader')
            back = pdf.loads(data)
            compare(sa, sb, shot(back), target, 'read back')
            if then == 2:
                new, sn = back, shot(back)
        if len(sn.pages) < 40:
            pool.append((new, sn))
    return pages > 2, sorted(labels)


def inputs():
    spec = st.one_of(st.just('blank'), *([pagegen.page_specs(max_pages=4)] * 5))
    return st.lists(st.tuples(spec, st.sampled_from([0, 0, 0, 1, 2, 3, 4])), min_size=1, max_size=2)


def steps():
    return st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(0, 2), st.sampled_from([0, 1, 2])), min_size=1, max_size=2)


SUBS = [Sub('concat', lambda: st.tuples(inputs(), steps()), check, 1000, 60000)]
