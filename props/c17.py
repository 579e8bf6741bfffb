"""C17: removing and keeping pages leaves exactly the other pages, intact."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import docs
import graph
import history
import pagegen
import pdfgen
import refpdf
import pdfsyntax as pdf

ID = 'C17'
RULE = ('A case is a document with a generated page tree (shared fonts, forms, contents, annotations with links to pages) and one or two selections of pages '
        '(remove, keep, index, slice, iterate), possibly with a commit or a reload between them. Non-trivial: some but not all pages are removed.')
ASSUMPTIONS = ['the tree is well formed and each page is a leaf once', 'page numbers given are within the document']


def reach(objs, start, stop):
    """Numbers reached from canonical value start without entering the numbers in stop."""
    live = {n: g for n, (g, v) in objs.items()}
    seen, todo = set(), [start]
    while todo:
        for m in graph.refs(todo.pop()):
            if m not in seen and m not in stop:
                seen.add(m)
                todo.append(graph.canon(objs[m][1], live))
    return seen


def plain(objs):
    return {n: o for n, o in objs.items() if not (history.is_structure(o[1]) or isinstance(o[1], pdfgen.Container)
                                                  or (isinstance(o[1], refpdf.RStream) and o[1].entries.get('/Type') in ('/XRef', '/ObjStm')))}


class Expect:
    """What a selection of pages of a document must give."""

    def __init__(self, objs, trailer, sel):
        objs = plain(objs)
        live0 = {n: g for n, (g, v) in objs.items()}
        leaves = pagegen.flatten(objs, trailer)
        self.nums = [leaves[i][0] for i in sel]
        gone = {x[0] for x in leaves} - set(self.nums)
        t0 = graph.canon(trailer, live0)
        self.keep = reach(objs, t0, gone)
        before = reach(objs, t0, ())
        used = set()
        for n in gone:
            used |= {n} | reach(objs, graph.canon(objs[n][1], live0), ())
        self.deleted = used - self.keep
        live = {n: g for n, g in live0.items() if n not in self.deleted}
        self.nodes = {p for x in leaves for p in x[2]} | {n for n in self.keep if type(objs[n][1]) == dict and objs[n][1].get('/Type') == '/Pages'}
        self.canon = {n: self.strip(n, graph.canon(objs[n][1], live)) for n in self.keep}
        # values of the tree that may be made direct
        self.free = set()
        for n in self.nodes:
            for k in ('/Kids', '/Count'):
                v = objs[n][1].get(k)
                if isinstance(v, complex):
                    self.free.add(int(v.imag))
        self.trailer = graph.canon(trailer, live)
        self.eff = {x[0]: {k: graph.canon(v, live) for k, v in x[1].items()} for x in leaves}
        self.gens = live0

    def strip(self, n, t):
        if n in self.nodes and t[0] == 'dict':
            return ('dict', tuple(x for x in t[1] if x[0] not in ('/Kids', '/Count')))
        return t

    def check(self, objs, trailer, what):
        objs = plain(objs)
        live = {n: g for n, (g, v) in objs.items()}
        for n in sorted(self.deleted):
            ensure(n not in objs, '%s: object %d that only removed pages used is still there', what, n)
        for n in sorted(self.keep - self.free):
            if n not in objs:
                fail('%s: object %d is still reachable but deleted', what, n)
            ensure(objs[n][0] == self.gens[n], '%s: object %d has another generation', what, n)
            t = self.strip(n, graph.canon(objs[n][1], live))
            ensure(t == self.canon[n], '%s: object %d is %s instead of %s', what, n, t, self.canon[n])
        ensure(graph.canon(trailer, live) == self.trailer, '%s: trailer %r', what, trailer)
        errs = pagegen.tree_errors(objs, trailer)
        ensure(not errs, '%s: %s', what, errs[:2])
        leaves = pagegen.flatten(objs, trailer)
        ensure([x[0] for x in leaves] == self.nums, '%s: the pages are objects %r instead of %r', what, [x[0] for x in leaves], self.nums)
        for num, here, _ in leaves:
            e = {k: graph.canon(v, live) for k, v in here.items()}
            ensure(e == self.eff[num], '%s: page object %d has effective attributes %r instead of %r', what, num, e, self.eff[num])


def check(case):
    spec, steps = case
    built = pdfgen.build(spec)
    doc = pdf.loads(built.data)
    objs, trailer = built.revs[-1].objs, docs.user_trailer(built.revs[-1].trailer)
    labels = set()
    some = False
    for how, arg, then in steps:
        n = len(pagegen.flatten(plain(objs), trailer))
        if n == 0:
            break
        results = []
        if how == 'remove':
            gone = {p % n for p in arg}
            results.append((pdf.remove_pages(doc, gone), [p for p in range(n) if p not in gone]))
            if len(gone) == 1:
                results.append((pdf.remove_pages(doc, list(gone)[0]), [p for p in range(n) if p not in gone]))
        elif how == 'keep':
            kept = {p % n for p in arg}
            results.append((pdf.keep_pages(doc, kept), sorted(kept)))
            if len(kept) == 1:
                results.append((pdf.keep_pages(doc, list(kept)[0]), sorted(kept)))
        elif how == 'index':
            for a in arg:
                i = a % (2 * n) - n
                results.append((doc[i], [i % n]))
        elif how == 'slice':
            a = (arg + [None, None, None])[:3]
            lo, hi, step = a[0], a[1], a[2]
            lo = None if lo is None or lo > 6 else lo - 3
            hi = None if hi is None or hi > 7 else hi - 3
            step = None if step is None else step % 3 + 1
            results.append((doc[lo:hi:step], list(range(n))[lo:hi:step]))
        else:
            it = list(doc)
            ensure(len(it) == n, 'iterating gives %d documents for %d pages', len(it), n)
            results += [(d, [i]) for i, d in enumerate(it)]
        for i, (new, sel) in enumerate(results):
            exp = Expect(objs, trailer, sel)
            what = '%s %r' % (how, sel)
            exp.check(pagegen.doc_objs(new), docs.user_trailer(new.trailer()), what)
            ensure(pdf.number_pages(new) == len(sel) == len(pdf.pages(new)), '%s: %d pages', what, pdf.number_pages(new))
            some = some or 0 < len(sel) < n
        exp0 = Expect(objs, trailer, list(range(n)))
        exp0.check(pagegen.doc_objs(doc), docs.user_trailer(doc.trailer()), 'the document it comes from')
        labels.add(how)
        doc = results[-1][0]
        sel = results[-1][1]
        if then == 'commit':
            doc = pdf.commit(doc)
            Expect(objs, trailer, sel).check(pagegen.doc_objs(doc), docs.user_trailer(doc.trailer()), 'committed')
        elif then == 'reload':
            _, data = history.write(doc)
            r, errs = refpdf.read(data)
            ensure(r is not None and not errs, 'the file written is not valid: %s', errs[:2])
            Expect(objs, trailer, sel).check(r.objects, docs.user_trailer(r.trailer), 'independent reader')
            doc = pdf.loads(data)
            Expect(objs, trailer, sel).check(pagegen.doc_objs(doc), docs.user_trailer(doc.trailer()), 'read back')
            labels.add('reload')
        objs, trailer = pagegen.doc_objs(doc), docs.user_trailer(doc.trailer())
    return some, sorted(labels)


def steps():
    how = st.sampled_from(['remove', 'remove', 'keep', 'index', 'slice', 'iter'])
    return st.lists(st.tuples(how, st.lists(st.integers(0, 9), min_size=1, max_size=4), st.sampled_from(['', 'commit', 'reload', 'reload'])), min_size=1, max_size=2)


SUBS = [Sub('pages', lambda: st.tuples(pagegen.page_specs(), steps()), check, 1600, 100000)]
