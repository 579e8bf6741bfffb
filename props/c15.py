"""C15: the page list is the page tree flattened, with inherited attributes."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import docs
import pagegen
import pdfgen
import values as V
import pdfsyntax as pdf

ID = 'C15'
RULE = ('A case is a file with a generated page tree (1 to 8 leaves, up to 5 levels, attributes at any level, direct or indirect) and a sequence of queries. '
        'Non-trivial: at least two levels below the root or two pages.')
ASSUMPTIONS = ['the tree is well formed: each node has one parent and a right /Count', 'a null attribute is not used']


def check(case):
    spec, queries = case
    built = pdfgen.build(spec)
    doc = pdf.loads(built.data)
    rev = built.revs[-1]
    objs = {n: o for n, o in rev.objs.items()}
    want = pagegen.flatten(objs, rev.trailer)
    n = len(want)
    for q in ['all'] + queries + ['all']:
        if q == 'all':
            sel = want
            got = pdf.flat_page_tree(doc)
            pl = pdf.pages(doc)
            lay = pdf.page_layouts(doc)
        elif q == 'count':
            ensure(pdf.number_pages(doc) == n and len(doc) == n, 'number of pages %r instead of %d', pdf.number_pages(doc), n)
            continue
        elif q == 'methods':
            ensure(V.same(doc.pages(), pdf.pages(doc)), 'doc.pages() differs from pages(doc)')
            ensure(doc.flat_page_tree() == pdf.flat_page_tree(doc), 'doc.flat_page_tree() differs from flat_page_tree(doc)')
            continue
        else:
            sel = want[:q]
            got = pdf.flat_page_tree(doc, max_nb=q)
            pl = pdf.pages(doc, q)
            lay = pdf.page_layouts(doc, q)
        refs = [(complex(objs[num][0], num)) for num, here, path in sel]
        ensure([r for r, _ in got] == refs, 'leaves %r instead of %r (first %r)', [r for r, _ in got], refs, q)
        ensure(len(pl) == len(sel) == len(lay), '%d pages and %d layouts instead of %d', len(pl), len(lay), len(sel))
        for i, (num, here, path) in enumerate(sel):
            page = objs[num][1]
            full = dict(page)
            for k in here:
                full.setdefault(k, here[k])
            ensure(V.same(pl[i], full), 'page %d (%r): %r instead of %r', i, q, pl[i], full)
            r, inh = got[i]
            eff = {k: page[k] if k in page else inh.get(k) for k in pagegen.INHERITABLE if k in page or k in inh}
            ensure(V.same(eff, here), 'page %d: inherited attributes %r instead of %r', i, eff, here)
            box, rot = lay[i]
            wbox, wrot = pagegen.deref(objs, here['/MediaBox']), pagegen.deref(objs, here.get('/Rotate'))
            ensure(V.same(box, wbox) and V.same(rot, wrot), 'layout of page %d: %r instead of %r', i, lay[i], (wbox, wrot))
    depth = max(len(path) for _, _, path in want)
    return depth > 1 or n > 1, sorted({f'depth={depth}', f'pages={n}'} | docs.spec_labels(spec) & {'linear', 'packed', 'hybrid'})


def queries():
    return st.lists(st.one_of(st.sampled_from(['count', 'methods']), st.integers(0, 9)), max_size=4)


SUBS = [Sub('tree', lambda: st.tuples(pagegen.page_specs(), queries()), check, 3200, 200000)]
