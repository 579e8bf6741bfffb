"""C06: rewinding a loaded file shows each revision as it was."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import docs
import pdfgen
import specs
import pdfsyntax as pdf

ID = 'C06'
RULE = ('A case is a description of a file with incremental updates (lib/pdfgen.py), and an order of access. Non-trivial: at least two revisions, '
        'one of the later ones changing an object.')
ASSUMPTIONS = ['files are well formed and not encrypted', 'the streams that only hold the file structure (/XRef, /ObjStm) are not counted as changes, whatever is reported for them']


def changes_of(doc, rev, m, what):
    """The public list of changes of a revision against the model, leaving out file-structure streams."""
    got = {}
    for ref, action in pdf.changes(doc, rev):
        n = int(ref.imag)
        ensure(n not in got, '%s: object %d is listed twice in changes', what, n)
        got[n] = action
    want = {n: 'a' for n in m.added}
    want.update({n: 'u' for n in m.updated})
    want.update({n: 'd' for n in m.deleted})
    skip = {n for n, (g, v) in m.objs.items() if isinstance(v, pdfgen.Container)}
    got = {n: a for n, a in got.items() if n not in skip}
    want = {n: a for n, a in want.items() if n not in skip}
    ensure(set(got) == set(want), '%s: changed objects %r instead of %r', what, got, want)
    for n, a in want.items():
        if a == 'd':
            ensure(got[n] == 'd', '%s: deletion of object %d is reported as %r', what, n, got[n])
        elif n in m.revived:
            ensure(got[n] in ('a', 'u'), '%s: new definition of object %d is reported as %r', what, n, got[n])
        else:
            ensure(got[n] == a, '%s: change %r of object %d is reported as %r', what, a, n, got[n])


def check(case):
    spec, how = case
    b = pdfgen.build(spec)
    seen = set()
    for m in b.revs:
        m.revived = m.added & seen
        seen |= set(m.objs)
    doc = pdf.loads(b.data)
    n = len(b.revs)
    ensure(pdf.updates(doc) == n, '%d revisions are seen as %d', n, pdf.updates(doc))
    ensure(pdf.changes(doc) == [], 'a document just loaded has changes %r', pdf.changes(doc))
    docs.check_doc(doc, b.revs[-1], how, 'loaded')
    if how % 3 == 0:
        for k, m in enumerate(b.revs):
            changes_of(doc, k, m, f'revision {k}')
    d = doc
    for k in range(n - 1, -1, -1):
        d = pdf.rewind(d)
        docs.check_doc(d, b.revs[k], how + k, f'revision {k}')
        changes_of(d, -1, b.revs[k], f'rewound to revision {k}')
        # a page list belongs to the revision
        pages = [v for v in b.revs[k].objs.values() if type(v[1]) == dict and v[1].get('/Type') == '/Page']
        ensure(len(pdf.pages(d)) == len(pages), 'revision %d has %d pages instead of %d', k, len(pdf.pages(d)), len(pages))
    e = pdf.rewind(d)
    docs.check_doc(e, b.revs[0], how, 'rewound past the first revision')
    l = docs.spec_labels(spec)
    return n > 1 and any(r['set'] or r['free'] for r in spec['revs'][1:]), sorted(l)


SUBS = [Sub('rewind', lambda: st.tuples(specs.specs(max_revs=5), st.integers(0, 20)), check, 2400, 100000)]
