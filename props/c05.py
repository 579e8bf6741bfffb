"""C05: loading a file exposes exactly the objects it defines."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import docs
import pdfgen
import specs
import pdfsyntax as pdf

ID = 'C05'
RULE = ('A case is a description of a file (objects, storage forms, packing into object streams, incremental updates, formatting style) written '
        'by lib/pdfgen.py, and an order of access. Non-trivial: more than one revision, or objects packed into object streams, or a hybrid or linearized layout.')
ASSUMPTIONS = ['files are well formed and not encrypted', 'an indirect object is not a bare reference', 'lib/pdfgen.py writes what its model says (cross-checked by lib/refpdf.py)']


def check(case):
    spec, how = case
    b = pdfgen.build(spec)
    doc = pdf.loads(b.data)
    docs.check_doc(doc, b.revs[-1], how)
    l = docs.spec_labels(spec)
    return bool(len(spec['revs']) > 1 or 'packed' in l or spec['linear'] or 'hybrid' in l), sorted(l)


def check_again(case):
    """Any access order, repeated accesses, through obj() and get_object(): always the same values."""
    spec, orders = case
    b = pdfgen.build(spec)
    m = b.revs[-1]
    doc = pdf.loads(b.data)
    nums = sorted(m.objs)
    for i in orders:
        n = nums[i % len(nums)]
        g, v = m.objs[n]
        o = doc.obj(n) if i % 2 else doc.get_object(complex(g, n))
        d = pdfgen.matches(v, o)
        ensure(d is None, 'object %d: %s', n, d)
        # the caller may do what it wants with what it gets
        if type(o) == dict:
            o['/zJunk'] = 1
        elif type(o) == list:
            o.append(7)
    docs.check_doc(doc, m, orders[0] if orders else 0)
    return len(orders) > 2, sorted(docs.spec_labels(spec))


def s_again():
    return st.tuples(specs.specs(max_revs=3), st.lists(st.integers(0, 30), max_size=10))


def check_big(case):
    spec, how = case
    b = pdfgen.build(spec)
    m = b.revs[-1]
    docs.check_doc(pdf.loads(b.data), m, how)
    top = max(m.objs)
    l = set(docs.spec_labels(spec))
    for name, hit in (('more than 256 objects', len(m.objs) > 256), ('number above 255', top > 255), ('number above 65535', top > 65535),
                      ('file above 64 kB', len(b.data) > 65536)):
        if hit:
            l.add(name)
    return len(m.objs) > 256 or top > 65535 or len(b.data) > 65536, sorted(l)


SUBS = [Sub('load', lambda: st.tuples(specs.specs(max_revs=4), st.integers(0, 20)), check, 3000, 150000),
        Sub('access', s_again, check_again, 800, 40000),
        Sub('big', lambda: st.tuples(specs.big(), st.integers(0, 20)), check_big, 100, 4000)]
