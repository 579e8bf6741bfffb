"""C11: documents are immutable, an operation never alters its input."""
import os
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import docs
import graph
import history
from observe import freeze, tryit, observe, compare
import pagegen
import pdfgen
import specs
import values as V
import pdfsyntax as pdf

ID = 'C11'
RULE = ('A case is one or two base documents and a sequence of operations, each applied to any document made so far; every document is observed at the end '
        '(and some when they are made) and compared with the same document rebuilt alone from its own ancestors. '
        'Non-trivial: some document has two children, or is observed after a descendant was committed, or an object obtained was mutated.')
ASSUMPTIONS = ['the operations of the public API are used with their default immut argument', 'an operation that raises gives no document, but must not alter any']


def deep_mutate(v, depth=0):
    if depth > 6:
        return
    if type(v) == pdf.Stream:
        deep_mutate(v.entries, depth + 1)
        v.stream = b'mutated'
        v.encoded = b'mutated'
    elif type(v) == dict:
        for k in list(v):
            deep_mutate(v[k], depth + 1)
        v['/zMutated'] = 1
        for k in ('/Type', '/Root', '/Kids'):
            v.pop(k, None)
    elif type(v) == list:
        for x in v:
            deep_mutate(x, depth + 1)
        v.append(77)
    elif type(v) == tuple:
        for x in v:
            deep_mutate(x, depth + 1)


def nums(doc, structure=False):
    out = []
    for r in pdf.in_use(doc):
        o = pdf.get_object(doc, r)
        if structure or not (history.is_structure(o) or (type(o) == dict and o.get('/Type') in ('/Catalog', '/Pages', '/Page'))):
            out.append(int(r.imag))
    return out


def apply(op, d, e=None):
    """The document(s) made by op from d (and e). Deterministic."""
    k = op[0]
    if k == 'set':
        pool = nums(d)
        return pdf.update_object(d, pool[op[1] % len(pool)], history.to_pdf(op[2])) if pool else None
    if k == 'mod':
        pool = nums(d, True)
        n = pool[op[1] % len(pool)]
        o = pdf.obj(d, n)
        if type(o) == dict:
            o['/zMod'] = op[2]
            return pdf.update_object(d, n, o)
        return None
    if k == 'del':
        pool = nums(d)
        return pdf.update_object(d, pool[op[1] % len(pool)], None) if pool else None
    if k == 'add':
        return pdf.add_object(d, history.to_pdf(op[1]))[0]
    if k == 'commit':
        return pdf.commit(d)
    if k == 'rewind':
        return pdf.rewind(d)
    if k == 'rotate':
        n = pdf.number_pages(d)
        return pdf.rotate(d, op[1], [op[2] % n] if op[2] is not None else [])
    if k == 'annot':
        return pdf.add_text_annotation(d, op[1] % pdf.number_pages(d), 'text', [0, 0, 10, 10])
    if k == 'filter':
        l = [n for n in pdf.list_streams(d) if not history.is_structure(pdf.obj(d, n))]
        return pdf.apply_filter(d, l[op[1] % len(l):] if l else [], op[2])
    if k == 'compress':
        return pdf.compress(d)
    if k == 'squash':
        return pdf.squash(d)
    if k == 'concat':
        return pdf.concat(d, e, target_left=bool(op[2]))
    if k == 'plus':
        return d + e
    if k == 'remove':
        return pdf.remove_pages(d, {p % pdf.number_pages(d) for p in op[1]})
    if k == 'keep':
        return pdf.keep_pages(d, {p % pdf.number_pages(d) for p in op[1]})
    if k == 'index':
        return d[op[1]]
    if k == 'slice':
        return d[op[1]:]
    if k == 'iter':
        l = list(d)
        return l[op[1] % len(l)]
    if k == 'write':
        return history.write(d)[0]
    if k == 'reload':
        return pdf.loads(history.write(d)[1])
    if k == 'group':
        return pdf.group_obj_into_stream(d)
    if k == 'xref':
        return pdf.force_xref_stream(d, bool(op[1]), op[2])
    if k == 'version':
        return pdf.update_version(d, '1.7')
    raise AssertionError(k)


def mutate(doc, how, i):
    k = how % 6
    if k == 0:
        for r in pdf.in_use(doc):
            deep_mutate(pdf.get_object(doc, r))
    elif k == 1:
        deep_mutate(doc.trailer())
        deep_mutate(pdf.trailer(doc))
    elif k == 2:
        deep_mutate(pdf.pages(doc))
        deep_mutate(pdf.page_layouts(doc))
    elif k == 3:
        deep_mutate(doc.catalog())
        deep_mutate(pdf.info(doc))
    elif k == 4:
        deep_mutate(pdf.flat_page_tree(doc))
        deep_mutate(pdf.in_use(doc))
        deep_mutate(pdf.changes(doc))
    else:
        for r in pdf.in_use(doc):
            deep_mutate(pdf.obj(doc, int(r.imag)))
            deep_mutate(doc.get_object(r))


def read(doc, how):
    """Read only uses."""
    pdf.structure(doc)
    pdf.fonts(doc)
    pdf.list_streams(doc)
    pdf.number_pages(doc)
    repr(doc)
    len(doc)
    pdf.page_layouts(doc)
    if how % 2:
        pdf.squash(doc)
        pdf.pprint_page_contents
        list(doc)


def base_doc(b):
    if b == 'blank':
        return pdf.blank()
    return pdf.loads(pdfgen.build(b).data)


class Entry:
    def __init__(self, op, parents):
        self.op = op
        self.parents = parents
        self.children = 0
        self.obs = None
        self.doc = None
        self.cost = 1 + sum(p.cost for p in parents)

    def rebuild(self):
        if not self.parents:
            return base_doc(self.op)
        return apply(self.op, *[p.rebuild() for p in self.parents])


def check(case):
    bases, steps = case
    pool = []
    labels = set()
    for b in bases:
        e = Entry(b, [])
        e.doc = base_doc(b)
        pool.append(e)
    for i, j, op, look in steps:
        a, b = pool[i % len(pool)], pool[j % len(pool)]
        if op[0] == 'mutate':
            tryit(lambda: mutate(a.doc, op[1], op[2]))
            labels.add('mutate')
            continue
        if op[0] == 'read':
            tryit(lambda: read(a.doc, op[1]))
            continue
        parents = [a, b] if op[0] in ('concat', 'plus') else [a]
        e = Entry(op, parents)
        if e.cost > 30:
            continue
        try:
            e.doc = apply(op, *[p.doc for p in parents])
        except Exception as x:
            labels.add('raised:' + op[0])
            continue
        if e.doc is None or type(e.doc) == bytes:
            continue
        for p in parents:
            p.children += 1
        labels.add(op[0])
        if look:
            e.obs = observe(e.doc)
        pool.append(e)
    for n, e in enumerate(pool):
        end = observe(e.doc)
        what = 'document %d (%s)' % (n, e.op[0] if e.parents else 'base')
        if e.obs is not None:
            compare(e.obs, end, what + ' changes after it is made')
        compare(observe(e.rebuild()), end, what + ' differs from the same made alone')
        again = observe(e.doc)
        compare(end, again, what + ' changes when it is observed')
    return any(e.children > 1 for e in pool) or 'mutate' in labels or 'commit' in labels, sorted(labels)


def step_list(max_size=8):
    i = st.integers(0, 12)
    v = history.edit_values()
    op = st.one_of(
        st.tuples(st.just('set'), i, v), st.tuples(st.just('set'), i, v), st.tuples(st.just('mod'), i, V.values(2)),
        st.tuples(st.just('del'), i), st.tuples(st.just('add'), v), st.tuples(st.just('commit')), st.tuples(st.just('commit')),
        st.tuples(st.just('rewind')), st.tuples(st.just('rewind')),
        st.tuples(st.just('rotate'), st.sampled_from([90, 180]), st.one_of(st.none(), i)),
        st.tuples(st.just('annot'), i), st.tuples(st.just('filter'), i, st.sampled_from(['', '/FlateDecode', '/ASCII85Decode'])),
        st.tuples(st.just('compress')), st.tuples(st.just('squash')), st.tuples(st.just('concat'), i, st.booleans()), st.tuples(st.just('plus')),
        st.tuples(st.just('remove'), st.lists(i, min_size=1, max_size=2)), st.tuples(st.just('keep'), st.lists(i, min_size=1, max_size=2)),
        st.tuples(st.just('index'), i), st.tuples(st.just('slice'), st.integers(0, 2)), st.tuples(st.just('iter'), i),
        st.tuples(st.just('write')), st.tuples(st.just('reload')), st.tuples(st.just('group')),
        st.tuples(st.just('xref'), st.booleans(), st.sampled_from(['/FlateDecode', '', '/ASCIIHexDecode'])), st.tuples(st.just('version')),
        st.tuples(st.just('mutate'), i, i), st.tuples(st.just('mutate'), i, i), st.tuples(st.just('read'), i))
    idx = st.one_of(st.integers(0, 2), st.integers(0, 12))
    return st.lists(st.tuples(idx, idx, op, st.booleans()), min_size=1, max_size=max_size)


def bases():
    b = st.one_of(st.just('blank'), specs.specs(max_revs=3, max_objs=4), specs.specs(max_revs=3, max_objs=4), pagegen.page_specs(max_pages=4), pagegen.page_specs(max_pages=4))
    return st.lists(b, min_size=1, max_size=2)


SUBS = [Sub('pool', lambda: st.tuples(bases(), step_list()), check, 1200, 80000)]
