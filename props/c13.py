"""C13: squashing keeps the document and forgets its history."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import docs
import graph
import history
import pdfgen
import refpdf
import specs
import pdfsyntax as pdf

ID = 'C13'
RULE = ('A case is a document (blank or from a file of lib/pdfgen.py) after a history of edits, possibly edited again once squashed. '
        'Non-trivial: several revisions, or a deleted object, or file-structure streams to leave out.')
ASSUMPTIONS = ['a deleted object number is not given a new value', 'an object that holds the file structure is not edited',
               'graphs are compared by iterated neighbourhood hashing (6 rounds)']
MARK = b'ObsoleteZq'


def check(case):
    base, ops, after, marked, pending = case
    run = history.Run(base)
    run.run(ops)
    if marked:
        # content that is replaced and content that is deleted
        for k in range(2):
            new, ref = pdf.add_object(run.doc, b'(%s%d)' % (MARK, k))
            run.doc = pdf.commit(new)
            run.doc = pdf.update_object(run.doc, int(ref.imag), None if k else 7)
            if not k:
                run.cur.objs[int(ref.imag)] = (0, 7, False)
                run.user.add(int(ref.imag))
            if marked == 2:
                run.doc = pdf.commit(run.doc)
    history.check_state(run.doc, run.cur, 'before')
    want = graph.of_state(run.cur)
    src = run.doc
    if pending:  # a cross-reference stream that is not written yet
        src = pdf.force_xref_stream(src, pending == 1, '' if pending == 3 else '/FlateDecode')
    sq = pdf.squash(src)
    history.check_state(run.doc, run.cur, 'the document squashed')
    ensure(pdf.updates(sq) == 0, 'a squashed document has %d updates', pdf.updates(sq))
    used = pdf.in_use(sq)
    ensure(all(r.real == 0 for r in used), 'generations are not zero: %r', used)
    ensure(sorted(int(r.imag) for r in used) == list(range(1, len(used) + 1)), 'numbers are not contiguous: %r', used)
    ensure(not any(history.is_structure(pdf.get_object(sq, r)) for r in used), 'a squashed document has streams of the structure of the former file')
    got = graph.of_doc(sq, docs.user_trailer(sq.trailer()))
    d = graph.compare(want, got)
    ensure(d is None, 'in memory: %s', d)
    new, data = history.write(sq)
    if marked:
        plain = data.count(MARK)
        ensure(plain == 0, 'obsolete content remains in the file')
    check_file(data, want, 1)
    got = graph.of_doc(new, docs.user_trailer(new.trailer()))
    d = graph.compare(want, got)
    ensure(d is None, 'after writing: %s', d)
    twice = pdf.squash(new)
    d = graph.compare(want, graph.of_doc(twice, docs.user_trailer(twice.trailer())))
    ensure(d is None, 'squashed twice: %s', d)
    # the result can be edited
    if after is not None:
        e, ref = pdf.add_object(new if after[0] else sq, history.to_pdf(unlink(after[1])))
        cat, cref = e.catalog()
        cat['/zNew'] = ref
        e = pdf.update_object(e, int(cref.imag), cat)
        objs = dict(run.cur.objs)
        top = 100000  # no dangling reference may lead to it
        objs[top] = (0, unlink(after[1]), False)
        root = run.cur.trailer['/Root']
        g, v, ex = objs[int(root.imag)]
        objs[int(root.imag)] = (g, dict(v, **{'/zNew': complex(0, top)}), ex)
        w2 = graph.of_state(history.State(objs, run.cur.trailer))
        _, data = history.write(e)
        check_file(data, w2, 2 if after[0] else 1)
    l = set(run.labels) | (docs.spec_labels(base) if base != 'blank' else {'blank'})
    return len(run.stack) > 1 or bool({'del', 'packed', 'stream', 'hybrid', 'free'} & l), sorted(l)


def unlink(v):
    """The same value without references."""
    if type(v) == complex:
        return int(v.imag)
    if type(v) == list:
        return [unlink(x) for x in v]
    if type(v) == dict:
        return {k: unlink(x) for k, x in v.items()}
    if type(v) == tuple:
        return v[:1] + (unlink(v[1]),) + v[2:]
    return v


def check_file(data, want, revs):
    r, errs = refpdf.read(data)
    ensure(r is not None and not errs, 'the file written is not valid: %s', errs[:2])
    g = graph.of_reader(r, docs.user_trailer(r.trailer))
    d = graph.compare(want, g)
    ensure(d is None, 'independent reader: %s', d)
    back = pdf.loads(data)
    ensure(pdf.updates(back) == revs, 'the file written has %d revisions instead of %d', pdf.updates(back), revs)
    d = graph.compare(want, graph.of_doc(back, docs.user_trailer(back.trailer())))
    ensure(d is None, 'read back: %s', d)


def noref():
    return history.edit_values()


SUBS = [Sub('squash', lambda: st.tuples(history.bases(empty=False), history.ops(max_size=6),
                                        st.one_of(st.none(), st.tuples(st.integers(0, 1), noref())), st.integers(0, 2), st.sampled_from([0, 0, 0, 1, 2, 3])), check, 1600, 80000)]
