"""C12: commit and rewind are inverse over any history."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import docs
import history
import pdfgen
import pdfsyntax as pdf

ID = 'C12'
RULE = ('A case is a base document (blank or loaded from a file of lib/pdfgen.py) and an interleaving of edits, commits and rewinds, compared after every step with a stack of states. '
        'Non-trivial: a rewind after an edit, or a commit followed by a rewind.')
ASSUMPTIONS = ['a deleted object number is not given a new value', 'rewinding discards the revision being edited and reopens the last committed one']


def check(case):
    base, ops, lazy = case
    run = history.Run(base)
    history.check_state(run.doc, run.cur, 'at first')
    kinds = []
    for i, op in enumerate(ops):
        old = run.doc
        n_before = pdf.updates(old)
        dirty = bool(pdf.changes(old))
        if not run.step(op):
            continue
        kinds.append(op[0])
        new = run.doc
        what = f'step {i} ({op[0]})'
        if not lazy or op[0] in ('commit', 'rewind'):
            history.check_state(new, run.cur, what)
        n = pdf.updates(new)
        if op[0] == 'commit':
            ensure(pdf.changes(new) == [], '%s: a new revision starts with changes %r', what, pdf.changes(new))
            ensure(n == n_before + (1 if dirty else 0), '%s: %d revisions become %d', what, n_before, n)
            if not dirty:
                ensure(n == n_before, '%s: committing no change adds a revision', what)
            again = pdf.commit(new)
            ensure(pdf.updates(again) == n, '%s: committing twice adds a revision', what)
            history.check_state(again, run.cur, what + ' twice')
            if dirty:
                back = pdf.rewind(new)
                history.check_state(back, run.cur, what + ' then rewind')
                a = {int(r.imag): x for r, x in pdf.changes(back)}
                b = {int(r.imag): x for r, x in pdf.changes(old)}
                extra = {k for k in set(a) ^ set(b)}
                for k in extra:
                    o = pdf.get_object(back, complex(0, k))
                    ensure(history.is_structure(o), '%s: rewinding gives the changes %r instead of %r', what, a, b)
                for k in set(a) & set(b):
                    ensure(a[k] == b[k], '%s: rewinding reports object %d as %r instead of %r', what, k, a[k], b[k])
        elif op[0] == 'rewind':
            ensure(n == max(0, n_before - 1), '%s: %d revisions become %d', what, n_before, n)
        else:
            ensure(n == n_before, '%s changes the number of revisions', what)
    history.check_state(run.doc, run.cur, 'at last')
    # what is visible is what is written, with what was built on it
    new, data = history.write(run.doc)
    run.commit_model(bool(pdf.changes(run.doc)))
    back = pdf.loads(data)
    history.check_state(back, run.cur, 'written and read back')
    k = len(run.stack)
    ensure(pdf.updates(back) == k, '%d revisions are read back as %d', k, pdf.updates(back))
    # rewind the written document in memory all the way
    d = new
    for j in range(k - 1, -1, -1):
        d = pdf.rewind(d)
        history.check_state(d, run.stack[j], f'in memory, revision {j}')
    ensure(pdf.updates(d) == 0, 'the first revision is number %d', pdf.updates(d))
    nt = False
    for i, x in enumerate(kinds):
        if x == 'rewind' and i:
            nt = True
    return nt, sorted(run.labels | (docs.spec_labels(base) if base != 'blank' else {'blank'}))


def ops():
    i = st.integers(0, 12)
    e = history.edit_values()
    return st.lists(st.one_of(st.tuples(st.just('set'), i, e), st.tuples(st.just('add'), e), st.tuples(st.just('del'), i),
                              st.tuples(st.just('mod'), i, e.filter(lambda v: not pdfgen.is_stream(v))),
                              *([st.tuples(st.just('commit'))] * 3), *([st.tuples(st.just('rewind'))] * 3)), min_size=4, max_size=14)


SUBS = [Sub('stack', lambda: st.tuples(history.bases(max_revs=3, empty=False), ops(), st.booleans()), check, 2000, 100000)]
