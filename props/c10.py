"""C10: saved edits are exactly what is read back."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import docs
import history
import pdfgen
import refpdf
import specs
import pdfsyntax as pdf

ID = 'C10'
RULE = ('A case is a base document (blank or written by lib/pdfgen.py in any layout) and a history of updates, additions, deletions, commits, saves and reloads. '
        'Non-trivial: at least two edits, and a commit, save or reload among them.')
ASSUMPTIONS = ['a deleted object number is not given a new value', 'objects that hold the file structure are not edited']


def check(case):
    base, ops = case
    run = history.Run(base)
    run.run(ops)
    history.check_state(run.doc, run.cur, 'in memory')
    dirty = bool(pdf.changes(run.doc))
    doc2, data = history.write(run.doc)
    run.commit_model(dirty)
    history.check_state(doc2, run.cur, 'after writing')
    r, errs = refpdf.read(data)
    ensure(r is not None, 'the file written cannot be read independently: %s', errs)
    history.check_reader(r, run.cur, 'independent reader')
    doc3 = pdf.loads(data)
    history.check_state(doc3, run.cur, 'read back')
    ensure(pdf.updates(doc3) == len(run.stack), '%d revisions are read back as %d', len(run.stack), pdf.updates(doc3))
    d = doc3
    for k in range(len(run.stack) - 1, -1, -1):
        d = pdf.rewind(d)
        history.check_state(d, run.stack[k], f'revision {k} read back')
    l = set(run.labels)
    if base == 'blank':
        l.add('blank')
    else:
        l |= docs.spec_labels(base)
    return run.edits >= 2 and bool({'commit', 'save', 'reload'} & run.labels), sorted(l)


SUBS = [Sub('history', lambda: st.tuples(history.bases(), history.ops(rewind=False)), check, 2000, 100000),
        Sub('rewind-history', lambda: st.tuples(history.bases(empty=False), history.ops(rewind=True)), check, 1200, 100000),
        Sub('big', lambda: st.tuples(specs.big(starts=(4, 250, 3000)), history.ops(rewind=True, max_size=5)), check, 32, 2000)]
