"""C08: writing a modified file only appends to it."""
import os
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import docs
import history
import pdfgen
import specs
import pdfsyntax as pdf

ID = 'C08'
RULE = ('A case is a file written by lib/pdfgen.py and a history of edits, commits, saves, reloads and rewinds applied to the document loaded from it; some are read from a file that stays open, and saved over it at the end. '
        'Non-trivial: at least one edit, or a rewind.')
ASSUMPTIONS = ['a revision that is rewound to is open again and may be written anew: only the revisions before it are kept as they are']


def check(case):
    base, ops, named = case
    run = history.Run(base)
    src = run.data
    path = None
    if src is None:
        marks = [history.write(run.doc)[1]]
    else:
        marks = [src[:r.end] for r in run.built.revs]     # bytes of the file up to each committed revision
        marks[-1] = src
        if named:
            path = pbt.tmp_path('source.pdf')
            with open(path, 'wb') as f:
                f.write(src)
            run.doc = pdf.readfile(path)
        if named == 2:      # read little by little from a file that stays open
            source = open(path, 'rb')
            run.doc = pdf.load(source, 'CONTINUOUS')
        _, data = history.write(run.doc)
        ensure(data == src, 'an unmodified document is not written back byte for byte')
    for op in ops:
        dirty = bool(pdf.changes(run.doc))
        if not run.step(op):
            continue
        if op[0] == 'rewind':
            marks = marks[:len(run.stack)]
            continue
        if op[0] in ('commit', 'save', 'reload'):
            _, data = history.write(run.doc)
            if marks:
                ensure(data.startswith(marks[-1]), '%s: the bytes of the committed revisions are altered', op[0])
            if dirty:
                ensure(not marks or len(data) > len(marks[-1]), '%s: nothing is appended', op[0])
                marks.append(data)
            elif marks:
                ensure(data.rstrip(b'\r\n') == marks[-1].rstrip(b'\r\n'), '%s without changes alters the file', op[0])
            if op[0] == 'reload':
                ensure(data == run.data, 'a reloaded document is not written back byte for byte')
    dirty = bool(pdf.changes(run.doc))
    _, data = history.write(run.doc)
    if marks:
        ensure(data.startswith(marks[-1]), 'the %d bytes of the committed revisions are altered', len(marks[-1]))
        if not dirty:
            strip = (lambda b: b.rstrip(b'\r\n')) if 'rewind' in run.labels else bytes  # the end of line before the next revision may be kept
            ensure(strip(data) == strip(marks[-1]), 'bytes are appended although nothing changed')
    if dirty:
        ensure(len(data) > (len(marks[-1]) if marks else 0), 'the changes are not written')
    if path:
        with open(path, 'rb') as f:
            ensure(f.read() == src, 'the source file is altered')
        if named == 2:
            pdf.writefile(run.doc, path)
            with open(path, 'rb') as f:
                ensure(f.read() == data, 'the document saved over its own file differs from the one saved elsewhere')
            source.close()
            run.labels.add('in place')
        os.unlink(path)
    return bool(run.edits or 'rewind' in run.labels), sorted(run.labels | (docs.spec_labels(base) if src else {'blank'}))


SUBS = [Sub('append', lambda: st.tuples(history.bases(empty=False), history.ops(), st.sampled_from([0, 1, 2])), check, 2400, 100000)]
