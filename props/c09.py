"""C09: every file written is structurally valid."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import docs
import history
import pdfgen
import refpdf
import specs
import pdfsyntax as pdf

ID = 'C09'
RULE = ('A case is a base document (blank or written by lib/pdfgen.py), a history of edits, commits, saves, reloads and rewinds, and a list of final transformations '
        '(squash, compress, concatenation, page removal, rotation, annotation, filter, xref stream and object stream requests), each written file being read by the strict reader lib/refpdf.py. '
        'Non-trivial: an edit or a transformation.')
ASSUMPTIONS = ['the source files are well formed and not encrypted', 'a deleted object number is not given a new value']


def validate(data, what):
    r, errs = refpdf.read(data)
    ensure(r is not None and not errs, '%s: the file written is not valid: %s', what, errs[:3])
    for n, (g, v) in r.objects.items():
        if isinstance(v, refpdf.RStream) and v.supported():
            try:
                v.content()
            except Exception as e:
                pbt.fail('%s: the data of stream %d cannot be decoded: %s', what, n, e)
    return r


def check_frees(before, r, what):
    """Objects deleted since 'before' ({num: gen}) are free entries of the next generation."""
    for n, g in before.items():
        if n not in r.objects:
            e = r.free.get(n)
            ensure(e is not None, '%s: object %d is deleted without a free entry', what, n)
            ensure(e[2] in (g + 1, 65535), '%s: the free entry of object %d %d has generation %d', what, n, g, e[2])


FINALS = ['squash', 'compress', 'concat', 'concat-right', 'remove', 'rotate', 'annot', 'filter', 'nofilter', 'group', 'xrefstm', 'commit', 'grow']


def transform(doc, step, other):
    k, i = step
    if k == 'squash':
        return pdf.squash(doc)
    if k == 'compress':
        return pdf.compress(doc)
    if k == 'concat':
        return pdf.concat(doc, other)
    if k == 'concat-right':
        return pdf.concat(other, doc, False)
    if k == 'remove':
        n = pdf.number_pages(doc)
        return pdf.remove_pages(doc, i % n) if n > 1 else doc
    if k == 'rotate':
        return pdf.rotate(doc, 90, [i % pdf.number_pages(doc)])
    if k == 'annot':
        return pdf.add_text_annotation(doc, i % pdf.number_pages(doc), 'note', [1, 2, 3, 4])
    if k in ('filter', 'nofilter'):
        s = pdf.list_streams(doc)
        s = [n for n in s if pdf.obj(doc, n)['entries'].get('/Type') not in ('/XRef', '/ObjStm')]
        if not s:
            return doc
        return pdf.apply_filter(doc, s[i % len(s):], '' if k == 'nofilter' else ['/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode'][i % 3])
    if k == 'group':
        return pdf.group_obj_into_stream(doc) if pdf.changes(doc) else doc
    if k == 'xrefstm':
        return pdf.force_xref_stream(doc, False, ['/FlateDecode', '', '/ASCIIHexDecode'][i % 3])
    if k == 'commit':
        return pdf.commit(doc)
    if k == 'grow':
        for v in range(20):
            doc, _ = pdf.add_object(doc, {'/V': v})
        return doc


def check(case):
    base, ops, finals, base2 = case
    run = history.Run(base)
    fmt = set()
    for op in ops:
        before = None
        if op[0] in ('commit', 'save', 'reload'):
            before = {n: g for n, (g, v, ex) in (run.stack[-1].objs if run.stack else {}).items()}
        run.step(op)
        if before is not None:
            _, data = history.write(run.doc)
            check_frees(before, validate(data, op[0]), op[0])
    before = {n: g for n, (g, v, ex) in (run.stack[-1].objs if run.stack else {}).items()}
    doc2, data = history.write(run.doc)
    check_frees(before, validate(data, 'final'), 'final')
    done = []
    doc = run.doc
    if finals:
        other = history.Run(base2).doc if base2 is not None else None
        for step in finals:
            if step[0].startswith('concat') and other is None:
                continue
            doc = transform(doc, step, other)
            done.append(step[0])
            d, data = history.write(doc)
            validate(data, ' '.join(done))
            if step[1] % 5 == 0:
                doc = pdf.loads(data)
            elif step[1] % 5 == 1:
                doc = d
    return run.edits > 0 or bool(done), sorted(run.labels | set(done) | (docs.spec_labels(base) if base != 'blank' else {'blank'}))


def steps(max_size=3):
    return st.lists(st.tuples(st.sampled_from(FINALS), st.integers(0, 9)), max_size=max_size)


def small():
    return st.one_of(st.none(), st.just('blank'), specs.specs(max_revs=2, max_objs=3))


SUBS = [Sub('edits', lambda: st.tuples(history.bases(empty=False), history.ops(), st.just([]), st.none()), check, 1600, 80000),
        Sub('transforms', lambda: st.tuples(history.bases(empty=False), history.ops(max_size=3), steps(), small()), check, 1600, 80000),
        Sub('big', lambda: st.tuples(specs.big(starts=(4, 250, 3000)), history.ops(max_size=4), steps(), st.just('blank')), check, 24, 1500)]
