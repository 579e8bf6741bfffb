"""C16: rotation adds up and touches only the pages asked for."""
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import docs
import graph
import history
import pagegen
import pdfgen
import refpdf
import values as V
import pdfsyntax as pdf

ID = 'C16'
RULE = ('A case is a document with a generated page tree and a sequence of rotations, commits and reloads. '
        'Non-trivial: at least one rotation of some but not all pages, or a page whose rotation is inherited, or two rotations.')
ASSUMPTIONS = ['the tree is well formed', 'angles are integers; those already in the document are multiples of 90']


def canon_all(objs, trailer):
    live = {n: g for n, (g, v) in objs.items()}
    out = {}
    for n, (g, v) in objs.items():
        if history.is_structure(v) or isinstance(v, pdfgen.Container) or (isinstance(v, refpdf.RStream) and v.entries.get('/Type') in ('/XRef', '/ObjStm')):
            continue
        out[n] = (g, graph.canon(v, live))
    return out


def frame(objs0, objs1, leaves, what):
    """objs1 is objs0 with nothing but /Rotate of these leaves changed."""
    a, b = canon_all(objs0, None), canon_all(objs1, None)
    if set(a) != set(b):
        pbt.fail('%s: objects %r appear or disappear', what, sorted(set(a) ^ set(b)))
    for n in a:
        if a[n] == b[n]:
            continue
        ensure(n in leaves, '%s: object %d is changed', what, n)
        strip = lambda t: (t[0], ('dict', tuple(x for x in t[1][1] if x[0] != '/Rotate')))
        ensure(a[n][1][0] == b[n][1][0] == 'dict' and strip(a[n]) == strip(b[n]), '%s: page object %d is changed beyond its rotation', what, n)


def check(case):
    spec, steps = case
    built = pdfgen.build(spec)
    doc = pdf.loads(built.data)
    rev = built.revs[-1]
    objs0, t0 = rev.objs, rev.trailer
    leaves0 = pagegen.flatten(objs0, t0)
    n = len(leaves0)
    eff = [pagegen.angle(objs0, here) for _, here, _ in leaves0]
    nums = [num for num, _, _ in leaves0]
    touched = set()
    labels = set()
    rot = 0
    for step in steps:
        if step[0] == 'rotate':
            _, deg, pages, meth = step
            sel = sorted({p % n for p in pages}) if pages is not None else list(range(n))
            arg = [p % n for p in pages] if pages is not None else []
            if pages is not None and not arg:
                continue
            before = canon_all(pagegen.doc_objs(doc), None)
            if meth:
                new = doc.rotate(deg, arg)
            elif pages is None and deg == 90:
                new = pdf.rotate(doc)
            elif pages is None:
                new = pdf.rotate(doc, deg)
            else:
                new = pdf.rotate(doc, deg, arg)
            ensure(canon_all(pagegen.doc_objs(doc), None) == before, 'rotating alters the document it is given')
            doc = new
            for p in sel:
                eff[p] = (eff[p] + deg) % 360
                touched.add(nums[p])
            rot += 1
            labels.add('some' if len(sel) < n else 'all')
            if any('/Rotate' in leaves0[p][1] and '/Rotate' not in objs0[nums[p]][1] for p in sel):
                labels.add('inherited')
        elif step[0] == 'commit':
            doc = pdf.commit(doc)
        else:
            _, data = history.write(doc)
            doc = pdf.loads(data)
            r, errs = refpdf.read(data)
            ensure(r is not None and not errs, 'the file written is not valid: %s', errs[:2])
            state(r.objects, docs.user_trailer(r.trailer), eff, nums, 'independent reader')
            frame(objs0, r.objects, touched, 'independent reader')
            labels.add('reload')
        objs = pagegen.doc_objs(doc)
        state(objs, doc.trailer(), eff, nums, 'after %s' % (step[0],))
        frame(objs0, objs, touched, 'after %s' % (step[0],))
        got = [(r or 0) % 360 for _, r in pdf.page_layouts(doc)]
        ensure(got == eff, 'page layouts show rotations %r instead of %r', got, eff)
    return rot > 1 or bool(labels & {'some', 'inherited'}), sorted(labels)


def state(objs, trailer, eff, nums, what):
    leaves = pagegen.flatten(objs, trailer)
    ensure([x[0] for x in leaves] == nums, '%s: the pages are %r instead of %r', what, [x[0] for x in leaves], nums)
    got = [pagegen.angle(objs, here) for _, here, _ in leaves]
    ensure(got == eff, '%s: rotations %r instead of %r', what, got, eff)


def steps():
    deg = st.one_of(st.sampled_from([90, 90, 180, 270, -90, 360, 0, 450]), st.integers(-720, 720))
    rot = st.tuples(st.just('rotate'), deg, st.one_of(st.none(), st.lists(st.integers(0, 8), min_size=1, max_size=3)), st.integers(0, 1))
    return st.lists(st.one_of(rot, rot, rot, st.tuples(st.just('commit')), st.tuples(st.just('reload'))), min_size=1, max_size=5)


SUBS = [Sub('rotate', lambda: st.tuples(pagegen.page_specs(), steps()), check, 1600, 100000)]
