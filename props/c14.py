"""C14: compression is lossless."""
import os
import zlib
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import docs
import graph
import history
import pdfgen
import refpdf
import specs
import pdfsyntax as pdf

ID = 'C14'
RULE = ('A case is a document (blank or from a file of lib/pdfgen.py) after a history of edits, compressed in memory or by the compress command. '
        'Non-trivial: the document has a stream, several revisions or a free object.')
ASSUMPTIONS = ['files are well formed and not encrypted', '/Filter and /DecodeParms are direct objects',
               'only what is reachable from the trailer is compared, /Version of the catalog aside', 'graphs are compared by iterated neighbourhood hashing (6 rounds)']


def strip_version(objs, trailer):
    n = int(trailer['/Root'].imag)
    objs = dict(objs)
    g, v = objs[n]
    objs[n] = (g, {k: x for k, x in v.items() if k != '/Version'})
    return objs


def reach_graph(objs, trailer):
    g = graph.Graph(strip_version(objs, trailer), trailer, reencoded=True)
    return g, g.reachable()


def user_objs(r):
    return {n: o for n, o in r.objects.items() if not (isinstance(o[1], refpdf.RStream) and o[1].entries.get('/Type') in ('/XRef', '/ObjStm'))}


def doc_objs(doc):
    out = {}
    for r in pdf.in_use(doc):
        o = pdf.get_object(doc, r)
        if not history.is_structure(o):
            out[int(r.imag)] = (int(r.real), o)
    return out


def with_version(base, v):
    """The same file with a version in its catalogs."""
    base = dict(base, revs=[dict(r, set=dict(r['set'])) for r in base['revs']])
    for r in base['revs']:
        for n, (g, o) in r['set'].items():
            if type(o) == dict and o.get('/Type') == '/Catalog':
                r['set'][n] = (g, dict(o, **{'/Version': v}))
    return base


def check(case):
    base, ops, cli, compress_again, catver = case
    if base != 'blank' and catver:
        base = with_version(base, catver)
    run = history.Run(base)
    run.run(ops)
    doc = run.doc
    objs = {n: (g, v) for n, (g, v, ex) in run.cur.objs.items()}
    want, nw = reach_graph(objs, run.cur.trailer)
    meta, npages = pdf.metadata(doc), pdf.number_pages(doc)
    ver = pdf.version(doc)
    if cli:
        _, data0 = history.write(doc)
        a, b = pbt.tmp_path('in.pdf'), pbt.tmp_path('out.pdf')
        with open(a, 'wb') as f:
            f.write(data0)
        pdf.compress_file(a, b)
        with open(b, 'rb') as f:
            data = f.read()
        with open(a, 'rb') as f:
            ensure(f.read() == data0, 'the compress command alters its input file')
        os.unlink(a)
        os.unlink(b)
    else:
        c = pdf.compress(doc)
        history.check_state(doc, run.cur, 'the document compressed')
        if compress_again:
            c = pdf.compress(c)
        _, data = history.write(c)
        t = docs.user_trailer(c.trailer())
        g, ng = reach_graph(doc_objs(c), t)
        d = graph.compare(want, g, nw, ng)
        ensure(d is None, 'in memory: %s', d)
    r, errs = refpdf.read(data)
    ensure(r is not None and not errs, 'the compressed file is not valid: %s', errs[:2])
    t = docs.user_trailer(r.trailer)
    g, ng = reach_graph(user_objs(r), t)
    d = graph.compare(want, g, nw, ng)
    ensure(d is None, 'independent reader: %s', d)
    for n, (gen, v) in r.objects.items():
        if isinstance(v, refpdf.RStream) and v.supported():
            f = v.entries.get('/Filter')
            ensure(f in ('/FlateDecode', ['/FlateDecode']), 'stream %d of the compressed file has filter %r', n, f)
    back = pdf.loads(data)
    new_ver = pdf.version(back)
    ensure(new_ver >= '1.5' and new_ver >= ver, 'version %s becomes %s', ver, new_ver)
    ensure(pdf.number_pages(back) == npages == len(pdf.pages(back)), '%d pages become %d', npages, pdf.number_pages(back))
    m = pdf.metadata(back)
    ensure(m == meta, 'metadata %r become %r', meta, m)
    g, ng = reach_graph(doc_objs(back), docs.user_trailer(back.trailer()))
    d = graph.compare(want, g, nw, ng)
    ensure(d is None, 'read back: %s', d)
    l = set(run.labels) | (docs.spec_labels(base) if base != 'blank' else {'blank'}) | ({'cli'} if cli else set())
    return len(run.stack) > 1 or bool({'stream object', 'free'} & l), sorted(l)


BROKEN = [(b'xyz', '/ASCIIHexDecode'), (b'\xff\xfe', '/FlateDecode'), (b'', '/FlateDecode'), (b'zz~>', ['/ASCII85Decode', '/FlateDecode']), (zlib.compress(b'some text')[:-7], '/FlateDecode'),
          (b'4g>', ['/ASCIIHexDecode']), (zlib.compress(b'nothing hexadecimal'), ['/FlateDecode', '/ASCIIHexDecode']), (b'78>', ['/ASCIIHexDecode', '/FlateDecode']), (b'\xe9\xe9', '/ASCII85Decode'),
          (b'a', ['/FlateDecode', '/DCTDecode']), (b'#PDFSyntaxException: x', '/FlateDecode')]


def check_broken(case):
    """Streams whose data is not what their filter asks for stay as they are."""
    base, which, packed = case
    top = max([n for r in base['revs'] for n in list(r['set']) + list(r['free'])] + [0]) + 60
    base = dict(base, revs=[dict(r, set=dict(r['set'])) for r in base['revs']])
    for i, k in enumerate(which):
        raw, flt = BROKEN[k]
        base['revs'][-1]['set'][top + i] = (0, ('stream', {'/Filter': flt, '/zTag': i}, raw, None, None, 'direct'))
    b = pdfgen.build(base)
    doc = pdf.loads(b.data)
    if packed:
        doc = pdf.compress(pdf.compress(doc))
    else:
        doc = pdf.compress(doc)
    _, data = history.write(doc)
    r, errs = refpdf.read(data)
    ensure(r is not None and not errs, 'the compressed file is not valid: %s', errs[:2])
    got = {o.entries['/zTag']: (o.raw, o.entries.get('/Filter')) for g, o in r.objects.values() if isinstance(o, refpdf.RStream) and '/zTag' in o.entries}
    for i, k in enumerate(which):
        ensure(got.get(i) == BROKEN[k], 'a stream that cannot be decoded, %r, becomes %r', BROKEN[k], got.get(i))
    return True, sorted({'broken ' + str(BROKEN[k][1]) for k in which})


SUBS = [Sub('broken', lambda: st.tuples(specs.specs(max_revs=2), st.lists(st.integers(0, len(BROKEN) - 1), min_size=1, max_size=4), st.booleans()), check_broken, 300, 5000),
        Sub('compress', lambda: st.tuples(history.bases(empty=False), history.ops(max_size=5), st.booleans(), st.booleans(), st.sampled_from([None, None, '/1.3', '/1.5', '/1.7', '/2.0'])), check, 2000, 100000),
        Sub('big', lambda: st.tuples(specs.big(starts=(4, 250, 3000)), history.ops(max_size=3), st.booleans(), st.booleans(), st.none()), check, 32, 2000)]
