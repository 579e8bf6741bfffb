"""C07: the way a file is given does not change what is read."""
import io
import os
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure, fail
import docs
import history
from observe import freeze, tryit, observe, compare
import pagegen
import pdfgen
import specs
import pdfsyntax as pdf

ID = 'C07'
RULE = ('A case is a file written by lib/pdfgen.py and an edit history; the file is loaded from bytes, from its name, from an open file read at once, and from an open file and a memory buffer read on demand, '
        'and the same history runs on all. Non-trivial: the file has several revisions or embedded objects, or the history edits it.')
ASSUMPTIONS = ['an open file read on demand stays open and is not written over while the document is in use']


def outcome(x):
    """Result or error, without details of the error."""
    return x


def walk(doc):
    """Observations of the document and of all its earlier revisions."""
    out = [observe(doc)]
    n = pdf.updates(doc)
    while n > 0:
        doc = pdf.rewind(doc)
        out.append(observe(doc))
        if pdf.updates(doc) >= n:
            break
        n = pdf.updates(doc)
    return out


def run_history(base, built, doc, ops):
    run = history.Run(base)
    run.doc = doc
    for op in ops:
        run.step(op)
    new, data = history.write(run.doc)
    return observe(run.doc), data, run.edits


def check_load(case):
    base, ops, order = case
    built = pdfgen.build(base)
    data = built.data
    path = pbt.tmp_path('s.pdf')
    with open(path, 'wb') as f:
        f.write(data)
    files = []

    def opened(mode):
        f = open(path, 'rb')
        f.seek(order % (len(data) + 1)) if mode == 'CONTINUOUS' else None
        files.append(f)
        return f
    try:
        ways = {'name': lambda: pdf.readfile(path), 'open file': lambda: pdf.load(opened('SINGLE')), 'buffer': lambda: pdf.load(io.BytesIO(data)),
                'open file on demand': lambda: pdf.load(opened('CONTINUOUS'), 'CONTINUOUS'),
                'buffer on demand': lambda: pdf.load(io.BytesIO(data), mode='CONTINUOUS')}
        want = walk(pdf.loads(data))
        for k, way in ways.items():
            got = walk(way())
            ensure(len(got) == len(want), '%s: %d revisions instead of %d', k, len(got), len(want))
            for i, (a, b) in enumerate(zip(want, got)):
                compare(a, b, 'loaded from %s, %d revisions back' % (k, i))
        wobs, wdata, edits = run_history(base, built, pdf.loads(data), ops)
        for k, way in ways.items():
            gobs, gdata, _ = run_history(base, built, way(), ops)
            compare(wobs, gobs, 'loaded from %s and edited' % k)
            ensure(gdata == wdata, 'loaded from %s and edited: another file is written', k)
            compare(observe(pdf.loads(wdata)), observe(pdf.load(io.BytesIO(gdata), 'CONTINUOUS')), 'written and reloaded')
    finally:
        for f in files:
            f.close()
        os.unlink(path)
    l = docs.spec_labels(base)
    return bool(edits or len(base['revs']) > 1 or 'packed' in l), sorted(l)


def check_views(case):
    data, ranges, start = case
    single = pdf.bdata_provider(data)
    f = io.BytesIO(data)
    f.seek(start % (len(data) + 1))
    f2 = io.BytesIO(data)
    provs = {'a file read at once': pdf.bdata_provider(f2), 'a file read on demand': pdf.bdata_provider(f, 'CONTINUOUS')}
    maps = tryit(lambda: freeze2(pdf.file_object_map(single)))
    for k, p in provs.items():
        ensure(pdf.bdata_length(p) == len(data), '%s: length %r instead of %d', k, pdf.bdata_length(p), len(data))
        if data:
            ensure(pdf.bdata_all(p) == data, '%s: not all bytes are given', k)
        for a, b in ranges:
            for x, y in ((a, b), (None, b), (a, None), (None, None)):
                w, g = tryit(lambda: pdf.hexdump(single, x, y)), tryit(lambda: pdf.hexdump(p, x, y))
                if w != g:
                    fail('%s: hexdump from %r to %r is %r instead of %r', k, x, y, g, w)
            if data:
                a2, n = a % len(data), max(0, b)
                buf, i, off, sz = p(a2, n)
                ensure(buf[i:i + sz] == data[a2:a2 + n] and off + i == a2, '%s: reading %d bytes at %d gives %r at %r', k, n, a2, buf[i:i + sz], off + i)
                n = min(b, len(data))
                if n > 0:
                    buf, i, off, sz = p(-n, -1)
                    ensure(buf[i:i + sz] == data[-n:] and off + i == len(data) - n, '%s: reading the %d last bytes gives %r at %r', k, n, buf[i:i + sz], off + i)
        m = tryit(lambda: freeze2(pdf.file_object_map(p)))
        if m != maps:
            fail('%s: the map of the file is %.300r instead of %.300r', k, m, maps)
    return len(data) > 20, []


def freeze2(v):
    if type(v) == tuple:
        return ('tuple',) + tuple(freeze2(x) for x in v)
    if type(v) == list:
        return ('list',) + tuple(freeze2(x) for x in v)
    if type(v) == dict:
        return ('dict',) + tuple((k, freeze2(x)) for k, x in sorted(v.items(), key=repr))
    return freeze(v)


def files():
    return st.one_of(st.binary(min_size=1, max_size=60), st.binary(min_size=1, max_size=200), specs.specs(max_revs=3).map(lambda s: pdfgen.build(s).data))


def bases():
    return st.one_of(specs.specs(max_revs=3, max_objs=5, empty=False), specs.specs(max_revs=3, max_objs=5, empty=False), pagegen.page_specs(max_pages=3))


SUBS = [Sub('load', lambda: st.tuples(bases(), history.ops(reload=False, max_size=6), st.integers(0, 400)), check_load, 400, 30000),
        Sub('views', lambda: st.tuples(files(), st.lists(st.tuples(st.integers(0, 250), st.integers(0, 250)), min_size=1, max_size=4), st.integers(0, 300)), check_views, 1500, 60000)]
