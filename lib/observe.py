"""Everything the public API shows of a document, in plain form."""
from pbt import fail
import history
import pdfsyntax as pdf


def freeze(v):
    """Exact plain form of a value of pdfsyntax."""
    if type(v) == pdf.Stream:
        return ('stream', freeze(v['entries']), v['stream'], v['encoded'])
    if type(v) == dict:
        return ('dict', tuple((k, freeze(x)) for k, x in sorted(v.items())))
    if type(v) == list:
        return ('list', tuple(freeze(x) for x in v))
    return (type(v).__name__, repr(v))


def tryit(f):
    try:
        return f()
    except Exception as e:
        return ('raises', type(e).__name__)


def observe(doc):
    out = {}
    used = tryit(lambda: pdf.in_use(doc))
    out['in use'] = used
    if type(used) == list:
        out['objects'] = {r: tryit(lambda: freeze(pdf.get_object(doc, r))) for r in used}
    out['trailer'] = tryit(lambda: freeze(doc.trailer()))
    out['changes'] = tryit(lambda: pdf.changes(doc))
    out['updates'] = tryit(lambda: pdf.updates(doc))
    out['version'] = tryit(lambda: pdf.version(doc))
    out['pages'] = tryit(lambda: [freeze(p) for p in pdf.pages(doc)])
    out['number of pages'] = tryit(lambda: pdf.number_pages(doc))
    out['metadata'] = tryit(lambda: pdf.metadata(doc))
    out['bytes written'] = tryit(lambda: history.write(doc)[1])
    return out


def compare(a, b, what):
    for k in a:
        if a[k] != b[k]:
            if k == 'objects' and type(b[k]) == dict:
                for r in a[k]:
                    if a[k][r] != b[k].get(r):
                        fail('%s: object %r is %r instead of %r', what, r, b[k].get(r), a[k][r])
            x, y = a[k], b[k]
            if k == 'bytes written' and type(x) == bytes and type(y) == bytes:
                i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                x, y = x[max(0, i - 20):i + 60], y[max(0, i - 20):i + 60]
            fail('%s: %s: %s instead of %s', what, k, str(y)[:400], str(x)[:400])
