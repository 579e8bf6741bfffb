"""Documents as graphs: canonical values and numbering-independent signatures.

A graph is {num: value} plus a trailer. Values are those of the model (lib/pdfgen.py), of lib/refpdf.py or of pdfsyntax: they are first
turned into plain tuples where a reference is ('ref', num). A reference to nothing reads as null, and a null dictionary entry as an absent one.
"""
import hashlib
import pdfgen
import refcodec
import refpdf
import pdfsyntax as pdf


def is_pdf_stream(v):
    return type(v) == pdf.Stream


def parts(v):
    """(entries, content or None, raw) of a stream, else None."""
    if type(v) == tuple:
        e, content, raw = pdfgen.stream_parts(v)
        return e, (content if pdfgen.supported(v[3]) else None), raw
    if isinstance(v, refpdf.RStream):
        return v.entries, (v.content() if v.supported() else None), v.raw
    if is_pdf_stream(v):
        e = v['entries']
        f = e.get('/Filter')
        ok = f is None or all(x in refcodec.SUPPORTED for x in (f if type(f) == list else [f]))
        return e, (v['stream'] if ok else None), v['encoded']
    return None


def canon(v, live, drop=(), reencoded=False, top=True):
    """Plain tuple form. reencoded: the way streams with supported filters are encoded does not matter."""
    p = parts(v) if not isinstance(v, (bool, int, float, complex, str, bytes, list, dict, type(None))) else None
    if p is not None:
        e, content, raw = p
        e = {k: x for k, x in e.items() if k != '/Length'}
        if content is not None and reencoded:
            e = {k: x for k, x in e.items() if k not in ('/Filter', '/DecodeParms')}
            body = content
        elif content is not None:
            body = content
        else:
            body = raw
        return ('stream', canon(e, live, drop, reencoded), body)
    if isinstance(v, complex):
        n = int(v.imag)
        return ('ref', n) if live.get(n) == int(v.real) else ('null',)
    if isinstance(v, bool):
        return ('bool', v)
    if v is None or v == 'null':
        return ('null',)
    if isinstance(v, int):
        return ('int', v)
    if isinstance(v, float):
        return ('real', repr(v + 0.0))
    if isinstance(v, str):
        return ('name', v)
    if isinstance(v, bytes):
        return ('bytes', v)
    if isinstance(v, list):
        return ('list', tuple(canon(x, live, drop, reencoded, False) for x in v))
    if isinstance(v, dict):
        items = [(k, canon(x, live, drop, reencoded, False)) for k, x in v.items() if not (top and k in drop)]
        return ('dict', tuple(sorted((k, x) for k, x in items if x != ('null',))))
    raise TypeError(type(v))


class Graph:
    """objs: {num: (gen, value)}"""

    def __init__(self, objs, trailer, reencoded=False, drop=()):
        live = {n: g for n, (g, v) in objs.items()}
        self.c = {n: canon(v, live, drop, reencoded) for n, (g, v) in objs.items()}
        self.trailer = canon(trailer, live, (), reencoded)

    def reachable(self):
        seen, todo = set(), [self.trailer]
        while todo:
            for n in refs(todo.pop()):
                if n not in seen:
                    seen.add(n)
                    todo.append(self.c[n])
        return seen

    def signatures(self, nums=None, rounds=6):
        """({num: digest}, digest of the trailer): equal for isomorphic graphs."""
        nums = list(self.c) if nums is None else list(nums)
        sig = {n: b'' for n in nums}
        for _ in range(rounds):
            sig = {n: digest(self.c[n], sig) for n in nums}
        return sig, digest(self.trailer, sig)


def refs(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'ref':
                out.append(x[1])
            elif x and x[0] not in ('int', 'real', 'name', 'bytes', 'bool'):
                todo += [y for y in x if isinstance(y, tuple)]
    return out


def digest(t, sig):
    h = hashlib.blake2b(digest_size=10)

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'ref':
                h.update(b'R' + sig.get(x[1], b'?'))
                return
            h.update(b'(%d' % len(x))
            for y in x:
                walk(y)
        else:
            h.update(repr(x).encode('utf-8', 'surrogatepass') + b';')
    walk(t)
    return h.digest()


def compare(a, b, nums_a=None, nums_b=None):
    """None, or why graph a (expected) and b differ."""
    nums_a = list(a.c if nums_a is None else nums_a)
    nums_b = list(b.c if nums_b is None else nums_b)
    if len(nums_a) != len(nums_b):
        return f'{len(nums_b)} objects instead of {len(nums_a)}'
    sa, ta = a.signatures(nums_a)
    sb, tb = b.signatures(nums_b)
    if sorted(sa.values()) != sorted(sb.values()):
        va, vb = list(sa.values()), list(sb.values())
        da = [a.c[n] for n in nums_a if sa[n] not in vb]
        db = [b.c[n] for n in nums_b if sb[n] not in va]
        da.sort(key=lambda x: (len(refs(x)), len(repr(x))))
        db.sort(key=lambda x: (len(refs(x)), len(repr(x))))
        return f'objects differ: expected {str(da[:2])[:300]}, found {str(db[:2])[:300]}'
    if ta != tb:
        return f'trailers differ: expected {a.trailer!r}, found {b.trailer!r}'
    return None


def of_doc(doc, trailer, **kw):
    """Graph of a pdfsyntax document, file-structure streams left out."""
    objs = {}
    for r in pdf.in_use(doc):
        o = pdf.get_object(doc, r)
        if is_pdf_stream(o) and o['entries'].get('/Type') in ('/XRef', '/ObjStm'):
            continue
        objs[int(r.imag)] = (int(r.real), o)
    return Graph(objs, trailer, **kw)


def of_reader(r, trailer, **kw):
    objs = {n: o for n, o in r.objects.items() if not (isinstance(o[1], refpdf.RStream) and o[1].entries.get('/Type') in ('/XRef', '/ObjStm'))}
    return Graph(objs, trailer, **kw)


def of_state(state, **kw):
    return Graph({n: (g, v) for n, (g, v, ex) in state.objs.items()}, state.trailer, **kw)
