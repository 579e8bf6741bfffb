"""Helpers to observe pdfsyntax documents through their public API and compare them with models."""
import pbt
from pbt import ensure, fail
import pdfgen
import values as V
import pdfsyntax as pdf

XREF_KEYS = set('/Size /Prev /XRefStm /Type /W /Index /Length /Filter /DecodeParms'.split())


def ref(n, g=0):
    return complex(g, n)


def user_trailer(t):
    return {k: v for k, v in t.items() if k not in XREF_KEYS}


def order_of(nums, how):
    nums = sorted(nums)
    k = how % 4
    if k == 1:
        nums.reverse()
    elif k == 2:
        nums = nums[how % max(1, len(nums)):] + nums[:how % max(1, len(nums))]
    elif k == 3:
        nums = nums[1::2] + nums[::2]
    return nums


def check_doc(doc, rev, how=0, what='document', deleted_known=()):
    """doc shows exactly the objects of model revision rev."""
    used = pdf.in_use(doc)
    ensure(len(used) == len(set(used)), '%s: in_use lists twice %r', what, used)
    got = {int(r.imag): int(r.real) for r in used}
    want = {n: g for n, (g, v) in rev.objs.items()}
    if got != want:
        fail('%s: objects in use differ: unexpected %r, missing %r', what,
             {n: g for n, g in got.items() if want.get(n) != g}, {n: g for n, g in want.items() if got.get(n) != g})
    for n in order_of(want, how):
        g, v = rev.objs[n]
        o = pdf.get_object(doc, ref(n, g))
        d = pdfgen.matches(v, o)
        if d:
            fail('%s: object %d %d: %s', what, n, g, d)
    top = max(list(want) + [0])
    for n in range(1, top + 4):
        if n not in want:
            o = pdf.get_object(doc, ref(n))
            if o is not None:
                fail('%s: object %d is not defined but read as %r', what, n, o)
    t = user_trailer(doc.trailer())
    w = user_trailer(rev.trailer)
    ensure(V.same(t, w), '%s: trailer %r instead of %r', what, t, w)


def spec_labels(spec):
    l = set()
    for r in spec['revs']:
        l.add(r['form'])
        if r['free']:
            l.add('free')
        if any(r['pack']) and r['form'] != 'table':
            l.add('packed')
        if any(pdfgen.is_stream(v) for _, v in r['set'].values()):
            l.add('stream object')
        if any(g for g, _ in r['set'].values()):
            l.add('generations')
    l.add('revisions=%d' % len(spec['revs']))
    if spec['linear']:
        l.add('linear')
    return l
