"""Documents with a real page tree: strategies for file descriptions (lib/pdfgen.py) and a reference model of their pages.

The reference model (flatten, effective) works on plain {num: (gen, value)} maps and shares nothing with pdfsyntax.
"""
from hypothesis import strategies as st
import pdfgen
import values as V

INHERITABLE = ('/Resources', '/MediaBox', '/CropBox', '/Rotate')

BOXES = [[0, 0, 612, 792], [0, 0, 595, 842], [10, 20, 300.5, 400], [0, 0, 100, 100], [-5, -5, 50, 50], [0, 0, 842, 595]]
ANGLES = [0, 90, 180, 270, 360, -90, 450, 90, 180]
ENCODINGS = [None, '/WinAnsiEncoding', '/MacRomanEncoding', {'/Type': '/Encoding', '/Differences': [1, '/A']}]


class Builder:
    """Allocates numbers and objects while a case is drawn."""

    def __init__(self, draw, opt):
        self.draw = draw
        self.opt = opt
        self.objs = {}
        self.next = 1
        self.step = draw(st.sampled_from([1, 1, 1, 2, 3]))
        self.gens = draw(st.sampled_from([0, 0, 1]))
        self.fonts = []
        self.shared = []
        self.pages = []
        self.nodes = []
        self.links = []        # (num, path) of values to be replaced by a reference to some page

    def ref(self, v=None):
        n = self.next
        self.next += self.step
        g = self.draw(st.sampled_from([0, 0, 0, 1, 5])) if self.gens else 0
        self.objs[n] = (g, v)
        return complex(g, n)

    def put(self, ref, v):
        self.objs[int(ref.imag)] = (int(ref.real), v)

    def maybe_indirect(self, v, odds=4):
        return self.ref(v) if self.draw(st.integers(0, odds)) == 0 else v

    def chance(self, n):
        return self.draw(st.integers(0, n)) == n

    # ---- pieces
    def font(self):
        d = self.draw
        if self.fonts and d(st.booleans()):
            return d(st.sampled_from(self.fonts))
        sub = d(st.sampled_from(['/Type1', '/TrueType', '/Type1', '/Type0']))
        f = {'/Type': '/Font', '/Subtype': sub, '/BaseFont': d(st.sampled_from(['/Helvetica', '/Times-Roman', '/ABCDEF+Foo', '/Courier']))}
        e = d(st.sampled_from(ENCODINGS))
        if sub == '/Type0':
            f['/Encoding'] = '/Identity-H'
            f['/DescendantFonts'] = [self.ref({'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': f['/BaseFont'], '/DW': 500})]
        elif e is not None:
            f['/Encoding'] = self.ref(e) if isinstance(e, dict) else e
        if self.chance(3):
            f['/ToUnicode'] = self.ref(('stream', {}, b'1 beginbfchar <41> <0042> endbfchar', '/FlateDecode', None, 'direct'))
        if sub != '/Type0' and self.chance(3):
            f['/FirstChar'] = 65
            f['/LastChar'] = 66
            f['/Widths'] = self.maybe_indirect([500, 600], 2)
        r = self.ref(f)
        self.fonts.append(r)
        return r

    def resources(self):
        d = self.draw
        r = {}
        if d(st.integers(0, 3)):
            names = d(st.lists(st.sampled_from(['/F1', '/F2', '/TT0']), min_size=0 if self.chance(3) else 1, max_size=3, unique=True))
            r['/Font'] = self.maybe_indirect({n: self.font() for n in names})
        if d(st.integers(0, 3)) == 0:
            r['/XObject'] = {'/Im0': self.share()}
        if d(st.integers(0, 4)) == 0:
            r['/ProcSet'] = ['/PDF', '/Text']
        return r

    def share(self):
        """An object that several pages may use."""
        d = self.draw
        if self.shared and d(st.integers(0, 2)):
            return d(st.sampled_from(self.shared))
        if d(st.booleans()):
            e = {'/Type': '/XObject', '/Subtype': '/Form'}
            if d(st.booleans()):  # what only a stream refers to
                e['/Resources'] = {'/Font': {'/F1': self.font()}}
            if self.shared and d(st.booleans()):
                e['/zNext'] = d(st.sampled_from(self.shared))
            v = ('stream', e, d(st.sampled_from([b'q Q', b'0 0 m', b''])), d(st.sampled_from([None, '/FlateDecode', '/DCTDecode'])), None, 'direct')
        else:
            v = {'/zShared': len(self.shared)}
            if self.shared and d(st.booleans()):
                v['/zNext'] = d(st.sampled_from(self.shared))
        r = self.ref(v)
        self.shared.append(r)
        return r

    def attrs(self, need_box):
        d = self.draw
        a = {}
        if need_box or self.chance(2):
            a['/MediaBox'] = self.maybe_indirect(d(st.sampled_from(BOXES)))
        if self.chance(3):
            a['/CropBox'] = self.maybe_indirect(d(st.sampled_from(BOXES)))
        if self.chance(2):
            a['/Rotate'] = self.maybe_indirect(d(st.sampled_from(ANGLES)), 6)
        if self.chance(1):
            a['/Resources'] = self.maybe_indirect(self.resources(), 2)
        return a

    def contents(self):
        d = self.draw
        mk = lambda: self.ref(('stream', {}, d(st.sampled_from([b'q Q', b'', b'BT /F1 12 Tf (x) Tj ET\n', b'1 0 0 1 5 5 cm'])),
                               d(st.sampled_from([None, '/FlateDecode', '/ASCII85Decode'])), None, 'direct'))
        k = d(st.sampled_from(['none', 'one', 'one', 'list', 'ilist', 'shared']))
        if k == 'none':
            return None
        if k == 'one' or (k == 'shared' and not self.streams):
            r = mk()
            self.streams.append(r)
            return r
        if k == 'shared':
            return d(st.sampled_from(self.streams))
        l = [mk() for _ in range(d(st.integers(0, 2)))]
        self.streams += l
        return self.ref(l) if k == 'ilist' else l

    def annots(self, page):
        d = self.draw
        k = d(st.sampled_from(['none', 'none', 'direct', 'indirect']))
        if k == 'none':
            return None if self.draw(st.integers(0, 9)) else d(st.sampled_from(['null', 500j]))
        l = []
        for i in range(d(st.integers(0, 2))):
            a = {'/Type': '/Annot', '/Subtype': d(st.sampled_from(['/Link', '/Text'])), '/Rect': [0, 0, 10, 10]}
            if self.chance(1):
                a['/P'] = page
            if self.chance(3):
                a['/Parent'] = self.share()   # as a form field
            if self.chance(2):
                a['/Dest'] = [None, '/Fit']
                r = self.ref(a)
                self.links.append((r, '/Dest'))
            elif self.chance(2):
                r = a      # a direct annotation
            else:
                r = self.ref(a)
            l.append(r)
        return self.ref(l) if k == 'indirect' else l

    def node(self, parent, depth, budget, boxed):
        """One node of the tree; returns (ref, number of leaves)."""
        d = self.draw
        if depth > 0 and (budget <= 1 or depth >= 4 or d(st.integers(0, 2))):
            r = self.ref()
            self.pages.append(r)
            p = {'/Type': '/Page', '/Parent': parent}
            p.update(self.attrs(not boxed))
            c = self.contents()
            if c is not None:
                p['/Contents'] = c
            a = self.annots(r) if self.opt.get('annots', True) else None
            if a is not None:
                p['/Annots'] = a
            if self.chance(3):
                p['/zX'] = self.share()
            if self.chance(5):
                p['/zOwn'] = self.ref({'/zPrivate': len(self.pages)})
            if self.chance(7):
                p['/zGone'] = complex(0, d(st.sampled_from([500, 501])))   # a reference to nothing is null
            self.put(r, p)
            return r, 1
        r = self.ref()
        self.nodes.append(r)
        n = {'/Type': '/Pages'}
        if parent is not None:
            n['/Parent'] = parent
        n.update(self.attrs(False))
        if depth == 0 and not boxed and d(st.booleans()):
            n['/MediaBox'] = d(st.sampled_from(BOXES))
        boxed = boxed or '/MediaBox' in n
        if depth > 0 and self.opt.get('empty_nodes', True) and self.chance(9):
            k = 0
        else:
            k = d(st.integers(1, 4))
        kids, count = [], 0
        for _ in range(k):
            if budget - count <= 0:
                break
            kid, c = self.node(r, depth + 1, budget - count, boxed)
            kids.append(kid)
            count += c
        n['/Kids'] = self.maybe_indirect(kids, 7)
        n['/Count'] = self.maybe_indirect(count, 7)
        self.put(r, n)
        return r, count


def remap(v, m):
    """A value whose references are renumbered by m."""
    if isinstance(v, complex):
        return complex(v.real, m.get(int(v.imag), int(v.imag)))
    if isinstance(v, dict):
        return {k: remap(x, m) for k, x in v.items()}
    if isinstance(v, list):
        return [remap(x, m) for x in v]
    if isinstance(v, tuple):
        return (v[0], remap(v[1], m)) + v[2:]
    return v


def renumber(b, trailer, m):
    """Objects take the numbers of one another: the catalog is not always the first object, nor parents before their kids."""
    b.objs = {m[n]: (g, remap(v, m)) for n, (g, v) in b.objs.items()}
    for l in (b.pages, b.nodes):
        l[:] = remap(l, m)
    trailer.update(remap(trailer, m))


@st.composite
def page_specs(draw, max_pages=8, max_revs=2, forms=('table', 'stream', 'hybrid'), trailer_info=True, **opt):
    b = Builder(draw, opt)
    b.streams = []
    cat = b.ref()
    root, count = b.node(None, 0, max_pages, False)
    if not count:
        p = b.ref({'/Type': '/Page', '/Parent': root, '/MediaBox': [0, 0, 612, 792]})
        b.pages.append(p)
        g, v = b.objs[int(root.imag)]
        for k in ('/Kids', '/Count'):
            if isinstance(v[k], complex):
                del b.objs[int(v[k].imag)]
        v['/Kids'], v['/Count'] = [p], 1
    c = {'/Type': '/Catalog', '/Pages': root}
    if draw(st.integers(0, 2)) == 0:
        c['/OpenAction'] = [draw(st.sampled_from(b.pages)), '/Fit']
    if draw(st.integers(0, 3)) == 0:
        c['/Outlines'] = b.ref({'/First': b.ref({'/Title': b'(o)', '/Dest': [draw(st.sampled_from(b.pages)), '/Fit']})})
    if b.shared and draw(st.integers(0, 3)) == 0:
        c['/zShared'] = draw(st.sampled_from(b.shared))
    b.put(cat, c)
    for r, k in b.links:
        g, v = b.objs[int(r.imag)]
        v[k][0] = draw(st.sampled_from(b.pages))
    trailer = {'/Root': cat}
    if trailer_info and draw(st.integers(0, 1)):
        trailer['/Info'] = b.ref({'/Title': b'(T)'})
        if draw(st.integers(0, 3)) == 0:   # something that a page and only the trailer refer to
            g, v = b.objs[int(draw(st.sampled_from(b.pages)).imag)]
            v['/zX'] = trailer['/Info']
    if trailer_info and b.shared and draw(st.integers(0, 5)) == 0:
        trailer['/zT'] = draw(st.sampled_from(b.shared))
    if draw(st.integers(0, 2)) == 0:
        b.ref(7)               # an object that nothing uses
    nums = sorted(b.objs)
    if draw(st.integers(0, 2)) == 0:
        renumber(b, trailer, dict(zip(nums, draw(st.permutations(nums)))))
    order = draw(st.permutations(nums)) if draw(st.integers(0, 3)) == 0 else nums
    form = draw(st.sampled_from(forms))
    packs = lambda pool: draw(st.lists(st.lists(st.sampled_from(pool), max_size=5), max_size=2))
    revs = [{'form': form, 'set': {n: b.objs[n] for n in order}, 'free': [], 'pack': packs(nums), 'trailer': dict(trailer)}]
    for k in range(draw(st.integers(0, max_revs - 1))):
        s = {}
        for r in draw(st.lists(st.sampled_from(b.pages + b.nodes), min_size=1, max_size=2, unique=True)):
            n = int(r.imag)
            g, v = b.objs[n]
            v = dict(v, **{'/zMod': k})
            if draw(st.booleans()):
                v['/Rotate'] = draw(st.sampled_from(ANGLES))
            b.objs[n] = s[n] = (g, v)
        revs.append({'form': draw(st.sampled_from(forms)), 'set': s, 'free': [], 'pack': packs(sorted(s)), 'trailer': dict(trailer)})
    return {'ver': draw(st.sampled_from(['1.4', '1.5', '1.7'])), 'fmt': draw(V.styles()), 'tail': draw(st.sampled_from([b'', b'\n'])),
            'linear': int(form != 'hybrid' and draw(st.integers(0, 7)) == 0), 'revs': revs}


# ---------------------------------------------------------------------------------------------
# Reference model

def deref(objs, v):
    """Value of v, following a reference; a reference to nothing is null."""
    if isinstance(v, complex):
        n = int(v.imag)
        if n in objs and objs[n][0] == int(v.real):
            return objs[n][1]
        return None
    return v


def flatten(objs, trailer):
    """Leaves in order: [(num, {attribute: raw value inherited or own}, [nodes from the root])]."""
    out = []

    def walk(ref, inherited, path):
        node = deref(objs, ref)
        here = dict(inherited)
        for k in INHERITABLE:
            if node.get(k) is not None and node.get(k) != 'null':
                here[k] = node[k]
        if node['/Type'] == '/Pages':
            for kid in deref(objs, node['/Kids']):
                walk(kid, here, path + [int(ref.imag)])
        else:
            out.append((int(ref.imag), here, path))
    cat = deref(objs, trailer['/Root'])
    walk(cat['/Pages'], {}, [])
    return out


def angle(objs, here):
    return (deref(objs, here.get('/Rotate')) or 0) % 360


def tree_errors(objs, trailer):
    """Problems of the page tree: wrong counts, wrong parents, a node met twice."""
    errs, seen = [], set()

    def walk(ref, parent):
        n = int(ref.imag)
        if n in seen:
            errs.append(f'node {n} is met twice')
            return 0
        seen.add(n)
        node = deref(objs, ref)
        if type(node) != dict:
            errs.append(f'node {n} is {node!r}')
            return 0
        if parent is None:
            if '/Parent' in node:
                errs.append('the root of the tree has a parent')
        elif node.get('/Parent') != parent:
            errs.append(f'node {n} has parent {node.get("/Parent")!r} instead of {parent!r}')
        if node.get('/Type') == '/Page':
            return 1
        if node.get('/Type') != '/Pages':
            errs.append(f'node {n} has type {node.get("/Type")!r}')
            return 0
        c = 0
        for kid in deref(objs, node['/Kids']):
            c += walk(kid, ref)
        if deref(objs, node.get('/Count')) != c:
            errs.append(f'node {n} has count {deref(objs, node.get("/Count"))!r} instead of {c}')
        return c
    walk(deref(objs, trailer['/Root'])['/Pages'], None)
    return errs


def doc_objs(doc):
    """{num: (gen, value)} of a pdfsyntax document."""
    import pdfsyntax as pdf
    return {int(r.imag): (int(r.real), pdf.get_object(doc, r)) for r in pdf.in_use(doc)}


def deep(objs, v, index, stop=()):
    """Value unfolded into a finite tree: a reference is replaced by the content of its target, a reference to a page by its
    index ({num: index}), a cycle or a link to another node of the page tree by a mark. Compares pages up to renumbering."""
    import graph
    live = {n: g for n, (g, x) in objs.items()}

    def go(t, path):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'ref':
                n = t[1]
                if n in index:
                    return ('page', index[n])
                if n in path:
                    return ('cycle', len(path) - path.index(n))
                v = objs[n][1]
                if type(v) == dict and v.get('/Type') in ('/Page', '/Pages', '/Catalog'):
                    return ('treenode', v['/Type'])
                return ('to', go(graph.canon(v, live), path + (n,)))
            if t and t[0] == 'dict':
                return ('dict', tuple((k, go(x, path)) for k, x in t[1] if k not in stop))
            return tuple(go(x, path) for x in t)
        return t
    return go(graph.canon(v, live), ())


def page_trees(objs, trailer, first=0, nb=None):
    """For each page, its entries and its effective attributes, unfolded. Pages are numbered from the first one of the range."""
    leaves = flatten(objs, trailer)
    sel = leaves[first:] if nb is None else leaves[first:first + nb]
    index = {x[0]: i for i, x in enumerate(sel)}
    for i, x in enumerate(leaves):
        index.setdefault(x[0], ('other', i))
    out = []
    for num, here, _ in sel:
        g, v = objs[num]
        own = {k: x for k, x in v.items() if k != '/Parent' and k not in INHERITABLE}
        out.append((deep(objs, own, index), deep(objs, here, index)))
    return out
