"""Strategies for file descriptions (lib/pdfgen.py)."""
from hypothesis import strategies as st
import values as V

STREAM_CONTENT = [b'', b'BT /F1 12 Tf (Hello) Tj ET', b'endstream', b'a\r', b'a\n', b'\r\n', b'x endobj\n5 0 obj', b'%%EOF\n', b'\x00\x00\x00\x00\x00', b'abc' * 30]


def stream_content():
    # The marker with which pdfsyntax tells that it cannot decode a stream is not used as content.
    return st.one_of(st.sampled_from(STREAM_CONTENT), st.binary(max_size=20).filter(lambda b: not b.startswith(b'#PDFSyntaxException:')))


def predictor_parms(content_len):
    return st.builds(lambda p, c, t: {'/Predictor': p, '/Columns': c, '__tags': t},
                     st.sampled_from([10, 11, 12, 13, 14, 15]), st.just(max(1, content_len)),
                     st.lists(st.integers(0, 4), min_size=1, max_size=3))


FILTERS = [None, None, '/FlateDecode', '/FlateDecode', ['/FlateDecode'], '/ASCIIHexDecode', '/ASCII85Decode', ['/ASCII85Decode', '/FlateDecode'],
           ['/ASCIIHexDecode', '/FlateDecode'], '/RunLengthDecode', '/DCTDecode', ['/FlateDecode', '/DCTDecode'], '/LZWDecode', '/CCITTFaxDecode', ['/JBIG2Decode'], '/JPXDecode', '/Crypt']


@st.composite
def streams(draw, ref=None, entries=None, indirect=True):
    content = draw(stream_content())
    flt = draw(st.sampled_from(FILTERS))
    parms = None
    if flt in ('/FlateDecode', ['/FlateDecode']) and content and draw(st.integers(0, 3)) == 0:
        parms = draw(predictor_parms(len(content)))
    e = entries if entries is not None else draw(st.dictionaries(V.keys(), V.values(3, ref), max_size=2))
    mode = 'direct'
    if indirect:
        mode = draw(st.sampled_from(['direct', 'direct', 'direct', 'indirect']))
    return ('stream', e, content, flt, parms, mode)


def objects(ref=None, stream_weight=1):
    v = V.values(5, ref).filter(lambda x: type(x) != complex)
    return st.one_of(v, st.dictionaries(V.keys(), V.values(4, ref), min_size=1, max_size=3), *([streams(ref)] * stream_weight))


def infos():
    return st.fixed_dictionaries({}, optional={'/Title': V.literal_strings(), '/Author': V.hex_strings(), '/Producer': st.just(b'(p)')})


@st.composite
def specs(draw, max_revs=3, max_objs=6, forms=('table', 'stream', 'hybrid'), linear=True, gens=True, tail=True, cross_forms=True, empty=True):
    ver = draw(st.sampled_from(['1.3', '1.4', '1.5', '1.7']))
    n_extra = draw(st.integers(0, max_objs))
    npages = draw(st.integers(1, 2))
    total = 2 + npages + n_extra
    if draw(st.integers(0, 2)) == 0:
        nums = list(range(1, total + 1))
    else:
        nums = draw(st.lists(st.integers(1, total * 2 + 2), min_size=total, max_size=total, unique=True))
    ref = V.refs(total * 2 + 4)
    cat, pgs = nums[0], nums[1]
    page_nums = nums[2:2 + npages]
    rest = nums[2 + npages:]
    gen = {}
    for n in nums:
        gen[n] = draw(st.sampled_from([0, 0, 0, 0, 1, 3])) if gens and n in rest else 0
    r = lambda n: complex(gen[n], n)
    page = lambda i: {'/Type': '/Page', '/Parent': r(pgs), '/MediaBox': [0, 0, 612, 792]}
    base = {cat: (0, {'/Type': '/Catalog', '/Pages': r(pgs)}),
            pgs: (0, {'/Type': '/Pages', '/Kids': [r(p) for p in page_nums], '/Count': npages})}
    for i, p in enumerate(page_nums):
        base[p] = (0, page(i))
    trailer = {'/Root': r(cat)}
    for n in rest:
        base[n] = (gen[n], draw(objects(ref)))
    if rest and draw(st.booleans()):
        info = rest[0]
        base[info] = (gen[info], draw(infos()))
        trailer['/Info'] = r(info)
    if draw(st.booleans()):
        trailer['/ID'] = [b'<00>', b'<01>']
    if draw(st.integers(0, 5)) == 0:
        trailer['/zT'] = draw(st.sampled_from([b'(trailer)', b'(startxref)', b'(%%EOF)', b'(xref)', b'(endobj)', b'(trailer << >>)', b'(%)', b'(>>)']))
    for n in list(rest):
        # make some objects reachable
        if draw(st.integers(0, 2)) == 0:
            base[cat][1]['/z%d' % n] = r(n)
    form0 = draw(st.sampled_from(forms))
    revs = []
    # the order of writing
    order = draw(st.permutations(nums)) if draw(st.booleans()) else nums
    live = dict(gen)
    dead = {}
    packs = lambda pool: st.lists(st.lists(st.sampled_from(pool), max_size=4), max_size=2) if pool else st.just([])
    revs.append({'form': form0, 'set': {n: base[n] for n in order}, 'free': [], 'pack': draw(packs(order)), 'trailer': dict(trailer)})
    nrev = min(max_revs - 1, draw(st.sampled_from([0, 0, 1, 1, 1, 2, 2, 2, 3, 4])))
    mx = max(nums) + 6 * total + 12  # leave room for the numbers of containers
    fixed = {cat, pgs} | set(page_nums)
    cur = {n: base[n][1] for n in nums}
    for k in range(nrev):
        s, free = {}, []
        nops = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4, 5]))
        for _ in range(nops):
            op = draw(st.sampled_from(['set', 'set', 'add', 'free', 'readd', 'page']))
            pool = [n for n in live if n not in fixed and n not in s and n not in free]
            if op == 'set' and pool:
                n = draw(st.sampled_from(sorted(pool)))
                s[n] = (live[n], draw(infos() if '/Info' in trailer and int(trailer['/Info'].imag) == n else objects(ref)))
            elif op == 'add':
                mx += draw(st.sampled_from([1, 1, 1, 2]))
                s[mx] = (0, draw(objects(ref)))
            elif op == 'free' and pool:
                n = draw(st.sampled_from(sorted(pool)))
                free.append(n)
            elif op == 'readd' and dead:
                n = draw(st.sampled_from(sorted(dead)))
                s[n] = (dead[n], draw(objects(ref)))
                dead.pop(n)
            elif op == 'page':
                n = draw(st.sampled_from(sorted(fixed)))
                if n not in s:
                    v = dict(cur[n])
                    v['/Mod'] = k + draw(st.integers(0, 3)) * 10
                    s[n] = (0, v)
        if not empty and not s and not free:
            s[pgs] = (0, dict(cur[pgs], **{'/Mod': k}))
        for n in free:
            dead[n] = live.pop(n) + 1
        for n, (g, v) in s.items():
            live[n] = g
            cur[n] = v
        mx += 12
        t = dict(trailer)
        if '/Info' in t and int(t['/Info'].imag) not in live:
            del t['/Info']
            trailer.pop('/Info', None)
        if draw(st.integers(0, 3)) == 0:
            t['/zRev'] = k
        form = draw(st.sampled_from(forms)) if cross_forms else form0
        revs.append({'form': form, 'set': s, 'free': free, 'pack': draw(packs(sorted(s))), 'trailer': t})
    spec = {'ver': ver, 'fmt': draw(V.styles()), 'tail': draw(st.sampled_from([b'', b'', b'\n', b'\r\n', b'\n\n'])) if tail else b'',
            'linear': int(linear and form0 != 'hybrid' and draw(st.integers(0, 4)) == 0), 'revs': revs}
    if draw(st.integers(0, 6)) == 0:
        spec['orphans'] = draw(st.lists(st.tuples(st.integers(0, len(revs) - 1), st.integers(1, mx + 2), st.one_of(V.values(3, ref).filter(lambda x: type(x) != complex), st.dictionaries(V.keys(), V.values(2, ref), max_size=2))), min_size=1, max_size=2))
    return spec


BIG_VALUES = [lambda k: k, lambda k: [k], lambda k: {'/K': k, '/R': 1j}, lambda k: b'(%d)' % k, lambda k: '/N%d' % k, lambda k: [], lambda k: k * 1.5]


@st.composite
def big(draw, sizes=(3, 250, 257, 300, 520), starts=(4, 4, 250, 65533), pads=(0, 300, 66000, 140000), forms=('table', 'stream', 'stream', 'hybrid')):
    """Files whose object numbers, positions, indexes inside containers or sections do not fit in one or two bytes."""
    n = draw(st.sampled_from(sizes))
    start = draw(st.sampled_from(starts))
    pad = draw(st.sampled_from(pads))
    kinds = draw(st.lists(st.integers(0, len(BIG_VALUES) - 1), min_size=1, max_size=3))
    nums = list(range(start, start + n))
    holes = draw(st.lists(st.integers(0, n - 1), max_size=3))
    nums = [x for i, x in enumerate(nums) if i not in holes] or nums
    base = {1: (0, {'/Type': '/Catalog', '/Pages': 2j}), 2: (0, {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}),
            3: (0, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 612, 792]})}
    top = nums[-1] + 1
    s = dict(base)
    if pad and draw(st.booleans()):
        s[top] = (0, ('stream', {}, b'x' * pad, None, None, 'direct'))
        pad = 0
    for i, x in enumerate(nums):
        s[x] = (0, BIG_VALUES[kinds[i % len(kinds)]](i))
    if pad:
        s[top] = (0, ('stream', {}, b'y' * pad, None, None, 'direct'))
    if draw(st.booleans()):
        base[1][1]['/zAll'] = [complex(0, x) for x in nums]
    chunk = draw(st.sampled_from([len(nums), len(nums), 100]))
    pack = [nums[i:i + chunk] for i in range(0, len(nums), chunk)]
    revs = [{'form': draw(st.sampled_from(forms)), 'set': s, 'free': [], 'pack': pack, 'trailer': {'/Root': 1j}}]
    for k in range(draw(st.integers(0, 2))):
        some = sorted({nums[i % len(nums)] for i in draw(st.lists(st.integers(0, 600), min_size=1, max_size=6))})
        free = [x for i, x in enumerate(some) if i == 2]
        live = [x for x in some if x not in free and all(x not in r['free'] for r in revs)]
        free = [x for x in free if all(x not in r['free'] for r in revs)]
        revs.append({'form': draw(st.sampled_from(forms)), 'set': {x: (0, [k, x]) for x in live} or {3: base[3]}, 'free': free,
                     'pack': [live] if draw(st.booleans()) else [], 'trailer': {'/Root': 1j}})
    return {'ver': '1.5', 'fmt': draw(V.styles()), 'tail': b'', 'linear': 0, 'revs': revs}
