"""Independent strict reader of PDF files, used as an oracle on the bytes pdfsyntax writes.

Values map as in pdfsyntax (names '/X', raw string tokens as bytes, references complex(gen, num), null 'null'); a stream is RStream.
strict: every deviation is recorded in Reader.errors.
"""
import re
import refcodec

WS = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'


class Bad(Exception):
    pass


class RStream:
    def __init__(self, entries, raw):
        self.entries = entries
        self.raw = raw

    @property
    def filters(self):
        return refcodec.filter_list(self.entries.get('/Filter'))

    def supported(self):
        return all(f in refcodec.SUPPORTED for f in self.filters)

    def content(self):
        return refcodec.decode(self.entries.get('/Filter'), self.raw, self.entries.get('/DecodeParms'))

    def __repr__(self):
        return f'RStream({self.entries}, {self.raw[:60]!r})'


def skip_ws(d, i):
    while i < len(d):
        c = d[i]
        if c in WS:
            i += 1
        elif c == 0x25:
            while i < len(d) and d[i] not in b'\r\n':
                i += 1
        else:
            break
    return i


def word(d, i):
    j = i
    while j < len(d) and d[j] not in WS and d[j] not in DELIM:
        j += 1
    return d[i:j], j


NUM = re.compile(rb'[+-]?(\d+\.\d*|\.\d+|\d+)$')


def parse(d, i):
    """Parse one value at i (white space skipped). Return (value, end)."""
    i = skip_ws(d, i)
    if i >= len(d):
        raise Bad('end of data')
    c = d[i:i + 1]
    if d[i:i + 2] == b'<<':
        res = {}
        i += 2
        while True:
            i = skip_ws(d, i)
            if d[i:i + 2] == b'>>':
                return res, i + 2
            k, i = parse(d, i)
            if type(k) != str or not k.startswith('/'):
                raise Bad(f'dictionary key {k!r}')
            v, i = parse(d, i)
            if k in res:
                raise Bad(f'duplicate key {k}')
            res[k] = v
    if c == b'<':
        j = d.find(b'>', i)
        if j < 0:
            raise Bad('unterminated hexadecimal string')
        if not all(x in WS or x in refcodec.HEXDIG for x in d[i + 1:j]):
            raise Bad('bad hexadecimal string')
        return d[i:j + 1], j + 1
    if c == b'[':
        res = []
        i += 1
        while True:
            i = skip_ws(d, i)
            if d[i:i + 1] == b']':
                return res, i + 1
            v, i = parse(d, i)
            res.append(v)
    if c == b'(':
        depth = 0
        j = i
        while j < len(d):
            x = d[j]
            if x == 0x5c:
                j += 1
            elif x == 0x28:
                depth += 1
            elif x == 0x29:
                depth -= 1
                if depth == 0:
                    return d[i:j + 1], j + 1
            j += 1
        raise Bad('unterminated string')
    if c == b'/':
        w, j = word(d, i + 1)
        return '/' + w.decode('latin-1'), j
    w, j = word(d, i)
    if not w:
        raise Bad(f'unexpected byte {c!r} at {i}')
    m = NUM.match(w)
    if m:
        if b'.' in w:
            return float(w), j
        n = int(w)
        # a reference?
        if w.isdigit():
            k = skip_ws(d, j)
            w2, k2 = word(d, k)
            if w2.isdigit() and k > j:
                k3 = skip_ws(d, k2)
                w3, k4 = word(d, k3)
                if w3 == b'R' and k3 > k2:
                    return complex(int(w2), n), k4
        return n, j
    if w == b'true':
        return True, j
    if w == b'false':
        return False, j
    if w == b'null':
        return 'null', j
    raise Bad(f'unexpected keyword {w!r} at {i}')


class Section:
    def __init__(self):
        self.kind = None
        self.pos = None
        self.entries = {}
        self.trailer = {}
        self.num = None
        self.end = None


class Reader:
    def __init__(self, data):
        self.data = data
        self.errors = []
        self.sections = []       # newest first
        self.objects = {}        # num -> (gen, value)
        self.free = {}
        self.cache = {}
        if not re.match(rb'%PDF-\d\.\d', data):
            self.err('no header')
        self.load()

    def err(self, msg):
        self.errors.append(msg)

    def header_at(self, pos):
        m = re.compile(rb'(\d+) (\d+) obj(?=[\s<\[(/%\x00])').match(self.data, pos)
        return m

    def load(self):
        d = self.data
        m = None
        for m in re.finditer(rb'startxref(?:\r\n|\r|\n)(\d+)(?:\r\n|\r|\n)%%EOF(?:\r\n|\r|\n)?', d):
            pass
        if m is None:
            raise Bad('no startxref')
        if d[m.end():].strip(WS):
            self.err('data after the last %%EOF')
        pos = int(m.group(1))
        self.startxref = pos
        seen = set()
        todo = [pos]
        while todo:
            p = todo.pop(0)
            if p in seen:
                self.err(f'circular /Prev {p}')
                continue
            seen.add(p)
            sec = self.section(p)
            self.sections.append(sec)
            if '/XRefStm' in sec.trailer:
                x = sec.trailer['/XRefStm']
                s2 = self.section(x)
                if s2.kind != 'stream':
                    self.err('/XRefStm is not an xref stream')
                #Objects that the table hides as free are those of the stream
                for n, e in s2.entries.items():
                    if n not in sec.entries or (sec.entries[n][0] == 'f' and e[0] != 'f'):
                        sec.entries[n] = e
                sec.hybrid = s2
            if '/Prev' in sec.trailer:
                v = sec.trailer['/Prev']
                if type(v) != int or not 0 <= v < len(d):
                    self.err(f'/Prev {v!r}')
                else:
                    todo.append(v)
        self.trailer = dict(self.sections[0].trailer)
        merged = {}
        for s in self.sections:
            for n, e in s.entries.items():
                if n not in merged:
                    merged[n] = e
        self.merged = merged
        top = max([n for s in self.sections for n in s.entries] + [0])
        size = self.trailer.get('/Size')
        if type(size) != int or size <= top:
            self.err(f'/Size {size!r} but the greatest object number is {top}')
        for s in self.sections:
            if s.entries and type(s.trailer.get('/Size')) == int and s.trailer['/Size'] <= max(s.entries):
                self.err(f'/Size {s.trailer["/Size"]} of a section smaller than its entries')
        for n, e in sorted(merged.items()):
            if e[0] == 'n':
                self.objects[n] = (e[2], self.direct(n, e[1], e[2]))
            elif e[0] == 'f':
                self.free[n] = e
        for n, e in sorted(merged.items()):
            if e[0] == 'c':
                self.objects[n] = (0, self.embedded(n, e[1], e[2]))
        for cn in {e[1] for e in merged.values() if e[0] == 'c'}:
            ext = self.objects[cn][1].entries.get('/Extends')
            if isinstance(ext, complex):
                x = self.objects.get(int(ext.imag), (0, None))[1]
                if not isinstance(x, RStream) or x.entries.get('/Type') != '/ObjStm':
                    self.err(f'object stream {cn} extends {ext}, which is not an object stream')

    def section(self, p):
        d = self.data
        s = Section()
        s.pos = p
        if d[p:p + 4] == b'xref':
            s.kind = 'table'
            m = re.compile(rb'xref(\r\n|\n|\r)').match(d, p)
            if not m:
                raise Bad(f'xref keyword at {p}')
            i = m.end()
            hd = re.compile(rb'(\d+) (\d+) *(\r\n|\n|\r)')
            en = re.compile(rb'(\d{10}) (\d{5}) ([nf])( \r| \n|\r\n)')
            while True:
                m = hd.match(d, i)
                if not m:
                    break
                i = m.end()
                first, nb = int(m.group(1)), int(m.group(2))
                for k in range(nb):
                    e = en.match(d, i)
                    if not e:
                        self.err(f'xref entry of {first + k} at {i} is not 20 bytes: {d[i:i+22]!r}')
                        raise Bad(self.errors[-1])
                    i = e.end()
                    n = first + k
                    if n in s.entries:
                        self.err(f'object {n} twice in one section')
                    s.entries[n] = (e.group(3).decode(), int(e.group(1)), int(e.group(2)))
            if d[i:i + 7] != b'trailer':
                self.err(f'no trailer keyword at {i}: {d[i:i+20]!r}')
                raise Bad(self.errors[-1])
            s.trailer, s.end = parse(d, i + 7)
        else:
            m = self.header_at(p)
            if not m:
                self.err(f'no xref section at {p}: {d[p:p+20]!r}')
                raise Bad(self.errors[-1])
            s.kind = 'stream'
            s.num = int(m.group(1))
            v = self.direct(s.num, p, int(m.group(2)))
            if not isinstance(v, RStream) or v.entries.get('/Type') != '/XRef':
                raise Bad(f'object at {p} is not an xref stream: {v!r}')
            s.trailer = v.entries
            w = v.entries.get('/W')
            if type(w) != list or len(w) != 3 or not all(type(x) == int and x >= 0 for x in w):
                raise Bad(f'/W {w!r}')
            data = v.content()
            idx = v.entries.get('/Index', [0, v.entries.get('/Size')])
            tot = sum(idx[1::2])
            if len(data) != tot * sum(w):
                self.err(f'xref stream has {len(data)} bytes for {tot} entries of {sum(w)}')
            i = 0
            prev_end = -1
            for a, b in zip(idx[::2], idx[1::2]):
                if a <= prev_end - 1:
                    self.err('/Index ranges are not in order')
                prev_end = a + b
                for n in range(a, a + b):
                    f = []
                    for x in w:
                        f.append(int.from_bytes(data[i:i + x], 'big'))
                        i += x
                    t = f[0] if w[0] else 1
                    if n in s.entries:
                        self.err(f'object {n} twice in one section')
                    if t not in (0, 1, 2):
                        self.err(f'entry type {t}')
                    s.entries[n] = ('fnc'[t] if t < 3 else '?', f[1], f[2])
            if s.entries.get(s.num) not in (('n', p, 0), None):
                self.err(f'xref stream {s.num} at {p} has entry {s.entries.get(s.num)}')
        # free list (a field of one byte cannot hold the generation of entry 0)
        narrow = s.kind == 'stream' and w[2] < 2
        fr = {n: e for n, e in s.entries.items() if e[0] == 'f'}
        if fr:
            if 0 not in fr:
                self.err('free entries without entry 0')
            else:
                n, seen = 0, []
                while n in fr and n not in seen:
                    seen.append(n)
                    n = fr[n][1]
                s.free_chain = seen
                if n != 0:
                    self.err(f'free list leads to {n}')
                elif set(seen) != set(fr):
                    self.err(f'free list visits {seen}, free entries are {sorted(fr)}')
                if fr[0][2] != 65535 and not narrow:
                    self.err('entry 0 has not generation 65535')
        return s

    def direct(self, n, pos, gen):
        key = (n, pos)
        if key in self.cache:
            return self.cache[key]
        m = self.header_at(pos)
        d = self.data
        if not m or int(m.group(1)) != n or int(m.group(2)) != gen:
            self.err(f'entry of object {n} {gen} points at {d[pos:pos+20]!r}')
            raise Bad(self.errors[-1])
        v, i = parse(d, m.end())
        j = skip_ws(d, i)
        if d[j:j + 6] == b'stream':
            if type(v) != dict:
                raise Bad('stream without dictionary')
            m2 = re.compile(rb'stream(\r\n|\n)').match(d, j)
            if not m2:
                self.err(f'stream keyword of object {n} is not followed by an end of line')
                raise Bad(self.errors[-1])
            a = m2.end()
            ln = v.get('/Length')
            if type(ln) == complex:
                ln = self.resolve_length(int(ln.imag), n)
            if type(ln) == int:
                raw = d[a:a + ln]
                m3 = re.compile(rb'(\r\n|\n|\r)?endstream').match(d, a + ln)
                if not m3 or len(raw) != ln:
                    self.err(f'/Length {ln} of object {n} does not lead to endstream')
                    raise Bad(self.errors[-1])
                i = m3.end()
            else:
                self.err(f'/Length {ln!r} of object {n}')
                raise Bad(self.errors[-1])
            v = RStream(v, raw)
            j = skip_ws(d, i)
        if d[j:j + 6] != b'endobj':
            self.err(f'object {n} is not ended by endobj: {d[j:j+20]!r}')
            raise Bad(self.errors[-1])
        self.cache[key] = v
        return v

    def resolve_length(self, num, n):
        e = self.merged.get(num, ('?',)) if hasattr(self, 'merged') else ('?',)
        if e[0] == 'n':
            return self.direct(num, e[1], e[2])
        if e[0] == 'c':
            c = self.merged.get(e[1], ('?',))
            if c[0] == 'n' and e[1] != n:
                self.objects.setdefault(e[1], (c[2], self.direct(e[1], c[1], c[2])))
                return self.embedded(num, e[1], e[2])
        self.err(f'the /Length of object {n} is not found')
        raise Bad(self.errors[-1])

    def embedded(self, n, cn, index):
        c = self.objects.get(cn)
        if self.merged.get(cn, ('?',))[0] != 'n' or c is None:
            self.err(f'object {n} is in container {cn} which is not an object')
            raise Bad(self.errors[-1])
        key = ('c', cn)
        if key not in self.cache:
            v = c[1]
            if not isinstance(v, RStream) or v.entries.get('/Type') != '/ObjStm':
                self.err(f'container {cn} of object {n} is {v!r}')
                raise Bad(self.errors[-1])
            data = v.content()
            nb, first = v.entries.get('/N'), v.entries.get('/First')
            i = 0
            head = []
            for _ in range(2 * nb):
                x, i = parse(data, i)
                head.append(x)
            if i > first:
                self.err(f'/First {first} of {cn} is inside its header')
            if data[i:first].strip(WS):
                self.err(f'header of object stream {cn} holds more than /N pairs')
            objs = []
            for a, o in zip(head[::2], head[1::2]):
                x, e = parse(data, first + o)
                objs.append((a, x, first + o, e))
            for x, y in zip(objs, objs[1:] + [(None, None, len(data), None)]):
                if x[3] > y[2]:
                    self.err(f'objects overlap in object stream {cn}')
                elif skip_ws(data, x[3]) < y[2]:
                    self.err(f'object {x[0]} of object stream {cn} is followed by {data[x[3]:y[2]]!r}')
            self.cache[key] = objs
        objs = self.cache[key]
        if not 0 <= index < len(objs) or objs[index][0] != n:
            self.err(f'object {n} is not at index {index} of object stream {cn}')
            raise Bad(self.errors[-1])
        return objs[index][1]

    def get(self, ref):
        """Resolve a reference: value or None."""
        if type(ref) == complex:
            o = self.objects.get(int(ref.imag))
            return o[1] if o else None
        return ref


def read(data):
    """Return (Reader or None, list of errors)."""
    try:
        r = Reader(data)
        return r, r.errors
    except Bad as e:
        return None, [str(e)]
    except (ValueError, KeyError, TypeError, IndexError, NotImplementedError) as e:
        import traceback
        return None, [f'strict reader: {type(e).__name__}: {e} {traceback.format_exc()[-300:]}']
