"""Independent PDF file writer: from a literal description of a file to its bytes and a model of its contents.

Nothing here uses pdfsyntax. A description (see specs()) is a plain literal:

{'ver': '1.4', 'fmt': b'..', 'tail': b'', 'linear': 0|1, 'revs': [rev, ...]}
rev = {'form': 'table'|'stream'|'hybrid', 'set': {num: (gen, value)}, 'free': [num, ...], 'pack': [[num, ...], ...],
       'trailer': {...}}

value is a PDF value of lib/values.py or a stream ('stream', entries, content, filter, parms, length_mode).
"""
import zlib
import refcodec
import values as V
from values import Style


class Rev:
    """Model of the document after one revision."""

    def __init__(self):
        self.objs = {}         # num -> (gen, value)  every object in use, containers included
        self.trailer = {}
        self.containers = set()  # numbers of /ObjStm and /XRef streams written by the writer
        self.end = 0           # offset just after %%EOF and its end of line
        self.form = None
        self.added, self.updated, self.deleted = set(), set(), set()


class Built:
    def __init__(self):
        self.data = b''
        self.revs = []
        self.regions = []      # (kind, start, end, info), in file order


class Container:
    """Value standing for a file-structure stream in the model."""

    def __init__(self, kind, nums=()):
        self.kind = kind
        self.nums = list(nums)

    def __repr__(self):
        return f'Container({self.kind}, {self.nums})'


def is_stream(v):
    return isinstance(v, tuple)


def stream_parts(v):
    """entries as read back (without /Length), content, raw encoded bytes."""
    _, entries, content, flt, parms, _ = v
    e = dict(entries)
    if flt is not None:
        e['/Filter'] = flt
    if parms is not None:
        e['/DecodeParms'] = strip_tags(parms)
    raw = refcodec.encode(flt, content, None, parms)
    return e, content, raw


def strip_tags(p):
    if isinstance(p, list):
        return [strip_tags(x) for x in p]
    if isinstance(p, dict):
        return {k: v for k, v in p.items() if not k.startswith('__')}
    return p


def supported(flt):
    return all(f in refcodec.SUPPORTED for f in refcodec.filter_list(flt))


class Writer:
    def __init__(self, spec):
        self.spec = spec
        self.s = Style(spec['fmt'])
        self.out = bytearray()
        self.b = Built()
        self.objs = {}
        self.freed = {}        # num -> generation of the free entry
        self.containers = set()
        self.packed = {}        # num -> number of its container
        self.max = 0
        self.prev_xref = None
        self.prev_xnum = None
        self.sections = 0
        self.eols = self.s.choose([b'\n', b'\r\n', b'\n', b'\r'])

    # ---- small pieces
    def eol(self):
        return self.eols

    def emit(self, kind, data, info=None):
        start = len(self.out)
        self.out += data
        if kind:
            self.b.regions.append((kind, start, len(self.out), info))
        return start

    def new_num(self):
        self.max += 1 + (1 if self.s.pick(9) == 8 else 0)
        return self.max

    def between(self):
        """White space, and sometimes a comment, between two file-level items."""
        k = self.s.pick(14)
        if k == 0:
            self.emit(None, self.eol())
        elif k == 1:
            self.emit(None, b' ')
        elif k == 2:
            t = self.s.choose(self.spec.get('comments') or [b'%note', b'% 12 0 obj', b'%\xe2\xe3\xcf\xd3', b'%endobj', b'%%Page 1'])
            self.emit('COMMENT', t)
            self.emit(None, self.eol())

    # ---- objects
    def object_bytes(self, num, gen, value, lengths):
        s = self.s
        head = b'%d %d obj' % (num, gen)
        if is_stream(value):
            _, entries, content, flt, parms, mode = value
            e, _, raw = stream_parts(value)
            if mode == 'indirect':
                e['/Length'] = lengths
            else:
                e['/Length'] = len(raw)
            items = list(e.items())
            if items:
                r = s.pick(len(items))
                items = items[r:] + items[:r]
            toks = V.tokens_of(dict(items), s)
            body = V.join_tokens(toks, s)
            body += s.choose([b'\n', b'\r\n', b' ', b'']) + b'stream' + s.choose([b'\n', b'\r\n']) + raw
            body += s.choose([b'\n', b'\r\n', b'\n', b'']) + b'endstream'
            body += s.choose([b'\n', b'\r\n', b' ', b'\n'])
        else:
            toks = V.tokens_of(value, s)
            body = V.join_tokens(toks, s)
            body += V.gap(s, V.need_gap(toks[-1], b'endobj'))
        sep = s.choose([b'\n', b'\r\n', b' ', b'\n'])
        if body[:1] in (b'<', b'[', b'(', b'/') and s.pick(5) == 0:
            sep = b''
        return head + sep + body + b'endobj'

    def put_object(self, num, gen, value, offsets, length_ref=None, embedded=None):
        self.between()
        if self.out[-1:] not in (b'\n', b'\r', b' '):
            self.emit(None, self.eol())
        pos = self.emit('IND_OBJ', self.object_bytes(num, gen, value, length_ref),
                        {'num': num, 'gen': gen, 'embedded': embedded or []})
        if self.s.pick(6) != 5 or True:
            self.emit(None, self.eol())
        offsets[num] = ('n', pos, gen)

    def objstm_value(self, nums, rev):
        """Build the stream value of an object stream holding nums."""
        s = self.s
        body = b''
        head = []
        for n in nums:
            v = rev['set'][n][1]
            t = V.spell(v, s)
            head.append((n, len(body)))
            body += t + (s.choose([b' ', b'\n', b'\r\n', b' %c\n']))
        if body and s.pick(4) == 0 and body[-1:] == b' ':
            body = body[:-1]
        h = b' '.join(b'%d %d' % x for x in head)
        h += s.choose([b'\n', b' ', b'\r\n'])
        flt = s.choose([None, '/FlateDecode', ['/FlateDecode'], '/ASCIIHexDecode'])
        return ('stream', {'/Type': '/ObjStm', '/N': len(nums), '/First': len(h)}, h + body, flt, None, 'direct'), [(n, len(h) + o) for n, o in head]

    # ---- cross references
    def runs(self, nums):
        """Split sorted numbers into subsections."""
        res = []
        for n in nums:
            if res and res[-1][-1] + 1 == n and not (n > 1 and self.s.pick(11) == 10):
                res[-1].append(n)
            else:
                res.append([n])
        return res

    def table_bytes(self, entries, trailer):
        s = self.s
        end = s.choose([b' \n', b'\r\n', b' \r'])
        out = b'xref' + s.choose([b'\n', b'\r\n', b'\r', b'\n'])
        entry_pos = []
        runs = self.runs(sorted(entries))
        if len(runs) > 1 and s.pick(9) == 8:
            runs.reverse() # subsections may come in any order
        for run in runs:
            out += b'%d %d' % (run[0], len(run)) + s.choose([b'\n', b' \n', b'\r\n'])
            for n in run:
                k, a, g = entries[n][:3]
                out += b'%010d %05d %s' % (a, g, b'f' if k == 'f' else b'n') + end
        out += b'trailer' + s.choose([b'\n', b'\r\n', b' ', b'', b'\n'])
        out += V.spell(trailer, s)
        return out

    def stream_value(self, entries, trailer, filt=True):
        """Value of an xref stream for entries {num: ('n', pos, gen) | ('f', next, gen) | ('c', container, index)}."""
        s = self.s
        nums = sorted(entries)
        runs = self.runs(nums)
        a = max([e[1] for e in entries.values()])
        g = max([e[2] for e in entries.values()])
        w1 = max(1, (a.bit_length() + 7) // 8) + s.choose([0, 0, 1, 2])
        w2 = (g.bit_length() + 7) // 8 + s.choose([0, 0, 1])
        if w2 > 1 and entries.get(0, ('f', 0, 65535))[2] < 65535:
            entries[0] = ('f', entries[0][1], 65535)
        w0 = s.choose([1, 1, 1, 2])
        types = {'f': 0, 'n': 1, 'c': 2}
        if all(e[0] == 'n' for e in entries.values()) and s.pick(2):
            w0 = 0
        data = b''
        for run in runs:
            for n in run:
                k, x, y = entries[n][:3]
                data += (types[k].to_bytes(w0, 'big') if w0 else b'') + x.to_bytes(w1, 'big') + y.to_bytes(w2, 'big')
        e = dict(trailer)
        e['/Type'] = '/XRef'
        e['/W'] = [w0, w1, w2]
        if not (len(runs) == 1 and nums[0] == 0 and nums[-1] == trailer['/Size'] - 1 and s.pick(2)):
            e['/Index'] = [x for r in runs for x in (r[0], len(r))]
        parms = None
        flt = None
        if filt:
            k = s.pick(6)
            flt = [None, '/FlateDecode', '/FlateDecode', ['/FlateDecode'], '/ASCIIHexDecode', '/FlateDecode'][k]
            if k == 5 or k == 2:
                parms = {'/Predictor': s.choose([12, 12, 11, 15]), '/Columns': w0 + w1 + w2}
                parms['__tags'] = s.choose([[2], [2, 1, 4], [0, 3]])
        return ('stream', e, data, flt, parms, 'direct')

    def finish(self, pos):
        s = self.s
        if self.out[-1:] not in b'\r\n':
            self.emit(None, self.eol())
        e = self.eol()
        self.emit('STARTXREF', b'startxref' + e + b'%d' % pos, pos)
        self.emit(None, e)
        self.emit('COMMENT', b'%%EOF')
        return e

    def free_entries(self, nums, gens, stream=False):
        """Chain the free entries of one section, in order, back to 0."""
        chain = [0] + sorted(n for n in nums if n)
        res = {}
        for i, n in enumerate(chain):
            nxt = chain[i + 1] if i + 1 < len(chain) else 0
            # the generation of entry 0 is often cut to the width of the last field
            res[n] = ('f', nxt, gens[n] if n else self.s.choose([65535, 255, 0]) if stream else 65535)
        return res

    def wrong(self, entries, keep=()):
        """Give a section the wrong entries the description asks for: [(section, entry, kind)], counting sections as written."""
        k = self.sections
        self.sections += 1
        for sec, e, kind in self.spec.get('wrong', ()):
            nums = [n for n in sorted(entries) if n and entries[n][0] != 'f' and n not in keep]
            if sec != k or not nums:
                continue
            n = nums[e % len(nums)]
            t, a, g = entries[n]
            other = entries[nums[(e + 1) % len(nums)]]
            if kind == 'shift':
                entries[n] = (t, a + 1, g) if t == 'n' else (t, a, g + 1)
            elif kind == 'other' and t == other[0]:
                entries[n] = (t, other[1], other[2] if t == 'c' else g)
            elif kind == 'gen':
                entries[n] = (t, a, g + 1) if t == 'n' else (t, a, g)
            elif kind == 'free':
                entries[n] = ('f', 0, 0)
            elif kind == 'drop' and len(entries) > 2:
                del entries[n]
            elif kind == 'zero' and t == 'n':
                entries[n] = (t, 0, g)
            elif kind == 'container' and t == 'c':
                entries[n] = (t, a + 1, g)

    # ---- one revision
    def prepare(self, rev):
        """Choose what is packed, allocate length objects and containers. Return the list of work."""
        form = rev['form']
        pack = []
        used = set()
        if form != 'table':
            for grp in rev['pack']:
                g = [n for n in grp if n in rev['set'] and rev['set'][n][0] == 0 and not is_stream(rev['set'][n][1])
                     and n not in used and type(rev['set'][n][1]) != complex]
                g = list(dict.fromkeys(g))
                used |= set(g)
                if g or (grp == [] and self.s.pick(2)):
                    pack.append((g, None))
            self.repack(rev, pack, used)
        return pack, used

    def repack(self, rev, pack, used):
        """Write a new version of an object stream under the same number, with all of its objects that are still in use."""
        old = sorted({c for n, c in self.packed.items() if n in self.objs and c in self.containers})
        if not old or self.s.pick(3):
            return
        cn = old[self.s.pick(len(old))]
        members = sorted(n for n, c in self.packed.items() if c == cn and n in self.objs)
        if cn in rev['set'] or cn in rev['free'] or any(is_stream(self.objs[n][1]) or self.objs[n][0] for n in members):
            return
        g = []
        for n in members:
            if n in rev['free'] or n in used or (n in rev['set'] and (is_stream(rev['set'][n][1]) or type(rev['set'][n][1]) == complex)):
                continue
            if n not in rev['set']:
                rev['set'][n] = self.objs[n]
            g.append(n)
        if pack and pack[0][1] is None and self.s.pick(2):
            g = pack.pop(0)[0] + g
        used |= set(g)
        pack.append((g[::-1] if self.s.pick(3) == 2 else g, cn))

    def apply_model(self, rev, extra):
        """Update the running model with this revision; extra: writer-made objects {num: (gen, value)}."""
        m = Rev()
        before = dict(self.objs)
        for n in rev['free']:
            if n in self.objs:
                self.freed[n] = self.objs[n][0] + 1
                del self.objs[n]
                self.containers.discard(n)
        for n, (g, v) in rev['set'].items():
            self.objs[n] = (g, v)
            self.freed.pop(n, None)
            self.containers.discard(n)
        for n, (g, v) in extra.items():
            self.objs[n] = (g, v)
            if isinstance(v, Container):
                self.containers.add(n)
        m.objs = dict(self.objs)
        m.containers = set(self.containers)
        touched = set(rev['set']) | set(extra)
        m.added = {n for n in touched if n not in before}
        m.updated = {n for n in touched if n in before}
        m.deleted = {n for n in before if n not in self.objs}
        m.form = rev['form']
        return m

    def write_rev(self, rev, first):
        s = self.s
        start_max = self.max
        nums = list(rev['set'])
        self.max = max([self.max] + nums + list(rev['free']))
        rev = dict(rev, set=dict(rev['set']))
        pack, packed = self.prepare(rev)
        nums = list(rev['set'])
        offsets = {}
        extra = {}
        order = [n for n in nums if n not in packed]
        for r, n, v in self.spec.get('orphans', ()):
            if r == len(self.b.revs): # an object that no section indexes
                self.put_object(n, 0, v, {})
                [r for r in self.b.regions if r[0] == 'IND_OBJ'][-1][3]['orphan'] = True
        k = s.pick(3)
        if k == 1:
            order = order[::-1]
        elif k == 2 and order:
            r = s.pick(len(order))
            order = order[r:] + order[:r]
        lengths = {}
        for n in order:
            v = rev['set'][n][1]
            if is_stream(v) and v[5] == 'indirect':
                ln = self.new_num()
                lengths[n] = ln
                extra[ln] = (0, len(stream_parts(v)[2]))
        late = []
        for n in order:
            g, v = rev['set'][n]
            if n in lengths:
                if s.pick(2):
                    self.put_object(lengths[n], 0, extra[lengths[n]][1], offsets)
                else:
                    late.append(lengths[n])
            self.put_object(n, g, v, offsets, complex(0, lengths[n]) if n in lengths else None)
        for ln in late:
            self.put_object(ln, 0, extra[ln][1], offsets)
        stm_entries = {}
        for n in rev['set']:
            self.packed.pop(n, None)
        chain = None
        for grp, cn in pack:
            if cn is None:
                cn = self.new_num()
            v, emb = self.objstm_value(grp, rev)
            if chain and self.s.pick(3) == 0:
                v[1]['/Extends'] = complex(0, chain)
            chain = cn
            self.put_object(cn, 0, v, offsets, embedded=[(n, p, i) for i, (n, p) in enumerate(emb)])
            extra[cn] = (0, Container('/ObjStm', grp))
            for i, n in enumerate(grp):
                stm_entries[n] = ('c', cn, i)
                self.packed[n] = cn
        form = rev['form']
        xnum = None
        if form != 'table':
            if self.prev_xnum and self.prev_xnum not in rev['set'] and self.prev_xnum in self.objs and s.pick(3) == 0:
                xnum = self.prev_xnum
            else:
                xnum = self.new_num()
            extra[xnum] = (0, Container('/XRef'))
        gens = {n: min(self.objs[n][0] + 1, 65535) for n in rev['free'] if n in self.objs}
        m = self.apply_model(rev, extra)
        trailer = dict(rev['trailer'])
        trailer['/Size'] = self.max + 1
        if self.prev_xref is not None:
            if len(self.b.revs) not in self.spec.get('unlinked', ()):
                trailer['/Prev'] = self.prev_xref
        free = set(gens)
        if first and s.pick(3):
            # a single subsection from 0: gaps are free
            for n in range(1, self.max + 1):
                if n not in offsets and n not in stm_entries and n != xnum:
                    free.add(n)
                    gens[n] = s.choose([65535, 0, 1, 0])
        m.trailer = trailer
        self.between()
        if self.out[-1:] not in b'\r\n':
            self.emit(None, self.eol())
        if form == 'table':
            ent = dict(offsets)
            if first or free or s.pick(2):
                ent.update(self.free_entries(free, gens))
            self.wrong(ent)
            pos = self.emit('XREFTABLE', self.table_bytes(ent, trailer), {'entries': ent, 'trailer': trailer})
        elif form == 'stream':
            ent = dict(offsets)
            ent.update(stm_entries)
            if first or free or s.pick(2):
                ent.update(self.free_entries(free, gens, True))
            pos = len(self.out)
            ent[xnum] = ('n', pos, 0)
            self.wrong(ent)
            v = self.stream_value(ent, trailer)
            pos = self.emit('IND_OBJ', self.object_bytes(xnum, 0, v, None), {'num': xnum, 'gen': 0, 'embedded': [], 'xref': ent, 'dict': trailer})
        else:
            xpos = len(self.out)
            sent = dict(stm_entries)
            if s.pick(2) or not sent:
                sent[xnum] = ('n', xpos, 0)
            st_trailer = {k: v for k, v in trailer.items() if k != '/Prev'} if s.pick(2) else {'/Size': trailer['/Size']}
            self.wrong(sent)
            v = self.stream_value(sent, st_trailer)
            self.emit('IND_OBJ', self.object_bytes(xnum, 0, v, None), {'num': xnum, 'gen': 0, 'embedded': [], 'xref': sent, 'dict': st_trailer})
            self.emit(None, self.eol())
            ent = dict(offsets)
            ent[xnum] = ('n', xpos, 0)
            hidden = set(stm_entries) if (first or s.pick(2)) else set()
            free = (free - set(stm_entries)) | hidden
            gens.update({n: s.choose([0, 65535]) for n in hidden})
            if first or free:
                ent.update(self.free_entries(free, gens))
            trailer['/XRefStm'] = xpos
            self.wrong(ent)
            pos = self.emit('XREFTABLE', self.table_bytes(ent, trailer), {'entries': ent, 'trailer': trailer})
        e = self.finish(pos)
        self.emit(None, e)
        m.end = len(self.out)
        self.prev_xref = pos
        self.prev_xnum = xnum if form != 'table' else self.prev_xnum
        self.b.revs.append(m)

    def header(self):
        e = self.eol()
        self.emit('COMMENT', b'%PDF-' + self.spec['ver'].encode())
        self.emit(None, e)
        if self.s.pick(3):
            self.emit('COMMENT', b'%\xe2\xe3\xcf\xd3')
            self.emit(None, e)
        if self.spec.get('long'):
            self.emit('COMMENT', b'%' + b'c' * self.spec['long'])
            self.emit(None, e)

    def write_linear(self, rev):
        """First revision in linearized order: two cross-reference sections."""
        s = self.s
        nums = list(rev['set'])
        self.max = max(nums)
        lin = self.new_num()
        a_nums = nums[:max(1, len(nums) // 2)]
        b_nums = nums[len(a_nums):]
        form = 'stream' if rev['form'] == 'stream' else 'table'
        extra = {lin: (0, None)}
        lengths = {}
        for n in nums:
            v = rev['set'][n][1]
            if is_stream(v) and v[5] == 'indirect':
                ln = self.new_num()
                lengths[n] = ln
                extra[ln] = (0, len(stream_parts(v)[2]))
        x1 = x2 = None
        if form == 'stream':
            x1, x2 = self.new_num(), self.new_num()
            extra[x1] = (0, Container('/XRef'))
            extra[x2] = (0, Container('/XRef'))
        size = self.max + 1
        saved = (bytes(self.out), list(self.b.regions), s.i)
        guess = {'L': 0, 'T': 0, 'off': {}, 'x1': 0}
        for _ in range(6):
            self.out = bytearray(saved[0])
            self.b.regions = list(saved[1])
            s.i = saved[2]
            off = {}
            L = {'/Linearized': 1, '/L': b'%010d' % guess['L'], '/H': [0, 0], '/O': a_nums[0], '/E': 0, '/N': 1, '/T': b'%010d' % guess['T']}
            self.lin_object(lin, L, off)
            g = guess['off']
            ea = {n: ('n', g.get(n, (0, 0, 0))[1], g.get(n, (0, 0, 0))[2]) for n in [lin] + a_nums + [lengths[n] for n in a_nums if n in lengths]}
            t1 = dict(rev['trailer'])
            t1['/Size'] = size
            if form == 'table':
                p1 = self.emit('XREFTABLE', self.lin_table(ea, t1, guess['T']), {'entries': ea})
            else:
                p1 = len(self.out)
                ea[x1] = ('n', p1, 0)
                p1 = self.emit('IND_OBJ', self.lin_xref(x1, ea, t1, guess['T']), {'num': x1, 'gen': 0, 'embedded': [], 'xref': ea})
            e = self.finish(0)
            self.emit(None, e)
            for n in a_nums + b_nums:
                gg, v = rev['set'][n]
                if n in lengths:
                    self.put_object(lengths[n], 0, extra[lengths[n]][1], off)
                self.put_object(n, gg, v, off, complex(0, lengths[n]) if n in lengths else None)
            eb = {n: off[n] for n in b_nums}
            eb.update({lengths[n]: off[lengths[n]] for n in b_nums if n in lengths})
            eb.update(self.free_entries(set(), {}, form == 'stream'))
            t2 = {'/Size': size}
            if s.pick(2):
                t2.update(rev['trailer'])
            if form == 'table':
                p2 = self.emit('XREFTABLE', self.table_bytes(eb, t2), {'entries': eb})
            else:
                p2 = len(self.out)
                eb[x2] = ('n', p2, 0)
                v = self.stream_value(eb, t2, filt=False)
                self.emit('IND_OBJ', self.object_bytes(x2, 0, v, None), {'num': x2, 'gen': 0, 'embedded': [], 'xref': eb})
                off[x2] = ('n', p2, 0)
                off[x1] = ('n', p1, 0)
            e = self.finish(p1)
            self.emit(None, e)
            new = {'L': len(self.out), 'T': p2, 'off': off, 'x1': p1}
            if new == guess:
                break
            guess = new
        else:
            raise AssertionError('linearized layout does not settle')
        extra[lin] = (0, {k: (int(v) if isinstance(v, bytes) else v) for k, v in L.items()})
        m = self.apply_model(rev, extra)
        m.trailer = dict(t2)
        m.trailer.update(t1)
        m.form = 'linear-' + form
        m.end = len(self.out)
        self.prev_xref = p1
        self.prev_xnum = x1
        self.b.revs.append(m)

    def lin_object(self, num, d, off):
        body = b'<< ' + b' '.join(k.encode() + b' ' + (v if isinstance(v, bytes) else V.plain(v)) for k, v in d.items()) + b' >>'
        pos = self.emit('IND_OBJ', b'%d 0 obj\n' % num + body + b'\nendobj', {'num': num, 'gen': 0, 'embedded': []})
        self.emit(None, b'\n')
        off[num] = ('n', pos, 0)

    def lin_table(self, entries, trailer, prev):
        out = b'xref\n'
        nums = sorted(entries)
        runs = []
        for n in nums:
            if runs and runs[-1][-1] + 1 == n:
                runs[-1].append(n)
            else:
                runs.append([n])
        for run in runs:
            out += b'%d %d\n' % (run[0], len(run))
            for n in run:
                out += b'%010d %05d n \n' % (entries[n][1], entries[n][2])
        return out + b'trailer\n' + V.plain(trailer)[:-2] + b' /Prev %010d >>' % prev

    def lin_xref(self, num, entries, trailer, prev):
        nums = sorted(entries)
        data = b''.join(b'\x01' + entries[n][1].to_bytes(4, 'big') + entries[n][2].to_bytes(2, 'big') for n in nums)
        idx = [x for n in nums for x in (n, 1)]
        t = dict(trailer)
        t.update({'/Type': '/XRef', '/W': [1, 4, 2], '/Index': idx, '/Length': len(data)})
        return (b'%d 0 obj\n' % num + V.plain(t)[:-2] + b' /Prev %010d >>' % prev + b'\nstream\n' + data + b'\nendstream\nendobj')

    def write(self):
        self.header()
        for i, rev in enumerate(self.spec['revs']):
            if i == 0 and self.spec.get('linear'):
                self.write_linear(rev)
            else:
                self.write_rev(rev, i == 0)
        if self.spec.get('tail'):
            self.emit(None, self.spec['tail'])
        self.b.data = bytes(self.out)
        return self.b


def build(spec):
    return Writer(spec).write()


# ------------------------------------------------------------------------------------------------
# Comparing a loaded object with its model

def matches(v, o, exact=True):
    """None if object o (of pdfsyntax, or of refpdf) is model value v, else a description of the difference.

    exact: the encoded bytes of streams must be those the writer of this module makes.
    """
    if isinstance(v, Container):
        e = getattr(o, 'entries', None)
        if e is None or e.get('/Type') != v.kind:
            return f'{v.kind} container is read as {o!r}'
        return None
    if is_stream(v):
        e, content, raw = stream_parts(v)
        got = getattr(o, 'entries', None)
        if got is None:
            return f'a stream is read as {o!r}'
        ge = {k: x for k, x in got.items() if k != '/Length'}
        if not V.same(ge, {k: x for k, x in e.items() if k != '/Length'}):
            return f'stream entries {ge!r} instead of {e!r}'
        enc = o.encoded if hasattr(o, 'encoded') else o.raw
        if enc != raw:
            if exact or not supported(v[3]):
                return f'encoded stream data {enc!r} instead of {raw!r}'
            try:
                dec = refcodec.decode(v[3], enc, e.get('/DecodeParms'))
            except Exception as x:
                return f'encoded stream data {enc!r} cannot be decoded with {v[3]}: {x}'
            if dec != content:
                return f'encoded stream data {enc!r} stand for {dec!r} instead of {content!r}'
        if supported(v[3]) and hasattr(o, 'stream') and o.stream != content:
            return f'stream content {o.stream!r} instead of {content!r} ({v[3]} {v[4]})'
        return None
    if not V.same(v, o):
        return f'{o!r} instead of {v!r}'
    return None
