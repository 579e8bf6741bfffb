"""Edit histories over documents: a runner with a reference model (a stack of committed states)."""
import os
from hypothesis import strategies as st
import pbt
from pbt import ensure, fail
import pdfgen
import refpdf
import specs
import values as V
import docs
import pdfsyntax as pdf


def edit_values(ref=None):
    """Values given to update_object and add_object: streams have no predictor and direct lengths."""
    stream = st.builds(lambda e, c, f: ('stream', e, c, f, None, 'direct'),
                       st.dictionaries(V.keys(), V.values(3, ref), max_size=2), specs.stream_content(),
                       st.sampled_from([None, None, '/FlateDecode', ['/FlateDecode'], '/ASCIIHexDecode', '/ASCII85Decode',
                                        ['/ASCII85Decode', '/FlateDecode']]))
    v = V.values(5, ref).filter(lambda x: type(x) != complex)
    return st.one_of(v, st.dictionaries(V.keys(), V.values(4, ref), max_size=3), stream)


def ops(rewind=True, reload=True, max_size=10):
    i = st.integers(0, 12)
    choices = [st.tuples(st.just('set'), i, edit_values()), st.tuples(st.just('set'), i, edit_values()),
               st.tuples(st.just('mod'), i, V.values(3)),
               st.tuples(st.just('add'), edit_values()), st.tuples(st.just('add'), edit_values()),
               st.tuples(st.just('del'), i),
               st.tuples(st.just('commit')), st.tuples(st.just('commit')),
               st.one_of(st.tuples(st.just('force'), st.just(False), st.sampled_from(['/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode', ''])), st.tuples(st.just('group'), st.lists(i, max_size=3)))]
    if rewind:
        choices.append(st.tuples(st.just('rewind')))
    if reload:
        choices += [st.tuples(st.just('save')), st.tuples(st.just('reload'), st.integers(0, 1))]
    return st.lists(st.one_of(*choices), max_size=max_size)


def bases(max_revs=3, **kw):
    return st.one_of(st.just('blank'), *([specs.specs(max_revs=max_revs, **kw)] * 6))


def to_pdf(v):
    if pdfgen.is_stream(v):
        _, e, content, flt, _, _ = v
        e = dict(e)
        if flt is not None:
            e['/Filter'] = flt
        return pdf.forge_stream(e, content)[0]
    return v


class State:
    """Model of one state of a document: {num: (gen, value, exact)} and its trailer."""

    def __init__(self, objs, trailer):
        self.objs = objs
        self.trailer = trailer

    def copy(self):
        return State(dict(self.objs), self.trailer)


def state_of_rev(rev):
    return State({n: (g, v, True) for n, (g, v) in rev.objs.items() if not isinstance(v, pdfgen.Container)}, docs.user_trailer(rev.trailer))


def is_structure(o):
    e = getattr(o, 'entries', None)
    return e is not None and e.get('/Type') in ('/XRef', '/ObjStm')


def check_state(doc, state, what):
    """doc (pdfsyntax) shows exactly the state, apart from file-structure streams."""
    used = {int(r.imag): int(r.real) for r in pdf.in_use(doc)}
    for n, (g, v, exact) in state.objs.items():
        if used.get(n) != g:
            fail('%s: object %d %d is not in use (%r)', what, n, g, used.get(n))
        d = pdfgen.matches(v, pdf.get_object(doc, complex(g, n)), exact)
        if d:
            fail('%s: object %d: %s', what, n, d)
    for n in used:
        if n not in state.objs:
            o = pdf.get_object(doc, complex(used[n], n))
            if not is_structure(o):
                fail('%s: unexpected object %d: %r', what, n, o)
    t = docs.user_trailer(doc.trailer())
    ensure(V.same(t, state.trailer), '%s: trailer %r instead of %r', what, t, state.trailer)


def check_reader(r, state, what):
    for n, (g, v, exact) in state.objs.items():
        if n not in r.objects or r.objects[n][0] != g:
            fail('%s: object %d %d is not in the file (%r)', what, n, g, r.objects.get(n))
        d = pdfgen.matches(v, r.objects[n][1], exact)
        if d:
            fail('%s: object %d in the file: %s', what, n, d)
    for n in r.objects:
        if n not in state.objs and not is_structure(r.objects[n][1]):
            fail('%s: unexpected object %d in the file: %r', what, n, r.objects[n][1])
    t = docs.user_trailer(r.trailer)
    ensure(V.same(t, state.trailer), '%s: trailer %r in the file instead of %r', what, t, state.trailer)


def write(doc, name='out.pdf'):
    p = pbt.tmp_path(name)
    new = pdf.writefile(doc, p)
    with open(p, 'rb') as f:
        data = f.read()
    os.unlink(p)
    return new, data


class Run:
    """Replays a history; the hooks let each property look at what it needs."""

    def __init__(self, base):
        if base == 'blank':
            self.doc = pdf.blank()
            self.data = None
            self.built = None
            mb = [0, 0, 595, 842]
            s = State({1: (0, {'/Type': '/Catalog', '/Pages': 2j}, True),
                       2: (0, {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}, True),
                       3: (0, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': mb, '/Resources': {}}, True)}, {'/Root': 1j})
            self.stack = [s]
            self.fixed = {1, 2, 3}
            self.user = set()
            self.keep = 0
        else:
            self.built = pdfgen.build(base)
            self.data = self.built.data
            self.doc = pdf.loads(self.data)
            self.stack = [state_of_rev(r) for r in self.built.revs]
            self.user = {n for r in base['revs'] for n in r['set']}
            self.fixed = {n for n, (g, v) in self.built.revs[0].objs.items()
                          if type(v) == dict and v.get('/Type') in ('/Catalog', '/Pages', '/Page')}
            info = base['revs'][0]['trailer'].get('/Info')
            if info:
                self.fixed.add(int(info.imag))
            self.user -= self.fixed
            self.keep = len(self.stack)
        self.cur = self.stack[-1].copy()
        self.labels = set()
        self.edits = 0
        self.ends = [r.end for r in self.built.revs] if self.built else []

    def live(self):
        return sorted(n for n in self.cur.objs if n in self.user and n not in self.fixed)

    def commit_model(self, dirty):
        if dirty:
            self.stack.append(self.cur)
            self.cur = self.cur.copy()

    def before(self, op):
        pass

    def after(self, op):
        pass

    def step(self, op):
        k = op[0]
        doc = self.doc
        if k in ('set', 'del'):
            live = self.live()
            if not live:
                return False
            n = live[op[1] % len(live)]
            g = self.cur.objs[n][0]
            if k == 'set':
                new = pdf.update_object(doc, n, to_pdf(op[2]))
                self.cur.objs[n] = (g, op[2], False)
            else:
                new = pdf.update_object(doc, n, None)
                del self.cur.objs[n]
            self.edits += 1
        elif k == 'mod':
            pool = sorted(n for n in self.cur.objs if n in self.fixed)
            n = pool[op[1] % len(pool)]
            g, v, ex = self.cur.objs[n]
            if type(v) != dict:
                return False
            o = pdf.get_object(doc, complex(g, n))
            o['/zMod'] = op[2]
            new = pdf.update_object(doc, n, o)
            v = dict(v)
            v['/zMod'] = op[2]
            self.cur.objs[n] = (g, v, ex)
            self.edits += 1
        elif k == 'add':
            new, ref = pdf.add_object(doc, to_pdf(op[1]))
            n = int(ref.imag)
            ensure(n not in self.cur.objs and ref.real == 0, 'add_object gives %r which is in use', ref)
            self.cur.objs[n] = (0, op[1], False)
            self.user.add(n)
            self.edits += 1
        elif k == 'commit':
            dirty = bool(pdf.changes(doc))
            new = pdf.commit(doc)
            self.commit_model(dirty)
        elif k == 'force':     # the next cross-reference section is a stream, as compress does
            new = pdf.force_xref_stream(doc, False, op[2])
        elif k == 'group':     # pending objects will go into an object stream, as compress does
            pending = sorted(int(r.imag) for r, a in pdf.changes(doc) if a != 'd')
            pending = [n for n in pending if n in self.cur.objs and not pdfgen.is_stream(self.cur.objs[n][1])]
            if not pending:
                return False
            new = pdf.group_obj_into_stream(doc, None, {pending[x % len(pending)] for x in op[1]} or None)
        elif k == 'rewind':
            new = pdf.rewind(doc)
            if self.stack:
                self.cur = self.stack.pop().copy()
                self.keep = min(self.keep, len(self.stack))
                self.user &= {n for s in self.stack + [self.cur] for n in s.objs}     # the numbers forgotten may serve again
        elif k == 'save':
            dirty = bool(pdf.changes(doc))
            new, _ = write(doc)
            self.commit_model(dirty)
        elif k == 'reload':
            dirty = bool(pdf.changes(doc))
            _, data = write(doc)
            self.commit_model(dirty)
            if op[1]:
                p = pbt.tmp_path('reload.pdf')
                with open(p, 'wb') as f:
                    f.write(data)
                new = pdf.readfile(p)
                os.unlink(p)
            else:
                new = pdf.loads(data)
            self.loaded(data)
        else:
            raise AssertionError(k)
        self.doc = new
        self.labels.add(k)
        return True

    def loaded(self, data):
        """From now on the source is the written file, whose revisions are all closed."""
        self.data = data
        self.keep = len(self.stack)
        self.ends = None

    def run(self, oplist):
        for op in oplist:
            self.before(op)
            if self.step(op):
                self.after(op)
