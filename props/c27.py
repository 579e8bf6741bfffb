"""C27: the font inventory lists each font once with its pages."""
import contextlib
import io
import os
from hypothesis import strategies as st
import pbt
from pbt import Sub, ensure
import docs
import history
import pagegen
import pdfgen
import pdfsyntax as pdf

ID = 'C27'
RULE = ('A case is a file with a generated page tree whose pages take fonts from own or inherited, direct or indirect resources. '
        'Non-trivial: at least one font is used.')
ASSUMPTIONS = ['fonts are indirect objects', 'page trees are well formed', 'the name of a Type 3 font is not looked at (it has none)']


def inventory(objs, trailer):
    """Reference model: {font ref: facts}."""
    out = {}
    for i, (num, here, _) in enumerate(pagegen.flatten(objs, trailer)):
        res = pagegen.deref(objs, here.get('/Resources')) or {}
        fonts = pagegen.deref(objs, res.get('/Font')) or {}
        for name, ref in fonts.items():
            f = pagegen.deref(objs, ref)
            e = f.get('/Encoding')
            if type(e) == str:
                enc = e[1:]
            elif e is None and f['/Subtype'] == '/Type1':
                enc = 'built-in'
            else:
                enc = 'other'
            d = out.setdefault(ref, {'name': f.get('/BaseFont', '/')[1:], 'type': f['/Subtype'][1:], 'encoding': enc,
                                     'to_unicode': '/ToUnicode' in f, 'pages': []})
            if i not in d['pages']:
                d['pages'].append(i)
    return out


def check(case):
    spec, edits, cli = case
    built = pdfgen.build(spec)
    doc = pdf.loads(built.data)
    objs, trailer = dict(built.revs[-1].objs), built.revs[-1].trailer
    # edit fonts of the document in memory
    for which, key, value in edits:
        pool = sorted(n for n, (g, v) in objs.items() if type(v) == dict and v.get('/Type') == '/Font' and '/DescendantFonts' not in v
                      and v['/Subtype'] not in ('/CIDFontType2', '/Type0'))
        if not pool:
            break
        n = pool[which % len(pool)]
        g, v = objs[n]
        v = dict(v)
        if value is None:
            v.pop(key, None)
        else:
            v[key] = value
        if v['/Subtype'] == '/Type3':
            v.pop('/BaseFont', None)
        else:
            v.setdefault('/BaseFont', '/Helvetica')
        objs[n] = (g, v)
        doc = pdf.update_object(doc, n, dict(v))
    want = inventory(objs, trailer)
    got = pdf.fonts(doc)
    ensure(set(got) == set(want), 'fonts %r instead of %r', sorted(got, key=repr), sorted(want, key=repr))
    for r, w in want.items():
        g = got[r]
        for k in ('name', 'type', 'encoding', 'to_unicode', 'pages'):
            if k == 'name' and w['type'] == 'Type3':
                continue
            ensure(type(g[k]) == type(w[k]) and g[k] == w[k], 'font %r: %s is %r instead of %r', r, k, g[k], w[k])
    if cli:
        _, data = history.write(doc)
        p = pbt.tmp_path('f.pdf')
        with open(p, 'wb') as f:
            f.write(data)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            pdf.print_fonts(p)
        os.unlink(p)
        lines = [l.split() for l in out.getvalue().split('\n') if l.strip()]
        ensure(lines[0] == ['Name', 'Type', 'Encoding', 'Obj', 'Pages'], 'header %r', lines[0])
        rows = sorted(lines[1:])
        exp = sorted([w['name'], w['type'], w['encoding'][:16], f'{int(r.imag)},{int(r.real)}', str(len(w['pages']))] for r, w in want.items() if w['type'] != 'Type3')
        if not any(w['type'] == 'Type3' for w in want.values()):
            ensure(rows == exp, 'the fonts command prints %r instead of %r', rows, exp)
        else:
            ensure(len(rows) == len(want), 'the fonts command prints %d fonts instead of %d', len(rows), len(want))
    inh = any('/Resources' in here and '/Resources' not in objs[num][1] for num, here, _ in pagegen.flatten(objs, trailer))
    return bool(want), sorted({'fonts=%d' % min(3, len(want))} | ({'inherited'} if inh else set()) | ({'shared'} if any(len(w['pages']) > 1 for w in want.values()) else set()))


def edits():
    key = st.one_of(st.tuples(st.just('/BaseFont'), st.sampled_from(['/Foo', '/ABCDEF+Bar'])),
                    st.tuples(st.just('/Encoding'), st.sampled_from([None, '/WinAnsiEncoding', '/MacRomanEncoding', {'/Differences': [0, '/a']}])),
                    st.tuples(st.just('/Subtype'), st.sampled_from(['/Type1', '/TrueType', '/MMType1', '/Type3'])))
    return st.lists(st.tuples(st.integers(0, 5), key).map(lambda x: (x[0],) + x[1]), max_size=2)


SUBS = [Sub('fonts', lambda: st.tuples(pagegen.page_specs(), edits(), st.booleans()), check, 2400, 120000)]
