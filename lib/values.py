"""Generators of PDF values and an independent, style-driven speller of them.

Values use pdfsyntax's documented mapping to Python built-ins: names are '/X' str, strings are the raw
token bytes, references are complex(gen, num), null is the keyword 'null'.
"""
from hypothesis import strategies as st

REGULAR = ''.join(chr(c) for c in range(33, 127) if chr(c) not in '()<>[]{}/%')

# ------------------------------------------------------------------ strategies (values)

NAME_POOL = ['/A', '/B', '/C', '/Key', '/Type', '/Size', '/Font', '/Kids', '/N', '/R', '/obj', '/endobj', '/stream',
             '/true', '/null', '/1', '/0#20x', '/A#28B', '/a.b-c', '/F1', '/', '/Parent0', '/xref', '/trailer0', "/it's", '/~!@$^&*_+=|;:?,"`']


def names():
    return st.one_of(st.sampled_from(NAME_POOL),
                     st.text(alphabet=REGULAR, min_size=0, max_size=8).map(lambda s: '/' + s))


def keys():
    """Dictionary keys without a structural meaning."""
    return st.one_of(st.sampled_from(['/A', '/B', '/C', '/D', '/E', '/K1', '/Key#20', '/x.y', '/N', '/JS']),
                     st.text(alphabet='abcdefgXYZ0123456789._-#', min_size=1, max_size=5).map(lambda s: '/z' + s))


EVIL_PIECES = [b'>>', b'<<', b']', b'[', b'%', b'% ', b'/X', b'endobj', b'stream', b'endstream', b' R', b'1 0 R', b'obj',
               b'xref', b'trailer', b'<', b'>', b'{', b'}', b'\n', b'\r', b'\r\n', b'\x00', b'\xfe\xff', b'\xff', b'\t']


def literal_string_body():
    leaf = st.one_of(
        st.sampled_from(EVIL_PIECES),
        st.sampled_from([b'\\(', b'\\)', b'\\\\', b'\\n', b'\\r', b'\\t', b'\\b', b'\\f', b'\\101', b'\\0', b'\\53', b'\\\n', b'\\x']),
        st.binary(min_size=1, max_size=4).map(lambda b: b.replace(b'\\', b'/').replace(b'(', b'a').replace(b')', b'b')),
        st.sampled_from([b'Hello', b'a', b' ', b'World 12']),
    )
    def join(l):
        return b''.join(l)
    flat = st.lists(leaf, max_size=5).map(join)
    nested = st.recursive(flat, lambda inner: st.tuples(flat, inner, flat).map(lambda t: t[0] + b'(' + t[1] + b')' + t[2]),
                          max_leaves=4)
    return nested


def literal_strings():
    return literal_string_body().map(lambda b: b'(' + b + b')')


def hex_strings():
    return st.text(alphabet='0123456789abcdefABCDEF \n\t', max_size=10).map(lambda s: b'<' + s.encode() + b'>')


def strings():
    return st.one_of(literal_strings(), hex_strings())


def ints():
    return st.one_of(st.integers(-5, 20), st.integers(-2**31, 2**31 - 1))


def reals():
    return st.one_of(
        st.sampled_from([0.5, -0.25, 1.0, 0.0, -3.14, 1e-7, 2.5e-9, 1e16, 1e17, 1.5e20, 123456.789, -1e-5, 1e-4, 612.0, 1e22]),
        st.integers(-10**6, 10**6).map(lambda i: i / 1000),
        st.floats(allow_nan=False, allow_infinity=False, min_value=-3.4e38, max_value=3.4e38),
    )


def refs(max_num=60, gens=None):
    g = gens if gens is not None else st.sampled_from([0, 0, 0, 0, 1, 2, 7, 65534])
    return st.builds(lambda n, gg: complex(gg, n), st.integers(1, max_num), g)


def scalars(ref=None):
    return st.one_of(ints(), reals(), st.booleans(), st.just('null'), names(), strings(), ref if ref is not None else refs())


def composite(children):
    return st.one_of(st.lists(children, max_size=4),
                     st.dictionaries(keys(), children, max_size=4))


def values(max_leaves=8, ref=None):
    return st.recursive(scalars(ref), composite, max_leaves=max_leaves)


def containers(max_leaves=8, ref=None):
    v = values(max_leaves, ref)
    return composite(v)


def same(a, b):
    """Type-strict equality of two values (1 != True != 1.0), -0.0 ignored."""
    if type(a) != type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


# ------------------------------------------------------------------ spelling

class Style:
    """A finite list of choices, consumed cyclically: formatting is a pure function of it."""

    def __init__(self, data):
        self.data = bytes(data) or b'\0'
        self.i = 0

    def pick(self, n):
        v = self.data[self.i % len(self.data)] + (self.i // len(self.data)) * 7
        self.i += 1
        return v % n

    def choose(self, seq):
        return seq[self.pick(len(seq))]


def styles():
    return st.one_of(st.just(b'\0'), st.binary(min_size=1, max_size=24))


COMMENTS = [b'%x\n', b'%\n', b'% >> ] ) \r', b'%%EOF-like(\r\n', b'% << [ ( \n', b'%endobj\n', b'%(\r\n']
WS = [b' ', b'\n', b'\r\n', b'\r', b'\t', b'\x0c', b'\x00', b'  ', b' \n ']


def gap(s, required):
    """White-space (and comments) between two tokens."""
    k = s.pick(12)
    if k < 5:
        return b' ' if required or k % 2 else b''
    if k < 9:
        return s.choose(WS)
    if k == 9:
        return b' ' + s.choose(COMMENTS)
    if k == 10:
        return s.choose(COMMENTS) if not required else s.choose(WS) + s.choose(COMMENTS)
    return s.choose(WS) + s.choose(WS)


def spell_int(i, s):
    k = s.pick(8)
    if k == 1 and i >= 0:
        return b'+%d' % i
    if k == 2:
        return (b'-' if i < 0 else b'') + b'00%d' % abs(i)
    return b'%d' % i


def plain_real(f):
    from decimal import Decimal
    t = format(Decimal(repr(f)), 'f')
    if '.' not in t:
        t += '.0'
    return t


def spell_real(f, s):
    t = plain_real(f)
    k = s.pick(8)
    neg = t.startswith('-')
    body = t[1:] if neg else t
    if k == 1 and body.startswith('0.') and len(body) > 2:
        body = body[1:]
    elif k == 2 and body.endswith('.0'):
        body = body[:-1]
    elif k == 3:
        body = body + '00'
    elif k == 4 and not neg:
        body = '+' + body
    elif k == 5:
        body = '00' + body if not body.startswith('.') else body
    return (('-' if neg else '') + body).encode()


def tokens_of(v, s):
    """Flatten a value into a list of token bytes."""
    t = type(v)
    if t == bool:
        return [b'true' if v else b'false']
    if t == int:
        return [spell_int(v, s)]
    if t == float:
        return [spell_real(v, s)]
    if t == str:
        return [v.encode('latin-1')]
    if t == bytes:
        return [v]
    if t == complex:
        return [b'%d' % int(v.imag), b'%d' % int(v.real), b'R']
    if t == list:
        out = [b'[']
        for x in v:
            out += tokens_of(x, s)
        return out + [b']']
    if t == dict:
        out = [b'<<']
        for k, x in v.items():
            out.append(k.encode('latin-1'))
            out += tokens_of(x, s)
        return out + [b'>>']
    raise TypeError(type(v))


DELIM = b'()<>[]{}/%'


def need_gap(a, b):
    """Is white-space required between adjacent tokens a and b?"""
    return a[-1] not in DELIM and b[0] not in DELIM or (a[0:1] == b'/' and b[0] not in DELIM)


def join_tokens(toks, s):
    out = b''
    prev = None
    for t in toks:
        if prev is not None:
            out += gap(s, need_gap(prev, t))
        out += t
        prev = t
    return out


def spell(v, s):
    return join_tokens(tokens_of(v, s), s)


def plain(v):
    """One fixed, conservative spelling."""
    t = type(v)
    if t == list:
        return b'[ ' + b''.join(plain(x) + b' ' for x in v) + b']'
    if t == dict:
        return b'<< ' + b''.join(k.encode('latin-1') + b' ' + plain(x) + b' ' for k, x in v.items()) + b'>>'
    if t == complex:
        return b'%d %d R' % (int(v.imag), int(v.real))
    return b' '.join(tokens_of(v, Style(b'\0')))
