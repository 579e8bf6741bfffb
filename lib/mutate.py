"""Damage done to valid files: a list of literal mutations applied one after the other to bytes."""
import re
from hypothesis import strategies as st

TOKENS = [b'<<', b'>>', b'[', b']', b'(', b')', b'<', b'>', b'/', b'%', b'\\', b'\\(', b'endobj', b'obj', b'stream\n', b'stream\r\n', b'endstream', b'R', b' 0 R', b'xref\n', b'trailer',
          b'startxref\n', b'%%EOF', b'%%EOF\n', b'null', b'true', b'\n', b'\r', b'\r\n', b' ', b'\0', b'\xff', b'-', b'.', b'--1', b'+', b'1e9', b'0 0 obj', b'/Length', b'/Prev', b'/Type', b'/ObjStm', b'/XRef',
          b'/Filter', b'/FlateDecode', b'{', b'}', b"'", b'"', b'f', b'n', b'0', b'9', b'65535']
NUMBERS = [b'0', b'-1', b'1', b'2', b'3', b'7', b'99', b'2147483648', b'4294967296', b'99999999999', b'-99999999999', b'1000000000', b'1.5', b'-0', b'00', b'1e5', b'9' * 25]
SWAPS = [(b'/ObjStm', b'/XRef'), (b'/XRef', b'/ObjStm'), (b'/Page', b'/Pages'), (b'/Pages', b'/Page'), (b'/Kids', b'/Parent'), (b'/Prev', b'/XRefStm'), (b'/XRefStm', b'/Prev'), (b' n', b' f'), (b' f', b' n'),
         (b'/Size', b'/Prev'), (b'/Root', b'/Info'), (b'/Length', b'/Len'), (b'/W', b'/V'), (b'/Index', b'/Ind'), (b'/First', b'/N'), (b'/N', b'/First'), (b'endstream', b'endstrea'), (b'endobj', b'endob'),
         (b'>>', b'>'), (b'<<', b'<'), (b'/Columns', b'/Colors'), (b'/Predictor', b'/Columns'), (b'/Filter', b'/Filte')]


def mutations(max_size=4):
    p = st.integers(0, 4000)
    near = st.integers(0, 40)
    op = st.one_of(
        st.tuples(st.just('set'), p, st.integers(0, 255)), st.tuples(st.just('del'), p, st.integers(1, 30)), st.tuples(st.just('ins'), p, st.sampled_from(TOKENS)),
        st.tuples(st.just('cut'), p), st.tuples(st.just('head'), p), st.tuples(st.just('dup'), p, st.integers(1, 300), p),
        st.tuples(st.just('num'), near, st.sampled_from(NUMBERS)), st.tuples(st.just('num'), p, st.sampled_from(NUMBERS)),
        st.tuples(st.just('keynum'), st.sampled_from([b'/Prev', b'/Size', b'/Length', b'/XRefStm', b'/N', b'/First', b'/Count', b'/Columns', b'/Colors', b'/BitsPerComponent', b'/Predictor', b'/L', b'startxref']), near, st.sampled_from(NUMBERS)),
        st.tuples(st.just('offset'), st.sampled_from([b'/Prev', b'/XRefStm', b'startxref']), near, near),
        st.tuples(st.just('swap'), st.sampled_from(SWAPS), near), st.tuples(st.just('copynum'), p, p),
        st.tuples(st.just('rep'), p, st.sampled_from(TOKENS), st.integers(2, 60)))
    return st.lists(op, min_size=1, max_size=max_size)


def spans(pattern, d):
    return [m.span() for m in re.finditer(pattern, d)]


def apply(d, ops):
    for op in ops:
        k = op[0]
        n = len(d)
        if n == 0:
            break
        if k == 'set':
            i = op[1] % n
            d = d[:i] + bytes([op[2]]) + d[i + 1:]
        elif k == 'del':
            i = op[1] % n
            d = d[:i] + d[i + op[2]:]
        elif k == 'ins':
            i = op[1] % (n + 1)
            d = d[:i] + op[2] + d[i:]
        elif k == 'rep':
            i = op[1] % (n + 1)
            d = d[:i] + op[2] * op[3] + d[i:]
        elif k == 'cut':
            d = d[:op[1] % n]
        elif k == 'head':
            d = d[op[1] % n:]
        elif k == 'dup':
            i = op[1] % n
            j = op[3] % (n + 1)
            d = d[:j] + d[i:i + op[2]] + d[j:]
        elif k == 'num':
            l = spans(rb'[0-9]+', d)
            if l:
                a, b = l[-1 - op[1] % len(l)]
                d = d[:a] + op[2] + d[b:]
        elif k == 'copynum':
            l = spans(rb'[0-9]+', d)
            if l:
                a, b = l[op[1] % len(l)]
                c, e = l[op[2] % len(l)]
                d = d[:a] + d[c:e] + d[b:]
        elif k in ('keynum', 'offset'):
            l = [m.span(1) for m in re.finditer(re.escape(op[1]) + rb'[\s\[]*([0-9]+)', d)]
            if l:
                a, b = l[op[2] % len(l)]
                new = op[3]
                if k == 'offset':
                    t = [m.start() for m in re.finditer(rb'xref|[0-9]+ [0-9]+ obj', d)] + [0, n]
                    new = b'%d' % t[op[3] % len(t)]
                d = d[:a] + new + d[b:]
        elif k == 'swap':
            old, new = op[1]
            l = spans(re.escape(old), d)
            if l:
                a, b = l[op[2] % len(l)]
                d = d[:a] + new + d[b:]
    return d
