"""Text strings (ISO 32000-1 7.3.4 and 7.9.2) written and read independently: PDFDocEncoding, UTF-16BE, literal and hexadecimal spellings."""
from hypothesis import strategies as st

PDFDOC = {c: c for c in list(range(0x18)) + list(range(0x20, 0x7f)) + [c for c in range(0xa1, 0x100) if c != 0xad]}
PDFDOC.update({0x18: 0x2d8, 0x19: 0x2c7, 0x1a: 0x2c6, 0x1b: 0x2d9, 0x1c: 0x2dd, 0x1d: 0x2db, 0x1e: 0x2da, 0x1f: 0x2dc,
               0x80: 0x2022, 0x81: 0x2020, 0x82: 0x2021, 0x83: 0x2026, 0x84: 0x2014, 0x85: 0x2013, 0x86: 0x192, 0x87: 0x2044, 0x88: 0x2039, 0x89: 0x203a, 0x8a: 0x2212, 0x8b: 0x2030, 0x8c: 0x201e, 0x8d: 0x201c,
               0x8e: 0x201d, 0x8f: 0x2018, 0x90: 0x2019, 0x91: 0x201a, 0x92: 0x2122, 0x93: 0xfb01, 0x94: 0xfb02, 0x95: 0x141, 0x96: 0x152, 0x97: 0x160, 0x98: 0x178, 0x99: 0x17d, 0x9a: 0x131, 0x9b: 0x142,
               0x9c: 0x153, 0x9d: 0x161, 0x9e: 0x17e, 0xa0: 0x20ac})
UNPDFDOC = {u: c for c, u in PDFDOC.items()}
BOM = b'\xfe\xff'


def pdfdoc_ok(text):
    return all(ord(c) in UNPDFDOC for c in text) and not text.startswith(('\xfe\xff', '\xef\xbb\xbf'))


def encode(text, utf16=False):
    if not utf16 and pdfdoc_ok(text):
        return bytes(UNPDFDOC[ord(c)] for c in text)
    return BOM + text.encode('utf-16-be')


def decode(data):
    if data[:2] == BOM:
        return data[2:].decode('utf-16-be')
    return ''.join(chr(PDFDOC[c]) for c in data)


NAMED = {10: b'\\n', 13: b'\\r', 9: b'\\t', 8: b'\\b', 12: b'\\f', 40: b'\\(', 41: b'\\)', 92: b'\\\\'}


def spell_literal(data, s):
    """Any literal spelling of these bytes; s is a Style of lib/values.py."""
    pair = {}
    stack = []
    for i, c in enumerate(data):
        if c == 40:
            stack.append(i)
        elif c == 41 and stack:
            j = stack.pop()
            pair[j] = pair[i] = s.pick(2)
    out = b'('
    for i, c in enumerate(data):
        k = s.pick(12)
        if k == 10:
            out += b'\\' + [b'\n', b'\r\n', b'\r'][s.pick(3)]
            k = s.pick(10)
        octal = b'\\%03o' % (c + (256 if s.pick(4) == 3 else 0))
        if c in (40, 41):
            t = bytes([c]) if pair.get(i) else NAMED[c] if k < 8 else octal
        elif c == 92:
            t = NAMED[c] if k < 8 else octal
        elif c == 13:
            t = NAMED[c] if k < 8 else octal
        elif c == 10:
            t = [b'\n', b'\\n', b'\r\n', b'\r', octal][k % 5]
        elif c in NAMED and k < 4:
            t = NAMED[c]
        elif k == 8:
            t = octal
        elif k == 9 and (i + 1 == len(data) or not 48 <= data[i + 1] <= 57):
            t = b'\\%o' % c
        elif k == 11 and c not in b'01234567nrtbf\r\n()\\':
            t = b'\\' + bytes([c])     # an unknown escape stands for its character
        else:
            t = bytes([c])
        if t[:1] == b'\n' and out[-1:] == b'\r':
            t = octal
        out += t
    if s.pick(9) == 8:
        out += b'\\\n'
    return out + b')'


def spell_hex_exact(data, s):
    """All the digits, in any case, rarely with white space."""
    k = s.pick(3)
    d = data.hex() if k else data.hex().upper()
    if k == 2:
        d = ''.join(c.upper() if s.pick(2) else c for c in d)
    if s.pick(7) == 6:
        d = d[:2] + ' ' + d[2:]
    return b'<' + d.encode() + b'>'


def spell_hex(data, s):
    ws = [b' ', b'\n', b'\r\n', b'\t', b'\x0c', b'\x00']
    d = data.hex()
    if d.endswith('0') and s.pick(2):
        d = d[:-1]
    out = b'<'
    for c in d:
        k = s.pick(8)
        if k == 7:
            out += ws[s.pick(6)]
        out += (c.upper() if k % 2 else c).encode()
    return out + (b' ' if s.pick(5) == 4 else b'') + b'>'


def read_string(tok):
    """Bytes that a string token stands for."""
    if tok[:1] == b'<':
        d = bytes(c for c in tok[1:-1] if c not in b' \t\r\n\x0c\x00')
        return bytes.fromhex((d + b'0' * (len(d) % 2)).decode('ascii'))
    b, out, i = tok[1:-1], bytearray(), 0
    while i < len(b):
        c = b[i]
        if c == 92:
            i += 1
            c = b[i]
            if 48 <= c <= 55:
                v = 0
                n = 0
                while n < 3 and i < len(b) and 48 <= b[i] <= 55:
                    v = v * 8 + b[i] - 48
                    i += 1
                    n += 1
                out.append(v & 255)
                continue
            if c == 13:
                i += 2 if b[i + 1:i + 2] == b'\n' else 1
                continue
            if c == 10:
                i += 1
                continue
            out.append({110: 10, 114: 13, 116: 9, 98: 8, 102: 12}.get(c, c))
        elif c == 13:
            out.append(10)
            if b[i + 1:i + 2] == b'\n':
                i += 1
        else:
            out.append(c)
        i += 1
    return bytes(out)


def texts(max_size=20):
    pd = st.sampled_from([chr(u) for u in sorted(UNPDFDOC)])
    special = st.sampled_from('()\\\n\r\t\b\x0c<>%/[] 07n\u20ac\u2022\xfe\xff\u2028\ufeff\U0001f600\x00\x1b\x7f\xad')
    any_ = st.characters(exclude_categories=('Cs',))
    return st.one_of(st.text(pd, max_size=max_size), st.text(st.one_of(pd, special), max_size=max_size), st.text(special, max_size=max_size), st.text(any_, max_size=max_size),
                     st.text('()\\', max_size=max_size), st.text('a\r\n\\(7', max_size=max_size))
