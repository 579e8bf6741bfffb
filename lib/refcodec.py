"""Independent encoders and decoders of the stream filters (ISO 32000-1 7.4)."""
import zlib

HEXDIG = b'0123456789abcdefABCDEF'


def ahx_encode(data, style=None):
    """style(n) -> int chooses case, white space, and whether a trailing zero digit is dropped."""
    out = bytearray()
    for i, b in enumerate(data):
        t = b'%02x' % b
        if style:
            k = style(6)
            if k == 1:
                t = t.upper()
            elif k == 2:
                t = t[:1] + b'\n' + t[1:]
            elif k == 3:
                t = b' ' + t.upper()
            elif k == 4:
                t = t + b'\r\n\t\x00\x0c'[k - 4:k - 2]
        if style and i == len(data) - 1 and b & 15 == 0 and style(2):
            t = b'%X' % (b >> 4)
        out += t
    return bytes(out) + b'>'


def ahx_decode(data):
    digits = []
    for c in data:
        if c == 0x3e:
            break
        if c in b'\x00\t\n\x0c\r ':
            continue
        if c not in HEXDIG:
            raise ValueError('bad hexadecimal digit')
        digits.append(int(chr(c), 16))
    else:
        raise ValueError('no end of data')
    if len(digits) % 2:
        digits.append(0)
    return bytes(digits[i] * 16 + digits[i + 1] for i in range(0, len(digits), 2))


def a85_encode(data, style=None):
    out = bytearray()
    for i in range(0, len(data), 4):
        g = data[i:i + 4]
        n = len(g)
        v = int.from_bytes(g + b'\0' * (4 - n), 'big')
        if n == 4 and v == 0:
            t = b'z'
        else:
            d = []
            for _ in range(5):
                d.append(33 + v % 85)
                v //= 85
            t = bytes(reversed(d))[:n + 1]
        if style:
            k = style(5)
            if k == 1:
                t += b'\n'
            elif k == 2:
                t = t[:1] + b' ' + t[1:]
            elif k == 3:
                t += b'\r\n'
        out += t
    return bytes(out) + b'~>'


def a85_decode(data):
    out = bytearray()
    grp = []
    it = iter(data)
    for c in it:
        if c in b'\x00\t\n\x0c\r ':
            continue
        if c == 0x7e:
            break
        if c == 0x7a:
            if grp:
                raise ValueError('z inside a group')
            out += b'\0\0\0\0'
            continue
        if not 33 <= c <= 117:
            raise ValueError('bad base-85 digit')
        grp.append(c - 33)
        if len(grp) == 5:
            v = 0
            for d in grp:
                v = v * 85 + d
            out += v.to_bytes(4, 'big')
            grp = []
    else:
        raise ValueError('no end of data')
    if grp:
        if len(grp) == 1:
            raise ValueError('lonely digit')
        n = len(grp)
        grp += [84] * (5 - n)
        v = 0
        for d in grp:
            v = v * 85 + d
        out += (v & 0xffffffff).to_bytes(4, 'big')[:n - 1]
    return bytes(out)


def paeth_predict(a, b, c):
    p = a + b - c
    pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
    if pa <= pb and pa <= pc:
        return a
    if pb <= pc:
        return b
    return c


def png_encode(data, columns, colors, bits, tags):
    """data: whole rows. tags: list of row tags, cycled."""
    bpp = (colors * bits + 7) // 8
    n = (columns * colors * bits + 7) // 8
    assert len(data) % n == 0
    prev = bytes(n)
    out = bytearray()
    for r in range(len(data) // n):
        row = data[r * n:(r + 1) * n]
        tag = tags[r % len(tags)]
        out.append(tag)
        for i in range(n):
            a = row[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            p = {0: 0, 1: a, 2: b, 3: (a + b) // 2, 4: paeth_predict(a, b, c)}[tag]
            out.append((row[i] - p) % 256)
        prev = row
    return bytes(out)


def png_decode(data, columns, colors, bits):
    bpp = (colors * bits + 7) // 8
    n = (columns * colors * bits + 7) // 8
    prev = bytearray(n)
    out = bytearray()
    for r in range(0, len(data), n + 1):
        tag = data[r]
        row = bytearray(data[r + 1:r + 1 + n])
        for i in range(len(row)):
            a = row[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            row[i] = (row[i] + {0: 0, 1: a, 2: b, 3: (a + b) // 2, 4: paeth_predict(a, b, c)}[tag]) % 256
        prev = row
        out += row
    return bytes(out)


def encode_one(name, data, style=None, parms=None):
    if name == '/ASCIIHexDecode':
        return ahx_encode(data, style)
    if name == '/ASCII85Decode':
        return a85_encode(data, style)
    if name == '/FlateDecode':
        if parms and parms.get('/Predictor', 1) >= 10:
            data = png_encode(data, parms.get('/Columns', 1), parms.get('/Colors', 1), parms.get('/BitsPerComponent', 8),
                              parms.get('__tags') or [parms['/Predictor'] - 10 if parms['/Predictor'] < 15 else 4])
        return zlib.compress(data, style(10) if style else 6)
    if name == '/RunLengthDecode':
        out = bytearray()
        for i in range(0, len(data), 128):
            out.append(len(data[i:i + 128]) - 1)
            out += data[i:i + 128]
        return bytes(out) + b'\x80'
    if name in ('/DCTDecode', '/JPXDecode', '/LZWDecode', '/CCITTFaxDecode', '/JBIG2Decode', '/Crypt'):
        return data  # opaque to pdfsyntax: never decoded
    raise ValueError(name)


def filter_list(flt):
    if flt is None:
        return []
    return [flt] if isinstance(flt, str) else list(flt)


def encode(flt, data, style=None, parms=None):
    fl = filter_list(flt)
    pl = parms if isinstance(parms, list) else [parms] * len(fl)
    for f, p in reversed(list(zip(fl, pl))):
        data = encode_one(f, data, style, p if isinstance(p, dict) else None)
    return data


SUPPORTED = ('/ASCIIHexDecode', '/ASCII85Decode', '/FlateDecode')


def decode(flt, data, parms=None):
    fl = filter_list(flt)
    pl = parms if isinstance(parms, list) else [parms] * len(fl)
    for i, f in enumerate(fl):
        p = pl[i] if i < len(pl) else None
        if f == '/ASCIIHexDecode':
            data = ahx_decode(data)
        elif f == '/ASCII85Decode':
            data = a85_decode(data)
        elif f == '/FlateDecode':
            data = zlib.decompress(data)
            if isinstance(p, dict) and p.get('/Predictor', 1) >= 10:
                data = png_decode(data, p.get('/Columns', 1), p.get('/Colors', 1), p.get('/BitsPerComponent', 8))
        else:
            raise NotImplementedError(f)
    return data
