"""Independent concrete oracles: bitmaps built and decoded from the file format, not with the library."""
import struct
from array import array
from pyvc.lib import *
with silent():
    import pythonbmp.BITMAPlib as B

HDR = {1: 62, 4: 118, 8: 1078, 24: 54}
BITS = (1, 4, 8, 24)


def rowb(w, bits):
    return 4 * ((w * bits + 31) // 32)


def header(w, h, bits):
    n = HDR[bits] + h * rowb(w, bits)
    b = bytearray(HDR[bits])
    b[0:2] = b'BM'
    b[2:10] = struct.pack('<Q', n)
    b[10:14] = struct.pack('<I', HDR[bits])
    b[14:18] = struct.pack('<I', 40)
    b[18:22] = struct.pack('<I', w)
    b[22:26] = struct.pack('<I', h)
    b[26] = 1
    b[28] = bits
    return b


def mkbmp(w, h, bits, rng=None, grid=None, pal=None, padrnd=True):
    """bitmap with the given pixels (grid[y][x], y = 0 at the top), random if not given"""
    b = header(w, h, bits)
    if bits < 24:
        for i in range(1 << bits):
            r, g, bl = pal[i] if pal else ((rng.randrange(256), rng.randrange(256), rng.randrange(256)) if rng else (i, i, i))
            b[54 + 4 * i: 58 + 4 * i] = bytes([bl, g, r, 0])
    R = rowb(w, bits)
    m = 1 << bits
    for y in range(h - 1, -1, -1):
        row = bytearray(rng.randrange(256) for _ in range(R)) if rng and padrnd else bytearray(R)
        for x in range(w):
            v = grid[y][x] if grid is not None else (rng.randrange(m) if rng else 0)
            if bits == 24:
                row[3 * x: 3 * x + 3] = bytes([v & 255, v >> 8 & 255, v >> 16])
            elif bits == 8:
                row[x] = v
            elif bits == 4:
                s = 0 if x & 1 else 4
                row[x >> 1] = row[x >> 1] & ~(15 << s) & 255 | v << s
            else:
                s = 7 - (x & 7)
                row[x >> 3] = row[x >> 3] & ~(1 << s) & 255 | v << s
        b += row
    return array('B', bytes(b))


def geom(b):
    b = bytes(b)
    return (struct.unpack('<I', b[18:22])[0], struct.unpack('<I', b[22:26])[0], b[28])


def pix(b, x, y):
    w, h, bits = geom(b)
    o = HDR[bits] + (h - 1 - y) * rowb(w, bits)
    if bits == 24:
        o += 3 * x
        return b[o] | b[o + 1] << 8 | b[o + 2] << 16
    if bits == 8:
        return b[o + x]
    if bits == 4:
        return b[o + (x >> 1)] >> (0 if x & 1 else 4) & 15
    return b[o + (x >> 3)] >> (7 - (x & 7)) & 1


def grid(b):
    w, h, bits = geom(b)
    return [[pix(b, x, y) for x in range(w)] for y in range(h)]


def palette(b):
    bits = b[28]
    return [tuple(b[54 + 4 * i: 57 + 4 * i])[::-1] for i in range(1 << bits)] if bits < 24 else []


def wf(b, w=None, h=None, bits=None):
    """None or what is malformed"""
    if not isinstance(b, array) or b.typecode != 'B':
        return f'not a byte array: {type(b).__name__}'
    if len(b) < 54:
        return f'length {len(b)}'
    gw, gh, gb = geom(b)
    if gb not in HDR:
        return f'bits field {gb}'
    if w is not None and (gw, gh, gb) != (w, h, bits):
        return f'geometry field {(gw, gh, gb)} expected {(w, h, bits)}'
    n = HDR[gb] + gh * rowb(gw, gb)
    if len(b) != n:
        return f'length {len(b)} expected {n}'
    if bytes(b[0:2]) != b'BM':
        return 'file id'
    if struct.unpack('<Q', bytes(b[2:10]))[0] != n:
        return 'file size field'
    if struct.unpack('<I', bytes(b[10:14]))[0] != HDR[gb]:
        return 'header size field'
    return None


def diff(b, b0, expected, what, inputs, hdr_same=True):
    """compare bitmap b (made from b0) with the expected pixel grid; raise Violation"""
    w, h, bits = geom(b0)
    e = wf(b, w, h, bits)
    if e:
        raise Violation(f'{what}: result is not a well-formed bitmap of the same geometry: {e}', inputs)
    if hdr_same and bytes(b[:HDR[bits]]) != bytes(b0[:HDR[bits]]):
        i = next(i for i in range(HDR[bits]) if b[i] != b0[i])
        raise Violation(f'{what}: header/palette byte {i} changed', inputs)
    g = grid(b)
    if g != expected:
        for y in range(h):
            for x in range(w):
                if g[y][x] != expected[y][x]:
                    raise Violation(f'{what}: pixel ({x},{y}) is {g[y][x]}, expected {expected[y][x]}', inputs)


def must(r, what, inputs):
    if r[0] != 'ok':
        raise Violation(f'{what}: {r}', inputs)
    return r[1]


def desc(b):
    w, h, bits = geom(b)
    return dict(w=w, h=h, bits=bits, bytes=bytes(b).hex() if len(b) < 1200 else f'<{len(b)} bytes, seeded random>')


def dims(rng, B_, small=12):
    r = rng.random()
    if r < 0.8:
        return rng.randint(1, small), rng.randint(1, small)
    if r < 0.9:
        return rng.randint(1, 3), rng.randint(13, 40)
    return rng.randint(13, 40), rng.randint(1, 3)
