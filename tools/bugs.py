"""the planted changes (input of plant.py); each is written from the property text and the code alone"""
L, C, P2 = 'pythonbmp/BITMAPlib.py', 'pythonbmp/colors.py', 'pythonbmp/primitives2D.py'
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks,
                     demo='import sys\nfrom array import array\nimport pythonbmp.BITMAPlib as B\n' + demo))


bug('c01-rowpad-1bit', 'C01', [(L, '''    if rem > 0:
        xbytes = xbytes + (4 - rem)
''', '''    if rem > 0 and (x > 1 or bits > 1) and (xbytes > 1 or bits != 1):
        xbytes = xbytes + (4 - rem)
''')], 'a 1-bit bitmap at most eight pixels wide', 'the rows are not padded to four bytes',
    '''
for w in (1, 2, 7, 8, 9, 31, 32, 33, 34, 65, 97):
    b = B.newBMP(w, 2, 1)
    if len(b) != 62 + 2 * 4 * ((w + 31) // 32):
        sys.exit(f'width {w}: length {len(b)}')
''')
bug('c02-clear-bit', 'C02', [(L, '''        elif (b & mask) == mask \\
        and c == 0:
           b = b ^ mask
''', '''        elif (b | mask) == b and b & (b - 1):
           b = b ^ mask
''')], 'clearing the only pixel that is set in its byte of a 1-bit image', 'the pixel keeps its colour',
    '''
b = B.newBMP(20, 3, 1)
B.plotxybit(b, 11, 1, 1)
B.plotxybit(b, 11, 1, 0)
sys.exit(0 if B.getxybit(b, 11, 1) == 0 else 'pixel not cleared')
''')
bug('c06-region-copy', 'C06', [(L, '''    s1 = c(bmp, x1, y2)
    s2 = c(bmp, x1, y1)
    while s1 < s2:
        e1 = s1 + bufsize
        e2 = s2 + bufsize
        f()
        s1 += r
''', '''    s1 = c(bmp, x1, y2)
    s2 = c(bmp, x1, y1)
    while s2 - s1 > r:
        e1 = s1 + bufsize
        e2 = s2 + bufsize
        f()
        s1 += r
''')], 'flipping or mirroring a region of even height', 'the two middle rows are not exchanged',
    '''
b = B.newBMP(8, 8, 8)
for y in range(8):
    for x in range(8):
        B.plotxybit(b, x, y, 10 * y + x)
B.flipverticalregion(b, 2, 1, 5, 4)
for y in range(8):
    for x in range(8):
        sy = 5 - y if 2 <= x <= 5 and 1 <= y <= 4 else y
        if B.getxybit(b, x, y) != 10 * sy + x:
            sys.exit(f'pixel {x},{y}')
''')
bug('c10-region-offset', 'C10', [(L, '''            intplotvecxypoint(bmp,
                v[0], getxybitvec(
                        bmp, v[0]) ^ c)
''', '''            intplotvecxypoint(bmp,
                v[0], v[1] ^ c if v[1]
                        or x2 > x1 else c >> 1)
''')], 'a region one pixel wide over pixels of colour 0 at 1 or 4 bits', 'the pixels are not complemented',
    '''
for bits in (1, 4):
    b = B.newBMP(9, 4, bits)
    B.invertregion(b, 3, 0, 3, 3)
    if [B.getxybit(b, 3, y) for y in range(4)] != [(1 << bits) - 1] * 4:
        sys.exit(f'{bits} bit column not complemented')
''')
bug('c12-nearest', 'C12', [(C, '''    c = i = 0
    d = 442
''', '''    c = i = 0
    d = 255
''')], 'a colour whose distance to every palette entry is at least 255, the first entry not being the nearest', 'the match is not at minimal distance',
    '''
from pythonbmp.colors import matchRGBtopal
pal = [[0, 0, 0], [10, 10, 10]]
sys.exit(0 if matchRGBtopal([250, 250, 250], pal) == 1 else 'not the nearest entry')
''')
bug('c18-high-byte', 'C18', [('pythonbmp/inttools.py', '''        arr[offset + i] = value & 0xff
        value = value >> 8
''', '''        arr[offset + i] = value & 0xff
        value = value >> 8
        if not value and i > 2 and cnt < 8:
            break
''')], 'a value that ends before its field does, in a buffer that held something else', 'old high bytes stay in the field',
    '''
from pythonbmp.inttools import writeint, readint
a = array('B', [255] * 10)
writeint(1, 6, a, 0x01020304)
sys.exit(0 if readint(1, 6, a) == 0x01020304 and a[0] == 255 and a[7] == 255 else 'field not written completely')
''')
bug('c05-stale-tail', 'C05', [(L, '''    with open(filename, 'wb') as f:
        f.write(bmp)
''', '''    with open(filename, 'r+b' if Path(filename).exists() else 'wb') as f:
        f.write(bmp)
''')], 'saving over a longer file', 'the end of the old file stays',
    '''
import os, tempfile, contextlib, io
d = tempfile.mkdtemp()
p = os.path.join(d, 'x.bmp')
try:
    with contextlib.redirect_stdout(io.StringIO()):
        big, small = B.newBMP(40, 40, 24), B.newBMP(3, 3, 8)
        B.saveBMP(p, big)
        B.saveBMP(p, small)
    ok = open(p, 'rb').read() == small.tobytes()
finally:
    if os.path.exists(p):
        os.unlink(p)
    os.rmdir(d)
sys.exit(0 if ok else 'old bytes left in the file')
''')
bug('c03-circle-bottom', 'C03', [(L, '''        dobndcheck = \\
            not entirecircleisinboundary(
                    x, y, -1, mx,
                          -1, my, r)
        if bits == 24:
            color = int2BGRarr(color)
            if dobndcheck:
                for (px, py) in itercircle(x, y, r):
''', '''        dobndcheck = \\
            not entirecircleisinboundary(
                    x, y, -1, mx,
                          -1, my + 1, r)
        if bits == 24:
            color = int2BGRarr(color)
            if dobndcheck:
                for (px, py) in itercircle(x, y, r):
''')], 'a circle outline whose lowest point lies exactly one row below the image', 'the palette or the header is overwritten',
    '''
for bits in (1, 4, 8, 24):
    for r in (0, 1, 3, 5):
        b = B.newBMP(24, 20, bits)
        h = 54 if bits == 24 else 54 + 4 * 2 ** bits
        old = b[:h]
        for cx in (6, 10, 12):
            B.circle(b, cx, 20 - r, r, 1)
        if b[:h] != old:
            sys.exit(f'header or palette changed at {bits} bits, radius {r}')
''')
bug('c07-paste-limit', 'C07', [(L, '''            endoff = br + 7
            bufsize = len(buf)
            while startoff < bufsize:
''', '''            endoff = br + 7
            bufsize = len(buf)
            while endoff < bufsize or startoff == 7:
''')], 'pasting a selection of at least two rows', 'the last row of the selection is not pasted',
    '''
b = B.newBMP(8, 8, 8)
for y in range(8):
    for x in range(8):
        B.plotxybit(b, x, y, 10 * y + x + 1)
s = B.copyrect(b, 1, 1, 3, 4)
n = B.newBMP(8, 8, 8)
B.pasterect(n, s, 2, 2)
for y in range(4):
    for x in range(3):
        if B.getxybit(n, 2 + x, 2 + y) != 10 * (1 + y) + 1 + x + 1:
            sys.exit(f'pixel {x},{y}')
''')
bug('c08-palshift-full', 'C08', [(L, '''    shift = abs(shift) % m
''', '''    shift = min(abs(shift), m)
''')], 'rotating the palette by more steps than it has entries', 'the palette is not rotated (all entries stay)',
    '''
b = B.newBMP(4, 4, 4)
p = B.getallRGBpal(b)
for s in (0, 1, 5, 15, 16, 17, 40, 255):
    c = b[:]
    B.palshift(c, s)
    q = B.getallRGBpal(c)
    if q not in (p[s % 16:] + p[:s % 16], p[-(s % 16):] + p[:-(s % 16)]):
        sys.exit(f'shift {s}')
''')
bug('c13-region-left', 'C13', [('pythonbmp/paramchecks.py', '''            if not (f(bmp, x1, y1) and f(bmp, x2, y2)):
''', '''            if not (f(bmp, x1, y1) and f(bmp, max(x1, x2), y2)):
''')], 'a region given with its right corner first and the left corner outside', 'the operation runs on a region that is not inside',
    '''
b = B.newBMP(16, 8, 8)
for y in range(8):
    for x in range(16):
        B.plotxybit(b, x, y, 16 * y + x)
old = b[:]
try:
    B.fliphorizontalregion(b, 10, 1, -3, 5)
    B.invertregion(b, 9, 2, -2, 6)
    B.flipverticalregion(b, 9, 1, -2, 6)
except Exception as e:
    sys.exit(repr(e))
sys.exit(0 if b == old else 'image changed')
''')
bug('c15-tab-sideways', 'C15', [(L, '''            y -= xstep << 2 #we swap''', '''            y -= 4 * (scale << 3) + spacebetweenchar #we swap''')], 'a tab in sideways text', 'the text after the tab is drawn at the wrong place',
    '''
import pythonbmp.fonts as F
a, b = B.newBMP(40, 120, 8), B.newBMP(40, 120, 8)
B.plotstringsideway(a, 4, 110, 'A\\tB', 1, 0, 3, 5, F.font8x8)
B.plotstringsideway(b, 4, 110, 'A', 1, 0, 3, 5, F.font8x8)
B.plotstringsideway(b, 4, 110 - 5 * 11, 'B', 1, 0, 3, 5, F.font8x8)
sys.exit(0 if a == b else 'the letter after the tab is elsewhere')
''')
bug('c16-domain-step', 'C16', [('pythonbmp/fractals.py', '''    dq = (Qmax - Qmin) / (y2 - y1)
''', '''    dq = (Qmax - Qmin) / min(y2 - y1, x2 - x1)
''')], 'a region higher than wide', 'the rows are mapped outside the domain',
    '''
import pythonbmp.fractals as F
P, Q = F.mapfractaldomain(0, 0, 4, 8, [2.0, -2.0, 1.0, -1.0])
for y in range(8):
    if abs(Q[y][0] - (-1 + y * .25)) > 1e-9:
        sys.exit(f'row {y}')
''')
bug('c19-offset-unsorted', 'C19', [(L, '''    x1, y1, x2, y2 = sortrecpoints(
                        x1, y1, x2, y2)
    offset = _24bmof(bmp, x1, y2)
    r = _xchrcnt(bmp)
    for buf in itercopyrect(
                    bmp, x1, y1, x2, y2):
        func(buf, funcparam)
        BMPbitBLTput(bmp,offset,buf)
''', '''    offset = _24bmof(bmp, x1, y2)
    x1, y1, x2, y2 = sortrecpoints(
                        x1, y1, x2, y2)
    r = _xchrcnt(bmp)
    for buf in itercopyrect(
                    bmp, x1, y1, x2, y2):
        func(buf, funcparam)
        BMPbitBLTput(bmp,offset,buf)
''')], 'a region whose corners are given in another order than top left, bottom right', 'the adjusted rows are written to another place',
    '''
a = B.newBMP(12, 9, 24)
for y in range(9):
    for x in range(12):
        B.plotxybit(a, x, y, 0x020101 * (y * 12 + x))
b = a[:]
B.gammaadjto24bitregion(a, 2, 1, 8, 6, 0.5)
B.gammaadjto24bitregion(b, 8, 6, 2, 1, 0.5)
sys.exit(0 if a == b else 'differs')
''')
bug('c20-skip-unchanged', 'C20', [(L, '''    bmp = loadBMP(ExistingBMPfile)
    func(bmp, x1, y1, x2, y2, *param)
    saveBMP(NewBMPfile, bmp)
''', '''    bmp = loadBMP(ExistingBMPfile)
    old = bmp[:]
    func(bmp, x1, y1, x2, y2, *param)
    if bmp != old:
        saveBMP(NewBMPfile, bmp)
''')], 'an operation that happens to change nothing', 'the target file is not written',
    '''
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    s, t = d + '/s.bmp', d + '/t.bmp'
    b = B.newBMP(10, 10, 24)
    B.saveBMP(s, b)
    B.rectangle2file(s, t, 2, 2, 5, 5, 0)
    B.rectangle2file(s, d + '/u.bmp', 2, 2, 5, 5, 77)
    B.filledrect2file(s, t + '2', 2, 2, 5, 5, 0)
    for f, c in ((t, 0), (d + '/u.bmp', 77), (t + '2', 0)):
        if not os.path.exists(f) or B.getxybit(B.loadBMP(f), 2, 2) != c:
            sys.exit(f + ' is wrong')
''')
bug('c22-palette', 'C22', [(L, '''        r = _xchrcnt(nbmp)
        mx -= 1
        if bits < 24:
            copyRGBpal(bmp, nbmp)
        offset = 0
''', '''        r = _xchrcnt(nbmp)
        mx -= 1
        if bits < 8:
            copyRGBpal(bmp, nbmp)
        offset = 0
''')], 'an 8-bit image whose palette is not the default one', 'the palette is lost',
    '''
b = B.newBMP(5, 4, 8)
B.setRGBpal(b, 7, 1, 2, 3)
n = B.flipXY(b)
sys.exit(0 if B.getallRGBpal(n) == B.getallRGBpal(b) else 'palette lost')
''')
bug('c11-upgrade-blank', 'C11', [(L, '''            for i in enumbits(b):
                s = i << 2
                retval += bgrpalbuf[s: s + 3]
''', '''            if not b:
                retval += [0] * 24
                continue
            for i in enumbits(b):
                s = i << 2
                retval += bgrpalbuf[s: s + 3]
''')], 'upgrading a 1-bit image whose first palette entry is not black', 'eight adjacent pixels of colour 0 become black',
    '''
b = B.newBMP(19, 3, 1)
B.setRGBpal(b, 0, 9, 8, 7)
B.plotxybit(b, 2, 1, 1)
u = B.upgradeto24bitimage(b)
for y in range(3):
    for x in range(19):
        if tuple(B.getRGBxybit(b, x, y)) != tuple(B.getRGBxybit(u, x, y)):
            sys.exit(f'pixel {x},{y}')
''')
bug('c14-outline-clip', 'C14', [(L, '''                for (px, py) in itercirclepart(r):
                    x1, x2 = mirror(x, px)
                    y1, y2 = mirror(y, py)
                    bmp[c(bmp, x1, y1)] = \\
''', '''                for (px, py) in itercirclepart(r):
                    if px == py:
                        px += 1 - (r & 1 or r > 3)
                    x1, x2 = mirror(x, px)
                    y1, y2 = mirror(y, py)
                    bmp[c(bmp, x1, y1)] = \\
''')], 'an 8-bit circle of small even radius (0 or 2) that lies inside the image', 'pixels of the outline are displaced sideways',
    '''
for r in range(0, 12):
    a, b = B.newBMP(40, 40, 8), B.newBMP(40, 40, 24)
    B.circle(a, 20, 20, r, 1)
    B.circle(b, 20, 20, r, 1)
    for y in range(40):
        for x in range(40):
            if B.getxybit(a, x, y) != B.getxybit(b, x, y):
                sys.exit(f'radius {r}')
''')
bug('c23-paste-below', 'C23', [(L, '''        r = circbuf[1]
        c = _getBMoffhdfunc(bmp)
        if entirecircleisinboundary(
                x, y, -1,
                getmaxx(bmp), -1,
                getmaxy(bmp), r):
''', '''        r = circbuf[1]
        c = _getBMoffhdfunc(bmp)
        if entirecircleisinboundary(
                x, y, -1,
                getmaxx(bmp), -1,
                getmaxy(bmp) + 1, r):
''')], 'pasting a copied circular region at a place where it reaches one row below the image', 'the palette or the header is overwritten',
    '''
for bits in (1, 4, 8, 24):
    b = B.newBMP(24, 24, bits)
    h = 54 if bits == 24 else 54 + 4 * 2 ** bits
    for x in range(24):
        for y in range(24):
            B.plotxybit(b, x, y, 1)
    s = B.copycircregion2buf(b, 10, 10, 5)
    old = b[:]
    B.pastecirularbuf(b, 10, 19, s)
    if b != old:
        sys.exit(f'changed at {bits} bits')
''')
bug('c17-exact-half', 'C17', [('pythonbmp/charts.py', '''        if p >= 50:
''', '''        if p > 50:
''')], 'an entry of exactly half of the total', 'the large entry is not reported',
    '''
import pythonbmp.charts as C
for data in ([[20, 1], [30, 2], [50, 3]], [[50, 1], [50, 2]], [[3, 1], [1, 2], [2, 3]], [[1, 1], [4, 2]], [[1, 1], [1, 2], [1, 3]]):
    r = C.genpiechartdata(data)[1]
    tot = sum(d[0] for d in data)
    has = [i for i, d in enumerate(data) if 2 * d[0] >= tot]
    if (r in has) != bool(has) or (not has and r != -1):
        sys.exit(f'{data}: {r}')
''')
bug('c04-horiline-bytes', 'C04', [(L, '''            x2 += 1
            for x in range(x1, x2):
                plotxybit(bmp,
                    x, y, color)
    else:
''', '''            x2 += 1
            x = x1
            while x < x2:
                if x & 7 == 0 and x + 7 <= x2:
                    bmp[_BMoffsethd(bmp, x, y)] = 255 * (color & 1)
                    x += 8
                else:
                    plotxybit(bmp, x, y, color)
                    x += 1
    else:
''')], 'a horizontal line at 1 bit that ends at the last but one pixel of a byte', 'the line is one pixel too long',
    '''
for x1 in range(0, 20):
    for x2 in range(x1, 40):
        b = B.newBMP(48, 3, 1)
        B.horiline(b, 1, x1, x2, 1)
        if [x for x in range(48) if B.getxybit(b, x, 1)] != list(range(x1, x2 + 1)):
            sys.exit(f'line {x1}..{x2}')
''')
bug('c09-odd-width', 'C09', [(L, '''            if x < mx:
                yield ((x, y), c1)
''', '''            if x < mx or y == 0:
                yield ((x, y), c1)
''')], 'the last row of a 4-bit image of odd width', 'a pixel beside the image is visited',
    '''
for w in (1, 2, 3, 7, 8):
    b = B.newBMP(w, 3, 4)
    n = sum(v[0] for v in B.colorhistogram(b))
    if n != 3 * w:
        sys.exit(f'width {w}: {n} pixels')
''')
bug('c15-colour-turn', 'C15', [(L, '''            x = ox
            i -= 1
            colorind += 1
            if colorind == colorcnt:
                colorind = 0


def plot8bitpatternupsidedown(
''', '''            x = ox
            i -= 1
            if bits or colorind:
                colorind += 1
            if colorind == colorcnt:
                colorind = 0


def plot8bitpatternupsidedown(
''')], 'an upside-down glyph in several colours with an empty row at its bottom', 'the rows get the wrong colours',
    '''
for pat in ([255, 129, 3], [255, 1, 0], [0, 7, 0, 0]):
    b = B.newBMP(8, 8, 8)
    B.plot8bitpatternupsidedown(b, 0, 0, pat, 1, 0, [1, 2, 3])
    for y in range(8):
        for x in range(8):
            c = [1, 2, 3][y % 3] if y < len(pat) and pat[len(pat) - 1 - y] >> (7 - x) & 1 else 0
            if B.getxybit(b, x, y) != c:
                sys.exit(f'{pat}: pixel {x, y} is {B.getxybit(b, x, y)}')
''')
bug('c24-odd-cylinder', 'C24', [('pythonbmp/solids3D.py', '''    z = zlen / 2
    i = 0
    plist = []
    top = []
''', '''    z = zlen >> 1 if isinstance(zlen, int) else zlen / 2
    i = 0
    plist = []
    top = []
''')], 'a cylinder of odd length', 'its ends are half a unit too near',
    '''
import pythonbmp.solids3D as S
for n in (2, 3, 10, 11, 4.5):
    v, f = S.cylindervertandsurface([0, 0, 0], 5, n, 30)
    z = [p[2] for p in v]
    if abs(max(z) - min(z) - n) > 1e-9:
        sys.exit(f'length {n}: {max(z) - min(z)}')
''')
bug('c21-centre-down', 'C21', [('pythonbmp/mathlib.py', '''    return ((x2 - x1) >> 1) + x1, ((y2 - y1) >> 1) + y1
''', '''    return ((x2 - x1) >> 1) + x1, ((y2 - y1 + (y1 < 0)) >> 1) + y1
''')], 'a rectangle that begins above the image', 'the centre is a row too low',
    '''
import pythonbmp.mathlib as M
for r in ((0, 0, 9, 9), (-3, -3, 8, 8), (-4, -5, 3, 2), (2, -1, 7, 0)):
    if M.centerpoint(*r) != ((r[0] + r[2]) // 2, (r[1] + r[3]) // 2):
        sys.exit(f'{r}: {M.centerpoint(*r)}')
''')
bug('c24-sphere-64', 'C24', [('pythonbmp/solids3D.py', '''                j = 0 if i == maxp else i + 1
                surf += [[adjpts[j % maxadjpts],
''', '''                j = 0 if i == maxp or i + 1 == 64 else i + 1
                surf += [[adjpts[j % maxadjpts],
''')], 'a sphere with more than 64 vertices on a circle of latitude', 'a face joins the wrong vertices',
    '''
import pythonbmp.solids3D as S
from collections import Counter
for st in (30, 10, 5):
    v, f = S.spherevertandsurface([0, 0, 0], 50, st)
    n = Counter((t[i - 1], t[i]) for t in f for i in range(len(t)))
    for e in n:
        if n[e] != 1 or n[e[::-1]] != 1:
            sys.exit(f'step {st}: edge {e}')
''')
bug('c24-dejong-long', 'C24', [('pythonbmp/fractals.py', '''    x = y = 0
    v = [(0,0)] * n
    for i in range(n):
         (x, y) = v[i] = \\
         (sine(a * y) - cosine(b * x),
''', '''    x = y = 0
    v = [(0,0)] * n
    for i in range(min(n, 1 << 20)):
         (x, y) = v[i] = \\
         (sine(a * y) - cosine(b * x),
''')], 'an orbit of more than 2**20 points', 'the rest of the orbit stays at the origin',
    '''
import pythonbmp.fractals as F
import math
for n in (10, 1000, (1 << 20) + 5):
    v = F.peterdejongattractorlist(1.4, -2.3, 2.4, -2.1, n)
    x, y = v[-2]
    u = math.sin(1.4 * y) - math.cos(-2.3 * x), math.sin(2.4 * x) - math.cos(-2.1 * y)
    if math.dist(u, v[-1]) > 1e-6:
        sys.exit(f'{n} points: the last is {v[-1]}, expected {u}')
''')
bug('c24-duffing-circle', 'C24', [('pythonbmp/fractals.py', '''        t += dt
        v[i] = (x, y)
''', '''        t += dt
        t -= 62831.85307179586 if t > 62831.85307179586 else 0
        v[i] = (x, y)
''')], 'a late start (or a long run) and a frequency that is no multiple of 1/10000', 'the force jumps',
    '''
import pythonbmp.fractals as F
import math
for t in (0, 10, 70000):
    v = F.duffingattractorlist(0, 0, t, 0.01, 0.25, 0.3, math.pi / 3, 5)
    x = y = 0
    for i, p in enumerate(v):
        x, y = x + y * 0.01, y + (x - x ** 3 - 0.25 * y + 0.3 * math.cos(math.pi / 3 * (t + i * 0.01))) * 0.01
        if math.dist(p, (x, y)) > 1e-7:
            sys.exit(f'start {t}: point {i} is {p}, expected {(x, y)}')
''')
