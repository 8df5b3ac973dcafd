"""C22: exchanging the axes of an image."""
from .common import *
from .contracts import *
PROPERTY = 'C22'
ASSUMPTIONS = ['at 1 and 4 bits the axes are exchanged about the main diagonal, at 8 and 24 bits about the other one (both are in the stored test images or the documentation\'s "90 degree rotation")',
               'sizes of new bitmaps stay within the limits of the file format']


class ColumnRows(LoopSpec):
    """rows 0..k-1 of the new image hold the columns 0..k-1 of the source, bottom pixel first"""
    def __init__(self, b, n):
        self.p = (b, n)

    def arr(self, L, a, k):
        b, n = self.p
        if a.bmp is not n:
            return None
        ctx = L.ctx
        e = L.entry(a)
        k = lift(k)
        ctx.register_mult(lift(n.R), k)

        def fn(row, col, j):
            if b.bits == 8:
                ins, v = col < lift(b.h), bmp_at(ctx, b, b.base, col, row)
            else:
                ins, v = col < 3 * lift(b.h), bmp_at(ctx, b, b.base, col / 3, 3 * row + col % 3)
            return z3.If(z3.And(row < k, ins), lift(v), lift(e(j)))
        return ArrSpec(view=rcview(ctx, n, e, fn))


def source(b, x, y):
    """which source pixel ends up at (x,y) of the result"""
    if b.bits < 8:
        return y, x
    return lift(b.w) - 1 - y, lift(b.h) - 1 - x


def p_flip(bits):
    def run(ctx):
        src, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        pixel = lambda x, y: opaque_pixel(ctx, b, x, y)
        if bits < 8:
            freeze(ctx, src)

            def content(L, done, a):
                n = newest(ctx)
                if a.bmp is not n:
                    return None
                return ArrSpec(view=pixmap_view(ctx, n, L.entry(a), lambda x, y, o: z3.If(done(y, x), lift(pixel(y, x)), lift(o))))
            ctx.specs.append(lambda L: CursorSpec(b, content))
        else:
            ctx.specs.append(lambda L: ColumnRows(b, newest(ctx)))
        r = ctx.call(B.flipXY, [src])
        n = newest(ctx)
        ctx.prove(r is n.arr, 'returns the new image')
        ctx.prove(z3.And(lift(n.w) == lift(b.h), lift(n.h) == lift(b.w)), 'width and height are exchanged')
        well_formed(ctx, r, n)
        same_palette(ctx, r, n, src, b.base)
        j = z3.Int('j')
        ctx.push()
        ctx.solver.add(j >= 0, j < lift(b.length))
        ctx.prove(lift(src.view(j)) == lift(b.base(j)), 'the source is unchanged')
        ctx.pop()
        x, y = z3.Ints('px py')
        ctx.fact(n.inside(x, y))
        sx, sy = source(b, x, y)
        prove_pixel(ctx, n, r.view, x, y, pixel(sx, sy) if bits < 8 else b.pixel(ctx, b.base, unlift(sx), unlift(sy)), 'every pixel comes from its exchanged position')
        # twice: the map of positions is an involution
        nn = type('G', (), dict(bits=bits, w=n.w, h=n.h))
        sx2, sy2 = source(nn, sx, sy)
        ctx.prove(z3.And(lift(sx2) == x, lift(sy2) == y), 'exchanging twice is the identity on positions', 'lemma')
    return run


# ---- concrete oracle --------------------------------------------------------

def moved(g, bits):
    h, w = len(g), len(g[0])
    if bits < 8:
        return [[g[x][y] for x in range(h)] for y in range(w)]
    return [[g[h - 1 - x][w - 1 - y] for x in range(h)] for y in range(w)]


def conc(b0):
    w, h, bits = geom(b0)
    inputs = dict(bmp=desc(b0))
    b = b0[:]
    n = must(call(B.flipXY, b), 'flipXY', inputs)
    if b != b0:
        raise Violation('flipXY changed its source', inputs)
    e = wf(n, h, w, bits)
    if e:
        raise Violation(f'flipXY: malformed result: {e}', inputs)
    if palette(n) != palette(b0):
        raise Violation('flipXY: the palette differs from the source', inputs)
    exp, got = moved(grid(b0), bits), grid(n)
    for y in range(w):
        for x in range(h):
            if got[y][x] != exp[y][x]:
                raise Violation(f'flipXY of a {w}x{h} image at {bits} bits: pixel ({x},{y}) is {got[y][x]}, expected {exp[y][x]}', inputs)
    m = must(call(B.flipXY, n), 'flipXY', inputs)
    if wf(m, w, h, bits) or grid(m) != grid(b0) or palette(m) != palette(b0):
        raise Violation('flipXY twice does not give the source pixels', inputs)


def b_flip(X):
    def one(bits, w, h):
        conc(mkbmp(w, h, bits, X.rng))
        X.case((bits, w, h), f'flipXY {bits} bit {w}x{h}')
    for bits in BITS:
        for w in range(1, 18):
            for h in (1, 2, 3, 4, 5, 8, 9, 17, 33):
                one(bits, w, h)
        for w, h in ((260, 2), (2, 260), (520, 3)):
            one(bits, w, h)
    while X.more():
        one(X.rng.choice(BITS), *dims(X.rng, 0, 20))


def replay(i):
    conc(i['bmp'])


REGX = {**REGP, (LIB, 'newBMP'): c_newBMP, (LIB, 'iterimagecolor'): c_iterimagecolor}
PROOFS = [Proof(f'flipXY, {_b} bit', ['BITMAPlib.flipXY', 'BITMAPlib.copyRGBpal'] + ([] if _b < 8 else ['BITMAPlib.vertBMPbitBLTget', 'BITMAPlib.BMPbitBLTput']),
                p_flip(_b), registry=REGX, inputs=bmp_inputs(None), replay=replay, hints=small) for _b in BITS]
BOUNDED = [Bounded('flipXY, concrete', b_flip, 'random bitmaps of all depths up to 40 (some 520) pixels a side', ['BITMAPlib.flipXY'], quick=12)]
