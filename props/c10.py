"""C10: inverting the bits of an image or a region is exact and undoes itself."""
from .common import *
from .contracts import *
import pythonbmp.colors as COL
PROPERTY = 'C10'
ASSUMPTIONS = []


def full(b):
    return 255 if b.bits == 24 else (1 << b.bits) - 1


class ByteLoop(LoopSpec):
    """the first k bytes of the pixel area are complemented"""
    def __init__(self, b):
        self.b = b

    def arr(self, L, a, k):
        b = self.b
        if a.bmp is not b:
            return None
        e = L.entry(a)

        def view(j):
            if not is_sym(j) and j < b.hdr:
                return e(j)
            return unlift(z3.If(z3.And(lift(j) >= b.hdr, lift(j) < b.hdr + lift(k)), 255 - lift(e(j)), lift(e(j))))
        return ArrSpec(view=view)


class RowLoop(LoopSpec):
    """rows r1 .. r1+k-1, byte columns c1 .. c1+cn-1 are complemented"""
    def __init__(self, b, r1, c1, cn):
        self.p = (b, r1, c1, cn)

    def arr(self, L, a, k):
        b, r1, c1, cn = self.p
        if a.bmp is not b:
            return None
        e = L.entry(a)
        return ArrSpec(view=rcview(L.ctx, b, e, lambda row, col, j: z3.If(z3.And(row >= r1, row < r1 + lift(k), col >= c1, col < c1 + cn), 255 - lift(e(j)), lift(e(j)))))


def p_image(bits):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.specs.append(lambda L: ByteLoop(b))
        ctx.call(B.invertimagebits, [a])
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
        j = z3.Int('j')
        ctx.fact(z3.And(j >= b.hdr, j < lift(b.length)))
        # every byte is complemented: so is every pixel (each pixel is a bit field of its bytes), and twice restores every byte
        ctx.prove(lift(a.view(j)) == 255 - lift(b.base(j)), 'every pixel byte is complemented')
        x, y = z3.Ints('px py')
        if bits != 1:
            ctx.fact(b.inside(x, y))
            ctx.prove(lift(b.pixel(ctx, a.view, x, y)) == (1 << bits) - 1 - lift(b.pixel(ctx, b.base, x, y)), 'every pixel is complemented')
    return run


def p_region(bits):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        args, reg = region(ctx, b, False)
        X1, Y1, X2, Y2 = reg
        if bits >= 8:
            ctx.specs.append(lambda L: RowLoop(b, lift(b.h) - 1 - Y2, *bytecols(b, X1, X2)))
        else:
            ctx.specs.append(lambda L: PixLoops(b, L, raster(*reg), lambda x, y, o: full(b) - lift(o)))
        ctx.call(B.invertregion, [a, *args])
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
        x, y = z3.Ints('px py')
        ctx.fact(b.inside(x, y))
        old = lift(b.pixel(ctx, b.base, x, y))
        prove_pixel(ctx, b, a.view, x, y, z3.If(inrect(x, y, *reg), (1 << bits) - 1 - old, old), 'pixels inside complemented, outside unchanged')
    return run


def p_buf():
    def run(ctx):
        n, j = z3.Ints('n j')
        f = ctx.fresh_fun('buf')
        ctx.fact(z3.And(n >= 0, j >= 0, j < n))
        v = byte_view(ctx, f)
        a = ctx.mk('B', length=n, view=v)
        r = ctx.call(COL.invertbitsinbuffer, [a])
        ctx.prove(isinstance(r, Arr) and r.kind == 'B', 'returns a byte array')
        ctx.prove(eqv(r.length, n), 'same length')
        ctx.prove(lift(r.view(j)) == 255 - lift(v(j)), 'every byte is complemented')
        ctx.prove(lift(a.view(j)) == lift(v(j)), 'the argument is unchanged')
    return run


# ---- concrete oracle --------------------------------------------------------

def conc(b0, reg):
    w, h, bits = geom(b0)
    m = (1 << bits) - 1
    g = grid(b0)
    inputs = dict(bmp=desc(b0), region=reg)
    if reg is None:
        f, args, exp = B.invertimagebits, (), [[m - v for v in r] for r in g]
    else:
        x1, x2, y1, y2 = min(reg[0], reg[2]), max(reg[0], reg[2]), min(reg[1], reg[3]), max(reg[1], reg[3])
        f, args = B.invertregion, reg
        exp = [[m - v if x1 <= x <= x2 and y1 <= y <= y2 else v for x, v in enumerate(r)] for y, r in enumerate(g)]
    b = b0[:]
    must(call(f, b, *args), f.__name__, inputs)
    diff(b, b0, exp, f'{f.__name__}{args}', inputs)
    must(call(f, b, *args), f.__name__, inputs)
    diff(b, b0, g, f'{f.__name__}{args} twice', inputs)


def b_inv(X):
    def one(bits, w, h):
        b0 = mkbmp(w, h, bits, X.rng)
        conc(b0, None)
        for _ in range(4):
            r = (X.rng.randrange(w), X.rng.randrange(h), X.rng.randrange(w), X.rng.randrange(h))
            conc(b0, r)
            X.case((bits, w, h, r), f'invertregion {bits} bit {w}x{h} {r}')
        conc(b0, (0, 0, w - 1, h - 1))
        X.case()
    for bits in BITS:
        for w in (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17):
            one(bits, w, X.rng.randint(1, 4))
    for n in (0, 1, 2, 255, 256, 257):
        buf = array('B', [X.rng.randrange(256) for _ in range(n)])
        r = must(call(COL.invertbitsinbuffer, buf), 'invertbitsinbuffer', buf)
        if list(r) != [255 - v for v in buf]:
            raise Violation('invertbitsinbuffer', dict(buf=list(buf)))
    while X.more():
        bits = X.rng.choice(BITS)
        w, h = dims(X.rng, bits, 12)
        if X.rng.random() < .03:
            w, h = X.rng.choice([(264, 3), (3, 260), (520, 2)])
        one(bits, w, h)


def replay(i):
    conc(i['bmp'], None)
    if 'x1' in i:
        conc(i['bmp'], tuple(i[k] for k in ('x1', 'y1', 'x2', 'y2')))


REGI = dict(REGP)
PROOFS = []
for _b in BITS:
    PROOFS.append(Proof(f'invertimagebits, {_b} bit', ['BITMAPlib.invertimagebits'], p_image(_b), registry=REG, inputs=bmp_inputs(None), replay=replay, hints=small))
    PROOFS.append(Proof(f'invertregion, {_b} bit', ['BITMAPlib.invertregion', 'BITMAPlib.itercopyrect' if _b >= 8 else 'BITMAPlib.itergetcolorfromrectregion', 'BITMAPlib.BMPbitBLTput', 'BITMAPlib.BMPbitBLTget'],
                        p_region(_b), registry=REGI, inputs=bmp_inputs(None, **REGION_IN), replay=replay, hints=small))
PROOFS.append(Proof('invertbitsinbuffer', ['colors.invertbitsinbuffer'], p_buf()))
BOUNDED = [Bounded('inversion, concrete', b_inv, 'random bitmaps of all depths up to 40 (some 520) pixels a side, arbitrary in-bounds regions', ['BITMAPlib.invertregion'], quick=12)]
