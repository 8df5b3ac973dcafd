"""C07: crop, copy and paste move exactly the selected pixels."""
import random
from .common import *
from .contracts import *
PROPERTY = 'C07'
ASSUMPTIONS = ['regions for copy and paste at 1 and 4 bits start and end on byte boundaries (whole bytes are moved at these depths)',
               'sizes of new bitmaps stay within the limits of the file format; a copied selection is at most 65536 pixels a side (two-byte fields)']


class CropRows(LoopSpec):
    """rows 0..k-1 of the new image hold the rows of the selection"""
    def __init__(self, b, n, c1, cn, r1):
        self.p = (b, n, c1, cn, r1)

    def arr(self, L, a, k):
        b, n, c1, cn, r1 = self.p
        if a.bmp is not n:
            return None
        ctx = L.ctx
        e = L.entry(a)
        ctx.register_mult(lift(b.R), r1 + lift(k))
        ctx.register_mult(lift(n.R), lift(k))
        return ArrSpec(view=rcview(ctx, n, e, lambda row, col, j: z3.If(z3.And(row < lift(k), col < cn), lift(bmp_at(ctx, b, b.base, row + r1, c1 + col)), lift(e(j)))))


def p_crop(bits):
    def run(ctx):
        src, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        freeze(ctx, src)
        pixel = (lambda x, y: opaque_pixel(ctx, b, x, y)) if bits < 8 else (lambda x, y: b.pixel(ctx, b.base, unlift(x), unlift(y)))
        args, reg = region(ctx, b, False)
        X1, Y1, X2, Y2 = reg

        def spec(L):
            n = newest(L.ctx)
            if bits >= 8:
                return CropRows(b, n, *bytecols(b, X1, X2), lift(b.h) - 1 - Y2)
            return PixLoops(n, L, shifted(X1, Y1, X2, Y2), lambda x, y, o: pixel(X1 + x, Y1 + y))
        ctx.specs.append(spec)
        r = ctx.call(B.crop, [src, *args])
        n = newest(ctx)
        ctx.prove(r is n.arr, 'returns the new image')
        ctx.prove(z3.And(lift(n.w) == X2 - X1 + 1, lift(n.h) == Y2 - Y1 + 1), 'size of the selection')
        well_formed(ctx, r, n)
        same_palette(ctx, r, n, src, b.base)
        j = z3.Int('j')
        x, y = z3.Ints('px py')
        ctx.push()
        ctx.solver.add(j >= 0, j < lift(b.length))
        ctx.prove(lift(src.view(j)) == lift(b.base(j)), 'the source is unchanged')
        ctx.pop()
        ctx.fact(n.inside(x, y))
        ctx.fact(b.inside(x + X1, y + Y1))
        prove_pixel(ctx, n, r.view, x, y, pixel(x + X1, y + Y1), 'every pixel of the crop is the selected pixel')
    return run


def shifted(X1, Y1, X2, Y2):
    """raster walk over the selection, in coordinates of the new image"""
    return raster(z3.IntVal(0), z3.IntVal(0), X2 - X1, Y2 - Y1)


def c_adjustxbufsize(ctx, a, x1, x2):
    """requires a well-formed bitmap, x1 <= x2; whole bytes at 1 and 4 bits; ensures the number of bytes of the pixel columns x1..x2     (proved: C07)"""
    b = pre_bmp(ctx, a, 'adjustxbufsize')
    if b is None:
        return NotImplemented
    ctx.prove(lift(x1) <= lift(x2), f'adjustxbufsize precondition: sorted at {ctx.where()}', 'pre')
    if b.bits in (1, 4):
        ctx.prove((lift(x2) - lift(x1) + 1) % (8 // b.bits) == 0, f'adjustxbufsize precondition: whole bytes at {ctx.where()}', 'pre')
    return rowcount(ctx, b.bits, unlift(lift(x2) - lift(x1)))


def rowcount(ctx, bits, dx):
    """constant for ceil((dx+1)*bits/8)"""
    if not is_sym(dx):
        return ((dx + 1) * bits + 7) // 8
    key = ('cn', bits, lift(dx).get_id())
    if key not in ctx.rc_memo:
        n = ctx.fresh('cn')
        ctx.fact(z3.And(8 * n >= (lift(dx) + 1) * bits, 8 * n < (lift(dx) + 1) * bits + 8, n >= 1))
        ctx.add_stride(n)
        ctx.rc_memo[key] = (n, None, dx)
    return ctx.rc_memo[key][0]


def p_adjust(bits):
    def run(ctx):
        src, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x1, x2 = z3.Ints('x1 x2')
        ctx.fact(x1 <= x2)
        if bits in (1, 4):
            ctx.fact((x2 - x1 + 1) % (8 // bits) == 0)
        r = ctx.call(B.adjustxbufsize, [src, x1, x2])
        ctx.prove(z3.And(8 * lift(r) >= (x2 - x1 + 1) * bits, 8 * lift(r) < (x2 - x1 + 1) * bits + 8), 'number of whole bytes that hold the columns')
    return run


class Sel:
    """layout of a copied selection: 7 header bytes, then rows of cn bytes, bottom row first"""
    def __init__(self, ctx, bits, cn):
        Bmp.n += 1
        self.uid, self.bits, self.hdr, self.R = Bmp.n, bits, 7, cn


def sel_view(ctx, s, head, fn, rows):
    """first 7 bytes as given, then the byte (row q, column r) is fn(q, r)"""
    def view(j):
        if not is_sym(j) and j < 7:
            return head(j)
        q, r = ctx.rc(s, j)
        v = lift(fn(lift(q), lift(r)))
        if ctx.valid(lift(j) >= 7):
            return unlift(v)
        return unlift(z3.If(lift(j) < 7, lift(head(j)), v))
    return view


class CopyLoop(LoopSpec):
    """the first k rows of the selection, counted from its bottom row, have been appended"""
    def __init__(self, b, reg, cn):
        self.p = (b, reg, cn)
        self.s = None

    def arr(self, L, a, k):
        b, reg, cn = self.p
        ctx = L.ctx
        if a.bmp is not None or a.kind != 'B':
            return None
        X1, Y1, X2, Y2 = reg
        e = L.entry(a)
        s = ctx.ghost['sel']
        lo = lift(b.h) - 1 - Y2
        c1, _ = bytecols(b, X1, X2)
        ctx.register_mult(lift(cn), lift(k))
        ctx.register_mult(lift(b.R), lo + lift(k))
        return ArrSpec(view=sel_view(ctx, s, e, lambda q, r: bmp_at(ctx, b, b.base, lo + q, c1 + r), k), length=unlift(7 + lift(ctx.mul(unlift(lift(k)), cn))))


def p_copy(bits):
    def run(ctx):
        src, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        args, reg = region(ctx, b, True)
        X1, Y1, X2, Y2 = reg
        ctx.fact(z3.And(X2 - X1 < 65536, Y2 - Y1 < 65536))
        cn = rowcount(ctx, bits, unlift(X2 - X1))
        ctx.fact(cn < 65536)
        ctx.ghost['sel'] = Sel(ctx, bits, cn)
        ctx.specs.append(lambda L: CopyLoop(b, reg, cn))
        r = ctx.call(B.copyrect, [src, *args])
        rows = Y2 - Y1 + 1
        ctx.prove(lift(r.length) == 7 + lift(ctx.mul(unlift(rows), cn)), 'length of the copied selection')
        ctx.prove(and_(eqv(r.view(0), bits), eqv(lift(r.view(1)) + 256 * lift(r.view(2)), X2 - X1), eqv(lift(r.view(3)) + 256 * lift(r.view(4)), Y2 - Y1),
                       eqv(lift(r.view(5)) + 256 * lift(r.view(6)), cn)), 'depth, extent and row length are stored in front')
        q, t = z3.Ints('q t')
        c1, _ = bytecols(b, X1, X2)
        ctx.fact(z3.And(q >= 0, q < rows, t >= 0, t < cn))
        ctx.register_mult(cn, q)
        ctx.prove(lift(r.view(unlift(7 + lift(ctx.mul(q, cn)) + t))) == lift(bmp_at(ctx, b, b.base, lift(b.h) - 1 - Y2 + q, c1 + t)), 'row q holds the selected bytes')
        j = z3.Int('j')
        ctx.push()
        ctx.solver.add(j >= 0, j < lift(b.length))
        ctx.prove(lift(src.view(j)) == lift(b.base(j)), 'the source is unchanged')
        ctx.pop()
    return run


def sym_selection(ctx, bits, tag='s'):
    """an arbitrary copied selection as copyrect makes them: (array, dx, dy, cn, byte(q, r))"""
    dx, dy = z3.Int('dx' + tag), z3.Int('dy' + tag)
    ctx.fact(z3.And(dx >= 0, dy >= 0, dx < 65536, dy < 65536))
    if bits in (1, 4):
        n = 8 // bits
        dq = z3.Int('dq' + tag)
        ctx.fact(z3.And(dx == n * dq + n - 1, dq >= 0))
    cn = rowcount(ctx, bits, dx)
    ctx.fact(cn < 65536)
    s = Sel(ctx, bits, cn)
    f = z3.Function('sel' + tag, I, I)
    ctx.register_mult(cn, dy + 1)
    length = unlift(7 + lift(ctx.mul(unlift(dy + 1), cn)))
    v = byte_view(ctx, f)

    def elem(j):
        if not is_sym(j) and j == 0:
            return bits
        return v(j)
    a = ctx.mk('B', length=length, view=elem)
    ctx.fact(f(z3.IntVal(0)) == bits)
    for at, val in ((1, dx), (3, dy), (5, cn)):
        t = z3.Sum([lift(elem(at)), 256 * lift(elem(at + 1))])
        ctx.fact(t == val)
        d, c = linform(t)
        ctx.abbrev[frozenset((k, w[1]) for k, w in d.items())] = val
        ctx.keep.append((t, d))
    return a, dx, dy, cn, (lambda q, r: elem(unlift(7 + lift(ctx.mul(unlift(q), cn)) + r)))


class PasteLoop(LoopSpec):
    """rows up to k from the bottom of the target area hold the rows of the selection"""
    def __init__(self, b, lo, c1, cn, byte):
        self.p = (b, lo, c1, cn, byte)

    def arr(self, L, a, k):
        b, lo, c1, cn, byte = self.p
        ctx = L.ctx
        if a.bmp is not b:
            return None
        e = L.entry(a)
        ctx.register_mult(lift(cn), lift(k))
        ctx.register_mult(lift(b.R), lo + lift(k))
        return ArrSpec(view=rcview(ctx, b, e, lambda row, col, j: z3.If(z3.And(row >= lo, row < lo + lift(k), col >= c1, col < c1 + cn), lift(byte(row - lo, col - c1)), lift(e(j)))))


def sel_pixel(ctx, bits, byte, q, u):
    """colour of the selection at column u, row q from the bottom, read from its bytes"""
    if bits == 24:
        return lift(byte(q, 3 * u)) + 256 * lift(byte(q, 3 * u + 1)) + 65536 * lift(byte(q, 3 * u + 2))
    if bits == 8:
        return lift(byte(q, u))
    if bits == 4:
        v = lift(byte(q, u / 2))
        return z3.If(u % 2 == 1, v % 16, v / 16)
    n = bits8(ctx, byte(q, u / 8))
    e = lift(n[7])
    for i in range(1, 8):
        e = z3.If(u % 8 == i, lift(n[7 - i]), e)
    return e


def p_paste(bits):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        s, dx, dy, cn, byte = sym_selection(ctx, bits)
        x1, y1 = z3.Ints('x1 y1')
        ctx.fact(z3.And(b.inside(x1, y1), b.inside(x1 + dx, y1 + dy)))
        if bits in (1, 4):
            q1 = z3.Int('xq1')
            ctx.fact(z3.And(x1 == (8 // bits) * q1, q1 >= 0))
        c1, _ = bytecols(b, x1, x1 + dx)
        lo = lift(b.h) - 1 - (y1 + dy)
        ctx.specs.append(lambda L: PasteLoop(b, lo, c1, cn, byte))
        ctx.call(B.pasterect, [a, s, x1, y1])
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
        x, y = z3.Ints('px py')
        ctx.fact(b.inside(x, y))
        ins = z3.And(x >= x1, x <= x1 + dx, y >= y1, y <= y1 + dy)
        e = sel_pixel(ctx, bits, byte, y1 + dy - y, x - x1)
        prove_pixel(ctx, b, a.view, x, y, z3.If(ins, e, lift(b.pixel(ctx, b.base, x, y))), 'pixels of the selection pasted, others unchanged')
    return run


def p_convert(bits):
    def run(ctx):
        ctx.ghost['bituf'] = True
        s, dx, dy, cn, byte = sym_selection(ctx, bits)
        e = s.snapshot()
        ctx.specs.append(lambda L: PasteLoop(newest(ctx), 0, 0, cn, byte))
        r = ctx.call(B.convertselection2BMP, [s])
        n = newest(ctx)
        ctx.prove(r is n.arr, 'returns the new image')
        ctx.prove(z3.And(lift(n.w) == dx + 1, lift(n.h) == dy + 1), 'size of the selection')
        well_formed(ctx, r, n)
        x, y = z3.Ints('px py')
        ctx.fact(n.inside(x, y))
        prove_pixel(ctx, n, r.view, x, y, sel_pixel(ctx, bits, byte, dy - y, x), 'every pixel is that of the selection')
        j = z3.Int('js')
        ctx.fact(z3.And(j >= 0, j < lift(s.length)))
        ctx.prove(lift(s.view(j)) == lift(e(j)), 'the selection is unchanged')
    return run


# ---- concrete oracle --------------------------------------------------------

def conc_crop(b0, reg):
    w, h, bits = geom(b0)
    inputs = dict(bmp=desc(b0), region=reg)
    x1, x2, y1, y2 = min(reg[0], reg[2]), max(reg[0], reg[2]), min(reg[1], reg[3]), max(reg[1], reg[3])
    b = b0[:]
    n = must(call(B.crop, b, *reg), 'crop', inputs)
    if b != b0:
        raise Violation('crop changed the source', inputs)
    e = wf(n, x2 - x1 + 1, y2 - y1 + 1, bits)
    if e:
        raise Violation(f'crop{reg}: malformed result: {e}', inputs)
    g = grid(b0)
    if grid(n) != [r[x1:x2 + 1] for r in g[y1:y2 + 1]]:
        raise Violation(f'crop{reg}: wrong pixels', inputs)
    if palette(n) != palette(b0):
        raise Violation(f'crop{reg}: palette differs from the source', inputs)


def conc_copy(b0, reg, t0, at):
    """copy reg from b0 and paste it into t0 at at; also turn the selection into a bitmap"""
    w, h, bits = geom(b0)
    inputs = dict(bmp=desc(b0), region=reg, target=desc(t0), at=at)
    x1, x2, y1, y2 = min(reg[0], reg[2]), max(reg[0], reg[2]), min(reg[1], reg[3]), max(reg[1], reg[3])
    b = b0[:]
    buf = must(call(B.copyrect, b, *reg), 'copyrect', inputs)
    if b != b0:
        raise Violation('copyrect changed the source', inputs)
    keep = buf[:]
    g, exp = grid(b0), grid(t0)
    W, H, TB = geom(t0)
    fits = TB == bits and at[0] >= 0 and at[1] >= 0 and at[0] + x2 - x1 < W and at[1] + y2 - y1 < H
    if fits:
        for y in range(y1, y2 + 1):
            exp[at[1] + y - y1][at[0]:at[0] + x2 - x1 + 1] = g[y][x1:x2 + 1]
    t = t0[:]
    must(call(B.pasterect, t, buf, *at), 'pasterect', inputs)
    diff(t, t0, exp, f'copyrect{reg} then pasterect{at}' + ('' if fits else ' (does not fit)'), inputs)
    if buf != keep:
        raise Violation('pasterect changed the selection', inputs)
    n = must(call(B.convertselection2BMP, buf), 'convertselection2BMP', inputs)
    e = wf(n, x2 - x1 + 1, y2 - y1 + 1, bits)
    if e:
        raise Violation(f'convertselection2BMP: malformed result: {e}', inputs)
    if grid(n) != [r[x1:x2 + 1] for r in g[y1:y2 + 1]]:
        raise Violation(f'convertselection2BMP of {reg}: wrong pixels', inputs)
    if buf != keep:
        raise Violation('convertselection2BMP changed the selection', inputs)


def alcols(rng, w, bits):
    n = {1: 8, 4: 2}.get(bits, 1)
    k = w // n
    if not k:
        return None
    p, q = sorted((rng.randrange(k), rng.randrange(k)))
    return p * n, q * n + n - 1


def b_crop(X):
    def one(bits, w, h):
        b0 = mkbmp(w, h, bits, X.rng)
        R = lambda n: X.rng.randrange(n)
        for r in [(0, 0, w - 1, h - 1), (w - 1, h - 1, 0, 0)] + [(R(w), R(h), R(w), R(h)) for _ in range(3)]:
            conc_crop(b0, r)
            X.case((bits, w, h, r), f'crop {bits} bit {w}x{h} {r}')
        c = alcols(X.rng, w, bits)
        if c:
            for _ in range(3):
                c = alcols(X.rng, w, bits)
                y1, y2 = sorted((R(h), R(h)))
                n = {1: 8, 4: 2}.get(bits, 1)
                W, H = c[1] - c[0] + 1 + R(6), y2 - y1 + 1 + R(4)
                tb = bits if X.rng.random() < .9 else X.rng.choice(BITS)
                t0 = mkbmp(W, H, tb, X.rng) if X.rng.random() < .8 else b0
                W, H, _ = geom(t0)
                lim = max(1, (W - (c[1] - c[0])) // n)
                at = (n * X.rng.randrange(lim) if X.rng.random() < .8 else W - (c[1] - c[0]) + n * R(3), R(max(1, H - (y2 - y1))) if X.rng.random() < .9 else H - (y2 - y1) + R(2))
                if at[0] % n and at[0] + c[1] - c[0] < W:
                    at = (0, at[1])
                if X.rng.random() < .1:
                    at = (-1 - R(3), -R(2))
                reg = (c[0], y1, c[1], y2) if X.rng.random() < .7 else (c[1], y2, c[0], y1)
                conc_copy(b0, reg, t0, at)
                X.case((bits, w, h, reg, W, H, at), f'copy {bits} bit {w}x{h} {reg} to {W}x{H} at {at}')
    for bits in BITS:
        for w in {1: (1, 7, 8, 16, 24, 33), 4: (1, 2, 4, 6, 9)}.get(bits, (1, 2, 3, 4, 5)):
            for h in (1, 2, 3):
                one(bits, w, h)
    for bits in BITS:
        # extents that need both bytes of the two-byte fields
        for w, h in ((600, 3), (8, 300)):
            b0 = mkbmp(w, h, bits, X.rng)
            conc_crop(b0, (0, 1, w - 1, h - 1))
            conc_copy(b0, (0, 1, w - 1, h - 1), mkbmp(w + 8, h, bits, X.rng), (8, 0))
            X.case()
    while X.more():
        bits = X.rng.choice(BITS)
        w, h = dims(X.rng, bits, 12)
        if bits == 1 and X.rng.random() < .7:
            w = 8 * X.rng.randint(1, 6)
        one(bits, w, h)


def replay(i):
    b0 = i['bmp']
    w, h, bits = geom(b0)
    n = {1: 8, 4: 2}.get(bits, 1)
    if 'x2' in i:
        r = tuple(i[k] for k in ('x1', 'y1', 'x2', 'y2'))
        conc_crop(b0, r)
        if min(r[0], r[2]) % n == 0 and max(r[0], r[2]) % n == n - 1:
            dx, dy = abs(r[0] - r[2]), abs(r[1] - r[3])
            for at in ((0, 0), ((w - 1 - dx) // n * n, h - 1 - dy)):
                conc_copy(b0, r, b0, at)
    elif 'dx' in i and 0 <= i['dx'] < w and 0 <= i['dy'] < h:
        src = mkbmp(w, h, bits, random.Random(1))
        conc_copy(src, (0, 0, i['dx'], i['dy']), b0, (i['x1'], i['y1']))


def replay_convert(i):
    rng = random.Random(str(i))
    for bits in BITS:
        for _ in range(6):
            b0 = mkbmp(8 * rng.randint(1, 6), rng.randint(1, 30), bits, rng)
            w, h, _ = geom(b0)
            conc_copy(b0, (0, 0, w - 1, rng.randint(0, h - 1)), b0, (0, 0))


REGN = {**REGP, (LIB, 'newBMP'): c_newBMP, (LIB, 'getxybit'): c_getxybit_opaque}
REGA = {**REG, (LIB, 'adjustxbufsize'): c_adjustxbufsize}
_reg = bmp_inputs(None, **REGION_IN)
_sel = bmp_inputs(None, x1=z3.Int('x1'), y1=z3.Int('y1'), dx=z3.Int('dxs'), dy=z3.Int('dys'))
PROOFS = []
for _b in BITS:
    PROOFS.append(Proof(f'crop, {_b} bit', ['BITMAPlib.crop', 'BITMAPlib.copyRGBpal', 'BITMAPlib.itercopyrect' if _b >= 8 else 'BITMAPlib.itergetcolorfromrectregion'],
                        p_crop(_b), registry=REGN, inputs=_reg, replay=replay, hints=small))
    PROOFS.append(Proof(f'adjustxbufsize, {_b} bit', ['BITMAPlib.adjustxbufsize', 'bufresize.adjustbufsize'], p_adjust(_b), registry=REG))
    PROOFS.append(Proof(f'copyrect, {_b} bit', ['BITMAPlib.copyrect', 'BITMAPlib.itercopyrect', 'BITMAPlib.BMPbitBLTget', 'inttools.int2buf'], p_copy(_b), registry=REGA, inputs=_reg, replay=replay, hints=small))
    PROOFS.append(Proof(f'pasterect, {_b} bit', ['BITMAPlib.pasterect', 'BITMAPlib.BMPbitBLTput', 'inttools.buf2int', 'BITMAPlib.listinBMPrecbnd'], p_paste(_b), registry=REGA,
                        inputs=_sel, replay=replay, hints=small))
    PROOFS.append(Proof(f'convertselection2BMP, {_b} bit', ['BITMAPlib.convertselection2BMP'], p_convert(_b), registry={**REGA, (LIB, 'newBMP'): c_newBMP}, inputs=bmp_inputs(None, dx=z3.Int('dxs'), dy=z3.Int('dys')), replay=replay_convert, hints=small))
BOUNDED = [Bounded('crop, copy and paste, concrete', b_crop, 'random bitmaps of all depths up to 40 (some 600) pixels a side, any crop region, byte-aligned copies, fitting and non-fitting targets',
                   ['BITMAPlib.convertselection2BMP'], quick=15)]
