"""C06: flips and mirrors of images and regions move every pixel exactly."""
from .common import *
from .contracts import *
import pythonbmp.bufferflip as BF
PROPERTY = 'C06'
ASSUMPTIONS = ['regions at 1 and 4 bits start and end on byte boundaries (the operations move whole bytes at these depths)']


def vert_view(ctx, b, e, lo, hi, c1, cn, mode, low, high):
    """bytes after exchanging (F) / overwriting with the mirrored row (T: upper half kept, B: lower half kept) the rows that satisfy low/high"""
    def fn(row, col, j):
        cond = {'F': z3.Or(low(row), high(row)), 'T': low(row), 'B': high(row)}[mode]
        return z3.If(z3.And(cond, col >= c1, col < c1 + cn), lift(bmp_at(ctx, b, e, lo + hi - row, col)), lift(e(j)))
    return rcview(ctx, b, e, fn)


class VertLoop(LoopSpec):
    """rows lo..hi, columns (bytes) c1..c1+n exchanged (F) / upper bytes copied from the mirrored row, k rows from each end"""
    def __init__(self, b, lo, hi, c1, cn, mode):
        self.p = (b, lo, hi, c1, cn, mode)

    def arr(self, L, a, k):
        b, lo, hi, c1, cn, mode = self.p
        ctx = L.ctx
        if a.bmp is not b:
            return None
        e = L.entry(a)
        k = lift(k)
        for t in (lo + k, hi - k):
            ctx.register_mult(lift(b.R), t)

        return ArrSpec(view=vert_view(ctx, b, e, lo, hi, c1, cn, mode, lambda row: z3.And(row >= lo, row < lo + k), lambda row: z3.And(row > hi - k, row <= hi)))


def hori_view(ctx, b, e, r1, r2, B1, B2, mode, left, right):
    """bytes after exchanging (F) / copying to the mirror image (L: left half kept, R: right half kept) the byte units that satisfy left/right"""
    def fn(row, col, j):
        if b.bits == 24:
            u, ch = col / 3, col % 3
            src = 3 * (B1 + B2 - u) + ch
        else:
            u = col
            src = B1 + B2 - u
        cond = {'F': z3.Or(left(u), right(u)), 'L': right(u), 'R': left(u)}[mode]
        v = bmp_at(ctx, b, e, row, src)
        if b.bits in (1, 4):
            f = nibflip if b.bits == 4 else (lambda t: bitrev(ctx, t))
            m, v = v, f(v)
            if mode != 'F':
                # the middle byte is mirrored within itself
                v = merge_val(unlift(u * 2 == B1 + B2), halfmirror(ctx, m, b.bits, mode), v)
        return z3.If(z3.And(row >= r1, row <= r2, cond), lift(v), lift(e(j)))
    return rcview(ctx, b, e, fn)


class HoriLoop(LoopSpec):
    """rows r1..r2, k columns (bytes) from each end of B1..B2 done;
    B1, B2: first and last unit (pixel at 8 and 24 bits, byte at 1 and 4)"""
    def __init__(self, b, r1, r2, B1, B2, mode):
        self.p = (b, r1, r2, B1, B2, mode)

    def arr(self, L, a, k):
        b, r1, r2, B1, B2, mode = self.p
        if a.bmp is not b:
            return None
        k = lift(k)
        return ArrSpec(view=hori_view(L.ctx, b, L.entry(a), r1, r2, B1, B2, mode, lambda u: z3.And(u >= B1, u < B1 + k), lambda u: z3.And(u > B2 - k, u <= B2)))


def pt():
    return z3.Ints('px py')


def source(bits, mode, x, y, X1, Y1, X2, Y2):
    """which pixel ends up at (x,y): the region is X1..X2, Y1..Y2 (sorted)"""
    x, y, X1, Y1, X2, Y2 = (lift(v) for v in (x, y, X1, Y1, X2, Y2))
    ins = z3.And(x >= X1, x <= X2, y >= Y1, y <= Y2)
    mx, my = X1 + X2 - x, Y1 + Y2 - y
    sx, sy = x, y
    if mode == 'H':
        sx = mx
    if mode == 'V':
        sy = my
    if 'L' in mode:
        sx = z3.If(2 * x > X1 + X2, mx, x)
    if 'R' in mode:
        sx = z3.If(2 * x < X1 + X2, mx, x)
    if 'T' in mode:
        sy = z3.If(2 * y > Y1 + Y2, my, y)
    if 'B' in mode:
        sy = z3.If(2 * y < Y1 + Y2, my, y)
    return z3.If(ins, sx, x), z3.If(ins, sy, y)


def after(ctx, a, b, mode, reg):
    well_formed(ctx, a, b)
    header_frame(ctx, a, b.base, b.hdr)
    x, y = pt()
    ctx.fact(b.inside(x, y))
    sx, sy = source(b.bits, mode, x, y, *reg)
    prove_pixel(ctx, b, a.view, x, y, b.pixel(ctx, b.base, x, y) if mode == '=' else b.pixel(ctx, b.base, unlift(sx), unlift(sy)),
                'every pixel comes from its mirrored position, pixels outside unchanged')


WHOLE = {'V': B.flipvertical, 'T': B.mirrortop, 'B': B.mirrorbottom, 'H': B.fliphorizontal, 'L': B.mirrorleft, 'R': B.mirrorright,
         'LT': B.mirrortopleft, 'RT': B.mirrortopright, 'LB': B.mirrorbottomleft, 'RB': B.mirrorbottomright}
REGION = {'V': B.flipverticalregion, 'T': B.mirrortopinregion, 'B': B.mirrorbottominregion, 'H': B.fliphorizontalregion,
          'L': B.mirrorleftinregion, 'R': B.mirrorrightinregion, 'LT': B.mirrortopleftinregion, 'RT': B.mirrortoprightinregion,
          'LB': B.mirrorbottomleftinregion, 'RB': B.mirrorbottomrightinregion}


def vgeo(b, reg):
    X1, Y1, X2, Y2 = reg
    return (lift(b.h) - 1 - Y2, lift(b.h) - 1 - Y1) + bytecols(b, X1, X2)


def hgeo(b, reg):
    X1, Y1, X2, Y2 = (lift(v) for v in reg)
    n = {24: 1, 8: 1, 4: 2, 1: 8}[b.bits]
    return lift(b.h) - 1 - Y2, lift(b.h) - 1 - Y1, X1 / n if n > 1 else X1, X2 / n if n > 1 else X2


FM = {'V': 'F', 'H': 'F'}


def final_view(ctx, b, e, mode, reg):
    """the bytes after the operation on the sorted region reg (None: whole image, whole rows)"""
    m = FM.get(mode, mode)
    if mode in 'VTB':
        lo, hi, c1, cn = (z3.IntVal(0), lift(b.h) - 1, z3.IntVal(0), lift(b.R)) if reg is None else vgeo(b, reg)
        return vert_view(ctx, b, e, lo, hi, lift(c1), lift(cn), m, lambda r: z3.And(r >= lo, r <= hi, 2 * r < lo + hi), lambda r: z3.And(r >= lo, r <= hi, 2 * r > lo + hi))
    r1, r2, B1, B2 = hgeo(b, reg)
    return hori_view(ctx, b, e, r1, r2, B1, B2, m, lambda u: z3.And(u >= B1, u <= B2, 2 * u <= B1 + B2), lambda u: z3.And(u >= B1, u <= B2, 2 * u >= B1 + B2))


def prove_bytes(ctx, a, b, mode, reg):
    """the byte-level postcondition that callers use"""
    v = final_view(ctx, b, b.base, mode, reg)
    for lab, j, cnd in ctx.skolems(a):
        ctx.push()
        try:
            ctx.solver.add(cnd)
            ctx.prove(lift(a.view(j)) == lift(v(j)), f'every byte of the buffer is as specified [{lab}]')
        except PathEnd:
            pass
        finally:
            ctx.pop()


def c_region(mode, whole=False):
    """requires an in-bounds (at 1 and 4 bits byte-aligned) region; ensures the bytes of final_view     (proved: C06)"""
    def c(ctx, a, *args):
        b = pre_bmp(ctx, a, WHOLE[mode].__name__)
        if b is None:
            return NotImplemented
        reg = None
        if not whole:
            x1, y1, x2, y2 = (lift(v) for v in args)
            ctx.prove(z3.And(b.inside(x1, y1), b.inside(x2, y2)), f'{REGION[mode].__name__} precondition: region in bounds at {ctx.where()}', 'pre')
            X1, X2 = (x1, x2) if ctx.decide(x1 <= x2) else (x2, x1)
            Y1, Y2 = (y1, y2) if ctx.decide(y1 <= y2) else (y2, y1)
            if b.bits in (1, 4):
                n = 8 // b.bits
                ctx.prove(z3.And(X1 % n == 0, X2 % n == n - 1), f'{REGION[mode].__name__} precondition: byte-aligned region at {ctx.where()}', 'pre')
            reg = (X1, Y1, X2, Y2)
        a.set_view(final_view(ctx, b, a.snapshot(), mode, reg))
        return None
    return c


def wholereg(b):
    return (z3.IntVal(0), z3.IntVal(0), lift(b.w) - 1, lift(b.h) - 1)


def p_vwhole(bits, mode):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        ctx.specs.append(lambda L: VertLoop(b, z3.IntVal(0), lift(b.h) - 1, z3.IntVal(0), lift(b.R), FM.get(mode, mode)))
        ctx.call(WHOLE[mode], [a])
        after(ctx, a, b, mode, wholereg(b))
        prove_bytes(ctx, a, b, mode, None)
    return run


def p_region(bits, mode):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        args, reg = region(ctx, b, True)
        if mode in 'VTB':
            ctx.specs.append(lambda L: VertLoop(b, *vgeo(b, reg), FM.get(mode, mode)))
        else:
            ctx.specs.append(lambda L: HoriLoop(b, *hgeo(b, reg), FM.get(mode, mode)))
        ctx.call(REGION[mode], [a, *args])
        after(ctx, a, b, mode, reg)
        prove_bytes(ctx, a, b, mode, reg)
    return run


def aligned_width(ctx, b):
    if b.bits in (1, 4):
        q = z3.Int('wq')
        ctx.fact(z3.And(lift(b.w) == (8 // b.bits) * q, q >= 1))


def p_compose(bits, mode, whole):
    """operations that are compositions of the region operations: checked against the contracts of those"""
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        if whole:
            aligned_width(ctx, b)
            reg = wholereg(b)
            ctx.call(WHOLE[mode], [a])
        else:
            args, reg = region(ctx, b, True)
            ctx.call(REGION[mode], [a, *args])
        after(ctx, a, b, mode, reg)
    return run


def p_byteflip(which):
    def run(ctx):
        n = z3.Int('n')
        ctx.fact(n >= 0)
        f = ctx.fresh_fun('buf')
        a = ctx.mk('B', length=n, view=lambda j: byte(j))

        def byte(j):
            t = f(lift(j))
            ctx.fact_once(('bb', t.get_id()), z3.And(t >= 0, t <= 255))
            ctx.keep.append(t)
            return t
        j = z3.Int('j')
        ctx.fact(z3.And(j >= 0, j < n))
        v = byte(j)
        if which == 'rot':
            r = ctx.call(BF.rotatebitsinbuf, [a])
            e = bitrev(ctx, v)
        elif which == 'nib':
            r = ctx.call(BF.flipnibbleinbuf, [a])
            e = nibflip(v)
        else:
            fl, bits, mask = {'nL': (BF.flipnibbleinbuf, 4, 0xF0), 'nR': (BF.flipnibbleinbuf, 4, 15),
                              'rL': (BF.rotatebitsinbuf, 1, 0xF0), 'rR': (BF.rotatebitsinbuf, 1, 15)}[which]
            r = ctx.call(BF.mirrorbitsinbuf, [a, fl, mask])
            e = halfmirror(ctx, v, bits, which[1])
        ctx.prove(isinstance(r, Arr) and r.kind == 'B', 'returns a byte array')
        ctx.prove(eqv(r.length, n), 'same length')
        ctx.prove(lift(r.view(j)) == lift(e), 'every byte is flipped')
    return run


# ---- concrete oracle --------------------------------------------------------

def moved(g, mode, x1, y1, x2, y2):
    x1, x2, y1, y2 = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    out = [r[:] for r in g]
    for y in range(y1, y2 + 1):
        for x in range(x1, x2 + 1):
            mx, my = x1 + x2 - x, y1 + y2 - y
            sx = mx if mode == 'H' or ('L' in mode and 2 * x > x1 + x2) or ('R' in mode and 2 * x < x1 + x2) else x
            sy = my if mode == 'V' or ('T' in mode and 2 * y > y1 + y2) or ('B' in mode and 2 * y < y1 + y2) else y
            out[y][x] = g[sy][sx]
    return out


def conc(b0, mode, reg, extra=''):
    w, h, bits = geom(b0)
    b = b0[:]
    if reg is None:
        f, args = WHOLE[mode], ()
        exp = moved(grid(b0), mode, 0, 0, w - 1, h - 1)
    else:
        f, args = REGION[mode], reg
        exp = moved(grid(b0), mode, *reg)
    inputs = dict(bmp=desc(b0), op=f.__name__, region=args)
    must(call(f, b, *args), f.__name__, inputs)
    diff(b, b0, exp, f'{f.__name__}{args}', inputs)
    if mode in 'VH':
        must(call(f, b, *args), f.__name__, inputs)
        if b != b0:
            raise Violation(f'{f.__name__}{args} twice does not restore the image', inputs)


def conc_pixel(b0, f, mode, reg):
    inputs = dict(bmp=desc(b0), op=f.__name__, region=reg)
    b = b0[:]
    must(call(f, b, *reg), f.__name__, inputs)
    diff(b, b0, moved(grid(b0), mode, *reg), f'{f.__name__}{reg}', inputs)


def cols(rng, w, bits):
    """column range, byte-aligned at 1 and 4 bits; None if there is none"""
    n = {1: 8, 4: 2}.get(bits, 1)
    k = w // n
    if not k:
        return None
    p = rng.randrange(k)
    q = rng.randrange(p, k) if rng.random() < .8 else p
    return p * n, q * n + n - 1


def b_flip(X):
    def one(w, h, bits):
        b0 = mkbmp(w, h, bits, X.rng)
        for m in WHOLE:
            if m in 'VTB' or w * bits % 8 == 0:
                conc(b0, m, None)
                X.case((bits, w, h, m), f'{WHOLE[m].__name__} {bits} bit {w}x{h}')
        for m in REGION:
            c = cols(X.rng, w, bits)
            if c is None:
                continue
            y1, y2 = sorted((X.rng.randrange(h), X.rng.randrange(h)))
            x1, x2 = c
            if X.rng.random() < .3:
                x1, x2 = x2, x1
            if X.rng.random() < .3:
                y1, y2 = y2, y1
            conc(b0, m, (x1, y1, x2, y2))
            X.case((bits, w, h, m, x1, y1, x2, y2), f'{REGION[m].__name__} {bits} bit {w}x{h} {(x1, y1, x2, y2)}')
        x1, x2 = sorted((X.rng.randrange(w), X.rng.randrange(w)))
        y1, y2 = sorted((X.rng.randrange(h), X.rng.randrange(h)))
        conc_pixel(b0, B.fliphorzontalpixelbased, 'H', (x1, y1, x2, y2))
        conc_pixel(b0, B.fliphverticalalpixelbased, 'V', (x1, y1, x2, y2))
        X.case()
    for bits in BITS:
        for w in {1: (1, 7, 8, 16, 24, 33), 4: (1, 2, 4, 6, 9)}.get(bits, (1, 2, 3, 4, 5)):
            for h in (1, 2, 3, 4):
                one(w, h, bits)
    while X.more():
        bits = X.rng.choice(BITS)
        w, h = dims(X.rng, bits, 9)
        if bits == 1 and X.rng.random() < .7:
            w = 8 * X.rng.randint(1, 6)
        if X.rng.random() < .02:
            w, h = X.rng.choice([(264, 3), (3, 260), (520, 2)])
        one(w, h, bits)


def replay(i):
    b0 = i['bmp']
    w, h, bits = geom(b0)
    for m in WHOLE:
        if m in 'VTB' or w * bits % 8 == 0:
            conc(b0, m, None)
    if 'x1' in i:
        r = tuple(i[k] for k in ('x1', 'y1', 'x2', 'y2'))
        n = {1: 8, 4: 2}.get(bits, 1)
        if min(r[0], r[2]) % n == 0 and max(r[0], r[2]) % n == n - 1:
            for m in REGION:
                conc(b0, m, r)


REGF = {**REG, ('pythonbmp.bufferflip', 'rotatebitsinbuf'): c_rotatebitsinbuf, ('pythonbmp.bufferflip', 'mirrorbitsinbuf'): c_mirrorbitsinbuf}
REGC = dict(REG)
for _m in 'VTBHLR':
    REGC[(LIB, REGION[_m].__name__)] = c_region(_m)
for _m in 'VTB':
    REGC[(LIB, WHOLE[_m].__name__)] = c_region(_m, True)
_inp = bmp_inputs(None, **{k: z3.Int(k) for k in ('x1', 'y1', 'x2', 'y2')})
PROOFS = []
for _b in BITS:
    for _m in 'VTB':
        PROOFS.append(Proof(f'{WHOLE[_m].__name__}, {_b} bit', [f'BITMAPlib.{WHOLE[_m].__name__}', 'BITMAPlib.verttrans'], p_vwhole(_b, _m), registry=REG,
                            inputs=bmp_inputs(None), replay=replay, hints=small))
    for _m in 'VTBHLR':
        PROOFS.append(Proof(f'{REGION[_m].__name__}, {_b} bit', [f'BITMAPlib.{REGION[_m].__name__}', 'BITMAPlib.verttransregion' if _m in 'VTB' else 'BITMAPlib.horizontalbulkswap',
                                                                 'paramchecks.entirerectinboundary'], p_region(_b, _m), registry=REGF, inputs=_inp, replay=replay, hints=small))
    for _m in ('H', 'L', 'R', 'LT', 'RT', 'LB', 'RB'):
        _r = {k: v for k, v in REGC.items() if k[1] != WHOLE[_m].__name__}
        PROOFS.append(Proof(f'{WHOLE[_m].__name__}, {_b} bit', [f'BITMAPlib.{WHOLE[_m].__name__}'], p_compose(_b, _m, True), registry=_r, inputs=bmp_inputs(None), replay=replay, hints=small))
    for _m in ('LT', 'RT', 'LB', 'RB'):
        PROOFS.append(Proof(f'{REGION[_m].__name__}, {_b} bit', [f'BITMAPlib.{REGION[_m].__name__}'], p_compose(_b, _m, False), registry=REGC, inputs=_inp, replay=replay, hints=small))
for _n, _f in (('rot', 'rotatebitsinbuf'), ('nib', 'flipnibbleinbuf'), ('nL', 'mirrorbitsinbuf'), ('nR', 'mirrorbitsinbuf'), ('rL', 'mirrorbitsinbuf'), ('rR', 'mirrorbitsinbuf')):
    PROOFS.append(Proof(f'{_f} ({_n})', [f'bufferflip.{_f}', 'mathlib.rotatebits'], p_byteflip(_n), registry={} if _n in ('rot', 'nib') else
                        {('pythonbmp.bufferflip', 'rotatebitsinbuf'): c_rotatebitsinbuf}))
BOUNDED = [Bounded('flips and mirrors, concrete', b_flip, 'random bitmaps of all depths up to 40 (some 520) pixels a side, all whole-image and region operations, odd and even sizes',
                   ['BITMAPlib.fliphorzontalpixelbased', 'BITMAPlib.fliphverticalalpixelbased'], quick=20)]
