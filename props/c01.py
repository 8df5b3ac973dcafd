"""C01: a created bitmap is well formed and reports exactly the requested geometry."""
from .common import *
from .contracts import *
from pythonbmp import colors as COL
PROPERTY = 'C01'
ASSUMPTIONS = ['bitmap dimensions are below 2^31 and the file size below 2^32 (limit of the file format)']


def p_xbytes(bits):
    def run(ctx):
        x = z3.Int('x')
        ctx.fact(x >= 0)
        r = ctx.call(B._xbytes, [x, bits])
        ctx.prove(lift(r) == rowbytes(ctx, x, bits), 'row length = 4*ceil(x*bits/32)')
    return run


def sym_dims(ctx, bits, tag=''):
    w, h = z3.Int('w' + tag), z3.Int('h' + tag)
    ctx.fact(z3.And(w >= 1, h >= 1, w < 2**31, h < 2**31))
    R = rowbytes(ctx, w, bits)
    ctx.register_mult(R, h)
    b = Bmp(ctx, bits, w, h, R)
    b.length = unlift(HDR[bits] + lift(ctx.mul(h, R)))
    ctx.fact(z3.And(lift(b.length) < 2**32, lift(b.length) >= HDR[bits] + R))
    return b


def expected_default_palette(bits):
    return [tuple(c) for c in COL.getdefaultbitpal(bits)]


def check_new(ctx, a, b, bits):
    well_formed(ctx, a, b, 'new bitmap')
    if ctx.logs[0].replaying:
        return
    if bits < 24:
        pal = expected_default_palette(bits)
        ctx.prove(len(pal) == 1 << bits, 'default palette is complete')
        ctx.prove(and_(*[eqv(a.view(54 + 4 * i + k), v) for i, (r, g, bl) in enumerate(pal) for k, v in enumerate((bl, g, r, 0))]),
                  'palette holds the default colours')
    j = ctx.fresh('jp')
    ctx.push()
    ctx.solver.add(j >= HDR[bits], j < lift(b.length))
    ctx.prove(lift(a.view(j)) == 0, 'pixel area is zero')
    ctx.pop()


def p_new(bits):
    def run(ctx):
        b = sym_dims(ctx, bits)
        a = ctx.call(B.newBMP, [b.w, b.h, bits])
        check_new(ctx, a, b, bits)
        # the getters report the requested geometry (fields proved above are used by value here)
        for f, e in ((B.getmaxx, b.w), (B.getmaxy, b.h)):
            ctx.prove(lift(ctx.call(f, [a])) == e, f'{f.__name__} returns the requested size')
        xy = ctx.call(B.getmaxxy, [a])
        ctx.prove(and_(eqv(xy[0], b.w), eqv(xy[1], b.h)), 'getmaxxy')
        br = ctx.call(B.bottomrightcoord, [a])
        ctx.prove(and_(eqv(br[0], b.w - 1), eqv(br[1], b.h - 1)), 'bottomrightcoord')
        m = ctx.call(B.getmaxxyandbits, [a])
        ctx.prove(and_(eqv(m[0][0], b.w), eqv(m[0][1], b.h), eqv(m[1], bits)), 'getmaxxyandbits')
        ctx.prove(eqv(ctx.call(B.getmaxcolors, [a]), 1 << bits), 'getmaxcolors')
        ctx.prove(eqv(ctx.call(B._flsz, [a]), b.length), 'file size getter')
        ctx.prove(eqv(ctx.call(B._hdsz, [a]), HDR[bits]), 'header size getter')
    return run


def p_copydim(bits, nb):
    def run(ctx):
        src, b0 = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b0
        R2 = rowbytes(ctx, b0.w, nb)
        ctx.register_mult(R2, b0.h)
        b = Bmp(ctx, nb, b0.w, b0.h, R2)
        b.length = unlift(HDR[nb] + lift(ctx.mul(b0.h, R2)))
        ctx.fact(z3.And(lift(b.length) < 2**32, lift(b.length) >= HDR[nb] + R2))
        a = ctx.call(B.CopyBMPxydim2newBMP, [src, nb])
        check_new(ctx, a, b, nb)
    return run


def conc_new(w, h, bits):
    inputs = dict(w=w, h=h, bits=bits)
    a = must(call(B.newBMP, w, h, bits), 'newBMP', inputs)
    e = wf(a, w, h, bits)
    if e:
        raise Violation(f'newBMP({w},{h},{bits}) is malformed: {e}', inputs)
    if any(a[HDR[bits]:]):
        raise Violation('pixel area of a new bitmap is not zero', inputs)
    if bits < 24 and palette(a) != [tuple(c) for c in COL.getdefaultbitpal(bits)]:
        raise Violation('palette of a new bitmap is not the default palette', inputs)
    got = (B.getmaxx(a), B.getmaxy(a), tuple(B.getmaxxy(a)), tuple(B.bottomrightcoord(a)), B.getmaxcolors(a), tuple(B.getmaxxyandbits(a)[0]),
           B.getmaxxyandbits(a)[1], tuple(B.centercoord(a)))
    exp = (w, h, (w, h), (w - 1, h - 1), 1 << bits, (w, h), bits, (w - 1 >> 1, h - 1 >> 1))
    if got != exp:
        raise Violation(f'getters return {got}, expected {exp}', inputs)
    for nb in BITS:
        n = must(call(B.CopyBMPxydim2newBMP, a, nb), 'CopyBMPxydim2newBMP', inputs)
        e = wf(n, w, h, nb)
        if e:
            raise Violation(f'same-size bitmap of depth {nb} malformed: {e}', inputs)


def b_new(X):
    for bits in BITS:
        for w in range(1, X.n(40, 130)):
            for h in (1, 2, 7):
                conc_new(w, h, bits)
                X.case((w, h, bits), f'newBMP({w},{h},{bits})')
    for w, h in ((255, 3), (256, 2), (257, 1), (65535, 1), (65536, 1), (1, 65536), (70000, 1), (3, 300)):
        for bits in BITS:
            conc_new(w, h, bits)
            X.case((w, h, bits))
    # a dimension with a non-zero top byte
    conc_new(2**24 + 5, 1, 1)
    X.case((2**24 + 5, 1, 1))


def replay_new(i):
    if i.get('w', 0) * i.get('h', 0) > 3 * 10**7:
        return None
    for bits in ([i['bits']] if 'bits' in i else BITS):
        conc_new(i['w'], i['h'], bits)


def inp(bits):
    return bmp_inputs(None, w=z3.Int('w'), h=z3.Int('h'), bits=bits)


def replay_x(i):
    e = 4 * ((i['x'] * i['bits'] + 31) // 32)
    r = call(B._xbytes, i['x'], i['bits'])
    return None if r == ('ok', e) else f'row length of {i} is {r}, expected {e}'


PROOFS = []
for _b in BITS:
    PROOFS.append(Proof(f'row length, {_b} bit', ['BITMAPlib._xbytes'], p_xbytes(_b), target=(LIB, '_xbytes'),
                        inputs=bmp_inputs(None, x=z3.Int('x'), bits=_b), replay=replay_x, hints=lambda c: [[z3.Int('x') < 100]]))
    PROOFS.append(Proof(f'newBMP, {_b} bit', ['BITMAPlib.newBMP', 'BITMAPlib._setmeta', 'BITMAPlib._bmmeta', 'BITMAPlib.getmaxx',
                                              'BITMAPlib.getmaxy', 'BITMAPlib.getmaxxy', 'BITMAPlib.bottomrightcoord', 'BITMAPlib.getmaxxyandbits',
                                              'BITMAPlib.getmaxcolors', 'BITMAPlib._flsz', 'BITMAPlib._hdsz'],
                        p_new(_b), registry=REG, inputs=inp(_b), replay=replay_new, hints=small, budget=200))
    for _n in BITS:
        PROOFS.append(Proof(f'CopyBMPxydim2newBMP {_b} to {_n} bit', ['BITMAPlib.CopyBMPxydim2newBMP'], p_copydim(_b, _n), registry=REG,
                            inputs=bmp_inputs(None, w=z3.Int('w'), h=z3.Int('h')), replay=replay_new, hints=small))
BOUNDED = [Bounded('new bitmaps, concrete', b_new, 'widths 1..39 (129 thorough), heights 1,2,7, some large sizes, all depths',
                   ['BITMAPlib.newBMP'])]
