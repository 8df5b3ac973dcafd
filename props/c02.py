"""C02: setting a pixel changes that pixel only; reading returns it; off-canvas is a no-op / sentinel."""
from .common import *
from .contracts import *
PROPERTY = 'C02'
ASSUMPTIONS = ['colours are valid for the depth (0 <= c < 2^depth); channel values are 0..255',
               'callee contract matchRGBtopal: result is an index of the palette (proved in C12)']


def syms():
    return z3.Ints('x y c x2 y2')


def after_plot(ctx, a, b, x, y, c, x2, y2, label):
    """obligations after a single-pixel write of colour c at (x,y)"""
    well_formed(ctx, a, b)
    if ctx.logs[0].replaying:
        return
    header_frame(ctx, a, b.base, b.hdr)
    ctx.assume(b.inside(x2, y2))
    old = b.pixel(ctx, b.base, x2, y2)
    prove_pixel(ctx, b, a.view, x2, y2, ite(z3.And(x2 == lift(x), y2 == lift(y)), c, old), f'{label}: exactly pixel (x,y) is changed', x, y)


def p_plot(bits, f='plot'):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x, y, c, x2, y2 = syms()
        ctx.fact(z3.And(c >= 0, c < 2**bits))
        if f == 'plot':
            ctx.call(B.plotxybit, [a, x, y, c])
        else:
            ctx.call(B.intplotvecxypoint, [a, (x, y), c])
        after_plot(ctx, a, b, x, y, c, x2, y2, 'write')
    return run


def p_get(bits):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x, y, c, x2, y2 = syms()
        r = ctx.call(B.getxybit, [a, x, y])
        r2 = ctx.call(B.getxybitvec, [a, (x, y)])
        ctx.prove(lift(r) == lift(r2), 'vector form agrees')
        inb = b.inside(x, y)
        if ctx.decide(inb):
            ctx.prove(lift(r) == lift(b.pixel(ctx, b.base, x, y)), 'reading inside returns the colour number')
            ctx.prove(z3.And(lift(r) >= 0, lift(r) < 2**bits), 'colour number in range')
        else:
            ctx.prove(lift(r) == -1, 'reading outside returns -1')
        ctx.prove(a.ver == 0 or True, 'reading does not store')
    return run


def p_getrgb(bits):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x, y, c, x2, y2 = syms()
        inb = b.inside(x, y)
        if ctx.decide(inb):
            r = ctx.call(B.getRGBxybit, [a, x, y])
            v = b.pixel(ctx, b.base, x, y)
            ctx.prove(lift(r.length) == 3, 'three channels')
            ch = [r.view(i) for i in range(3)]
            if bits == 24:
                ctx.prove(lift(ch[0]) * 65536 + lift(ch[1]) * 256 + lift(ch[2]) == lift(v), 'channels of the stored colour')
                ctx.prove(and_(*[z3.And(lift(t) >= 0, lift(t) <= 255) for t in ch]), 'channel range')
            else:
                base = 54 + 4 * lift(v)
                ctx.prove(and_(*[eqv(ch[k], b.base(unlift(base + 2 - k))) for k in range(3)]), 'palette entry of the pixel colour')
        else:
            r = ctx.call(B.getRGBxybit, [a, x, y])
            ctx.prove(eqv(r.length, 0), 'empty outside')
    return run


def c_match(ctx, rgb, pal):
    """ensures 0 <= result < len(pal)      (proved: C12)"""
    i = ctx.fresh('match')
    ctx.fact(z3.And(i >= 0, i < lift(pal.length)))
    ctx.ghost['match'] = i
    return i


def p_plotrgb(bits):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x, y, c, x2, y2 = syms()
        r, g, bl = z3.Ints('cr cg cb')
        ctx.fact(z3.And(*[z3.And(t >= 0, t <= 255) for t in (r, g, bl)]))
        ctx.call(B.plotRGBxybit, [a, x, y, (r, g, bl)])
        col = r * 65536 + g * 256 + bl if bits == 24 else ctx.ghost.get('match', z3.IntVal(0))
        after_plot(ctx, a, b, x, y, col, x2, y2, 'RGB write')
    return run


def p_swap(bits):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x, y, c, x2, y2 = syms()
        u, v = z3.Ints('u v')
        ctx.fact(z3.And(b.inside(x, y), b.inside(u, v)))
        ctx.ghost['bituf'] = True
        ctx.call(B.swapcolors, [a, (x, y), (u, v)])
        well_formed(ctx, a, b)
        if ctx.logs[0].replaying:
            return
        header_frame(ctx, a, b.base, b.hdr)
        ctx.assume(b.inside(x2, y2))
        p = lambda i, j: lift(b.pixel(ctx, b.base, i, j))
        ctx.prove(lift(b.pixel(ctx, a.view, x2, y2)) == z3.If(z3.And(x2 == x, y2 == y), p(u, v), z3.If(z3.And(x2 == u, y2 == v), p(x, y), p(x2, y2))),
                  'the two pixels are exchanged, all others keep their colour')
    return run


# ---- concrete oracle --------------------------------------------------------

def conc_plot(b0, x, y, c, inputs=None):
    w, h, bits = geom(b0)
    inputs = inputs or dict(bmp=desc(b0), x=x, y=y, c=c)
    g = grid(b0)
    inside = 0 <= x < w and 0 <= y < h
    r = must(call(B.getxybit, b0, x, y), 'getxybit', inputs)
    if r != (g[y][x] if inside else -1):
        raise Violation(f'getxybit({x},{y}) = {r}, stored {g[y][x] if inside else -1}', inputs)
    if must(call(B.getxybitvec, b0, (x, y)), 'getxybitvec', inputs) != r:
        raise Violation('getxybitvec disagrees', inputs)
    rgb = must(call(B.getRGBxybit, b0, x, y), 'getRGBxybit', inputs)
    e = [] if not inside else ([g[y][x] >> 16, g[y][x] >> 8 & 255, g[y][x] & 255] if bits == 24 else list(palette(b0)[g[y][x]]))
    if list(rgb) != e or list(must(call(B.getRGBxybitvec, b0, (x, y)), 'getRGBxybitvec', inputs)) != e:
        raise Violation(f'getRGBxybit({x},{y}) = {rgb}, expected {e}', inputs)
    exp = [row[:] for row in g]
    if inside:
        exp[y][x] = c
    for f, a in ((B.plotxybit, (x, y, c)), (B.intplotvecxypoint, ((x, y), c)), (B.plotvecxypoint, ((x, y), c)), (B.roundpen, ((x, y), 1, c))):
        b = b0[:]
        must(call(f, b, *a), f.__name__, inputs)
        diff(b, b0, exp, f'{f.__name__}({x},{y},{c})', inputs)
    # RGB form with a colour that is in the palette / any colour at 24 bit
    if bits == 24:
        rgbs = [c >> 16, c >> 8 & 255, c & 255]
        b = b0[:]
        must(call(B.plotRGBxybit, b, x, y, rgbs), 'plotRGBxybit', inputs)
        diff(b, b0, exp, f'plotRGBxybit({x},{y},{rgbs})', inputs)
    else:
        pal = palette(b0)
        b = b0[:]
        must(call(B.plotRGBxybitvec, b, (x, y), list(pal[c])), 'plotRGBxybit', inputs)
        exp2 = [row[:] for row in g]
        if inside:
            exp2[y][x] = pal.index(pal[c])
        diff(b, b0, exp2, f'plotRGBxybitvec({x},{y},{pal[c]})', inputs)


def conc_swap(b0, p, q):
    inputs = dict(bmp=desc(b0), p=p, q=q)
    g = grid(b0)
    exp = [r[:] for r in g]
    exp[p[1]][p[0]], exp[q[1]][q[0]] = g[q[1]][q[0]], g[p[1]][p[0]]
    b = b0[:]
    must(call(B.swapcolors, b, p, q), 'swapcolors', inputs)
    diff(b, b0, exp, f'swapcolors({p},{q})', inputs)


def b_pixels(X):
    for bits in BITS:
        # every pixel of small canvases and a border around them
        for w, h in ((1, 1), (3, 2), (9, 2), (17, 3), (33, 2)):
            b0 = mkbmp(w, h, bits, X.rng)
            for y in range(-2, h + 2):
                for x in range(-9, w + 9):
                    conc_plot(b0, x, y, X.rng.randrange(1 << bits))
                    X.case((bits, w, h, x, y))
    while X.more():
        bits = X.rng.choice(BITS)
        w, h = dims(X.rng, bits, 20)
        if X.rng.random() < .05:
            w, h = X.rng.choice([(300, 3), (3, 300), (257, 2), (2, 260)])
        b0 = mkbmp(w, h, bits, X.rng)
        for _ in range(4):
            x, y = X.rng.randint(-w - 3, 2 * w + 3), X.rng.randint(-h - 3, 2 * h + 3)
            if X.rng.random() < .6:
                x, y = X.rng.randrange(w), X.rng.randrange(h)
            c = X.rng.choice([0, (1 << bits) - 1, X.rng.randrange(1 << bits)])
            conc_plot(b0, x, y, c)
            X.case((bits, w, h, x, y, c), f'{bits} bit {w}x{h} pixel ({x},{y}) colour {c}')
        conc_swap(b0, (X.rng.randrange(w), X.rng.randrange(h)), (X.rng.randrange(w), X.rng.randrange(h)))
        X.case()


def replay(i):
    bits = i['bmp'][28]
    if 'u' in i:
        return conc_swap(i['bmp'], (i['x'], i['y']), (i['u'], i['v']))
    c = i.get('c', 0)
    if 'cr' in i:
        c = i['cr'] << 16 | i['cg'] << 8 | i['cb'] if bits == 24 else c
    conc_plot(i['bmp'], i['x'], i['y'], c % (1 << bits))
    if 'x2' in i:
        conc_plot(i['bmp'], i['x2'], i['y2'], c % (1 << bits))


X_, Y_, C_, X2_, Y2_ = syms()
_in = lambda **k: bmp_inputs(None, x=X_, y=Y_, c=C_, x2=X2_, y2=Y2_, **k)
PROOFS = []
for _b in BITS:
    PROOFS += [
        Proof(f'plotxybit, {_b} bit', ['BITMAPlib.plotxybit', 'BITMAPlib.isinBMPrectbnd'], p_plot(_b), registry=REG, inputs=_in(), replay=replay, hints=small),
        Proof(f'intplotvecxypoint, {_b} bit', ['BITMAPlib.intplotvecxypoint'], p_plot(_b, 'vec'), registry=REGP, inputs=_in(), replay=replay, hints=small),
        Proof(f'getxybit, {_b} bit', ['BITMAPlib.getxybit', 'BITMAPlib.getxybitvec', 'BITMAPlib._BMoffsethd'], p_get(_b), registry=REG, inputs=_in(), replay=replay, hints=small),
        Proof(f'getRGBxybit, {_b} bit', ['BITMAPlib.getRGBxybit', 'BITMAPlib.getRGBpal'], p_getrgb(_b), registry=REGP, inputs=_in(), replay=replay, hints=small),
        Proof(f'plotRGBxybit, {_b} bit', ['BITMAPlib.plotRGBxybit', 'BITMAPlib.getallRGBpal'], p_plotrgb(_b),
              registry={**REGP, ('pythonbmp.colors', 'matchRGBtopal'): c_match},
              inputs=_in(cr=z3.Int('cr'), cg=z3.Int('cg'), cb=z3.Int('cb')), replay=replay, hints=small),
        Proof(f'swapcolors, {_b} bit', ['BITMAPlib.swapcolors'], p_swap(_b), registry=REGP, inputs=_in(u=z3.Int('u'), v=z3.Int('v')), replay=replay, hints=small),
    ]
BOUNDED = [Bounded('pixel read/write, concrete', b_pixels, 'random bitmaps of all depths up to 40x40 plus some 300-pixel ones, coordinates inside and outside',
                   ['BITMAPlib.plotxybit', 'BITMAPlib.getxybit', 'BITMAPlib.plotvecxypoint'])]
