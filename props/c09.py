"""C09: pixel iteration visits every pixel exactly once with its colour."""
from collections import Counter
from .common import *
from .contracts import *
import pythonbmp.primitives2D as P2
Rl = z3.RealSort()
PROPERTY = 'C09'
ASSUMPTIONS = ['progress output of the iterators is not looked at',
               'exactly once: the iterator yields as many positions as the image has pixels, every one of them inside the image, and every pixel of a '
               'second image set from what it yields has the right colour afterwards (so every position occurs, and no position twice)']


def _visit(out, x, y, c):
    B.plotxybit(out, x, y, c)


def consume(bmp, out):
    n = 0
    for v in B.iterimagecolor(bmp, '', '', ''):
        _visit(out, v[0][0], v[0][1], v[1])
        n += 1
    return n


def consume_region(bmp, out, x1, y1, x2, y2):
    n = 0
    for v in B.itergetcolorfromrectregion(bmp, x1, y1, x2, y2):
        _visit(out, v[0][0], v[0][1], v[1])
        n += 1
    return n


def consume_rgb(bmp, out):
    n = 0
    for v in B.iterimageRGB(bmp, '', '', ''):
        _visit(out, v[0][0], v[0][1], (v[1][0] << 16) + (v[1][1] << 8) + v[1][2])
        n += 1
    return n


def consume_pal(bmp, out):
    n = 0
    for v in B.iterimageRGB(bmp, '', '', ''):
        _visit_rgb(out, v[0][0], v[0][1], v[1])
        n += 1
    return n


def _visit_rgb(out, x, y, rgb):
    _visit(out, x, y, B.getallRGBpal(out).index(rgb))


def consume_near(bmp, out, rgb, t):
    for v in B.iterimageregionvertbyRGB(bmp, rgb, t):
        _visit(out, v[0], v[1], 1)


# ---- palettes, searches and counts ------------------------------------------

def c_pal(ctx, a):
    """requires an indexed bitmap; ensures the list of its 2^depth entries, entry k the three bytes at 54 + 4 k, reversed     (proved: C08)"""
    b = pre_bmp(ctx, a, 'getallRGBpal')
    if b is None or b.bits == 24:
        return NotImplemented
    v = a.snapshot()

    def at(k):
        e = ctx.mk('list', items=[v(unlift(56 - q + 4 * lift(k))) for q in range(3)])
        e.pidx = k
        return e
    return ctx.mk('list', length=1 << b.bits, view=at)


def c_visit_rgb(ctx, out, x, y, rgb):
    """(consumer of the harness) the yielded colour is a palette entry, and its number is the colour number of that pixel"""
    i = getattr(rgb, 'pidx', None)
    if i is None:
        raise Unsupported('the yielded colour is not an element of the palette list')
    return c_visit(ctx, out, x, y, i)


def c_iterimageRGB(ctx, a, *msgs):
    """requires a well-formed bitmap; yields ((x,y), colour) of every pixel once, row by row from the bottom, left to right; the colour is that of
    the pixel     (proved: the proofs 'iterimageRGB' of C09)"""
    b = pre_bmp(ctx, a, 'iterimageRGB')
    if b is None:
        return NotImplemented
    at, n = cursor(ctx, b)

    def get(k):
        X, Y = at(k)
        p = ctx.mk('list', items=list(z3.Ints('chr chg chb')))
        p.pixel = opaque_pixel(ctx, b, X, Y)
        return ((X, Y), p)
    return SeqObj(unlift(n), get)


Dist = z3.Function('distance_to_wanted_colour', I, Rl)


def c_dist(ctx, u, v):
    """the distance of the wanted colour from the colour of a pixel, as a function of that colour number (dist itself: C21)"""
    for p, q in ((u, v), (v, u)):
        if getattr(q, 'pixel', None) is not None and p is ctx.ghost['rgb']:
            ctx.fact(Dist(lift(q.pixel)) >= 0)
            return Dist(lift(q.pixel))
    return NotImplemented


def near_args(ctx):
    rgb = ctx.mk('list', items=list(z3.Ints('cr cg cb')))
    ctx.ghost['rgb'] = rgb
    ctx.fact(and_(*[z3.And(c >= 0, c < 256) for c in rgb.items]))
    t = z3.Real('threshold')
    return rgb, t


def p_near(bits):
    """region search: exactly the pixels whose colour is nearer to the wanted one than the threshold"""
    def run(ctx):
        src, b = sym_bmp(ctx, bits)
        out, bo = sym_bmp(ctx, bits, 'o', like=b)
        ctx.ghost['b'] = b
        rgb, t = near_args(ctx)
        hit = lambda x, y: Dist(lift(opaque_pixel(ctx, b, x, y))) < t
        ctx.specs.append(lambda L: CursorSpec(b, lambda L, done, a: ArrSpec(view=pixmap_view(ctx, bo, L.entry(a), put(bits, lambda x, y: z3.And(done(x, y), hit(x, y)), lambda x, y: z3.IntVal(1))))
                                              if a.bmp is bo else None))
        ctx.call(consume_near, [src, out, rgb, t])
        x, y = z3.Ints('px py')
        ctx.fact(b.inside(x, y))
        prove_pixel(ctx, bo, out.view, x, y, z3.If(hit(x, y), z3.IntVal(1), lift(bo.pixel(ctx, bo.base, x, y))), 'exactly the pixels of the wanted colour are found')
        unchanged(ctx, src, b)
    return run


def unchanged(ctx, src, b):
    j = z3.Int('j')
    ctx.push()
    ctx.solver.add(j >= 0, j < lift(b.length))
    ctx.prove(lift(src.view(j)) == lift(b.base(j)), 'the image is unchanged')
    ctx.pop()


def c_mark(ctx, out, x, y, v):
    ctx.prove(ctx.ghost['b'].inside(x, y), 'the position found is inside the image')
    return c_plotxybit(ctx, out, x, y, v)


class Tally(LoopSpec):
    """after k pixels of the scan: how often the colour c was met is N(c, k), defined by N(c,0) = 0, N(c,k+1) = N(c,k) + [pixel k has colour c];
    the positions with hit() met so far are the first S(k) elements of the list, the j-th of them at (SX(j), SY(j))"""
    N = z3.Function('times_met', I, I, I)
    S, SX, SY = z3.Function('found', I, I), z3.Function('found_x', I, I), z3.Function('found_y', I, I)

    def __init__(self, b, hit=None):
        self.b, self.hit = b, hit

    def arr(self, L, a, k):
        ctx, k = L.ctx, lift(k)
        X, Y = cursor(ctx, self.b)[0](k)
        p = lift(opaque_pixel(ctx, self.b, X, Y))
        if a.counts:
            def view(c):
                c = lift(c)
                n = self.N(c, k)
                ctx.fact_once(('tally', c.get_id(), k.get_id()), z3.And(self.N(c, 0) == 0, n >= 0, self.N(c, k + 1) == n + z3.If(p == c, z3.IntVal(1), z3.IntVal(0))))
                ctx.keep.append((c, k))
                return n
            view(p)
            return ArrSpec(view=view)
        if self.hit is None or a.bmp is not None:
            return None
        s = self.S(k)
        ctx.fact_once(('found', k.get_id()), z3.And(self.S(0) == 0, s >= 0, z3.If(self.hit(X, Y), z3.And(self.S(k + 1) == s + 1, self.SX(s) == X, self.SY(s) == Y), self.S(k + 1) == s)))
        ctx.keep.append(k)
        return ArrSpec(length=unlift(s), view=lambda j: (self.SX(lift(j)), self.SY(lift(j))))


def p_hist(bits):
    """the histogram: every colour is counted as often as the scan over the image meets it"""
    def run(ctx):
        src, b = sym_bmp(ctx, bits)
        ctx.ghost['countdict'] = True
        ctx.ghost['frozen'] = {src.oid: src.ver}
        ctx.specs.append(lambda L: Tally(b))
        total = lift(ctx.mul(b.w, b.h))
        d = ctx.call(B.colorhistogram, [src])
        d = getattr(d, 'items_of', None)
        ctx.prove(d is not None, 'the counts are handed to dict2descorderlist')
        c = z3.Int('anycolour')
        ctx.fact(z3.And(c >= 0, c < 1 << bits))
        ctx.prove(lift(d.view(c)) == Tally.N(c, total), 'every colour is counted as often as it occurs')
        unchanged(ctx, src, b)
    return run


def c_desc(ctx, d):
    """the list of [count, colour] of the dictionary, in descending order     (checked concretely)"""
    r = ctx.mk('list', items=[])
    r.items_of = d
    return r


def p_found(bits):
    """the list form of the region search: the pixels found, in the order of the scan, nothing else"""
    def run(ctx):
        src, b = sym_bmp(ctx, bits)
        rgb, t = near_args(ctx)
        hit = lambda x, y: Dist(lift(opaque_pixel(ctx, b, x, y))) < t
        ctx.specs.append(lambda L: Tally(b, hit))
        total = lift(ctx.mul(b.w, b.h))
        r = ctx.call(B.getimageregionbyRGB, [src, rgb, t])
        ctx.prove(lift(r.length) == Tally.S(total), 'as many positions as pixels of the wanted colour')
        j = z3.Int('jf')
        ctx.fact(z3.And(j >= 0, j < Tally.S(total)))
        e = r.view(j)
        ctx.prove(z3.And(lift(e[0]) == Tally.SX(j), lift(e[1]) == Tally.SY(j)), 'the j-th position found')
        unchanged(ctx, src, b)
    return run


def c_getRGBxybit(ctx, a, v):
    """requires a pixel of the image; ensures its colour     (proved: C02)"""
    b = pre_bmp(ctx, a, 'getRGBxybitvec')
    if b is None:
        return NotImplemented
    x, y = (v.view(0), v.view(1)) if isinstance(v, Arr) else v
    ctx.prove(b.inside(x, y), 'the neighbour lies in the image')
    return ('pix', unlift(lift(x)), unlift(lift(y)))


def p_neighbours(bits, fn):
    """every pixel of the image at most one row and one column away, once each"""
    def run(ctx):
        src, b = sym_bmp(ctx, bits)
        X, Y = z3.Ints('x y')
        ctx.fact(b.inside(X, Y))
        v = ctx.mk('list', items=[X, Y])
        if fn is None:
            r, center = ctx.call(B.getneighborcolorlist, [src, v]), True
            at = [e[1:] for e in r.items]
        else:
            center = fn
            r = ctx.call(P2.getneighborlist, [v, b.w, b.h, center])
            at = [(e.items if isinstance(e, Arr) else e) for e in r.items]
        at = [(lift(p), lift(q)) for p, q in at]
        dx, dy = z3.Ints('nx ny')
        near = z3.And(b.inside(dx, dy), dx >= X - 1, dx <= X + 1, dy >= Y - 1, dy <= Y + 1)
        if not center:
            near = z3.And(near, z3.Or(dx != X, dy != Y))
        ctx.prove(near == z3.Or(*[z3.And(p == dx, q == dy) for p, q in at]), 'exactly the neighbours in the image')
        ctx.prove(z3.And(*[z3.Or(p != p2, q != q2) for i, (p, q) in enumerate(at) for p2, q2 in at[:i]]), 'no neighbour twice')
    return run


def c_visit(ctx, out, x, y, v):
    """(consumer of the harness) the yielded position lies in the image and the yielded value is the colour of that pixel"""
    b = ctx.ghost['b']
    ctx.prove(b.inside(x, y), 'the yielded position is inside the image')
    f = frame_with(ctx, 'n', 'out')
    if f is not None and not ctx.ghost.get('region'):
        row = lift(b.h) - 1 - lift(y)
        ctx.prove(lift(f['n']) == lift(ctx.mul(unlift(row), b.w)) + lift(x), 'the n-th position yielded is the n-th of the bottom-up scan')
    if b.bits == 1:
        o = b.off(ctx, x, y)
        f = frame_with(ctx, 'offset', 'maxoffset')
        if f is not None and is_sym(f['offset']):
            o2 = unlift(b.hdr + lift(f['offset']))
            if ctx.valid(lift(o) == lift(o2)):
                o = o2      # the same byte, under the name the code reads it by
        t = b.base(o)
        n = bits8(ctx, t)
        # the position in the byte, if it is known here: usually the one after the last
        first = (ctx.ghost.get('lastbit', -1) + 1) % 8
        known = next((i for i in [*range(first, 8), *range(first)] if ctx.valid(lift(x) % 8 == i)), None)
        ctx.ghost['lastbit'] = 7 if known is None else known
        for i in range(8) if known is None else [known]:
            ctx.prove(z3.Implies(lift(x) % 8 == i, lift(v) == lift(n[7 - i])), f'the yielded colour is the pixel [bit {7 - i}]')
    else:
        ctx.prove(lift(v) == lift(b.pixel(ctx, b.base, x, y)), 'the yielded colour is the colour of the pixel')
    # the pixel, known to be right, is recorded by its name
    return c_plotxybit(ctx, out, x, y, opaque_pixel(ctx, b, x, y))


def p_iter(bits, region_=False, f=consume):
    def run(ctx):
        src, b = sym_bmp(ctx, bits)
        out, bo = sym_bmp(ctx, bits, 'o', like=b)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        pixel = lambda x, y: opaque_pixel(ctx, b, x, y)
        ctx.ghost['region'] = region_
        if region_:
            args, (X1, Y1, X2, Y2) = region(ctx, b, False)
            done = raster(X1, Y1, X2, Y2)
            W = z3.Int('W')
            ctx.fact(W == X2 - X1 + 1)
            ctx.add_stride(W)
            ctx.specs.append(lambda L: RegionCount(bo, L, done, pixel, W))
            n = ctx.call(consume_region, [src, out, *args])
            ins = lambda x, y: inrect(x, y, X1, Y1, X2, Y2)
            ctx.register_mult(W, Y2 - Y1 + 1)
            total = lift(ctx.mul(W, unlift(Y2 - Y1 + 1)))
        else:
            ctx.specs.append(lambda L: ScanSpec(b, lambda L, X, Y, a: ArrSpec(view=pixmap_view(ctx, bo, L.entry(a), put(bits, scan_done(X, Y), pixel))) if a.bmp is bo else None,
                                                lambda L, X, Y: count_inv(L, b, X, Y)))
            n = ctx.call(f, [src, out])
            ins = lambda x, y: z3.BoolVal(True)
            total = lift(ctx.mul(b.w, b.h))
        ctx.prove(lift(n) == total, 'as many positions are yielded as there are pixels')
        x, y = z3.Ints('px py')
        ctx.fact(b.inside(x, y))
        prove_pixel(ctx, bo, out.view, x, y, z3.If(ins(x, y), lift(pixel(x, y)), lift(bo.pixel(ctx, bo.base, x, y))), 'every pixel is yielded with its colour')
        j = z3.Int('j')
        ctx.push()
        ctx.solver.add(j >= 0, j < lift(b.length))
        ctx.prove(lift(src.view(j)) == lift(b.base(j)), 'the image is unchanged')
        ctx.pop()
    return run


def put(bits, done, pixel):
    if bits == 24:
        def f(x, y, ch, o):
            p = lift(pixel(x, y))
            return z3.If(done(x, y), z3.If(ch == 0, p % 256, z3.If(ch == 1, (p / 256) % 256, p / 65536)), lift(o))
        return f
    return lambda x, y, o: z3.If(done(x, y), lift(pixel(x, y)), lift(o))


def count_inv(L, b, X, Y):
    v = frame_with(L.ctx, 'n', 'out')
    if v is None:
        return []
    ctx = L.ctx
    return [lift(v['n']) == lift(ctx.mul(unlift(lift(b.h) - 1 - Y), b.w)) + X]


class RegionCount(PixLoops):
    def __init__(self, b, L, done, pixel, W):
        self.b, self.done = b, done
        self.f = None
        self.pixel = pixel
        self.W = W

    def arr(self, L, a, k):
        if a.bmp is not self.b or L.depth >= len(self.done):
            return None
        return ArrSpec(view=pixmap_view(L.ctx, self.b, L.entry(a), put(self.b.bits, self.done[L.depth](L, lift(k)), self.pixel)))

    def inv(self, L, k):
        v = frame_with(L.ctx, 'n', 'out')
        if v is None:
            return []
        ctx = L.ctx
        row = lift(k if L.depth == 0 else ctx.loops[0].k)
        ctx.register_mult(self.W, row)
        return [lift(v['n']) == lift(ctx.mul(unlift(row), self.W)) + (0 if L.depth == 0 else lift(k))]



# ---- concrete oracle --------------------------------------------------------

def conc(b0, reg):
    w, h, bits = geom(b0)
    inputs = dict(bmp=desc(b0), region=reg)
    b = b0[:]
    g, pal = grid(b0), palette(b0)
    rgb = lambda c: tuple(pal[c]) if bits < 24 else (c >> 16, c >> 8 & 255, c & 255)
    full = Counter(((x, y), g[y][x]) for y in range(h) for x in range(w))

    def same(what, got, exp):
        if got != exp:
            k = next(iter((got - exp) or (exp - got)))
            raise Violation(f'{what}: {k} is yielded {got[k]} times, expected {exp[k]}', inputs)
    got = must(call(lambda: [(tuple(v[0]), v[1]) for v in B.iterimagecolor(b, '', '', '')]), 'iterimagecolor', inputs)
    same('iterimagecolor', Counter(got), full)
    got = must(call(lambda: [(tuple(v[0]), tuple(v[1])) for v in B.iterimageRGB(b, 'x', '*', 'done')]), 'iterimageRGB', inputs)
    same('iterimageRGB', Counter(got), Counter(((x, y), rgb(g[y][x])) for y in range(h) for x in range(w)))
    x1, x2, y1, y2 = min(reg[0], reg[2]), max(reg[0], reg[2]), min(reg[1], reg[3]), max(reg[1], reg[3])
    got = must(call(lambda: [(tuple(v[0]), v[1]) for v in B.itergetcolorfromrectregion(b, *reg)]), 'itergetcolorfromrectregion', inputs)
    same(f'itergetcolorfromrectregion{reg}', Counter(got), Counter(((x, y), g[y][x]) for y in range(y1, y2 + 1) for x in range(x1, x2 + 1)))
    r = must(call(B.colorhistogram, b), 'colorhistogram', inputs)
    cnt = Counter(c for row in g for c in row)
    if sorted(map(list, r)) != sorted([n, c] for c, n in cnt.items()):
        raise Violation(f'colorhistogram gives {r[:6]}, counted {cnt.most_common(6)}', inputs)
    if [n for n, _ in r] != sorted((n for n, _ in r), reverse=True):
        raise Violation('colorhistogram is not in descending order', inputs)
    # search: the exact colour of some pixel (a threshold below 1 only accepts equal colours)
    for want in (rgb(g[h // 2][w // 2]), rgb(g[0][w - 1])):
        r = must(call(B.getimageregionbyRGB, b, list(want), 0.5), 'getimageregionbyRGB', inputs)
        same(f'getimageregionbyRGB({want})', Counter(map(tuple, r)), Counter((x, y) for y in range(h) for x in range(w) if rgb(g[y][x]) == want))
    for v in ((0, 0), (w - 1, h - 1), (w // 2, h // 2), (0, h - 1), (w - 1, 0)):
        r = must(call(B.getneighborcolorlist, b, v), 'getneighborcolorlist', inputs)
        exp = [rgb(g[y][x]) for y in range(max(0, v[1] - 1), min(h, v[1] + 2)) for x in range(max(0, v[0] - 1), min(w, v[0] + 2))]
        if sorted(map(tuple, r)) != sorted(exp):
            raise Violation(f'getneighborcolorlist{v}: {r}, expected the colours {exp} in some order', inputs)
    if b != b0:
        raise Violation('iterating changed the image', inputs)


def b_iter(X):
    def one(bits, w, h):
        # few colours, so that colours repeat
        b0 = mkbmp(w, h, bits, X.rng) if X.rng.random() < .5 else mkbmp(w, h, bits, X.rng, grid=[[X.rng.choice((0, 1, (1 << bits) - 1)) for _ in range(w)] for _ in range(h)])
        reg = (X.rng.randrange(w), X.rng.randrange(h), X.rng.randrange(w), X.rng.randrange(h))
        conc(b0, reg)
        X.case((bits, w, h, reg), f'{bits} bit {w}x{h} region {reg}')
    for bits in BITS:
        for w in list(range(1, 13)) + [15, 16, 17, 31, 32, 33, 34]:
            for h in (1, 2, 3):
                one(bits, w, h)
    for bits in BITS:
        for w, h in ((520, 2), (3, 260), (257, 3)):
            one(bits, w, h)
    while X.more():
        one(X.rng.choice(BITS), *dims(X.rng, 0, 14))


def replay(i):
    w, h, _ = geom(i['bmp'])
    conc(i['bmp'], tuple(i[k] for k in ('x1', 'y1', 'x2', 'y2')) if 'x1' in i else (0, 0, w - 1, h - 1))


REGV = {**REGP, ('props.c09', '_visit'): c_visit}
PROOFS = []
for _b in BITS:
    PROOFS.append(Proof(f'iterimagecolor, {_b} bit', ['BITMAPlib.iterimagecolor', 'BITMAPlib.getBMPimgbytes', 'BITMAPlib._pdbytes'], p_iter(_b), registry=REGV, inline_modules=('props.c09',), inputs=bmp_inputs(None), replay=replay, hints=small))
    PROOFS.append(Proof(f'itergetcolorfromrectregion, {_b} bit', ['BITMAPlib.itergetcolorfromrectregion'], p_iter(_b, True), registry=REGV, inline_modules=('props.c09',), inputs=bmp_inputs(None, **REGION_IN), replay=replay, hints=small))
PROOFS.append(Proof('iterimageRGB, 24 bit', ['BITMAPlib.iterimageRGB'], p_iter(24, f=consume_rgb), registry=REGV, inline_modules=('props.c09',), inputs=bmp_inputs(None),
                    replay=replay, hints=small))
for _b in (1, 4, 8):
    PROOFS.append(Proof(f'iterimageRGB, {_b} bit', ['BITMAPlib.iterimageRGB'], p_iter(_b, f=consume_pal),
                        registry={**REGV, ('props.c09', '_visit_rgb'): c_visit_rgb, (LIB, 'getallRGBpal'): c_pal}, inline_modules=('props.c09',), inputs=bmp_inputs(None),
                        replay=replay, hints=small))
REGN = {**REGP, ('props.c09', '_visit'): c_mark, (LIB, 'iterimageRGB'): c_iterimageRGB, (LIB, 'iterimagecolor'): c_iterimagecolor, ('pythonbmp.mathlib', 'dist'): c_dist,
        ('pythonbmp.dicttools', 'dict2descorderlist'): c_desc, (LIB, 'getRGBxybitvec'): c_getRGBxybit}
for _b in BITS:
    _k = dict(registry=REGN, inline_modules=('props.c09',), inputs=bmp_inputs(None), replay=replay, hints=small)
    PROOFS.append(Proof(f'search by colour, {_b} bit', ['BITMAPlib.iterimageregionvertbyRGB'], p_near(_b), **_k))
    PROOFS.append(Proof(f'search by colour, list, {_b} bit', ['BITMAPlib.getimageregionbyRGB'], p_found(_b), **_k))
    PROOFS.append(Proof(f'colour histogram, {_b} bit', ['BITMAPlib.colorhistogram'], p_hist(_b), **_k))
PROOFS.append(Proof('colours of the neighbours', ['BITMAPlib.getneighborcolorlist', 'primitives2D.itergetneighbors'], p_neighbours(8, None), **_k))
for _c in (False, True):
    PROOFS.append(Proof(f'neighbours, centre {_c}', ['primitives2D.getneighborlist', 'primitives2D.itergetneighbors'], p_neighbours(8, _c), **_k))
BOUNDED = [Bounded('iteration, histogram and region search, concrete', b_iter, 'random bitmaps of all depths up to 40 (some 520) pixels a side, random palettes, any in-bounds region',
                   ['BITMAPlib.iterimageRGB', 'BITMAPlib.colorhistogram', 'BITMAPlib.getimageregionbyRGB', 'BITMAPlib.getneighborcolorlist'], quick=15)]
