"""C04: straight lines and rectangles cover exactly their pixels."""
import random
from .common import *
from .contracts import *
with silent():
    import pythonbmp.primitives2D as P
PROPERTY = 'C04'
ASSUMPTIONS = ['the ends of a sloped line and the corners of a rectangle outline that lie outside the image are first moved to the nearest image coordinate '
               '(the outline of a box that sticks out runs along the image edge), as the library does',
               'a filled rectangle at 8 bits takes a packed RGB colour and uses the nearest palette entry; at the other depths the colour number',
               '4-bit horizontal spans that start at an odd or end at an even column: known finding (the stored test images contain the behaviour)']
PRIM = 'pythonbmp.primitives2D'


# ---- the line walk ----------------------------------------------------------

def _point(x, y, n, lx, ly):
    pass


def walk(p1, p2):
    n = lx = ly = 0
    for v in P.iterline(p1, p2):
        _point(v[0], v[1], n, lx, ly)
        lx = v[0]
        ly = v[1]
        n += 1
    return n


def split(ctx, t):
    """a conditional value: follow its cases"""
    t = lift(t)
    while z3.is_app_of(t, z3.Z3_OP_ITE):
        t = t.arg(1) if ctx.decide(t.arg(0)) else t.arg(2)
    return t


class Line:
    """a line from (x1,y1) to (x1+sx*Dx, y1+sy*Dy) with Dx, Dy >= 0; steep: Dy > Dx"""
    def __init__(self, ctx, sx, sy):
        self.x1, self.y1, self.Dx, self.Dy = z3.Ints('x1 y1 Dx Dy')
        self.ctx = ctx
        ctx.fact(z3.And(self.Dx >= 0, self.Dy >= 0))
        if ctx.decide(self.Dx == self.Dy):
            self.Dy = self.Dx
        self.sx, self.sy = sx, sy
        self.x2, self.y2 = self.x1 + self.sx * self.Dx, self.y1 + self.sy * self.Dy
        self.p1, self.p2 = (self.x1, self.y1), (unlift(self.x2), unlift(self.y2))
        self.steep = self.Dy is not self.Dx and ctx.decide(self.Dy > self.Dx)
        # D: extent along the major axis, d: along the minor axis
        self.D, self.d = (self.Dy, self.Dx) if self.steep else (self.Dx, self.Dy)
        ctx.add_stride(self.D)
        ctx.add_stride(self.d)
        ctx.register_mult(self.D, self.d)
        ctx.register_mult(self.d, self.D)

    def coords(self, x, y):
        """steps from the start along the major and the minor axis"""
        a, b = self.sx * (split(self.ctx, x) - self.x1), self.sy * (split(self.ctx, y) - self.y1)
        return (b, a) if self.steep else (a, b)


class WalkSpec(LoopSpec):
    """at the head of step k: k points yielded, the minor coordinate is the floor of the ideal one at k, carried as remainder"""
    def __init__(self, l):
        self.l = l

    def inv(self, L, k):
        ctx, l = L.ctx, self.l
        v = frame_with(ctx, 'px', 'py', 'sdx', 'sdy')
        c = frame_with(ctx, 'n', 'lx', 'ly')
        if v is None or c is None:
            return []
        k = lift(k)
        D, d = l.D, l.d
        i, m = l.coords(v['px'], v['py'])
        li, lm = l.coords(c['lx'], c['ly'])
        acc = lift(v['x' if l.steep else 'y'])
        ctx.register_mult(D, m)
        ctx.register_mult(d, k)
        first = D is d
        bound = z3.And(acc == z3.If(k == 0, -d, 0), m == z3.If(k == 0, 0, k - 1)) if first else \
            z3.And(acc + lift(ctx.mul(unlift(m), D)) == lift(ctx.mul(unlift(k), d)), acc >= 0, acc < D)
        return [lift(c["n"]) == k, i == z3.If(D == 0, 0, k), bound, z3.Implies(k > 0, z3.And(li == k - 1, lm == m)), z3.And(m >= 0, m <= d, k <= D + 1)]


def p_walk(sx, sy):
    def run(ctx):
        l = Line(ctx, sx, sy)
        ctx.ghost['line'] = l
        ctx.specs.append(lambda L: WalkSpec(l))
        n = ctx.call(walk, [l.p1, l.p2])
        ctx.prove(lift(n) == l.D + 2, 'one point for every step along the longer extent, the last one repeated')
    return run


def c_point(ctx, x, y, n, lx, ly):
    l = ctx.ghost['line']
    D, d = l.D, l.d
    i, m = l.coords(x, y)
    li, lm = l.coords(lx, ly)
    n = lift(n)
    ctx.register_mult(D, m)
    ctx.register_mult(d, n)
    ctx.prove(z3.And(i >= 0, i <= D, m >= 0, m <= d), 'the point lies in the box of the end points')
    ctx.prove(z3.Implies(n == 0, z3.And(i == 0, m == 0)), 'the first point is the start')
    ctx.prove(z3.Implies(n >= D, z3.And(i == D, m == d)), 'the last point is the end')
    ctx.prove(i == z3.If(n > D, D, n), 'every step moves by one along the longer extent')
    ctx.prove(z3.Implies(z3.And(n > 0, n <= D), z3.And(i - li == 1, m - lm >= 0, m - lm <= 1)), 'consecutive points are neighbours')
    e = lift(ctx.mul(unlift(m), D)) - lift(ctx.mul(unlift(n), d))
    ctx.prove(z3.Implies(n <= D, z3.And(e <= D, e >= -D)), 'within one pixel of the ideal line')


# ---- spans, boxes and lines in an image -------------------------------------

def lo(a, b):
    return z3.If(lift(a) <= lift(b), lift(a), lift(b))


def hi(a, b):
    return z3.If(lift(a) <= lift(b), lift(b), lift(a))


def coloured(ctx, b, entry, pred, color):
    """byte view: the pixels with pred(x,y) have the colour, all else as in entry"""
    if b.bits == 24:
        bgr = [lift(c_div(color, 1, 256)), lift(c_div(color, 256, 256)), lift(c_div(color, 65536, 256))]
        return pixmap_view(ctx, b, entry, lambda x, y, ch, o: z3.If(pred(x, y), z3.If(ch == 0, bgr[0], z3.If(ch == 1, bgr[1], bgr[2])), lift(o)))
    return pixmap_view(ctx, b, entry, lambda x, y, o: z3.If(pred(x, y), lift(color), lift(o)))


def pre_color(ctx, b, color, what):
    ctx.prove(z3.And(lift(color) >= 0, lift(color) < 1 << b.bits), f'{what} precondition: valid colour at {ctx.where()}', 'pre')


def c_horiline(ctx, a, y, x1, x2, color):
    """requires a well-formed bitmap, a colour of the depth, at 4 bits a clipped span of whole bytes; colours exactly the pixels (x,y) of the
    image with x between x1 and x2     (proved: C04)"""
    b = pre_bmp(ctx, a, 'horiline')
    if b is None:
        return NotImplemented
    pre_color(ctx, b, color, 'horiline')
    if b.bits == 4:
        whole4(ctx, b, y, x1, x2)
    y, l, h = lift(y), lo(x1, x2), hi(x1, x2)
    a.set_view(coloured(ctx, b, a.snapshot(), lambda px, py: z3.And(py == y, px >= l, px <= h), color))


def whole4(ctx, b, y, x1, x2):
    l, h = lo(x1, x2), hi(x1, x2)
    l, h = z3.If(l < 0, 0, l), z3.If(h > b.w - 1, b.w - 1, h)
    ctx.prove(z3.Or(l > h, lift(y) < 0, lift(y) >= b.h, z3.And(l % 2 == 0, h % 2 == 1)), f'horiline precondition: whole bytes at {ctx.where()}', 'pre')


def c_vertline(ctx, a, x, y1, y2, color):
    """requires a well-formed bitmap and a colour of the depth; colours exactly the pixels (x,y) of the image with y between y1 and y2     (proved: C04)"""
    b = pre_bmp(ctx, a, 'vertline')
    if b is None:
        return NotImplemented
    pre_color(ctx, b, color, 'vertline')
    x, l, h = lift(x), lo(y1, y2), hi(y1, y2)
    a.set_view(coloured(ctx, b, a.snapshot(), lambda px, py: z3.And(px == x, py >= l, py <= h), color))


def line_points(ctx, x1, y1, x2, y2):
    """names for the points of a line, with the contract of iterline: at(k) -> (x,y), number of points, on(x,y)"""
    x1, y1, x2, y2 = map(lift, (x1, y1, x2, y2))
    key = ('line', x1.get_id(), y1.get_id(), x2.get_id(), y2.get_id())
    ctx.keep.append((x1, y1, x2, y2))
    F = z3.Function('minor', *[I] * 6)
    M = lambda k: F(k, x1, y1, x2, y2)
    dx, dy = x2 - x1, y2 - y1
    ax, ay = z3.If(dx >= 0, dx, -dx), z3.If(dy >= 0, dy, -dy)
    steep = ay > ax
    D, d = z3.If(steep, ay, ax), z3.If(steep, ax, ay)
    ctx.fact_once((*key, 'ends'), z3.And(M(z3.IntVal(0)) == 0, M(D) == d))

    def fact(k):
        ctx.fact_once((*key, k.get_id()), z3.Implies(z3.And(k >= 0, k <= D), z3.And(M(k) >= 0, M(k) <= d)))
        ctx.keep.append(k)

    def at(k):
        k = lift(k)
        k = z3.If(k > D, D, k)
        fact(k)
        i, j = z3.If(steep, M(k), k), z3.If(steep, k, M(k))
        return z3.If(dx >= 0, x1 + i, x1 - i), z3.If(dy >= 0, y1 + j, y1 - j)

    def on(x, y, k):
        """(x,y) is one of the first k points"""
        i, j = z3.If(dx >= 0, x - x1, x1 - x), z3.If(dy >= 0, y - y1, y1 - y)
        s, m = z3.If(steep, j, i), z3.If(steep, i, j)
        fact(s)
        return z3.And(s >= 0, s <= D, s < k, m == M(s))
    return at, D + 2, on


def c_iterline(ctx, p1, p2):
    """yields D+2 points, D the longer extent: every point one step further along the longer extent, in the box of the ends, from p1 to p2 (twice)     (proved: C04)"""
    at, n, _ = line_points(ctx, p1[0], p1[1], p2[0], p2[1])
    ctx.ghost['lineargs'] = (p1, p2)
    return SeqObj(unlift(n), lambda k: tuple(unlift(v) for v in at(k)))


class LineSpec(LoopSpec):
    def __init__(self, b, entry, color):
        self.b, self.entry, self.color = b, entry, color

    def arr(self, L, a, k):
        if a.bmp is not self.b:
            return None
        p1, p2 = L.ctx.ghost['lineargs']
        _, _, on = line_points(L.ctx, p1[0], p1[1], p2[0], p2[1])
        return ArrSpec(view=coloured(L.ctx, self.b, L.entry(a), lambda x, y: on(x, y, lift(k)), self.color))


def clampt(t, n):
    t = lift(t)
    return z3.If(t < 0, 0, z3.If(t > n - 1, n - 1, t))


def p_shape(bits, f, args, pred, spec=None, pre=None, color=None):
    """f(bmp, *args, color) colours exactly the pixels with pred"""
    def run(ctx):
        src, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        S = {n: z3.Int(n) for n in args}
        c = z3.Int('color')
        ctx.fact(z3.And(c >= 0, c < 1 << bits))
        if pre is not None:
            for p in pre(b, **S):
                ctx.fact(p)
        p = pred(ctx, b, **S)
        final = color(ctx, b, src, c) if color else c
        if spec is not None:
            ctx.specs.append(lambda L: spec(ctx, b, L, final, S))
        ctx.call(f, [src, *S.values(), c])
        view = coloured(ctx, b, b.base, p, final)
        x, y = z3.Ints('px py')
        ctx.prove(lift(src.length) == lift(b.length), 'length unchanged')
        header_frame(ctx, src, b.base, b.hdr)
        j = z3.Int('j')
        ctx.push()
        ctx.solver.add(j >= b.hdr, j < lift(b.length))
        ctx.prove(lift(src.view(j)) == lift(view(j)), 'exactly the pixels of the shape have the colour, nothing else has changed')
        ctx.pop()
    return run


def span_pred(ctx, b, y, x1, x2):
    l, h = lo(x1, x2), hi(x1, x2)
    return lambda px, py: z3.And(py == y, px >= l, px <= h)


def col_pred(ctx, b, x, y1, y2):
    l, h = lo(y1, y2), hi(y1, y2)
    return lambda px, py: z3.And(px == x, py >= l, py <= h)


def whole_span(b, y, x1, x2):
    if b.bits != 4:
        return []
    l, h = lo(x1, x2), hi(x1, x2)
    l, h = z3.If(l < 0, 0, l), z3.If(h > b.w - 1, b.w - 1, h)
    return [l % 2 == 0, h % 2 == 1]


class Growing(LoopSpec):
    """after k rounds of the loop the pixels of the shape with more(k, x, y) are coloured"""
    def __init__(self, b, color, p, more):
        self.b, self.color, self.p, self.more = b, color, p, more

    def arr(self, L, a, k):
        if a.bmp is not self.b:
            return None
        return ArrSpec(view=coloured(L.ctx, self.b, L.entry(a), lambda x, y: z3.And(self.p(x, y), self.more(lift(k), x, y)), self.color))


def clamped(b, x1, y1, x2, y2):
    return clampt(x1, b.w), clampt(y1, b.h), clampt(x2, b.w), clampt(y2, b.h)


def line_pred(ctx, b, x1, y1, x2, y2):
    c = clamped(b, x1, y1, x2, y2)
    _, n, on = line_points(ctx, *c)
    return lambda px, py: on(px, py, n)


def line_pre(b, x1, y1, x2, y2):
    if b.bits != 4:
        return []
    # the known finding is left out: horizontal lines are made of whole bytes
    c = clamped(b, x1, y1, x2, y2)
    return [z3.Or(c[1] != c[3], c[0] == c[2], z3.And(lo(c[0], c[2]) % 2 == 0, hi(c[0], c[2]) % 2 == 1))]


def edge_pred(ctx, b, x1, y1, x2, y2):
    a, b_, c, d = clamped(b, x1, y1, x2, y2)
    l, r, t, u = lo(a, c), hi(a, c), lo(b_, d), hi(b_, d)
    return lambda px, py: z3.And(px >= l, px <= r, py >= t, py <= u, z3.Or(px == l, px == r, py == t, py == u))


def rect_pre(b, x1, y1, x2, y2):
    if b.bits != 4:
        return []
    l, _, r, _ = clamped(b, x1, y1, x2, y2)
    return [z3.Or(l == r, z3.And(lo(l, r) % 2 == 0, hi(l, r) % 2 == 1))]


def box_pred(ctx, b, x1, y1, x2, y2):
    inb = z3.And(b.inside(x1, y1), b.inside(x2, y2))
    return lambda px, py: z3.And(inb, px >= lo(x1, x2), px <= hi(x1, x2), py >= lo(y1, y2), py <= hi(y1, y2))


def box_pre(b, x1, y1, x2, y2):
    return [lo(x1, x2) % 2 == 0, hi(x1, x2) % 2 == 1] if b.bits == 4 else []


def fspec(ctx, b, L, c, S):
    t, u = lo(S['y1'], S['y2']), hi(S['y1'], S['y2'])
    return Growing(b, c, box_pred(ctx, b, **S), (lambda k, x, y: y < t + k) if b.bits < 8 else (lambda k, x, y: y > u - k))


def lspec(ctx, b, L, c, S):
    return LineSpec(b, None, c)


def c_match(ctx, rgb, pal):
    """requires a palette of n entries; ensures an index below n     (nearest entry: C12)"""
    t = ctx.ghost['match']
    return unlift(t)


def match_color(ctx, b, src, c):
    if b.bits != 8:
        return c
    t = z3.Int('matched')
    ctx.fact(z3.And(t >= 0, t < 256))
    ctx.ghost['match'] = t
    return t


def hspec(ctx, b, L, c, S):
    l = lo(S['x1'], S['x2'])
    l = z3.If(l < 0, 0, l)
    return Growing(b, c, span_pred(ctx, b, **S), lambda k, x, y: x < l + k)


def vspec(ctx, b, L, c, S):
    l = lo(S['y1'], S['y2'])
    return Growing(b, c, col_pred(ctx, b, **S), lambda k, x, y: y < l + k)


# ---- concrete oracle --------------------------------------------------------

def painted(b, b0, color, what, inputs, exact=None, within=None):
    """b was made from b0 by painting in one colour: the set of painted pixels (recognised where b0 has another colour)"""
    w, h, bits = geom(b0)
    e = wf(b, w, h, bits)
    if e:
        raise Violation(f'{what}: malformed result: {e}', inputs)
    if bytes(b[:HDR[bits]]) != bytes(b0[:HDR[bits]]):
        raise Violation(f'{what}: header or palette changed', inputs)
    got = set()
    g, g0 = grid(b), grid(b0)
    for y in range(h):
        for x in range(w):
            if g[y][x] != g0[y][x]:
                if g[y][x] != color:
                    raise Violation(f'{what}: pixel ({x},{y}) is {g[y][x]}, neither its old colour {g0[y][x]} nor the drawing colour {color}', inputs)
                got.add((x, y))
    if exact is not None and got != exact:
        d = sorted(got ^ exact)[0]
        raise Violation(f'{what}: pixel {d} is {"coloured although it does not belong to the shape" if d in got else "not coloured"}', inputs)
    return got


def canvas(w, h, bits, rng, color):
    """random image without the drawing colour"""
    m = 1 << bits
    while True:
        other = [c for c in (rng.randrange(m) for _ in range(6)) if c != color] or [color ^ 1]
        pal = None
        return mkbmp(w, h, bits, rng, grid=[[rng.choice(other) for _ in range(w)] for _ in range(h)], pal=pal)


def clip(s, w, h):
    return {(x, y) for x, y in s if 0 <= x < w and 0 <= y < h}


def odd4(x1, x2, w):
    """4-bit span not made of whole bytes (known finding)"""
    x1, x2 = max(0, min(x1, x2)), min(w - 1, max(x1, x2))
    return x1 <= x2 and (x1 % 2 == 1 or x2 % 2 == 0)


def span4(b, b0, rows, x1, x2, what, inputs, c):
    """4-bit span of the known finding: nothing outside the span widened to whole bytes is touched, whole bytes inside are filled"""
    w, h, _ = geom(b0)
    x1, x2 = max(0, min(x1, x2)), min(w - 1, max(x1, x2))
    got = painted(b, b0, c, what, inputs)
    for x, y in got:
        if y not in rows or not x1 - (x1 % 2) <= x <= x2:
            raise Violation(f'{what}: pixel {(x, y)} is coloured although it does not belong to the line', inputs)
    for y in rows:
        if 0 <= y < h:
            for x in range(x1 + x1 % 2, x2 - 1):
                if (x, y) not in got:
                    raise Violation(f'{what}: pixel {(x, y)} is not coloured', inputs)


def lineset(p1, p2, what, got, inputs):
    """got is a one-pixel line between p1 and p2"""
    (x1, y1), (x2, y2) = p1, p2
    if p1 not in got or p2 not in got:
        raise Violation(f'{what}: end point {p1 if p1 not in got else p2} is not coloured', inputs)
    dx, dy = abs(x2 - x1), abs(y2 - y1)
    n = max(dx, dy)
    if len(got) != n + 1:
        raise Violation(f'{what}: {len(got)} pixels coloured, a one-pixel line has {n + 1}', inputs)
    for x, y in got:
        if not (min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2)):
            raise Violation(f'{what}: pixel {(x, y)} is outside the box of the end points', inputs)
        # distance to the ideal line along the minor axis at most one
        if n and abs((x - x1) * (y2 - y1) - (y - y1) * (x2 - x1)) > n:
            raise Violation(f'{what}: pixel {(x, y)} is more than one pixel away from the ideal line', inputs)
    major = sorted(got, key=lambda p: p[0] if dx >= dy else p[1])
    for a, b in zip(major, major[1:]):
        if max(abs(a[0] - b[0]), abs(a[1] - b[1])) != 1:
            raise Violation(f'{what}: gap between {a} and {b}', inputs)


def clamp(p, w, h):
    return max(0, min(w - 1, p[0])), max(0, min(h - 1, p[1]))


def one_line(b0, p1, p2, c, form='line'):
    w, h, bits = geom(b0)
    b = b0[:]
    inputs = dict(bmp=desc(b0), p1=p1, p2=p2, color=c)
    a = (b, *p1, *p2, c) if form == 'line' else (b, p1, p2, c)
    must(call(getattr(B, form), *a), form, inputs)
    q1, q2 = clamp(p1, w, h), clamp(p2, w, h)
    if bits == 4 and q1[1] == q2[1] and q1[0] != q2[0] and odd4(q1[0], q2[0], w):
        span4(b, b0, {q1[1]}, q1[0], q2[0], form, inputs, c)
        return None
    got = painted(b, b0, c, form, inputs)
    lineset(q1, q2, f'{form} {p1}-{p2} on a {w}x{h} image at {bits} bits', got, inputs)
    return got


def conc_hv(b0, c, x, y, x2, y2):
    w, h, bits = geom(b0)
    inputs = dict(bmp=desc(b0), x=x, y=y, x2=x2, y2=y2, color=c)
    b = b0[:]
    must(call(B.vertline, b, x, y, y2, c), 'vertline', inputs)
    painted(b, b0, c, f'vertline x={x} y={y}..{y2} on {w}x{h} at {bits} bits', inputs, clip({(x, j) for j in range(min(y, y2), max(y, y2) + 1)}, w, h))
    b = b0[:]
    must(call(B.horiline, b, y, x, x2, c), 'horiline', inputs)
    what = f'horiline y={y} x={x}..{x2} on {w}x{h} at {bits} bits'
    if bits == 4 and odd4(x, x2, w):
        span4(b, b0, {y} if 0 <= y < h else set(), x, x2, what, inputs, c)
    else:
        painted(b, b0, c, what, inputs, clip({(i, y) for i in range(min(x, x2), max(x, x2) + 1)}, w, h))


def conc_rect(b0, c, x1, y1, x2, y2):
    w, h, bits = geom(b0)
    inputs = dict(bmp=desc(b0), x1=x1, y1=y1, x2=x2, y2=y2, color=c)
    b = b0[:]
    must(call(B.rectangle, b, x1, y1, x2, y2, c), 'rectangle', inputs)
    (X1, Y1), (X2, Y2) = clamp((x1, y1), w, h), clamp((x2, y2), w, h)
    X1, X2, Y1, Y2 = min(X1, X2), max(X1, X2), min(Y1, Y2), max(Y1, Y2)
    edge = {(x, y) for x in range(X1, X2 + 1) for y in range(Y1, Y2 + 1) if x in (X1, X2) or y in (Y1, Y2)}
    what = f'rectangle {(x1, y1, x2, y2)} on {w}x{h} at {bits} bits'
    if bits == 4 and X1 != X2 and odd4(X1, X2, w):
        got = painted(b, b0, c, what, inputs)
        wide = edge | {(X1 - X1 % 2, y) for y in (Y1, Y2)}
        if got - wide:
            raise Violation(f'{what}: pixel {sorted(got - wide)[0]} is coloured although it does not belong to the shape', inputs)
        if {p for p in edge if p[0] in (X1, X2)} - got:
            raise Violation(f'{what}: a vertical edge is not drawn', inputs)
    else:
        painted(b, b0, c, what, inputs, edge)
    b = b0[:]
    inb = all(0 <= x < w for x in (x1, x2)) and all(0 <= y < h for y in (y1, y2))
    col, cc = c, c
    if bits == 8:
        p = palette(b0)
        col, cc = (p[c][0] << 16) + (p[c][1] << 8) + p[c][2], p.index(p[c])
    must(call(B.filledrect, b, x1, y1, x2, y2, col), 'filledrect', inputs)
    what = f'filledrect {(x1, y1, x2, y2)} on {w}x{h} at {bits} bits'
    x1, x2, y1, y2 = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    if not inb:
        if b != b0:
            raise Violation(f'{what}: the box is not inside the image, but something was drawn', inputs)
    elif bits == 4 and odd4(x1, x2, w):
        span4(b, b0, set(range(y1, y2 + 1)), x1, x2, what, inputs, c)
    else:
        g0 = grid(b0)
        exact = {(x, y) for x in range(x1, x2 + 1) for y in range(y1, y2 + 1)}
        painted(b, b0, cc, what, inputs, {p for p in exact if g0[p[1]][p[0]] != cc})


def conc_poly(b0, c, pts, rng):
    w, h, bits = geom(b0)
    inputs = dict(bmp=desc(b0), points=pts, color=c)

    def union(edges):
        u = b0[:]
        for p, q in edges:
            must(call(B.line, u, *p, *q, c), 'line', inputs)
        return u
    chain = list(zip(pts, pts[1:]))
    for nm, edges, args in (('plotlines', chain, (pts, c)), ('plotpoly', chain + [(pts[0], pts[-1])], (pts, c)),
                            ('plotpolylist', chain + [(pts[0], pts[-1])], ([pts], c)),
                            ('linevec', [chain[0]], (*chain[0], c)), ('intlinevec', [chain[0]], (*chain[0], c))):
        b = b0[:]
        must(call(getattr(B, nm), b, *args), nm, inputs)
        if grid(b) != grid(union(edges)):
            raise Violation(f'{nm}{tuple(pts)} is not the union of its edges', inputs)
        painted(b, b0, c, nm, inputs)
    # real coordinates are rounded
    fl = [(x + rng.uniform(-.4, .4), y + rng.uniform(-.4, .4)) for x, y in pts]
    b = b0[:]
    must(call(B.plotpoly, b, fl, c), 'plotpoly', inputs)
    if grid(b) != grid(union(chain + [(pts[0], pts[-1])])):
        raise Violation(f'plotpoly of {fl} differs from the polygon of the rounded vertices', inputs)


def conc_walk(p1, p2):
    inputs = dict(p1=p1, p2=p2)
    got = must(call(lambda: [tuple(v) for v in P.iterline(p1, p2)]), 'iterline', inputs)
    lineset(tuple(p1), tuple(p2), f'iterline {p1}-{p2}', set(got), inputs)
    for a, b in zip(got, got[1:]):
        if max(abs(a[0] - b[0]), abs(a[1] - b[1])) > 1:
            raise Violation(f'iterline {p1}-{p2}: jump from {a} to {b}', inputs)
    if got[0] != tuple(p1) or got[-1] != tuple(p2):
        raise Violation(f'iterline {p1}-{p2} runs from {got[0]} to {got[-1]}', inputs)


def anypt(rng, w, h):
    if rng.random() < .6:
        return rng.randrange(w), rng.randrange(h)
    return rng.randint(-w - 3, 2 * w + 3), rng.randint(-h - 3, 2 * h + 3)


def b_lines(X):
    r = X.rng
    b = mkbmp(8, 2, 4, grid=[[0] * 8] * 2)
    B.horiline(b, 1, 0, 2, 7)
    if grid(b)[1] != [7, 7, 7, 0, 0, 0, 0, 0]:
        X.known.append(dict(key='horiline-4bit-partial-bytes', message='4-bit horizontal span with a partial byte at an end misses or adds a pixel', inputs='horiline(8x2 at 4 bits, y=1, x=0..2)'))
    for dx in range(-9, 10):
        for dy in range(-9, 10):
            conc_walk((3, 5), (3 + dx, 5 + dy))
            X.case(('walk', dx, dy))
    for bits in BITS:
        for w in range(1, 10):
            h = 1 + w % 4
            c = r.randrange(1 << bits)
            b0 = canvas(w, h, bits, r, c)
            for x in range(-2, w + 2):
                for x2 in range(-2, w + 2):
                    conc_hv(b0, c, x, r.randint(-1, h), x2, r.randint(-2, h + 1))
                    X.case(('hv', bits, w, x, x2))
    while X.more():
        bits = r.choice(BITS)
        w, h = dims(r, 0, 24)
        c = r.randrange(1 << bits)
        b0 = canvas(w, h, bits, r, c)
        for _ in range(6):
            p, q, s, t = (anypt(r, w, h) for _ in range(4))
            one_line(b0, p, q, c, r.choice(('line', 'linevec', 'intlinevec')))
            conc_hv(b0, c, *p, *q)
            conc_rect(b0, c, *p, *q)
            conc_rect(b0, c, *clamp(p, w, h), *clamp(q, w, h))
            X.case((bits, w, h, p, q), f'{bits} bit {w}x{h} {p}-{q}')
        conc_poly(b0, c, [p, q, s, t][:r.randint(2, 4)], r)
        conc_walk((r.randint(-99, 99), r.randint(-99, 99)), (r.randint(-99, 99), r.randint(-99, 99)))
    for _ in range(3):
        w, h, bits = 300, 270, r.choice(BITS)
        c = r.randrange(1 << bits)
        b0 = canvas(w, h, bits, r, c)
        p, q = anypt(r, w, h), anypt(r, w, h)
        one_line(b0, p, q, c)
        conc_hv(b0, c, *p, *q)


def walk_inputs(sx, sy):
    def f(ctx, m):
        g = lambda n: m.eval(z3.Int(n), model_completion=True).as_long()
        x1, y1 = g('x1'), g('y1')
        return dict(p1=(x1, y1), p2=(x1 + sx * g('Dx'), y1 + sy * g('Dy')))
    return f


def replay_hv(i):
    b, c = i['bmp'], i['color']
    w, h, bits = geom(b)
    # recognisable background
    o = canvas(w, h, bits, random.Random(7), c)
    if max(abs(i[k]) for k in ('x1', 'x2', 'y1', 'y2', 'x', 'y')) > 10 ** 6:
        return
    conc_hv(o, c, i['x'], i['y'], i['x2'], i['y2'])
    for p, q in (((i['x1'], i['y']), (i['x2'], i['y'])), ((i['x'], i['y1']), (i['x'], i['y2']))):
        conc_hv(o, c, p[0], p[1], q[0], q[1])
        conc_hv(o, c, q[0], q[1], p[0], p[1])


def replay_line(i):
    b, c = i['bmp'], i['color']
    if max(abs(i[k]) for k in ('x1', 'x2', 'y1', 'y2')) < 10 ** 6:
        one_line(canvas(*geom(b), random.Random(7), c), (i['x1'], i['y1']), (i['x2'], i['y2']), c)


def replay_rect(i):
    b, c = i['bmp'], i['color']
    if max(abs(i[k]) for k in ('x1', 'x2', 'y1', 'y2')) < 10 ** 6:
        conc_rect(canvas(*geom(b), random.Random(7), c), c, i['x1'], i['y1'], i['x2'], i['y2'])


def replay_walk(i):
    if max(abs(a - b) for a, b in zip(i['p1'], i['p2'])) < 20000:
        conc_walk(i['p1'], i['p2'])


# ---- polylines and polygons: one edge after the other, for any number of vertices ----

def edges(f, *args):
    """drawn: the number of edges so far (counted by the contract of the edge)"""
    drawn = 0
    f(*args)
    return drawn


def edge_seen(ctx, a, u, v, pen, c):
    """requires the two ends of the next edge and the colour (and pen) handed on; ensures header and palette unchanged"""
    g = ctx.ghost['poly']
    b = pre_bmp(ctx, a, 'edge')
    d = frame_with(ctx, 'drawn')
    if b is None or d is None:
        return NotImplemented
    k, n, F = lift(d['drawn']), g['n'], g['at']
    u, v = [lift(t) for t in u], [lift(t) for t in v]

    def ends(i, j):
        one = lambda p, i: z3.And(p[0] == F[0](lift(i)), p[1] == F[1](lift(i)))
        return z3.Or(z3.And(one(u, i), one(v, j)), z3.And(one(v, i), one(u, j)))
    ctx.prove(z3.Or(z3.And(k >= 0, k < n - 1, ends(k, k + 1)), z3.And(z3.BoolVal(g['closed']), k == n - 1, ends(0, n - 1))), 'the next edge of the polygon', 'pre')
    ctx.prove(lift(c) == g['c'], 'the colour is handed on', 'pre')
    ctx.prove(pen is None and not_(g['thick']) or pen is not None and and_(g['thick'], lift(pen) == g['pen']), 'the pen is handed on', 'pre')
    d['drawn'] = unlift(k + 1)
    f = byte_view(ctx, ctx.fresh_fun('edge'))
    e = a.snapshot()

    def view(j):
        if not is_sym(j) and j < b.hdr:
            return e(j)
        t = f(j)
        ctx.fact_once(('edge', t.get_id()), lambda: z3.Implies(lift(j) < b.hdr, t == lift(e(j))))
        return t
    a.set_view(view)


def c_edge(ctx, a, x1, y1, x2, y2, c):
    """an edge     (counted; proved above)"""
    return edge_seen(ctx, a, (x1, y1), (x2, y2), None, c)


def c_thickedge(ctx, a, u, v, pen, c):
    """an edge drawn with a round pen     (counted)"""
    P = [[ctx.get_index(t, i) for i in range(2)] for t in (u, v)]
    return edge_seen(ctx, a, P[0], P[1], pen, c)


class PolySpec(LoopSpec):
    """after k steps k edges are drawn (one less where the first step only takes the first vertex)"""
    def inv(self, L, k):
        d = frame_with(L.ctx, 'drawn')
        if d is None:
            return []
        n = L.ctx.ghost['poly']['n']
        k = lift(k)
        return [lift(d['drawn']) == z3.If(lift(L.n) == n, z3.If(k == 0, 0, k - 1), k)]

    def arr(self, L, a, k):
        return ArrSpec(below=a.bmp.hdr) if a.bmp is not None else None


def p_poly(f, bits, closed, pen):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        F = z3.Function('vx', I, I), z3.Function('vy', I, I)
        n, c, r = z3.Ints('n color pen')
        ctx.fact(z3.And(n >= 2, c >= 0, c < 1 << bits))
        verts = ctx.mk('list', length=n, view=lambda j: (F[0](lift(j)), F[1](lift(j))))
        thick = ctx.decide(r >= 2) if pen else False
        ctx.ghost['poly'] = dict(n=n, at=F, closed=closed, c=c, thick=thick, pen=r)
        ctx.specs.append(lambda L: PolySpec())
        m = ctx.call(edges, [f, a, verts, c] + ([r] if pen else []))
        ctx.prove(eqv(m, n if closed else n - 1), 'every edge is drawn')
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
    return run


def replay_poly(i):
    rng = random.Random(str(i))
    for _ in range(8):
        for bits in BITS:
            c = rng.randrange(1 << bits)
            o = canvas(rng.randint(2, 30), rng.randint(2, 30), bits, rng, c)
            conc_poly(o, c, [(rng.randint(-4, 33), rng.randint(-4, 33)) for _ in range(rng.randint(2, 6))], rng)


REGL = {**REGP, (LIB, 'horiline'): c_horiline, (LIB, 'vertline'): c_vertline, (PRIM, 'iterline'): c_iterline}
PROOFS = [Proof(f'iterline, {"right" if _x > 0 else "left"} and {"down" if _y > 0 else "up"}', ['primitives2D.iterline'], p_walk(_x, _y), registry={('props.c04', '_point'): c_point},
                inline_modules=('props.c04',), inputs=walk_inputs(_x, _y), replay=replay_walk) for _x in (1, -1) for _y in (1, -1)]
_Z = {n: z3.Int(n) for n in ('x', 'y', 'x1', 'x2', 'y1', 'y2', 'color')}
for _b in BITS:
    PROOFS.append(Proof(f'horiline, {_b} bit', ['BITMAPlib.horiline'], p_shape(_b, B.horiline, ('y', 'x1', 'x2'), span_pred, hspec, whole_span), registry=REGP,
                        inputs=bmp_inputs(None, **_Z), replay=replay_hv, hints=small))
    PROOFS.append(Proof(f'vertline, {_b} bit', ['BITMAPlib.vertline'], p_shape(_b, B.vertline, ('x', 'y1', 'y2'), col_pred, vspec), registry=REGP,
                        inputs=bmp_inputs(None, **_Z), replay=replay_hv, hints=small))
    PROOFS.append(Proof(f'line, {_b} bit', ['BITMAPlib.line'], p_shape(_b, B.line, ('x1', 'y1', 'x2', 'y2'), line_pred, lspec, line_pre), registry=REGL,
                        inputs=bmp_inputs(None, **_Z), replay=replay_line, hints=small))
    PROOFS.append(Proof(f'rectangle, {_b} bit', ['BITMAPlib.rectangle', 'BITMAPlib.plotpoly', 'BITMAPlib.plotlines', 'BITMAPlib.linevec'],
                        p_shape(_b, B.rectangle, ('x1', 'y1', 'x2', 'y2'), edge_pred, None, rect_pre), registry=REGL,
                        inputs=bmp_inputs(None, **_Z), replay=replay_rect, hints=small))
    PROOFS.append(Proof(f'filledrect, {_b} bit', ['BITMAPlib.filledrect'], p_shape(_b, B.filledrect, ('x1', 'y1', 'x2', 'y2'), box_pred, fspec, box_pre, match_color),
                        registry={**REGL, (LIB, 'matchRGBtopal'): c_match, ('pythonbmp.colors', 'matchRGBtopal'): c_match},
                        inputs=bmp_inputs(None, **_Z), replay=replay_rect, hints=small))
REGE = {**REGL, (LIB, 'line'): c_edge, (LIB, 'thickroundline'): c_thickedge}
for _b in BITS:
    PROOFS.append(Proof(f'plotlines, {_b} bit', ['BITMAPlib.plotlines'], p_poly(B.plotlines, _b, False, True), registry=REGE, inline_modules=('props.c04',), inputs=bmp_inputs(None), replay=replay_poly))
    PROOFS.append(Proof(f'plotpoly, {_b} bit', ['BITMAPlib.plotpoly'], p_poly(B.plotpoly, _b, True, False), registry=REGE, inline_modules=('props.c04',), inputs=bmp_inputs(None), replay=replay_poly))
BOUNDED = [Bounded('lines, rectangles and polygons, concrete', b_lines, 'images of all depths up to 40 (a few 300) pixels a side, coordinates up to one image size outside; line walks up to 99 from the origin',
                   ['BITMAPlib.line', 'BITMAPlib.horiline', 'BITMAPlib.vertline', 'BITMAPlib.rectangle', 'BITMAPlib.filledrect', 'BITMAPlib.plotlines', 'BITMAPlib.plotpoly'], quick=20)]
