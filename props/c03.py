"""C03: drawing changes neither the header nor the palette nor the length of the file, nor pixels outside the shape's extent, and raises nothing."""
import functools
import inspect
import random
import time
from types import SimpleNamespace
from .common import *
from .contracts import *
from .c04 import clampt, PRIM, split, c_iterline, lo, hi
with silent():
    from pythonbmp import fonts as F, primitives2D as P2, mathlib as ML, fractals as FRAC, solids3D as S3D
PROPERTY = 'C03'

# ---- concrete oracle --------------------------------------------------------
TEXTS = {'plotstring': 0, 'plotitalicstring': 0, 'plotstringasdots': 0, 'plotreversestring': 0, 'plotreversestringasdots': 0, 'plotstringupsidedown': 0, 'plotstringupsidedownasdots': 0,
         'plotitalicstringasdots': 0, 'plotreverseditalicstring': 0, 'plotreverseditalicstringasdots': 0, 'plotupsidedownitalicstring': 0, 'plotupsidedownitalicstringasdots': 0,
         'plotstringvertical': 1, 'plotitalicstringvertical': 1, 'plotstringverticalasdots': 1, 'plotitalicstringverticalasdots': 1,
         'plotstringsideway': 2, 'plotstringsidewayasdots': 2, 'plotitalicstringsideway': 2, 'plotitalicstringsidewayasdots': 2}
GLYPHS = ('plot8bitpattern', 'plotitalic8bitpattern', 'plot8bitpatternasdots', 'plotitalic8bitpatternasdots', 'plotrotated8bitpattern', 'plotrotated8bitpatternasdots',
          'plotreverseditalic8bitpattern', 'plotreverseditalic8bitpatternasdots', 'plotupsidedownitalic8bitpattern', 'plotupsidedownitalic8bitpatternasdots',
          'plot8bitpatternupsidedown', 'plot8bitpatternupsidedownasdots', 'plot8bitpatternsideway', 'plot8bitpatternsidewaywithdots', 'plotitalic8bitpatternsideway', 'plotitalic8bitpatternsidewayasdots')


def box(pts, m=0):
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return (min(xs) - m, min(ys) - m, max(xs) + m, max(ys) + m)


def clampbox(pts, w, h):
    """lines first move their end points to the nearest image coordinate"""
    return box([(min(max(x, 0), w - 1), min(max(y, 0), h - 1)) for x, y in pts])


def calls(g, w, h, bits, c):
    """name, arguments, extent boxes (None: anywhere in the image)"""
    def pt():
        if g.random() < .5:
            return g.randrange(w), g.randrange(h)
        return g.randint(-w - 5, 2 * w + 5), g.randint(-h - 5, 2 * h + 5)

    def c24():
        return g.randrange(1 << 24)
    (x, y), (u, v), (p, q) = pt(), pt(), pt()
    r = g.choice((0, 1, 2, 3, g.randint(0, 25)))
    a, b = g.choice(((g.randint(0, 20), g.randint(0, 20)), (0, g.randint(0, 9)), (g.randint(0, 9), 0), (1, 1)))
    lum, f = [g.randint(0, 255), g.randint(0, 255)], [g.random() for _ in range(3)]
    pen = g.randint(1, 4)
    pts = [pt() for _ in range(g.randint(3, 6))]
    circ = lambda k: [(x - k, y - k, x + k, y + k)]
    both = [clampbox([(x, y), (u, v)], w, h)]
    thick = [box([(x, y), (u, v)], pen)]
    m4 = bits == 4                             # recorded finding of C04: a horizontal line may take in the neighbour in the same byte
    hb = [(min(x, u) - m4, y, max(x, u) + m4, y)]
    yield 'line', (x, y, u, v, c), both
    yield 'linevec', ((x, y), (u, v), c), both
    yield 'intlinevec', ((x, y), (u, v), c), both
    yield 'horiline', (y, x, u, c), hb
    yield 'vertline', (x, y, v, c), [box([(x, y), (x, v)])]
    yield 'rectangle', (x, y, u, v, c), both
    yield 'filledrect', (x, y, u, v, c), [(hb[0][0], min(y, v), hb[0][2], max(y, v))]
    yield 'plotxybit', (x, y, c), [(x, y, x, y)]
    yield 'intplotvecxypoint', ((x, y), c), [(x, y, x, y)]
    yield 'plotvecxypoint', ((x, y), c), [(x, y, x, y)]
    yield 'plotRGBxybit', (x, y, (c & 255, 7, 200)), [(x, y, x, y)]
    yield 'circle', (x, y, r, c), circ(r)
    yield 'circle', (x, y, r, c, True), circ(r + m4)
    yield 'filledcircle', (x, y, r, c), circ(r + m4)
    yield 'circlevec', ((x, y), r, c), circ(r)
    yield 'thickcircle', (x, y, r, pen, c), circ(r + pen + m4)
    yield 'ellipse', (x, y, b, a, c), [(x - a, y - b, x + a, y + b)]
    yield 'ellipse', (x, y, b, a, c, True), [(x - a - m4, y - b, x + a + m4, y + b)]
    yield 'filledellipse', (x, y, b, a, c), [(x - a - m4, y - b, x + a + m4, y + b)]
    yield 'gradthickcircle', (x, y, r, pen, lum, f), circ(r + pen + m4)
    yield 'gradcircle', (x, y, r, lum, f), circ(r + 1 + m4)
    yield 'gradellipse', (x, y, b, a, lum, f), [(x - a - m4, y - b, x + a + m4, y + b)]
    if bits == 24:
        yield 'graddichromiccircle', (x, y, r, c24(), c24()), circ(r + 1)
        yield 'sphere', (x, y, r, (c24(), c24())), circ(r + 1)
        yield 'filleddichromaticgradrect', (x, y, u, v, c24(), c24(), g.randint(0, 1)), [box([(x, y), (u, v)])]
        yield 'fillbackgroundwithdichromaticgrad', (lum, c24(), c24(), g.randint(0, 1)), None
    yield 'sphere', (x, y, r, f), circ(r + 1 + m4)
    yield 'thickencirclearea', (x, y, r, f), circ(r + 8 + m4)
    yield 'orb', (x, y, r + 2, f), circ(r + 3 + m4)
    yield 'squircle', (x, y, r + 1, c), [clampbox([(x - r - 2, y - r - 2), (x + r + 2, y + r + 2)], w, h)]
    yield 'roundpen', ((x, y), pen, c), circ(pen + m4)
    yield 'plotxypointlist', (pts, pen, c), [box([t], pen + m4) for t in pts]
    yield 'thickroundline', ((x, y), (u, v), pen, c), [box([(x, y), (u, v)], pen + m4)]
    yield 'gradthickroundline', ((x, y), (u, v), pen, lum, f), [box([(x, y), (u, v)], pen + m4)]
    yield 'filledparallelogram', ((x, y), (u, v), (p, q), c), [clampbox([(x, y), (u, v), (p, q), (u + p - x, v + q - y), (x + p - u, y + q - v), (x + u - p, y + v - q)], w, h)]
    yield 'plotpoly', (pts, c), [clampbox(pts, w, h)]
    yield 'plotpolylist', ([pts, [pt(), pt(), pt()]], c), None
    yield 'thickplotpoly', (pts, pen, c), [box(pts, pen + m4)]
    yield 'gradthickplotpoly', (pts, pen, lum, f), [box(pts, pen + m4)]
    yield 'plotlines', (pts, c, pen), [clampbox(pts, w, h) if pen <= 1 else box(pts, pen + m4)]
    yield 'gradplotlines', (pts, pen, lum, f), [clampbox(pts, w, h), box(pts, pen + m4)]
    yield 'plotpolyfill', (pts, c), [clampbox(pts, w, h), box(pts, m4)]
    yield 'beziercurve', (pts, pen, c), [box(pts, pen + 1 + m4)]
    if len(pts) > 3:
        yield 'bspline', (pts, pen, c, g.random() < .5, g.random() < .5), None
    yield 'gradvert', (pts, pen, lum, f), [box([t], pen + m4) for t in pts]
    yield 'xygrid', (x, y, u, v, (g.randint(1, 5), g.randint(1, 5)), c), [box([(x - m4, y), (u + m4, v)])] if not m4 else [box([(x, y), (u, v)], 1)]
    yield 'xygridvec', ((x, y), (u, v), (g.randint(1, 5), g.randint(1, 5)), c), [box([(x, y), (u, v)], m4)]
    yield 'thickellipserot', (x, y, b, a, g.randint(0, 360), pen, c), circ(max(a, b) + pen + 2)
    yield 'gradthickellipserot', (x, y, b, a, g.randint(0, 360), pen, lum, f), circ(max(a, b) + pen + 2)
    yield 'plotflower', (x, y, r + 1, g.randint(2, 8), g.randint(0, 90), lum, f), circ(r + 3)
    yield 'plotfilledflower', (x, y, r + 1, g.randint(2, 8), g.randint(0, 90), lum, f), circ(r + 3)
    if (x, y) != (u, v):
        k = g.randint(1, 6)
        yield 'drawvec', ((x, y), (u, v), k, c), [clampbox([(x, y), (u, v), (u - 2 * k - 2, v - 2 * k - 2), (u + 2 * k + 2, v + 2 * k + 2)], w, h)]
        yield 'drawvec', ((x, y), (u, v), k, c, pen), None
    d = g.randint(0, 12)
    yield 'plotcircinsqr', (x, y, d, c), [(x - m4, y, x + d + m4, y + d)]
    yield 'filledgradrect', (x, y, u, v, lum, f, g.randint(0, 1)), [box([(x, y), (u, v)], m4)]
    yield 'fillbackgroundwithgrad', (lum, f, g.randint(0, 1)), None
    yield 'vertlinevert', (pts, d, g.randint(-9, 9), c), [(i, -10**9, i, 10**9) for i, _ in pts]
    yield 'horilinevert', (pts, d, g.randint(-9, 9), c), [(-10**9, j, 10**9, j) for _, j in pts]
    font = g.choice((F.font8x8, F.font8x14))
    st = ''.join(g.choice(' Ab9~!') for _ in range(g.randint(0, 4)))
    sc, ps, sb = g.randint(1, 4), g.randint(0, 2), g.randint(0, 3)
    n = (len(st) + 1) * (16 * sc + sb) + 16 * sc
    name = g.choice(list(TEXTS))
    t = TEXTS[name]
    H = 16 * sc
    yield name, (x, y, st, sc, ps, sb, c, font), [((x - H, y - H, x + n, y + 2 * H), (x - H, y - n, x + 2 * H, y + n), (x - 2 * H, y - n, x + 2 * H, y + H))[t]]
    gl, pat = g.choice(GLYPHS), [g.randrange(256) for _ in range(g.choice((8, 14)))]
    yield gl, (x, y, pat, sc, ps, c), [(x - H - 8, y - H - 8, x + 2 * H, y + 2 * H)]
    if 'plotrotated8' not in gl:          # several colours: not supported there
        yield gl, (x, y, pat, sc, ps, [c, 0]), [(x - H - 8, y - H - 8, x + 2 * H, y + 2 * H)]
    yield 'numbervert', (pts[:3], g.randint(-9, 9), g.randint(-9, 9), 1, g.randint(-99, 99), g.randint(1, 9), 0, 0, c, font, g.random() < .5, g.random() < .5, g.random() < .5), None
    if g.random() < .2:
        st, en = sorted((g.randint(-90, 400), g.randint(-90, 400)))
        yield 'drawarc', (x, y, r, st, en, c, True, c, g.random() < .7), [box([(x, y)], r + 2)]
        yield 'piechart', (x, y, r, [[g.choice((1, 2, 500, 900, 3000)), g.randrange(1 << bits)] for _ in range(g.randint(1, 5))]), [box([(x, y)], r + 2)]
        yield 'plotimgedges', (g.randint(0, 400), 0, c), None
        yield 'IFS', (FRAC.getIFSparams()['fern'], x, y, u, v, g.randint(1, 9), g.randint(1, 9), g.randint(-9, 9), g.randint(-9, 9), c, 200), [box([(x, y), (u, v)])]
        rot = [ML.computerotvec(g.randint(0, 360)) for _ in range(3)]
        shape = g.choice(('tetrahedra', 'cube', 'octahedra', 'hexahedra'))
        yield 'plot3Dsolid', ((getattr(S3D, shape + 'vert')(g.randint(3, 9)), S3D.getshapesidedict()[shape]), False, f, True, c, rot, (0, 0, 20), g.randint(10, 40), (x, y)), None
        yield 'plot3Dsolid', ((getattr(S3D, shape + 'vert')(g.randint(3, 9)), S3D.getshapesidedict()[shape]), True, f, False, c, rot, (0, 0, 20), g.randint(10, 40), (x, y)), None
    if g.random() < .3:
        o = (min(x, u), max(y, v))
        yield 'XYaxis', (o, (g.randint(1, 9), g.randint(1, 9)), (max(x, u) + 3, min(y, v) - 3), (0, 0), (g.randint(1, 5), g.randint(1, 5)), c, c, g.random() < .5, c), None


def b_draw(X):
    g = X.rng
    while X.more():
        bits = g.choice(BITS)
        w, h = dims(g, bits, 24)
        b0 = mkbmp(w, h, bits, g)
        g0 = grid(b0)
        c = g.randrange(1 << bits)
        for name, args, ext in calls(g, w, h, bits, c):
            draw(b0, g0, name, args, ext)
            if not X.more():
                break
        X.case((bits, w, h), f'{bits} bit {w}x{h}')


def draw(b0, g0, name, args, ext):
    w, h, bits = geom(b0)
    inputs = dict(bmp=desc(b0), op=name, args=[list(v) if isinstance(v, tuple) else v for v in args])
    short = [v if len(repr(v)) < 200 else '…' for v in args]
    what = f'{name}({", ".join(map(repr, short))}) on a {w}x{h} image at {bits} bits'
    b = b0[:]
    must(call(getattr(B, name), b, *args, secs=10), what, inputs)
    e = wf(b, w, h, bits)
    if e:
        raise Violation(f'{what}: the result is not a well-formed bitmap of the same geometry: {e}', inputs)
    if b[:HDR[bits]] != b0[:HDR[bits]]:
        raise Violation(f'{what}: the header or the palette changed', inputs)
    if b == b0:
        return
    R, hd = rowb(w, bits), HDR[bits]
    pb = w * bits // 8
    g1 = grid(b)
    for j in range(h):
        if w * bits % 8 == 0:
            o = hd + j * R
            if b[o + pb:o + R] != b0[o + pb:o + R]:
                raise Violation(f'{what}: row padding changed', inputs)
        if ext is None or g1[j] == g0[j]:
            continue
        for i in range(w):
            if g1[j][i] != g0[j][i] and not any(x1 <= i <= x2 and y1 <= j <= y2 for x1, y1, x2, y2 in ext):
                raise Violation(f'{what}: pixel {(i, j)} outside the extent of the shape changed from {g0[j][i]} to {g1[j][i]}', inputs)



# ---- frame contracts -----------------------------------------------------------
# One table: what a drawing call takes, what it requires and the pixels it may touch. A contract is used at call sites, and each is proved from the body.

class Area:
    """box of possible pixels"""
    def __init__(self, x1, y1, x2, y2):
        self.v = [lift(t) for t in (x1, y1, x2, y2)]

    def has(self, px, py):
        x1, y1, x2, y2 = self.v
        return z3.And(px >= x1, px <= x2, py >= y1, py <= y2)

    def grow(self, m, n=None):
        x1, y1, x2, y2 = self.v
        return Area(x1 - m, y1 - (m if n is None else n), x2 + m, y2 + (m if n is None else n))


class Everywhere:
    def has(self, px, py):
        return z3.BoolVal(True)

    def grow(self, *m):
        return self


ANY = Everywhere()


def pbox(ctx, *pts):
    """box of points given as pairs, or as lists with a known box"""
    xs, ys = [], []
    for p in pts:
        if isinstance(p, Arr) and p.oid in ctx.ghost.setdefault('boxes', {}):
            x1, y1, x2, y2 = ctx.ghost['boxes'][p.oid].v
            xs += [x1, x2]
            ys += [y1, y2]
        elif isinstance(p, Arr) and p.items is not None and p.items and isinstance(p.items[0], (tuple, Arr)):
            q = pbox(ctx, *p.items)
            if q is ANY:
                return ANY
            xs += [q.v[0], q.v[2]]
            ys += [q.v[1], q.v[3]]
        elif isinstance(p, tuple) or isinstance(p, Arr) and p.items is not None and len(p.items) == 2:
            u, v = p if isinstance(p, tuple) else p.items
            if lift(u).sort() != I or lift(v).sort() != I:
                return ANY
            xs.append(lift(u))
            ys.append(lift(v))
        else:
            return ANY
    f = lambda op, t: functools.reduce(lambda a, b: a if a is b else z3.If(op(a, b), a, b), t)
    return Area(f(lambda a, b: a <= b, xs), f(lambda a, b: a <= b, ys), f(lambda a, b: a >= b, xs), f(lambda a, b: a >= b, ys))


def clampedbox(ctx, b, *pts):
    q = pbox(ctx, *pts)
    if q is ANY:
        return ANY
    x1, y1, x2, y2 = q.v
    return Area(clampt(x1, b.w), clampt(y1, b.h), clampt(x2, b.w), clampt(y2, b.h))


def fat(b, q):
    """recorded finding of C04: at 4 bits a horizontal line may take in the neighbour in the same byte"""
    return q if b.bits != 4 or q is ANY else q.grow(1, 0)


def disc_area(b, x, y, r, filled=True):
    q = Area(lift(x) - r, lift(y) - r, lift(x) + r, lift(y) + r)
    return fat(b, q) if filled else q


class S_:
    """a drawing call: parameter kinds, requirement, extent"""
    def __init__(self, kinds, ext, pre=None, depths=BITS):
        self.kinds, self.ext, self.pre, self.depths = kinds, ext, pre, depths


def samepixel(ctx, b, v, e, px, py):
    """the witness pixel read from view v equals the one read from e, byte by byte for 24 bits"""
    o = lift(b.off(ctx, px, py))
    if b.bits == 24:
        return z3.And(*[lift(v(unlift(o + i))) == lift(e(unlift(o + i))) for i in range(3)])
    return lift(inbyte(ctx, b, v(unlift(o)), px)) == lift(inbyte(ctx, b, e(unlift(o)), px))


def inbyte(ctx, b, t, px):
    if b.bits in (8, 24):
        return t
    t = lift(t)
    if b.bits == 4:
        return z3.If(px % 2 == 1, t % 16, t / 16)
    n = bits8(ctx, unlift(t))
    r = lift(n[7])
    for i in range(1, 8):
        r = z3.If(px % 8 == i, lift(n[7 - i]), r)
    return r


def witness(ctx, b, j, v, e):
    """relation between the byte v at j and the byte e there before: the same in the header; the witness pixel untouched"""
    px, py = ctx.ghost['wit']
    o = ctx.ghost.get('wito')
    if o is None:
        o = ctx.ghost['wito'] = lift(b.off(ctx, px, py))
    j = lift(j)
    at = z3.And(j >= o, j < o + 3) if b.bits == 24 else j == o
    return z3.Implies(at, lift(inbyte(ctx, b, v, px)) == lift(inbyte(ctx, b, e, px)))


def drawn(ctx, a, b, keep):
    """arbitrary pixels, except that header and palette are as before and, where keep holds, the witness pixel"""
    e = a.snapshot()
    f = byte_view(ctx, ctx.fresh_fun('drawn'))

    def view(j):
        if not is_sym(j) and j < b.hdr:
            return e(j)
        t = f(j)
        ctx.fact_once(('drawn', t.get_id()), lambda: z3.And(z3.Implies(lift(j) < b.hdr, t == lift(e(j))), z3.Implies(keep, witness(ctx, b, j, t, e(j)))))
        return t
    a.set_view(view)


class FrameSpec(LoopSpec):
    def __init__(self, b, inv=None):
        self.b, self.more = b, inv

    def arr(self, L, a, k):
        if a.bmp is not self.b:
            return None
        e = L.entry(a)
        return ArrSpec(rel=lambda j, v: witness(L.ctx, self.b, j, v, e(j)), below=self.b.hdr)

    def inv(self, L, k):
        return self.more(L, lift(k)) if self.more else []


def bind(name, args):
    """arguments by parameter name, defaults filled in"""
    ps = inspect.signature(inspect.unwrap(getattr(B, name))).parameters
    return {n: args[i] if i < len(args) else p.default for i, (n, p) in enumerate(ps.items())}


def frame_contract(name):
    def contract(ctx, *args, **kw):
        b = pre_bmp(ctx, args[0], name)
        if b is None:
            return NotImplemented
        s = SPEC[name]
        A = bind(name, args)
        A.update(kw)
        ctx.prove(b.bits in s.depths, f'{name} precondition: depth at {ctx.where()}', 'pre')
        for n, k in s.kinds.items():
            require(ctx, b, name, n, k, A[n])
        A = SimpleNamespace(**{n: A[n] for n in s.kinds})
        for p in (s.pre(b, A) if s.pre else []):
            ctx.prove(p, f'{name} precondition at {ctx.where()}', 'pre')
        px, py = ctx.ghost['wit']
        drawn(ctx, args[0], b, z3.Not(s.ext(ctx, b, A).has(px, py)))
        return None
    contract.__doc__ = f'{name}: requires a well-formed bitmap and a valid colour; header, palette, length and the pixels outside its extent as before     (proved: C03)'
    return contract


def isint(v):
    return isinstance(v, int) or is_symint(v) or is_sym(v) and lift(v).sort() == I


def require(ctx, b, name, n, kind, v):
    def ob(c, what):
        ctx.prove(c, f'{name} precondition: {n} {what} at {ctx.where()}', 'pre')
    if kind in ('int', 'nat', 'pos', 'color', 'color24'):
        if not isint(v):
            ob(False, 'is an integer')
            return
        if kind == 'nat':
            ob(lift(v) >= 0, 'is at least 0')
        if kind == 'pos':
            ob(lift(v) >= 1, 'is at least 1')
        if kind[:5] == 'color':
            ob(z3.And(lift(v) >= 0, lift(v) < 1 << (24 if kind[5:] else b.bits)), 'is a valid colour')
    elif kind == 'pt':
        u, w = v if isinstance(v, tuple) else v.items if isinstance(v, Arr) and v.items is not None and len(v.items) == 2 else (None, None)
        ob(isint(u) and isint(w), 'is a pair of integers')


def fresh_arg(ctx, b, n, kind):
    t = z3.Int(n)
    if kind == 'int':
        return t
    if kind in ('nat', 'pos'):
        ctx.fact(t >= (kind == 'pos'))
        return t
    if kind[:5] == 'color':
        ctx.fact(z3.And(t >= 0, t < 1 << (24 if kind[5:] else b.bits)))
        return t
    if kind == 'pt':
        return (z3.Int(n + '.x'), z3.Int(n + '.y'))
    if kind == 'dir':
        return 0 if ctx.decide(t == 0) else 1
    if kind == 'bool':
        return ctx.decide(t == 0)
    if kind == 'none':
        return None
    if kind == 'lum':
        u, v = z3.Ints(f'{n}0 {n}1')
        ctx.fact(z3.And(u >= 0, u <= 255, v >= 0, v <= 255))
        return (u, v)
    if kind == 'fac':
        f = z3.Reals(f'{n}0 {n}1 {n}2')
        ctx.fact(z3.And(*[z3.And(u >= 0, u <= 1) for u in f]))
        return tuple(f)
    if kind == 'steps':
        u, v = z3.Ints(f'{n}0 {n}1')
        ctx.fact(z3.And(u >= 1, v >= 1))
        return (u, v)
    if kind == 'num':
        return z3.Real(n)
    if kind == 'pie':
        return Opaque('pie data')
    if kind == 'ifs':
        return Opaque('IFS parameters')
    if kind == 'txt':
        return ctx.mk('list', items=[8])
    if kind == 'polys':
        return c_polys(ctx, b, n)
    if kind == 'bnd':
        return c_fillpolydata(ctx)
    if kind == 'limits':
        return ((z3.Int(n + '0'), z3.Int(n + '1')))
    if kind == 'pts':
        X, Y = z3.Function(n + '.x', I, I), z3.Function(n + '.y', I, I)
        x1, y1, x2, y2 = z3.Ints(' '.join(f'{n}{v}' for v in ('x1', 'y1', 'x2', 'y2')))
        m = z3.Int(n + '.len')
        ctx.fact(m >= 1)

        def get(k):
            k = lift(k)
            ctx.keep.append(k)
            ctx.fact_once((n, 'pt', k.get_id()), z3.And(X(k) >= x1, X(k) <= x2, Y(k) >= y1, Y(k) <= y2))
            return (X(k), Y(k))
        a = ctx.mk('list', length=m, view=get)
        ctx.ghost.setdefault('boxes', {})[a.oid] = Area(x1, y1, x2, y2)
        return a
    raise KeyError(kind)


def p_frame(name, bits, specs=None, fn=None):
    """from the body of the function, callees by their contracts"""
    s = SPEC[name]

    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        px, py = z3.Ints('px py')
        ctx.ghost['wit'] = (px, py)
        ctx.fact(b.inside(px, py))
        A = {n: fresh_arg(ctx, b, n, k) for n, k in s.kinds.items()}
        if bits == 1 and name == 'plotxybit':
            ctx.ghost['bituf'] = False
        N = SimpleNamespace(**A)
        for p in (s.pre(b, N) if s.pre else []):
            ctx.fact(p)
        ctx.fact(z3.Not(s.ext(ctx, b, N).has(px, py)))
        ctx.specs.append(lambda L: FrameSpec(b, specs(ctx, b, A) if specs else None))
        if name in MORE:
            ctx.ghost['wito'] = lift(b.off(ctx, px, py))
            ctx.ghost['congr'] = True
        names = [n for n in list(inspect.signature(inspect.unwrap(getattr(B, name))).parameters)[1:]]
        ctx.call(fn or getattr(B, name), [a, *[A[n] for n in names if n in A]])
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
        ctx.prove(samepixel(ctx, b, a.view, b.base, px, py), 'pixels outside the extent of the shape unchanged')
    return run


def xy(p):
    return p if isinstance(p, tuple) else tuple(p.items)


class Either:
    def __init__(self, *areas):
        self.areas = areas

    def has(self, px, py):
        return z3.Or(*[a.has(px, py) for a in self.areas])


class Cond:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def has(self, px, py):
        return z3.If(self.c, self.a.has(px, py), self.b.has(px, py))


class Columns:
    """any row, the columns of the box"""
    def __init__(self, q):
        self.q = q

    def has(self, px, py):
        if self.q is ANY:
            return z3.BoolVal(True)
        return z3.And(px >= self.q.v[0], px <= self.q.v[2])


class Rows_(Columns):
    def has(self, px, py):
        if self.q is ANY:
            return z3.BoolVal(True)
        return z3.And(py >= self.q.v[1], py <= self.q.v[3])


def N_(**kinds):
    return kinds


RECT = N_(x1='int', y1='int', x2='int', y2='int')
CENTRE = N_(x='int', y='int', r='nat')
rect = lambda A: ((A.x1, A.y1), (A.x2, A.y2))
SPEC = {
    'plotxybit': S_(N_(x='int', y='int', c='color'), lambda ctx, b, A: Area(A.x, A.y, A.x, A.y)),
    'horiline': S_(N_(y='int', x1='int', x2='int', color='color'), lambda ctx, b, A: fat(b, pbox(ctx, (A.x1, A.y), (A.x2, A.y)))),
    'vertline': S_(N_(x='int', y1='int', y2='int', color='color'), lambda ctx, b, A: pbox(ctx, (A.x, A.y1), (A.x, A.y2))),
    'line': S_(N_(**RECT, color='color'), lambda ctx, b, A: fat(b, clampedbox(ctx, b, *rect(A)))),
    'filledrect': S_(N_(**RECT, color='color'), lambda ctx, b, A: fat(b, pbox(ctx, *rect(A)))),
    'filledcircle': S_(N_(**CENTRE, color='color'), lambda ctx, b, A: disc_area(b, A.x, A.y, A.r)),
    'circle': S_(N_(**CENTRE, color='color', isfilled='bool'), lambda ctx, b, A: disc_area(b, A.x, A.y, A.r)),
    'filledellipse': S_(N_(x='int', y='int', b='nat', a='nat', color='color'), lambda ctx, b, A: fat(b, Area(A.x, A.y, A.x, A.y).grow(A.a, A.b))),
    'ellipse': S_(N_(x='int', y='int', b='nat', a='nat', color='color', isfilled='bool'), lambda ctx, b, A: fat(b, Area(A.x, A.y, A.x, A.y).grow(A.a, A.b))),
    'intplotvecxypoint': S_(N_(v='pt', c='color'), lambda ctx, b, A: pbox(ctx, A.v)),
    'plotvecxypoint': S_(N_(v='pt', c='color'), lambda ctx, b, A: pbox(ctx, A.v)),
    'circlevec': S_(N_(v='pt', r='nat', color='color', isfilled='bool'), lambda ctx, b, A: disc_area(b, *xy(A.v), A.r)),
    'intlinevec': S_(N_(u='pt', v='pt', color='color'), lambda ctx, b, A: fat(b, clampedbox(ctx, b, A.u, A.v))),
    'linevec': S_(N_(u='pt', v='pt', color='color'), lambda ctx, b, A: fat(b, clampedbox(ctx, b, A.u, A.v))),
    'roundpen': S_(N_(point='pt', penradius='nat', color='color'), lambda ctx, b, A: fat(b, pbox(ctx, A.point).grow(A.penradius))),
    'plotxypointlist': S_(N_(vlist='pts', penradius='nat', color='color'), lambda ctx, b, A: fat(b, pbox(ctx, A.vlist).grow(A.penradius))),
    'thickroundline': S_(N_(p1='pt', p2='pt', penradius='nat', color='color'), lambda ctx, b, A: fat(b, pbox(ctx, A.p1, A.p2).grow(A.penradius))),
    'gradthickroundline': S_(N_(p1='pt', p2='pt', penradius='nat', lumrange='lum', RGBfactors='fac'), lambda ctx, b, A: fat(b, pbox(ctx, A.p1, A.p2).grow(A.penradius))),
    'thickcircle': S_(N_(**CENTRE, penradius='nat', color='color'), lambda ctx, b, A: disc_area(b, A.x, A.y, lift(A.r) + A.penradius)),
    'gradthickcircle': S_(N_(**CENTRE, penradius='nat', lumrange='lum', RGBfactors='fac'), lambda ctx, b, A: disc_area(b, A.x, A.y, lift(A.r) + A.penradius)),
    'gradcircle': S_(N_(**CENTRE, lumrange='lum', RGBfactors='fac'), lambda ctx, b, A: disc_area(b, A.x, A.y, lift(A.r) + 1)),
    'graddichromiccircle': S_(N_(**CENTRE, c1='color24', c2='color24'), lambda ctx, b, A: disc_area(b, A.x, A.y, lift(A.r) + 1), depths=(24,)),
    'orb': S_(N_(**CENTRE, RGBfactors='fac'), lambda ctx, b, A: disc_area(b, A.x, A.y, lift(A.r) + 1), lambda b, A: [lift(A.r) >= 2]),
    'thickencirclearea': S_(N_(**CENTRE, rgbfactors='fac'), lambda ctx, b, A: disc_area(b, A.x, A.y, lift(A.r) + 8)),
    'gradellipse': S_(N_(x='int', y='int', b='nat', a='nat', lumrange='lum', RGBfactors='fac'), lambda ctx, b, A: fat(b, Area(A.x, A.y, A.x, A.y).grow(A.a, A.b))),
    'plotlines': S_(N_(vertlist='pts', color='color', penradius='nat'), lambda ctx, b, A: Cond(lift(A.penradius) <= 1, fat(b, clampedbox(ctx, b, A.vertlist)), fat(b, pbox(ctx, A.vertlist).grow(A.penradius)))),
    'plotpoly': S_(N_(vertlist='pts', color='color'), lambda ctx, b, A: fat(b, clampedbox(ctx, b, A.vertlist))),
    'thickplotpoly': S_(N_(vertlist='pts', penradius='nat', color='color'), lambda ctx, b, A: fat(b, pbox(ctx, A.vertlist).grow(A.penradius))),
    'gradthickplotpoly': S_(N_(vertlist='pts', penradius='nat', lumrange='lum', RGBfactors='fac'), lambda ctx, b, A: fat(b, pbox(ctx, A.vertlist).grow(A.penradius))),
    'gradplotlines': S_(N_(vertlist='pts', penradius='nat', lumrange='lum', RGBfactors='fac'), lambda ctx, b, A: Either(fat(b, pbox(ctx, A.vertlist).grow(A.penradius)), fat(b, clampedbox(ctx, b, A.vertlist)))),
    'gradvert': S_(N_(vertlist='pts', penradius='nat', lumrange='lum', RGBfactors='fac'), lambda ctx, b, A: fat(b, pbox(ctx, A.vertlist).grow(A.penradius))),
    'rectangle': S_(N_(**RECT, color='color'), lambda ctx, b, A: fat(b, clampedbox(ctx, b, *rect(A)))),
    'filledgradrect': S_(N_(**RECT, lumrange='lum', RGBfactors='fac', direction='dir'), lambda ctx, b, A: fat(b, pbox(ctx, *rect(A))), depths=(8, 24)),
    'filleddichromaticgradrect': S_(N_(**RECT, c1='color24', c2='color24', direction='dir'), lambda ctx, b, A: fat(b, pbox(ctx, *rect(A))), depths=(24,)),
    'fillbackgroundwithgrad': S_(N_(lumrange='lum', RGBfactors='fac', direction='dir'), lambda ctx, b, A: ANY, depths=(8, 24)),
    'fillbackgroundwithdichromaticgrad': S_(N_(lumrange='lum', c1='color24', c2='color24', direction='dir'), lambda ctx, b, A: ANY, depths=(24,)),
    'xygrid': S_(N_(**RECT, xysteps='steps', color='color'), lambda ctx, b, A: fat(b, pbox(ctx, *rect(A)))),
    'xygridvec': S_(N_(u='pt', v='pt', steps='steps', gridcolor='color'), lambda ctx, b, A: fat(b, pbox(ctx, A.u, A.v))),
    'vertlinevert': S_(N_(vlist='pts', linelen='int', yadj='int', color='color'), lambda ctx, b, A: Columns(pbox(ctx, A.vlist))),
    'horilinevert': S_(N_(vlist='pts', linelen='int', xadj='int', color='color'), lambda ctx, b, A: Rows_(pbox(ctx, A.vlist))),
    'filledparallelogram': S_(N_(p1='pt', p2='pt', p3='pt', color='color'), lambda ctx, b, A: ANY),
    'sphere': S_(N_(**CENTRE, rgbfactors='fac'), lambda ctx, b, A: disc_area(b, A.x, A.y, lift(A.r) + 1)),
    'squircle': S_(N_(**CENTRE, color='color'), lambda ctx, b, A: ANY),
    'thickellipserot': S_(N_(x='int', y='int', b='nat', a='nat', degrot='int', penradius='nat', color='color'), lambda ctx, b, A: ANY),
    'gradthickellipserot': S_(N_(x='int', y='int', b='nat', a='nat', degrot='int', penradius='nat', lumrange='lum', RGBfactors='fac'), lambda ctx, b, A: ANY),
    'beziercurve': S_(N_(pntlist='pts', penradius='nat', color='color'), lambda ctx, b, A: ANY),
    'bspline': S_(N_(pntlist='pts', penradius='nat', color='color', isclosed='bool', curveback='bool'), lambda ctx, b, A: ANY),
    'drawvec': S_(N_(u='pt', v='pt', headsize='nat', color='color'), lambda ctx, b, A: ANY),
    'plotflower': S_(N_(cx='int', cy='int', r='pos', petals='pos', angrot='int', lumrange='lum', RGBfactors='fac'), lambda ctx, b, A: ANY),
    'plotfilledflower': S_(N_(cx='int', cy='int', r='pos', petals='pos', angrot='int', lumrange='lum', RGBfactors='fac'), lambda ctx, b, A: ANY),
    'plotstring': S_(N_(x='int', y='int', str2plot='any', scale='pos', pixspace='int', spacebetweenchar='int', color='color', fontbuf='any'), lambda ctx, b, A: ANY),
    'numbervert': S_(N_(vlist='pts', xadj='int', yadj='int', scale='pos', valstart='int', valstep='int', pixspace='int', spacebetweenchar='int', color='color', fontbuf='txt',
                        suppresszero='bool', suppresslastnum='bool', rightjustify='bool'), lambda ctx, b, A: ANY),
    'XYaxis': S_(N_(origin='pt', steps='steps', xylimits='limits', xyvalstarts='limits', xysteps='limits', color='color', textcolor='color', showgrid='bool', gridcolor='color'),
                 lambda ctx, b, A: ANY),
    'plotpolylist': S_(N_(polylist='polys', color='color'), lambda ctx, b, A: ANY),
    'fillboundary': S_(N_(bndfilldic='bnd', color='color'), lambda ctx, b, A: ANY),
    'plotpolyfill': S_(N_(vertlist='pts', color='color'), lambda ctx, b, A: ANY),
    'drawarc': S_(N_(**CENTRE, startdegangle='num', enddegangle='num', color='color', showoutline='bool', fillcolor='color', isfilled='bool'), lambda ctx, b, A: ANY),
    'piechart': S_(N_(**CENTRE, dataandcolorlist='pie'), lambda ctx, b, A: ANY),
    'IFS': S_(N_(IFStransparam='ifs', **RECT, xscale='int', yscale='int', xoffset='int', yoffset='int', color='color', maxiter='nat'), lambda ctx, b, A: pbox(ctx, *rect(A))),
    'fern': S_(N_(**RECT, color='color'), lambda ctx, b, A: pbox(ctx, *rect(A))),
    'plotimgedges': S_(N_(similaritythreshold='int', edgeradius='nat', edgecolor='color'), lambda ctx, b, A: ANY),
    'plotcircinsqr': S_(N_(x='int', y='int', d='nat', color='color'), lambda ctx, b, A: fat(b, Area(A.x, A.y, lift(A.x) + A.d, lift(A.y) + A.d))),
}


def pairs(maxu, maxv):
    def contract(ctx, *args):
        n, U, V = ctx.fresh('n'), ctx.fresh_fun('u'), ctx.fresh_fun('v')
        ctx.fact(n >= 0)
        U_, V_ = maxu(*args), maxv(*args)

        def get(k):
            k = lift(k)
            ctx.keep.append(k)
            u, v = U(k), V(k)
            ctx.fact_once(('pair', u.get_id()), z3.Implies(z3.And(k >= 0, k < n), z3.And(u >= 0, u <= U_, v >= 0, v <= V_)))
            return (u, v)
        return SeqObj(n, get)
    contract.__doc__ = 'requires half axes of at least 0; yields points of the quarter box     (proved: C14)'
    return contract


def c_match(ctx, rgb, pal):
    """requires a palette; ensures the index of one of its entries     (proved: C12)"""
    if not isinstance(pal, Arr):
        return NotImplemented
    t = ctx.fresh('match')
    ctx.prove(lift(pal.length) >= 1, f'matchRGBtopal precondition: at least one entry at {ctx.where()}', 'pre')
    ctx.fact(z3.And(t >= 0, t < lift(pal.length)))
    return t


def c_allpal(ctx, a):
    """requires an indexed bitmap; ensures the list of its 2^depth entries     (proved: C08)"""
    b = pre_bmp(ctx, a, 'getallRGBpal')
    if b is None or b.bits == 24:
        return NotImplemented
    f = ctx.fresh_fun('pal')
    return ctx.mk('list', length=1 << b.bits, view=lambda j: f(lift(j)))


def orb_facts(ctx, b, A):
    """facts (lemma 'shares of a difference', D = 255) about the luminosity of round k, 255*(r-i)/j for i = r-1, r-2, ..., j+1"""
    r = A['r']

    def inv(L, k):
        if is_sym(k) and z3.is_const(k):
            j = ctx.binop('>>', r, 1)
            n = ctx.binop('-', r, unlift(lift(r) - 1 + lift(ctx.mul(k, -1))))
            t = lift(ctx.binop('/', ctx.binop('*', 255, n), j))
            n, j = lift(n), lift(j)
            ctx.fact(z3.Implies(z3.And(n >= 0, n <= j, j > 0), z3.And(t >= 0, t <= 255)))
        return []
    return inv


def c_colormix(ctx, lum, fac):
    """requires a luminosity in 0..255 and factors in 0..1; ensures a packed colour of 24 bits     (proved below)"""
    f = fac if isinstance(fac, tuple) else tuple(fac.items)
    ctx.prove(z3.And(lift(lum) >= 0, lift(lum) <= 255), f'colormix precondition: luminosity in 0..255 at {ctx.where()}', 'pre')
    ctx.prove(z3.And(*[z3.And(lift(u) >= 0, lift(u) <= 1) for u in f]), f'colormix precondition: factors in 0..1 at {ctx.where()}', 'pre')
    c = ctx.fresh('mixed')
    ctx.fact(z3.And(c >= 0, c < 1 << 24))
    return c


def c_lerp(ctx, a, b, f):
    """requires a fraction in 0..1; ensures a number between the two     (proved below)"""
    ctx.prove(z3.And(lift(f) >= 0, lift(f) <= 1), f'lerp precondition: fraction in 0..1 at {ctx.where()}', 'pre')
    t = ctx.fresh_real('mix')
    a, b = real(a), real(b)
    ctx.fact(z3.And(t >= z3.If(a <= b, a, b), t <= z3.If(a <= b, b, a)))
    return t


def real(t):
    t = lift(t)
    return z3.ToReal(t) if t.sort() == I else t


def c_circlepoints(ctx, x, y, r):
    """yields points of the box of the circle     (proved below)"""
    return around(ctx, x, y, lift(r), lift(r))


def c_ellipsepoints(ctx, x, y, b, a):
    """yields points of the box of the ellipse     (proved below)"""
    return around(ctx, x, y, lift(a), lift(b))


def around(ctx, x, y, mx, my):
    n, U, V = ctx.fresh('n'), ctx.fresh_fun('u'), ctx.fresh_fun('v')
    ctx.fact(n >= 0)
    x, y = lift(x), lift(y)

    def get(k):
        k = lift(k)
        ctx.keep.append(k)
        u, v = U(k), V(k)
        ctx.fact_once(('around', u.get_id()), z3.Implies(z3.And(k >= 0, k < n), z3.And(u >= x - mx, u <= x + mx, v >= y - my, v <= y + my)))
        return (u, v)
    return SeqObj(n, get)


def c_pairs(ctx, *args):
    """yields pairs of integers"""
    n, U, V = ctx.fresh('n'), ctx.fresh_fun('u'), ctx.fresh_fun('v')
    ctx.fact(n >= 0)
    return SeqObj(n, lambda k: (U(lift(k)), V(lift(k))))


def c_pie(ctx, data):
    """requires entries with colours valid for the depth; ensures a list of sectors carrying them, and the index of one of them or -1     (proved: C17)"""
    n, big = ctx.fresh('n'), ctx.fresh('big')
    ctx.fact(z3.And(n >= 0, big >= -1, big < n))
    F = [z3.Function(f'{t}{ctx.fresh("u")}', I, z3.RealSort()) for t in ('from', 'to', 'share')]
    C, V = ctx.fresh_fun('colour'), ctx.fresh_fun('value')

    def get(k):
        k = lift(k)
        ctx.fact_once(('pie', C.name(), k.get_id()), z3.And(C(k) >= 0, C(k) < 1 << ctx.ghost['b'].bits))
        ctx.keep.append(k)
        return ctx.mk('list', items=[F[0](k), F[1](k), C(k), V(k), F[2](k)])
    return (ctx.mk('list', length=n, view=get), big)


def c_ifs(ctx, params, x1, y1, x2, y2, *args):
    """yields points inside the rectangle     (proved below)"""
    n, U, V = ctx.fresh('n'), ctx.fresh_fun('u'), ctx.fresh_fun('v')
    ctx.fact(n >= 0)
    q = pbox(ctx, (x1, y1), (x2, y2))

    def get(k):
        u, v = U(lift(k)), V(lift(k))
        ctx.fact_once(('ifs', u.get_id()), q.has(u, v))
        ctx.keep.append(u)
        return (u, v)
    return SeqObj(n, get)


def p_ifs(ctx):
    import pythonbmp.fractals as FR
    A = list(z3.Ints('x1 y1 x2 y2'))
    q = pbox(ctx, tuple(A[:2]), tuple(A[2:]))
    ctx.ghost['area'] = q
    af = ctx.mk('list', items=[ctx.mk('list', items=[z3.Real(f'a{i}{j}') for j in range(6)]) for i in range(4)])
    pr = ctx.mk('list', items=list(z3.Reals('p0 p1 p2 p3')))
    ctx.call(points, [FR.iterIFS, (af, pr), *A, *z3.Reals('xs ys xo yo'), z3.Int('maxiter')])


def c_inarea(ctx, u, v):
    ctx.prove(isint(u) and isint(v), 'integer coordinates')
    ctx.prove(ctx.ghost['area'].has(lift(u), lift(v)), 'the point lies in the rectangle')


def c_pairlist(ctx, *args):
    """a list of at least one pair of integers"""
    n, U, V = ctx.fresh('n'), ctx.fresh_fun('u'), ctx.fresh_fun('v')
    ctx.fact(n >= 1)
    return ctx.mk('list', length=n, view=lambda k: (U(lift(k)), V(lift(k))))


def c_pairs0(ctx, *args):
    """a list of pairs of integers, possibly empty"""
    n, U, V = ctx.fresh('n'), ctx.fresh_fun('u'), ctx.fresh_fun('v')
    ctx.fact(n >= 0)
    return ctx.mk('list', length=n, view=lambda k: (U(lift(k)), V(lift(k))))


def c_polys(ctx, b, n='poly'):
    """a list of polygons"""
    m = ctx.fresh(n + '.len')
    ctx.fact(m >= 0)
    memo = {}

    def get(k):
        k = lift(k)
        if k.get_id() not in memo:
            memo[k.get_id()] = (k, fresh_arg(ctx, b, f'{n}[{len(memo)}]', 'pts'))
        return memo[k.get_id()][1]
    return ctx.mk('list', length=m, view=get)


def c_points(ctx, *args):
    """a list of points (opaque)"""
    return ctx.mk('list', length=ctx.fresh('n'), view=lambda k: (_ for _ in ()).throw(Unsupported('a point of an opaque list')))


def c_fillpolydata(ctx, *args):
    """a dictionary of rows; the value of a row is a list of columns     (assumed; exercised by the bounded check)"""
    n, K, N, X = ctx.fresh('n'), ctx.fresh_fun('row'), ctx.fresh_fun('rowlen'), z3.Function(f'col{ctx.fresh("u")}', I, I, I)
    ctx.fact(n >= 0)

    def value(y):
        y = lift(y)
        ctx.fact_once(('rowlen', N.name(), y.get_id()), N(y) >= 0)
        ctx.keep.append(y)
        return ctx.mk('list', length=N(y), view=lambda j: X(y, lift(j)))
    return MapObj(n, lambda k: K(lift(k)), value)


def c_segments(ctx, *args):
    """yields pairs of points with integer coordinates"""
    n, F = ctx.fresh('n'), [ctx.fresh_fun(t) for t in 'uvxy']
    ctx.fact(n >= 0)
    return SeqObj(n, lambda k: ((F[0](lift(k)), F[1](lift(k))), (F[2](lift(k)), F[3](lift(k)))))


def blend(names):
    """facts (lemma below) about the luminosity computed in round k of a loop i = p, p-1, ..., 1: base + delta*i/p"""
    def more(ctx, b, A):
        p = A[names[0]]
        l = A['lumrange']

        def inv(L, k):
            if is_sym(k) and z3.is_const(k):
                D = ctx.binop('-', l[1], l[0])
                i = unlift(lift(p) + lift(ctx.mul(k, -1)))
                t = lift(ctx.binop('/', ctx.binop('*', D, i), p))
                i, q, D = lift(i), lift(p), real(D)
                ctx.fact(z3.Implies(z3.And(i >= 0, i <= q, q > 0), z3.And(t >= z3.If(D < 0, D, 0), t <= z3.If(D < 0, 0, D))))
            return []
        return inv
    return more


def replay_op(name):
    """search for a failing call of the same function on the real code"""
    def replay(i):
        g = random.Random(5)
        end = time.time() + 4
        while time.time() < end:
            bits = g.choice(SPEC[name].depths)
            w, h = dims(g, bits, 24)
            b0 = mkbmp(w, h, bits, g)
            g0 = grid(b0)
            for n, args, ext in calls(g, w, h, bits, g.randrange(1 << bits)):
                if n == name:
                    try:
                        draw(b0, g0, n, args, ext)
                    except Violation as e:
                        i.clear()
                        i.update(e.inputs)
                        return str(e)
        return None
    return replay


def p_blend(ctx):
    D, i, p, t = z3.Reals('D i p t')
    ctx.fact(z3.And(i >= 0, i <= p, p > 0, t * p == D * i))
    for c, g in ((D >= 0, t >= 0), (D >= 0, t <= D), (D < 0, t <= 0), (D < 0, t >= D)):
        s = z3.SolverFor('QF_NRA')
        s.add(i >= 0, i <= p, p > 0, t * p == D * i, c, z3.Not(g))
        ctx.prove(s.check() == z3.unsat, f'a share i/p of a difference lies between nothing and all of it: {g} if {c}')


def p_mix(ctx):
    l = ctx.fresh_real('lum')
    f = z3.Reals('f0 f1 f2')
    ctx.fact(z3.And(l >= 0, l <= 255, *[z3.And(u >= 0, u <= 1) for u in f]))
    for u in f:
        t = real(ctx.binop('*', u, l))
        ctx.fact(z3.And(t >= 0, t <= l))        # lemma below
    c = lift(ctx.call(COLORS.colormix, [l, f]))
    ctx.prove(z3.And(c >= 0, c < 1 << 24), 'a packed colour')


def p_share(ctx):
    f, l = z3.Reals('f l')
    for g in (f * l >= 0, f * l <= l):
        s = z3.SolverFor('QF_NRA')
        s.add(f >= 0, f <= 1, l >= 0, z3.Not(g))
        ctx.prove(s.check() == z3.unsat, f'{g}')


def p_lerp(ctx):
    """(1-f)*a + f*b lies between a and b: over the reals, for the expression the function builds"""
    a, b, f = z3.Reals('a b f')
    ctx.fact(z3.And(f >= 0, f <= 1))
    r = real(ctx.call(ML.lerp, [a, b, f]))
    u, v = real(ctx.binop('*', ctx.binop('-', 1.0, f), a)), real(ctx.binop('*', f, b))
    d = z3.If(a <= b, b - a, a - b)
    w = real(ctx.binop('*', f, ctx.binop('-', b, a)))
    ctx.prove(r == u + v, 'the sum of the two shares')
    s = z3.SolverFor('QF_NRA')
    s.add(f >= 0, f <= 1, z3.Or((1 - f) * a + f * b < z3.If(a <= b, a, b), (1 - f) * a + f * b > z3.If(a <= b, b, a)))
    ctx.prove(s.check() == z3.unsat, 'the shares of two numbers add up to a number between them')


def _pt(p, q):
    pass


def points(f, *args):
    for p in f(*args):
        _pt(p[0], p[1])


def c_inbox(ctx, u, v):
    x, y, mx, my = ctx.ghost['box']
    ctx.prove(isint(u) and isint(v), 'integer coordinates')
    ctx.prove(z3.And(lift(u) >= x - mx, lift(u) <= x + mx, lift(v) >= y - my, lift(v) <= y + my), 'the point lies in the box')


def p_box(f, names, mx, my):
    def run(ctx):
        A = [z3.Int(n) for n in names]
        for t in A[2:]:
            ctx.fact(t >= 0)
        ctx.ghost['box'] = (A[0], A[1], A[2 + mx], A[2 + my])
        ctx.call(points, [f, *A])
    return run


def c_intpair(ctx, u, v):
    ctx.prove(isint(u) and isint(v), 'integer coordinates')


def p_ints(f, **kinds):
    def run(ctx):
        ctx.call(points, [f, *[fresh_arg(ctx, None, n, k) for n, k in kinds.items()]])
    return run


def c_walk(ctx, p, q):
    return c_iterline(ctx, xy(p), xy(q))


c_walk.__doc__ = c_iterline.__doc__
_r = lambda r: lift(r)
CLR, S3, FRA = 'pythonbmp.colors', 'pythonbmp.solids3D', 'pythonbmp.fractals'
HELP = {(CLR, 'matchRGBtopal'): c_match, (LIB, 'getallRGBpal'): c_allpal, (CLR, 'colormix'): c_colormix, ('pythonbmp.mathlib', 'lerp'): c_lerp,
        (PRIM, 'iterellipserot'): c_pairs, (PRIM, 'iterflower'): c_pairs, (PRIM, 'iterbeziercurve'): c_pairs, (PRIM, 'iterbspline'): c_pairs, (PRIM, 'squirclevert'): c_pairlist,
        (PRIM, 'horizontalvert'): c_pairlist, (PRIM, 'verticalvert'): c_pairlist, (PRIM, 'arcvert'): c_pairs0, (S3, 'fillpolydata'): c_fillpolydata, (S3, 'polyboundary'): c_points,
        (FRA, 'iterIFS'): c_ifs, ('pythonbmp.charts', 'genpiechartdata'): c_pie, (LIB, 'getimagedgevert'): c_pairs0,
        (PRIM, 'iterdrawvec'): c_segments, (PRIM, 'itercircle'): c_circlepoints, (PRIM, 'iterellipse'): c_ellipsepoints}
_ins = dict(inputs=bmp_inputs(None), hints=small)
WALKS = {(PRIM, 'itercirclepart'): pairs(_r, _r), (PRIM, 'itercirclepartlineedge'): pairs(_r, _r), (PRIM, 'iterellipsepart'): pairs(lambda b, a: lift(a), lambda b, a: lift(b)),
         (PRIM, 'iterline'): c_walk}
ORDER = list(SPEC)


def freg(name):
    """contracts a function may use: the walks, and the drawing calls before it in the table"""
    return {**REG, **WALKS, **HELP, **{(LIB, n): frame_contract(n) for n in ORDER[:ORDER.index(name)]}}


BOXR = {('props.c03', '_pt'): c_inbox, **WALKS}
INTR = {('props.c03', '_pt'): c_intpair, **WALKS}
PROOFS = [Proof('points of an iterated function system', ['fractals.iterIFS', 'primitives2D.isinrectbnd', 'primitives2D.sortrecpoints'], p_ifs, registry={**WALKS, ('props.c03', '_pt'): c_inarea},
                inline_modules=('props.c03',)), Proof('colormix', ['colors.colormix', 'colors.RGB2int'], p_mix, registry=REG), Proof('shares of a luminosity', [], p_share), Proof('shares of a difference', [], p_blend),
          Proof('lerp', ['mathlib.lerp'], p_lerp, registry=REG),
          Proof('points of a circle', ['primitives2D.itercircle', 'primitives2D.mirror1stquad'], p_box(P2.itercircle, ('x', 'y', 'r'), 0, 0), registry=BOXR, inline_modules=('props.c03',)),
          *[Proof(f'{_f.__name__}: integer points', [f'primitives2D.{_f.__name__}'], p_ints(_f, **_k), registry=INTR, inline_modules=('props.c03',)) for _f, _k in
            ((P2.iterellipserot, dict(x='int', y='int', b='nat', a='nat', degrot='int')), (P2.iterflower, dict(cx='int', cy='int', r='pos', petals='pos', angrot='int')))],
          Proof('points of an ellipse', ['primitives2D.iterellipse'], p_box(P2.iterellipse, ('x', 'y', 'b', 'a'), 1, 0), registry=BOXR, inline_modules=('props.c03',))]
MORE = {'orb': orb_facts} | {n: blend(('penradius',)) for n in ('gradthickroundline', 'gradthickcircle')}
NOBODY = {'plotstring'}          # its body: C15
for _n, _s in SPEC.items():
    for _b in _s.depths if _n not in NOBODY else ():
        PROOFS.append(Proof(f'{_n}, {_b} bit', [f'BITMAPlib.{_n}'], p_frame(_n, _b, specs=MORE.get(_n)), registry=freg(_n), replay=replay_op(_n), **_ins))
DRAWN = sorted({n for n, _, _ in calls(random.Random(1), 30, 30, 24, 5)} | {n for n, _, _ in calls(random.Random(2), 30, 30, 24, 5)} | set(TEXTS) | set(GLYPHS))
BOUNDED = [Bounded('drawing, concrete', b_draw, 'random images of all depths up to 40 pixels a side, coordinates up to one image size outside, radii up to 25, every drawing call',
                   [f'BITMAPlib.{n}' for n in DRAWN], quick=30, thorough=300)]
ASSUMPTIONS = ['partial correctness: termination is not proved',
               'floating point is treated as real arithmetic; sin, cos are uninterpreted',
               'iterbeziercurve, iterbspline yield points with integer coordinates; iterdrawvec yields pairs of them; squirclevert and arcvert return lists of them; fillpolydata returns integer '
               'columns by integer rows (assumed, exercised by the bounded check)',
               'text and glyph functions: bounded check only here (glyph cells and strings: proved in C15, used as a contract by numbervert and XYaxis)',
               'parameters are of the documented types: integer coordinates, radii and half axes of at least 0, colours within the depth, factors in 0..1',
               'extents of shapes made of computed points (splines, rotated ellipses, flowers, squircles) are not proved: only that header, palette and length stay and nothing is written outside the rows']

