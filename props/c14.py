"""C14: circles and ellipses are drawn where they should be."""
import random
from .common import *
from .contracts import *
from .c04 import split, coloured, pre_color, p_shape, canvas, painted, clip, REGL, c_horiline, PRIM, whole4
with silent():
    import pythonbmp.primitives2D as P
PROPERTY = 'C14'


# ---- the circle walk --------------------------------------------------------
# A point (a, b) of the first quadrant, M = max(a, b), E = a*a + b*b - r*r.
# OUTLINE: -M <= E <= max(M - 1, 0): the larger coordinate is the exact one rounded to the nearest integer (so within half a pixel).
# DISC:    E <= max(M - 1, 0): on or below the outline.

def _cpoint(a, b):
    pass


def circlewalk(r, qa, qb):
    """hit1, hit2: the outline point (qa, qb) and its mirror image have been yielded"""
    hit1 = hit2 = False
    for v in P.itercirclepart(r):
        _cpoint(v[0], v[1])
        hit1 = hit1 or (v[0] == qa and v[1] == qb)
        hit2 = hit2 or (v[0] == qb and v[1] == qa)
    return hit1, hit2


def energy(ctx, a, b, R):
    return lift(ctx.mul(a, a)) + lift(ctx.mul(b, b)) - lift(R)


class CircleSpec(LoopSpec):
    """head of round k: column k; the row is the nearest to the circle at that column, d is r*r times the midpoint test"""
    def __init__(self, r, R, extra):
        self.r, self.R, self.extra = r, R, extra

    def inv(self, L, k):
        ctx, r, R = L.ctx, self.r, self.R
        v = frame_with(ctx, 'row', 'col', 'd', 'r_sqr')
        if v is None:
            return []
        row, col, d = split(ctx, v['row']), split(ctx, v['col']), lift(v['d'])
        k = lift(k)
        E = energy(ctx, row, col, R)
        D = 2 * lift(ctx.mul(col, col)) + 4 * col + 3 + 2 * lift(ctx.mul(row, row)) - 2 * row - 2 * lift(R)
        ctx.pos(R, D)
        ctx.pos(R, -1 - D)
        # nothing is said about the unused state after the last point
        out = [col == k, d == lift(ctx.mul(R, unlift(D))), row <= r, row >= k - 2, E >= -row, z3.Implies(row >= col, z3.And(E <= row - 1, row >= 1)), row >= 0]
        return out + self.extra(L, k, row, col)

    def at_exit(self, L, k):
        pass


def circle_inv(ctx, q):
    def extra(L, k, row, col):
        h = frame_with(ctx, 'hit1', 'hit2')
        qa, qb = q
        lemmas(ctx, row, col, qa, qb)
        return [z3.Implies(qa < lift(k), z3.And(liftb(h['hit1']), liftb(h['hit2'])))]
    return extra


def lemmas(ctx, row, k, qa, qb):
    ctx.pos(row - qb - 1, row + qb)
    ctx.pos(qb - row - 1, row + qb)
    ctx.pos(k - 1 - row, k + row)
    ctx.pos(qa - k, qa + k)
    ctx.pos(k - qa, qa + k)
    ctx.pos(qb - k, qb + k - 1)


def start(ctx, rmin=1):
    r = z3.Int('r')
    ctx.fact(r >= rmin)
    R = ctx.mul(r, r)
    ctx.pos(r - 1, r + 1)
    ctx.ghost['R'], ctx.ghost['r'] = R, r
    return r, R


def p_circlewalk(ctx):
    r, R = start(ctx)
    qa, qb = z3.Ints('qa qb')
    E = energy(ctx, qa, qb, R)
    ctx.fact(z3.And(qa >= 0, qb >= qa, E >= -qb, E <= qb - 1))
    ctx.ghost['q'] = qa, qb
    ctx.specs.append(lambda L: CircleSpec(r, R, circle_inv(ctx, (qa, qb))))
    h1, h2 = ctx.call(circlewalk, [r, qa, qb])
    ctx.prove(z3.And(liftb(h1), liftb(h2)), 'every outline point and its mirror image at the diagonal is visited')


def p_circle0(ctx):
    h = ctx.call(circlewalk, [0, 0, 0])
    ctx.prove(bool(h[0]), 'radius 0: the centre is visited')


def c_cpoint(ctx, a, b):
    if 'R' not in ctx.ghost:
        ctx.prove(z3.And(lift(a) == 0, lift(b) == 0), 'radius 0: only the centre')
        return
    a, b = lift(a), lift(b)
    r, R = ctx.ghost['r'], ctx.ghost['R']
    E = energy(ctx, a, b, R)
    M = z3.If(a >= b, a, b)
    if 'q' in ctx.ghost:
        for t in (a, b):
            lemmas(ctx, t, a, *ctx.ghost['q'])
    ctx.prove(z3.And(a >= 0, b >= 0, a <= r, b <= r), 'the point lies in the quarter box of the radius')
    ctx.prove(z3.And(E >= -M, E <= M - 1), 'the point is the pixel nearest to the circle in its row or column')


# ---- the rows of the disc ----------------------------------------------------

def _edge(w, dy, again):
    pass


def edgewalk(r):
    seen = []
    for v in P.itercirclepartlineedge(r):
        _edge(v[0], v[1], v[1] in seen)
        seen += [v[1]]
    return seen


class EdgeSpec(CircleSpec):
    def arr(self, L, a, k):
        for f in L.ctx.frames:
            if any(x is a for x in f.vars.values()) and a.kind == 'list':
                v = frame_with(L.ctx, 'row', 'col', 'd', 'r_sqr')
                row = split(L.ctx, v['row'])
                return ArrSpec(member=lambda u: z3.Or(z3.And(lift(u) >= 0, lift(u) < lift(k)), z3.And(lift(u) > row, lift(u) <= self.r)))
        return None


def p_edgewalk(ctx):
    r, R = start(ctx)
    ctx.specs.append(lambda L: EdgeSpec(r, R, lambda L, k, row, col: []))
    seen = ctx.call(edgewalk, [r])
    q = z3.Int('q')
    ctx.fact(z3.And(q >= 0, q <= r))
    ctx.prove(liftb(ctx.contains(q, seen)), 'every row of the disc is visited')


def p_edge0(ctx):
    seen = ctx.call(edgewalk, [0])
    ctx.prove(bool(ctx.contains(0, seen)), 'radius 0: the centre row is visited')


def c_edge(ctx, w, dy, again):
    if 'R' not in ctx.ghost:
        ctx.prove(z3.And(lift(w) == 0, lift(dy) == 0), 'radius 0: only the centre')
        return
    w, dy = lift(w), lift(dy)
    r, R = ctx.ghost['r'], ctx.ghost['R']
    ctx.prove(z3.Not(liftb(again)), 'no row is visited twice')
    ctx.prove(z3.And(w >= 0, w <= r, dy >= 0, dy <= r), 'inside the quarter box')
    ctx.prove(energy(ctx, w, dy, R) <= z3.If(w >= dy, w, dy) - 1, 'the half width lies in the disc')
    ctx.prove(energy(ctx, w + 1, dy, R) > z3.If(w + 1 >= dy, w + 1, dy) - 1, 'one more pixel would lie outside the disc')


def p_disc(ctx):
    """lemma: a row of the disc is an interval that starts at the centre column"""
    r, R = start(ctx)
    a, b = z3.Ints('a b')
    ctx.fact(z3.And(a >= 0, b >= 0))
    m = lambda u: z3.If(u >= b, u, b)
    ctx.prove(z3.Implies(energy(ctx, a + 1, b, R) <= m(a + 1) - 1, energy(ctx, a, b, R) <= m(a) - 1), 'rows of the disc have no gap')


# ---- the ellipse walk --------------------------------------------------------

def _epoint(x, y, lx, ly, n):
    pass


def ellipsewalk(b, a):
    n = lx = 0
    ly = b
    for v in P.iterellipsepart(b, a):
        _epoint(v[0], v[1], lx, ly, n)
        lx = v[0]
        ly = v[1]
        n += 1
    return lx, ly


class Ell:
    """ellipse with half axes a (horizontal) and b (vertical), both at least 1"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.a, self.b = z3.Ints('a b')
        ctx.fact(z3.And(self.a >= 1, self.b >= 1))
        self.A, self.B = ctx.mul(self.a, self.a), ctx.mul(self.b, self.b)
        self.C = lift(ctx.mul(self.A, self.B))
        ctx.pos(self.a - 1, self.a + 1)
        ctx.pos(self.b - 1, self.b + 1)
        ctx.pos(self.A - 1, self.b - 1)

    def f(self, x, y, lin_x=0, lin_y=0):
        """b*b*(x*x + lin_x*x) + a*a*(y*y + lin_y*y)"""
        m = self.ctx.mul
        x, y = unlift(lift(x)), unlift(lift(y))
        return lift(m(self.B, unlift(lift(m(x, x)) + lin_x * lift(x)))) + lift(m(self.A, unlift(lift(m(y, y)) + lin_y * lift(y))))

    def facts(self, col, row):
        ctx = self.ctx
        pos = ctx.pos
        m = lambda u, v: lift(ctx.mul(unlift(lift(u)), unlift(lift(v))))
        pos(col - self.a, col + self.a)
        pos(self.a - col, self.a + col)
        pos(self.B, m(col, col) - self.A)
        pos(self.B, self.A - m(col, col))
        pos(row, -row)
        pos(self.A, m(row, row) - row)
        pos(self.A, m(row, row))
        pos(row - 1, row - 1)
        pos(1 - row, 1 - row)
        pos(self.A, m(row - 1, row - 1))
        pos(self.A, row - 1)
        pos(self.A, row)
        pos(self.A, -row)
        pos(self.A, row - m(row, row))
        pos(self.A - 1, row - 1)
        pos(self.B, col)
        pos(self.B, -col)
        pos(self.B, col - 1)

    def outward(self, x, y):
        """one pixel further out lies on or outside the ellipse"""
        return z3.Or(self.f(x + 1, y) >= self.C, self.f(x, y + 1) >= self.C)

    def inward(self, x, y):
        """the pixel, or one pixel further in, lies on or inside the ellipse"""
        return z3.Or(self.f(x, y) <= self.C, z3.And(x >= 1, self.f(x - 1, y) <= self.C), z3.And(y >= 1, self.f(x, y - 1) <= self.C))


class EllSpec(LoopSpec):
    def __init__(self, e, part):
        self.e, self.part = e, part

    def inv(self, L, k):
        ctx, e = L.ctx, self.e
        v = frame_with(ctx, 'row', 'col', 'd', 'a_sqr', 'b_sqr')
        h = frame_with(ctx, 'lx', 'ly', 'n')
        if v is None or h is None:
            return []
        k = lift(k)
        row, col, d = split(ctx, v['row']), split(ctx, v['col']), lift(v['d'])
        lx, ly, n = lift(h['lx']), lift(h['ly']), lift(h['n'])
        A, B, C, m = lift(e.A), lift(e.B), e.C, lambda u, w: lift(ctx.mul(unlift(lift(u)), unlift(lift(w))))
        e.facts(col, row)
        out = [z3.And(col >= 0, lx >= 0, lx <= e.a, ly >= 0, ly <= e.b, n >= k)]
        near = z3.And(col - lx >= 0, col - lx <= 1, ly - row >= 0, ly - row <= 1)
        low = 2 * e.f(col, row, 0, 1) + A >= 2 * C
        if self.part == 0:
            out += [d == 2 * m(A, m(row, row) - row) + A + 2 * m(B, m(col + 1, col + 1)) - 2 * C,
                    z3.And(col == k, n == k, col <= e.a, row >= 0, row <= e.b), z3.Implies(k == 0, row == e.b),
                    low, z3.Or(2 * e.f(col, row, 0, -1) + A < 2 * C, z3.And(col >= 1, 2 * e.f(col - 1, row, 0, 1) + A < 2 * C)), near]
        elif self.part == 1:
            out += [d == 2 * m(B, m(col, col) + col) + B + 2 * m(A, m(row - 1, row - 1)) - 2 * C,
                    z3.And(col >= 1, col <= e.a, row >= -1, row <= e.b, n >= 1), m(A, row) <= m(B, col),
                    z3.Implies(k > 0, m(A, row + 1) <= m(B, col)),
                    z3.Implies(k == 0, low),
                    z3.Implies(z3.And(k > 0, row >= 0), z3.Or(e.f(col + 1, row) >= C, e.f(col, row + 1) >= C)),
                    z3.Implies(row >= 0, e.f(col - 1, row) <= C),
                    near, z3.Implies(row < 0, z3.And(ly == 0, z3.Or(e.f(lx + 1, 0) >= C, e.f(lx, 1) >= C)))]
        else:
            e.facts(lx, lift(0))
            ctx.pos(col - lx, col + lx)
            ctx.pos(B, m(col, col) - m(lx, lx))
            out += [z3.And(col - lx >= 0, col - lx <= 1, ly == 0, row == -1, n >= 1), z3.Or(e.f(lx + 1, 0) >= C, e.f(lx, 1) >= C), col >= 1]
        return out


def p_ellipse(ctx):
    e = Ell(ctx)
    ctx.ghost['ell'] = e
    base = []
    ctx.specs.append(lambda L: EllSpec(e, L.ordinal))
    lx, ly = ctx.call(ellipsewalk, [e.b, e.a])
    ctx.prove(z3.And(lift(lx) == e.a, lift(ly) == 0), 'the walk ends at the tip of the horizontal axis')


def c_epoint(ctx, x, y, lx, ly, n):
    e = ctx.ghost['ell']
    x, y, lx, ly, n = (lift(t) for t in (x, y, lx, ly, n))
    e.facts(x, y)
    e.facts(lx, ly)
    pos = ctx.pos
    pos(x - lx, x + lx)
    dx = lift(ctx.mul(unlift(x), unlift(x))) - lift(ctx.mul(unlift(lx), unlift(lx)))
    pos(e.B, dx)
    pos(e.B, x - lx)
    ctx.prove(z3.And(x >= 0, x <= e.a, y >= 0, y <= e.b), 'the point lies in the quarter box of the axes')
    ctx.prove(z3.Implies(n == 0, z3.And(x == 0, y == e.b)), 'the walk starts at the tip of the vertical axis')
    ctx.prove(z3.And(x - lx >= 0, x - lx <= 1, ly - y >= 0, ly - y <= 1), 'each point is a neighbour of the one before, further right or down')
    ctx.prove(e.outward(x, y), 'one pixel further out is not inside the ellipse')
    ctx.prove(e.inward(x, y), 'one pixel further in is not outside the ellipse')


class FlatSpec(LoopSpec):
    """one half axis is 0: the walk runs along the other one"""
    def __init__(self, e, vertical):
        self.e, self.vertical = e, vertical

    def inv(self, L, k):
        v = frame_with(L.ctx, 'row', 'col', 'd')
        h = frame_with(L.ctx, 'lx', 'ly', 'n')
        if v is None or h is None:
            return []
        row, col, lx, ly, n, k = (lift(t) for t in (v['row'], v['col'], h['lx'], h['ly'], h['n'], k))
        a, b = self.e
        # the parts of the walk that are empty or end at once on the given axis need no invariant
        if self.vertical and L.ordinal == 0:
            return [col == 0, lift(v['d']) >= 0, row == b - k, n == k, lx == 0, ly == z3.If(k == 0, b, b - k + 1), row >= -1]
        return [row == -1, col == k, n == k + b + 1, lx == z3.If(k == 0, 0, k - 1), ly == 0, col <= a + 1]


def p_flat(zero):
    def run(ctx):
        t = z3.Int('t')
        ctx.fact(t >= 0)
        ctx.pos(t, t)
        a, b = (0, t) if zero == 'a' else (t, 0)
        ctx.ghost['flat'] = a, b
        ctx.specs.append(lambda L: FlatSpec((lift(a), lift(b)), zero == 'a'))
        lx, ly = ctx.call(ellipsewalk, [b, a])
        ctx.prove(z3.And(lift(lx) == lift(a), lift(ly) == 0), 'the walk ends at the tip of the horizontal axis')
    return run


def c_epoint_any(ctx, x, y, lx, ly, n):
    if 'ell' in ctx.ghost:
        return c_epoint(ctx, x, y, lx, ly, n)
    a, b = map(lift, ctx.ghost['flat'])
    x, y, lx, ly, n = (lift(t) for t in (x, y, lx, ly, n))
    ctx.prove(z3.And(x >= 0, x <= a, y >= 0, y <= b), 'the point lies on the axis')
    ctx.prove(z3.Implies(n == 0, z3.And(x == 0, y == b)), 'the walk starts at the tip of the vertical axis')
    ctx.prove(z3.And(x - lx >= 0, x - lx <= 1, ly - y >= 0, ly - y <= 1), 'each point is a neighbour of the one before, further right or down')


# ---- drawing ---------------------------------------------------------------

Bo = z3.BoolSort()


class Walk:
    """the points of a walk in the first quadrant by number: at(k); visited(a,b,k): (a,b) is one of the first k; width(b,k): the largest a among the
    first k points (a,b), -1 if there is none"""
    def __init__(self, ctx, name, args, maxx, maxy):
        self.ctx, self.maxx, self.maxy = ctx, maxx, maxy
        self.args = [lift(t) for t in args]
        n = len(args)
        f = lambda nm, *sorts: z3.Function(f'{name}.{nm}', *[I] * n, *sorts)
        self.X, self.Y, self.V, self.Wd, self.N = f('x', I, I), f('y', I, I), f('visited', I, I, I, Bo), f('width', I, I, I), f('n', I)
        self.n = self.N(*self.args)
        self.key = (name, *[t.get_id() for t in self.args])
        ctx.keep.append(self.args)
        ctx.fact_once((*self.key, 'n'), self.n >= 0)

    def at(self, k):
        k = lift(k)
        x, y = self.X(*self.args, k), self.Y(*self.args, k)
        self.ctx.keep.append(k)
        self.ctx.fact_once((*self.key, 'at', k.get_id()), z3.Implies(z3.And(k >= 0, k < self.n), z3.And(x >= 0, x <= self.maxx, y >= 0, y <= self.maxy)))
        return x, y

    def visited(self, a, b, k):
        a, b, k = lift(a), lift(b), lift(k)
        t = self.V(*self.args, a, b, k)
        x, y = self.at(k - 1)
        self.ctx.keep.append((a, b, k))
        self.ctx.fact_once((*self.key, 'v', a.get_id(), b.get_id(), k.get_id()), t == z3.And(k > 0, z3.Or(self.V(*self.args, a, b, k - 1), z3.And(x == a, y == b))))
        return t

    def width(self, b, k):
        b, k = lift(b), lift(k)
        t, p = self.Wd(*self.args, b, k), self.Wd(*self.args, b, k - 1)
        x, y = self.at(k - 1)
        self.ctx.keep.append((b, k))
        self.ctx.fact_once((*self.key, 'w', b.get_id(), k.get_id()), t == z3.If(k <= 0, -1, z3.If(z3.And(y == b, x > p), x, p)))
        self.ctx.fact_once((*self.key, 'w0', b.get_id(), k.get_id()), z3.And(t >= -1, p >= -1))
        return t


def walk_contract(name, maxx, maxy):
    def contract(ctx, *args):
        W = walk_of(ctx, name, *args)
        return SeqObj(unlift(W.n), lambda k: tuple(unlift(v) for v in W.at(k)))
    contract.__doc__ = (f'requires axes of at least 0; yields the points of the {name} walk, each within the quarter box     (proved: C14, with the positions of the points: '
                        'the pixels nearest to the curve)')
    return contract


def walk_of(ctx, name, *args):
    W = Walk(ctx, name, args, *((args[0], args[0]) if len(args) == 1 else (args[1], args[0])))
    if name != 'ellipse':
        ctx.fact_once((*W.key, 'empty'), z3.Implies(lift(args[0]) < 0, W.n == 0))
    return W


def reflected(W, x, y, filled):
    def at(k):
        def pred(px, py):
            dx, dy = z3.If(px >= x, px - x, x - px), z3.If(py >= y, py - y, y - py)
            return dx <= W.width(dy, k) if filled else W.visited(dx, dy, k)
        return pred
    return at


class RoundSpec(LoopSpec):
    """after k points of the walk their four reflections (the spans between them) are coloured"""
    def __init__(self, b, color, form):
        self.b, self.color, self.form = b, color, form

    def arr(self, L, a, k):
        if a.bmp is not self.b:
            return None
        return ArrSpec(view=coloured(L.ctx, self.b, L.entry(a), self.form(lift(k)), self.color))


def p_round(bits, f, name, filled, args):
    def form(ctx, S):
        W = walk_of(ctx, name, *[S[n] for n in args])
        return W, reflected(W, S['x'], S['y'], filled)

    def pred(ctx, b, **S):
        W, at = form(ctx, S)
        return at(W.n)

    def pre(b, **S):
        return [S[n] >= 0 for n in args] if name == 'ellipse' else []

    def spec(ctx, b, L, c, S):
        return RoundSpec(b, c, form(ctx, S)[1])
    return p_shape(bits, f, ('x', 'y', *args), pred, spec, pre)


REGR = {**REGL, **{(m, n): walk_contract(w, *(('r', 'r') if n.startswith('itercircle') else ('a', 'b')))
                   for m in (PRIM,) for n, w in (('itercirclepart', 'circle'), ('itercirclepartlineedge', 'disc'), ('iterellipsepart', 'ellipse'))}}
C14REG = {('props.c14', '_cpoint'): c_cpoint, ('props.c14', '_edge'): c_edge, ('props.c14', '_epoint'): c_epoint_any}


# ---- concrete oracle --------------------------------------------------------

def outline(r):
    """closed form: the larger coordinate is the exact one rounded"""
    s = set()
    for a in range(r + 1):
        for b in range(r + 1):
            m, e = max(a, b), a * a + b * b - r * r
            if -m <= e <= max(m - 1, 0):
                s.add((a, b))
    return s


def disc(r):
    return {(a, b) for a in range(r + 1) for b in range(r + 1) if a * a + b * b - r * r <= max(max(a, b) - 1, 0)}


def reflect(s, x, y):
    return {(x + i * a, y + j * b) for a, b in s for i in (1, -1) for j in (1, -1)}


def check_ellipse(q, b, a, what, inputs):
    """q: the points of the first quadrant"""
    if q[0] != (0, b) or q[-1] != (a, 0):
        raise Violation(f'{what}: the outline runs from {q[0]} to {q[-1]}, the tips are {(0, b)} and {(a, 0)}', inputs)
    for p, n in zip(q, q[1:]):
        if not (0 <= n[0] - p[0] <= 1 and 0 <= p[1] - n[1] <= 1):
            raise Violation(f'{what}: {n} follows {p}', inputs)
    f = lambda x, y: b * b * x * x + a * a * y * y - a * a * b * b
    for x, y in q:
        if not (0 <= x <= a and 0 <= y <= b):
            raise Violation(f'{what}: point {(x, y)} leaves the bounding box', inputs)
        if a and b:
            if not (f(x + 1, y) >= 0 or f(x, y + 1) >= 0) or not (f(x, y) <= 0 or x and f(x - 1, y) <= 0 or y and f(x, y - 1) <= 0):
                raise Violation(f'{what}: point {(x, y)} is more than one pixel away from the ellipse', inputs)


def conc_walks(r):
    inputs = dict(r=r)
    o = must(call(lambda: [tuple(v) for v in P.itercirclepart(r)]), 'itercirclepart', inputs)
    exp = outline(r)
    if set(o) != exp:
        d = sorted(set(o) ^ exp)[0]
        raise Violation(f'itercirclepart({r}): point {d} {"does not belong to the outline" if d in o else "is missing"}', inputs)
    e = must(call(lambda: [tuple(v) for v in P.itercirclepartlineedge(r)]), 'itercirclepartlineedge', inputs)
    D = disc(r)
    got = {}
    for w, dy in e:
        if dy in got:
            raise Violation(f'itercirclepartlineedge({r}): row {dy} visited twice', inputs)
        got[dy] = w
    exp = {}
    for a, b in D:
        exp[b] = max(exp.get(b, -1), a)
    if got != exp:
        raise Violation(f'itercirclepartlineedge({r}): half widths {sorted(got.items())}, the disc has {sorted(exp.items())}', inputs)


def conc_ewalk(b, a):
    inputs = dict(b=b, a=a)
    n = []

    def run():
        for v in P.iterellipsepart(b, a):
            n.append(tuple(v))
            if len(n) > 10 * (a + b) + 20:
                raise RuntimeError('the walk does not end')
    must(call(run), 'iterellipsepart', inputs)
    check_ellipse(n, b, a, f'ellipse walk b={b} a={a}', inputs)
    return n


def spans(s):
    """filled form: every row from its left-most to its right-most pixel"""
    rows = {}
    for x, y in s:
        l, h = rows.get(y, (x, x))
        rows[y] = min(l, x), max(h, x)
    return rows


def conc_round(b0, c, x, y, r, e):
    w, h, bits = geom(b0)
    for what, fn, args, out in ((f'circle r={r}', 'circle', (x, y, r), reflect(outline(r), x, y)), (f'ellipse b={e[0]} a={e[1]}', 'ellipse', (x, y, *e), None)):
        inputs = dict(bmp=desc(b0), x=x, y=y, r=r, axes=e, color=c)
        what = f'{what} at {(x, y)} on {w}x{h} at {bits} bits'
        if out is None:
            out = reflect(conc_ewalk(*e), x, y)
        forms = [(fn, (*args, c)), (fn, (*args, c, False))]
        if fn == 'circle':
            forms.append(('circlevec', ((x, y), r, c)))
        for f, a in forms:
            b = b0[:]
            must(call(getattr(B, f), b, *a), f, inputs)
            painted(b, b0, c, f'{f}: {what}', inputs, clip(out, w, h))
        rows = spans(reflect(disc(r), x, y) if fn == 'circle' else out)
        full = {(i, j) for j, (l, u) in rows.items() if 0 <= j < h for i in range(max(l, 0), min(u, w - 1) + 1)}
        for f, a in (('filled' + fn, (*args, c)), (fn, (*args, c, True))):
            b = b0[:]
            must(call(getattr(B, f), b, *a), f, inputs)
            if bits != 4:
                painted(b, b0, c, f'{f}: filled {what}', inputs, full)
            else:
                # known finding of C04: 4-bit spans with partial bytes
                got = painted(b, b0, c, f'{f}: filled {what}', inputs)
                wide = full | {(i - i % 2, j) for i, j in full}
                inner = {(i, j) for j, (l, u) in rows.items() if 0 <= j < h for i in range(max(l, 0) + max(l, 0) % 2, min(u, w - 1) - 1)}
                if got - wide or inner - got:
                    d = sorted((got - wide) | (inner - got))[0]
                    raise Violation(f'{f}: filled {what}: pixel {d} is {"coloured although it lies outside" if d in got else "not coloured"}', inputs)


def b_round(X):
    g = X.rng
    for r in range(0, 90):
        conc_walks(r)
        X.case(('walk', r))
    for a in range(0, 26):
        for b in range(0, 26):
            conc_ewalk(b, a)
            X.case(('ewalk', a, b))
    for bits in BITS:
        for r in range(0, 9):
            c = g.randrange(1 << bits)
            conc_round(canvas(23, 21, bits, g, c), c, 11, 10, r, (r, (r * 7) % 11))
            X.case(('full', bits, r))
    while X.more():
        bits = g.choice(BITS)
        w, h = dims(g, 0, 20)
        c = g.randrange(1 << bits)
        b0 = canvas(w, h, bits, g, c)
        for _ in range(4):
            x, y = (g.randrange(w), g.randrange(h)) if g.random() < .6 else (g.randint(-25, w + 25), g.randint(-25, h + 25))
            r, e = g.choice((0, 1, 2, g.randint(0, 12), g.randint(0, 40))), (g.randint(0, 12), g.choice((0, 1, g.randint(0, 12), g.randint(0, 40))))
            conc_round(b0, c, x, y, r, e)
            X.case((bits, w, h, x, y, r, e), f'{bits} bit {w}x{h} centre {(x, y)} r={r} axes {e}')
    for _ in range(2):
        conc_walks(g.randint(90, 400))
        conc_ewalk(g.randint(0, 500), g.randint(0, 500))


def inputs_of(*names):
    def f(ctx, m):
        return {n: m.eval(z3.Int(n), model_completion=True).as_long() for n in names}
    return f


def replay_r(i):
    if i['r'] < 3000:
        conc_walks(i['r']) if i['r'] < 300 else None


def replay_e(i):
    for a, b in ((i['a'], i['b']), (i['b'], i['a'])):
        if max(a, b) < 5000:
            conc_ewalk(b, a)


def replay_round(i):
    b, c = i['bmp'], i['color']
    if max(abs(i[k]) for k in ('x', 'y', 'r', 'ea', 'eb')) < 2000 and min(i['r'], i['ea'], i['eb']) >= 0:
        conc_round(canvas(*geom(b), random.Random(7), c), c, i['x'], i['y'], i['r'], (i['eb'], i['ea']))


PROOFS = [Proof('circle walk, radius of at least 1', ['primitives2D.itercirclepart'], p_circlewalk, inputs=inputs_of('r'), replay=replay_r, registry=C14REG, inline_modules=('props.c14',)),
          Proof('circle walk, radius 0', ['primitives2D.itercirclepart'], p_circle0, registry=C14REG, inline_modules=('props.c14',)),
          Proof('disc rows, radius of at least 1', ['primitives2D.itercirclepartlineedge'], p_edgewalk, inputs=inputs_of('r'), replay=replay_r, registry=C14REG, inline_modules=('props.c14',)),
          Proof('disc rows, radius 0', ['primitives2D.itercirclepartlineedge'], p_edge0, registry=C14REG, inline_modules=('props.c14',)),
          Proof('disc rows are intervals', [], p_disc),
          Proof('ellipse walk', ['primitives2D.iterellipsepart'], p_ellipse, inputs=inputs_of('a', 'b'), replay=replay_e, registry=C14REG, inline_modules=('props.c14',), budget=200)]
_in = bmp_inputs(None, **{n: z3.Int(n) for n in ('x', 'y', 'r', 'ea', 'eb', 'color')})
for _z in 'ab':
    PROOFS.append(Proof(f'ellipse walk, {_z} = 0', ['primitives2D.iterellipsepart'], p_flat(_z), registry=C14REG, inline_modules=('props.c14',)))
for _b in BITS:
    PROOFS.append(Proof(f'circle, {_b} bit', ['BITMAPlib.circle', 'primitives2D.itercircle'], p_round(_b, B.circle, 'circle', False, ('r',)), registry=REGR, inputs=_in, replay=replay_round, hints=small))
    PROOFS.append(Proof(f'ellipse, {_b} bit', ['BITMAPlib.ellipse', 'primitives2D.iterellipse'], p_round(_b, B.ellipse, 'ellipse', False, ('eb', 'ea')), registry=REGR, inputs=_in, replay=replay_round, hints=small))
    if _b != 4:
        PROOFS.append(Proof(f'filledcircle, {_b} bit', ['BITMAPlib.filledcircle'], p_round(_b, B.filledcircle, 'disc', True, ('r',)), registry=REGR, inputs=_in, replay=replay_round, hints=small))
        PROOFS.append(Proof(f'filledellipse, {_b} bit', ['BITMAPlib.filledellipse'], p_round(_b, B.filledellipse, 'ellipse', True, ('eb', 'ea')), registry=REGR, inputs=_in, replay=replay_round, hints=small))
BOUNDED = [Bounded('circles and ellipses, concrete', b_round, 'walks: all radii below 90 and axes below 26, some up to 500; drawings: images of all depths up to 40 pixels a side, '
                   'centres up to 25 pixels outside, radii and axes up to 40', ['BITMAPlib.circle', 'BITMAPlib.circlevec', 'BITMAPlib.filledcircle', 'BITMAPlib.ellipse',
                   'BITMAPlib.filledellipse'], quick=20)]
ASSUMPTIONS = ['half axes and radii are at least 0 (a negative radius draws nothing)', 'filled circles and ellipses at 4 bits: bounded check only, up to the known finding of C04 on 4-bit spans',
               'a pixel counts as within one pixel of the ellipse when the curve separates it, or its inner neighbour in its row or column, from its outer neighbour in its row or column',
               'mathematical (unbounded) integers are those of Python: no machine arithmetic is idealised']
