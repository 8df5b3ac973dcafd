"""C23: operations on a circular region leave everything outside the circle alone."""
import random
from .common import *
from .contracts import *
from .c14 import disc, outline, CircleSpec, energy, start, inputs_of, split, PRIM, P
from . import c19
from pyvc.engine import REM
PROPERTY = 'C23'


# ---- concrete oracle --------------------------------------------------------

class Circle:
    """the circle's rows: row(dy) is the half width; col(dx): half height of the columns the vertical walk covers (at least)"""
    def __init__(self, r):
        self.row, self.col = {}, {}
        for a, b in disc(r):
            self.row[b] = max(self.row.get(b, 0), a)
        for a, b in outline(r):
            self.col[a] = min(self.col.get(a, b), b)
        self.r = r


_circles = {}


def circle(r):
    if r not in _circles:
        _circles[r] = Circle(r)
    return _circles[r]


def extent(C, x, y, w, h, bits):
    """pixels that may change: the rows and chords, at 1 and 4 bits in whole bytes"""
    n = 8 // bits if bits < 8 else 1
    s = set()
    for dy, a in C.row.items():
        l, u = (x - a) // n * n, (x + a) // n * n + n - 1
        for j in {y - dy, y + dy}:
            if 0 <= j < h:
                s.update((i, j) for i in range(max(l, 0), min(u, w - 1) + 1))
    return s


def framed(b, b0, C, x, y, what, inputs):
    w, h, bits = geom(b0)
    e = wf(b, w, h, bits)
    if e:
        raise Violation(f'{what}: the result is not a well-formed bitmap of the same geometry: {e}', inputs)
    if b[:HDR[bits]] != b0[:HDR[bits]]:
        raise Violation(f'{what}: the header or the palette changed', inputs)
    ok = extent(C, x, y, w, h, bits)
    g, g0 = grid(b), grid(b0)
    for j in range(h):
        for i in range(w):
            if g[j][i] != g0[j][i] and (i, j) not in ok:
                raise Violation(f'{what}: pixel {(i, j)} outside the circle changed from {g0[j][i]} to {g[j][i]}', inputs)
    R = rowb(w, bits)
    if w * bits % 8 == 0 and bits >= 8:
        for j in range(h):
            o = HDR[bits] + j * R
            if b[o + w * bits // 8: o + R] != b0[o + w * bits // 8: o + R]:
                raise Violation(f'{what}: row padding changed', inputs)
    return g0, g


def rows_of(C, x, y, bits):
    """pixels surely treated by a row-wise operation: each row without its right-most pixel (at 1 and 4 bits whole bytes)"""
    n = 8 // bits if bits < 8 else 1
    for dy, a in C.row.items():
        for j in {y - dy, y + dy}:
            for i in range(x - a, (x + a) // n * n):
                yield i, j


def cols_of(C, x, y):
    for dx, a in C.col.items():
        for i in {x - dx, x + dx}:
            for j in range(y - a, y + a + 1):
                yield i, j


FLIPS = {'flipvertcircregion': (lambda i, j, x, y: (i, 2 * y - j), BITS), 'fliphoricircregion': (lambda i, j, x, y: (2 * x - i, j), (8, 24)),
         'flipXYcircregion': (lambda i, j, x, y: (x + j - y, y + i - x), (1, 4))}
MIRRORS = {'mirrortopincircregion': 'T', 'mirrorbottomincircregion': 'B', 'mirrorleftincircregion': 'L', 'mirrorrightincircregion': 'R',
           'mirrortopleftincircregion': 'TL', 'mirrortoprightincircregion': 'TR', 'mirrorbottomleftincircregion': 'BL', 'mirrorbottomrightincircregion': 'BR'}
FILTERS = {'monocircle': 'mono', 'colorfiltercircregion': 'color', 'gammacorrectcircregion': 'gamma', 'brightnessadjcircregion': 'bright', 'thresholdadjcircregion': 'threshold'}
FRAMED = {'outlinecircregion': (BITS, lambda g: ()), 'vertbrightnessgrad2circregion': ((24,), lambda g: ([g.randint(-100, 100), g.randint(-100, 100)],)),
          'horibrightnessgrad2circregion': ((24,), lambda g: ([g.randint(-100, 100), g.randint(-100, 100)],)),
          'magnifyNtimescircregion': ((24,), lambda g: (g.randint(1, 4),)), 'pixelizenxncircregion': ((24,), lambda g: (g.randint(1, 4),))}

CLIPPED = {'outlinecircregion', 'invertbitsincircregion', *FILTERS}


def src(mode, i, j, x, y):
    """pixel that ends up at (i, j)"""
    if 'T' in mode and j > y or 'B' in mode and j < y:
        j = 2 * y - j
    if 'L' in mode and i > x or 'R' in mode and i < x:
        i = 2 * x - i
    return i, j


def turned(do, b0, x, y, r, bits):
    """known finding: at 8 and 24 bits flipXYcircregion turns the region by a quarter turn; its exact effect is still checked"""
    b, what, inputs, g0, g1 = do('flipXYcircregion')
    for dy, a in circle(r).row.items():
        for d in {-dy, dy}:
            for i in range(-a, a + 1):
                if g1[y + d][x + i] != g0[y - i][x + d]:
                    raise Violation(f'{what}: pixel {(x + i, y + d)} is {g1[y + d][x + i]}, expected {g0[y - i][x + d]}', inputs)
    must(call(B.flipXYcircregion, b, x, y, r), what, inputs)
    return b != b0


def conc(b0, x, y, r, g, known=None):
    w, h, bits = geom(b0)
    C = circle(r)
    inside = x - r >= 0 and x + r < w and y - r >= 0 and y + r < h

    def do(name, *args):
        inputs = dict(bmp=desc(b0), op=name, x=x, y=y, r=r, args=args)
        b = b0[:]
        what = f'{name}({x}, {y}, {r}{"".join(f", {a}" for a in args)}) on a {w}x{h} image at {bits} bits'
        must(call(getattr(B, name), b, x, y, r, *args), what, inputs)
        return (b, what, inputs, *framed(b, b0, C, x, y, what, inputs))

    def expect(got, exp, p, what, inputs):
        if got != exp:
            raise Violation(f'{what}: pixel {p} is {got}, expected {exp}', inputs)
    if inside:
        for name, (f, depths) in FLIPS.items():
            if bits in depths:
                b, what, inputs, g0, g1 = do(name)
                for i, j in (cols_of(C, x, y) if name[4] == 'h' else rows_of(C, x, y, bits)):
                    k, l = f(i, j, x, y)
                    expect(g1[j][i], g0[l][k], (i, j), what, inputs)
                must(call(getattr(B, name), b, x, y, r), what, inputs)
                if b != b0:
                    raise Violation(f'{what}: doing it twice does not give back the image', inputs)
        if bits >= 8 and turned(do, b0, x, y, r, bits) and known is not None:
            known.append(1)
        for name, mode in MIRRORS.items():
            if bits < 8 and set(mode) & set('LR'):
                continue
            b, what, inputs, g0, g1 = do(name)
            both = set(mode) & set('LR') and set(mode) & set('TB')
            m = set(rows_of(C, x, y, bits)) if not set(mode) & set('LR') else set(cols_of(C, x, y))
            for i, j in extent(C, x, y, w, h, bits):
                k, l = src(mode, i, j, x, y)
                if (k, l) == (i, j):
                    expect(g1[j][i], g0[j][i], (i, j), f'{what}: the source half is kept', inputs)
                elif (i, j) in m and (not both or g0 and {(k, j), (i, l)} <= set(rows_of(C, x, y, bits)) and (i, l) in m):
                    expect(g1[j][i], g0[l][k], (i, j), what, inputs)
        # copy and paste
        nx, ny = g.randint(r, w - 1 - r), g.randint(r, h - 1 - r)
        inputs = dict(bmp=desc(b0), op='copycircregion', x=x, y=y, r=r, args=(nx, ny))
        what = f'copycircregion({x}, {y}, {r}, {(nx, ny)}) on a {w}x{h} image at {bits} bits'
        for direct in (True, False):
            b = b0[:]
            if direct:
                must(call(B.copycircregion, b, x, y, r, (nx, ny)), what, inputs)
            else:
                buf = must(call(B.copycircregion2buf, b, x, y, r), what, inputs)
                if b != b0:
                    raise Violation(f'{what}: copying changed the image', inputs)
                must(call(B.pastecirularbuf, b, nx, ny, buf), what, inputs)
            g0, g1 = framed(b, b0, C, nx, ny, what, inputs)
            for dy, a in C.row.items():
                for d in {-dy, dy}:
                    for i in range(-a, a):
                        expect(g1[ny + d][nx + i], g0[y + d][x + i], (nx + i, ny + d), what, inputs)
        # a place where it does not fit
        nx, ny = g.choice(((g.choice((r - 1, w - r, g.randint(-3, w + 3))), g.randint(-3, h + 3)), (g.randint(-3, w + 3), g.choice((r - 1, h - r, g.randint(-3, h + 3)))), (g.randint(r, w - 1 - r), h - r), (w - r, g.randint(r, h - 1 - r))))
        if not (nx - r >= 0 and nx + r < w and ny - r >= 0 and ny + r < h):
            b = b0[:]
            inputs = dict(bmp=desc(b0), op='copycircregion', x=x, y=y, r=r, args=(nx, ny))
            must(call(B.copycircregion, b, x, y, r, (nx, ny)), 'copycircregion', inputs)
            must(call(B.pastecirularbuf, b, nx, ny, call(B.copycircregion2buf, b0, x, y, r)[1]), 'pastecirularbuf', inputs)
            if b != b0:
                raise Violation(f'pasting the circular region {(x, y, r)} at {(nx, ny)}, where it is not inside the {w}x{h} image at {bits} bits, changed the image', inputs)
        n = g.randint(1, 4)
        b, what, inputs, g0, g1 = do('eraseeverynthhorizontallineinccircregion', n)
        for i, j in rows_of(C, x, y, bits):
            if bits >= 8 or i >= (x - C.row[abs(j - y)]):
                expect(g1[j][i], 0 if j % n == 0 else g0[j][i], (i, j), what, inputs)
        m, pat = g.randrange(n), g.randrange(256)
        b, what, inputs, g0, g1 = do('erasealternatehorizontallinesincircregion', n, m, pat)
        for i, j in rows_of(C, x, y, bits):
            if bits >= 8 or i >= (x - C.row[abs(j - y)]):
                p = pat if bits == 8 else pat * 65793 if bits == 24 else pat >> (4 * (1 - i % 2)) & 15 if bits == 4 else pat >> (7 - i % 8) & 1
                expect(g1[j][i], p if j % n == m else g0[j][i], (i, j), what, inputs)
    for name, (depths, args) in FRAMED.items():
        if bits in depths and (inside or name in CLIPPED):
            a = args(g)
            if name[0] == 'p':
                a = (min(a[0], w, h),)
            do(name, *a)
    b, what, inputs, g0, g1 = do('invertbitsincircregion')
    if inside:
        for i, j in rows_of(C, x, y, bits):
            expect(g1[j][i], (1 << bits) - 1 - g0[j][i], (i, j), what, inputs)
    if bits == 24:
        for name, kind in FILTERS.items():
            par = c19.params(g, kind)
            b, what, inputs, g0, g1 = do(name, *(() if par is None else (par,)))
            if inside:
                ign = {(x + a - 1, y + s * dy) for dy, a in C.row.items() for s in (1, -1)} if kind == 'color' else ()
                for i, j in rows_of(C, x, y, bits):
                    bp, bq = [[v >> s & 255 for s in (0, 8, 16)] for v in (g0[j][i], g1[j][i])]
                    e = c19.formula(kind, bp, par)
                    if any(abs(u - v) > 1 for u, v in zip(bq, e)) and (i, j) not in ign:
                        raise Violation(f'{what}: pixel {(i, j)} (b, g, r) = {bp} became {bq}, the formula gives {[float(v) for v in e]}', inputs)


def b_ops(X):
    g = X.rng
    known = []
    for bits in BITS:
        for r in range(0, 11):
            b0 = mkbmp(27, 25, bits, g)
            conc(b0, 12, 11, r, g, known)
            conc(b0, 13, 12, r, g, known)
            X.case(('all', bits, r))
    while X.more():
        bits = g.choice(BITS)
        w, h = g.randint(1, 24), g.randint(1, 24)
        b0 = mkbmp(w, h, bits, g)
        for _ in range(4):
            x, y = g.randrange(w), g.randrange(h)
            m = min(x, y, w - 1 - x, h - 1 - y)
            r = g.choice((m, g.randint(0, m), g.randint(0, m)))
            if g.random() < .25:
                x, y, r = g.randint(-5, w + 5), g.randint(-5, h + 5), g.randint(0, 9)
            conc(b0, x, y, r, g, known)
            X.case((bits, w, h, x, y, r), f'{bits} bit {w}x{h} circle {(x, y, r)}')
    if known:
        X.known.append(dict(key='flipxycircregion-quarter-turn', message='flipXYcircregion at 8 and 24 bits turns the region by a quarter turn instead of exchanging its axes: '
                            'doing it twice does not give back the image', inputs='any 8 or 24 bit image'))


# ---- the walk along the columns -----------------------------------------------

def _column(a, hh, again):
    pass


def columnwalk(r):
    seen = []
    for v in P.itercirclepartvertlineedge(r):
        _column(v[0], v[1], v[0] in seen)
        seen += [v[0]]
    return seen


class ColumnSpec(CircleSpec):
    """before round k: columns 0..k-1 and those above the row have been visited, and the row itself unless the walk has just stepped down to it"""
    def arr(self, L, a, k):
        ctx = L.ctx
        for f in ctx.frames:
            if any(x is a for x in f.vars.values()) and a.kind == 'list':
                v = frame_with(ctx, 'row', 'col', 'd', 'r_sqr')
                row, k = split(ctx, v['row']), lift(k)
                last = z3.And(k > 0, energy(ctx, k - 1, row, self.R) <= row - 1, energy(ctx, k - 1, row, self.R) >= -row)
                return ArrSpec(member=lambda u: z3.Or(z3.And(lift(u) >= 0, lift(u) < k), z3.And(lift(u) > row, lift(u) <= self.r), z3.And(last, lift(u) == row)))
        return None


def p_columnwalk(ctx):
    r, R = start(ctx)
    ctx.specs.append(lambda L: ColumnSpec(r, R, lambda L, k, row, col: []))
    seen = ctx.call(columnwalk, [r])
    q = z3.Int('q')
    ctx.fact(z3.And(q >= 0, q <= r))
    ctx.prove(liftb(ctx.contains(q, seen)), 'every column of the disc is visited')


def p_column0(ctx):
    seen = ctx.call(columnwalk, [0])
    ctx.prove(bool(ctx.contains(0, seen)), 'radius 0: the centre column is visited')


def c_column(ctx, a, hh, again):
    if 'R' not in ctx.ghost:
        ctx.prove(z3.And(lift(a) == 0, lift(hh) == 0), 'radius 0: only the centre')
        return
    a, hh = lift(a), lift(hh)
    r, R = ctx.ghost['r'], ctx.ghost['R']
    ctx.prove(z3.Not(liftb(again)), 'no column is visited twice')
    ctx.prove(z3.And(hh >= 0, hh <= r, a >= 0, a <= r), 'inside the quarter box')
    ctx.prove(energy(ctx, a, hh, R) <= z3.If(a >= hh, a, hh) - 1, 'the column end lies in the disc')


def p_below(ctx):
    """lemma: a column that ends in the disc lies in the disc"""
    r, R = start(ctx)
    a, b, c = z3.Ints('a b c')
    ctx.fact(z3.And(a >= 0, b >= 0, c >= b))
    ctx.pos(c - b, c + b)
    ctx.pos(c - a - 1, c + a)
    ctx.pos(a - b - 1, a + b)
    ctx.pos(c - b, c + b - 1)
    m = lambda u: z3.If(u >= a, u, a)
    ctx.prove(z3.Implies(energy(ctx, a, c, R) <= m(c) - 1, energy(ctx, a, b, R) <= m(b) - 1), 'columns of the disc have no gap')


# ---- contracts of the walks ----------------------------------------------------

class Edge:
    """the walk as a permutation: round k treats line D(k), which has half width W(D(k)); I is the inverse of D on 0..r"""
    def __init__(self, ctx, name, r):
        self.ctx, self.r, self.name = ctx, lift(r), name
        f = lambda nm, *so: z3.Function(f'{name}.{nm}', I, *so)
        self.D, self.I_, self.W_, self.N = f('line', I, I), f('round', I, I), f('half', I, I), f('n', I)
        self.n = self.N(self.r)
        ctx.keep.append(self.r)
        ctx.fact_once((name, 'n', self.r.get_id()), z3.And(self.n >= 0, z3.Implies(self.r >= 0, self.n >= 1)))

    def at(self, k):
        k = lift(k)
        d = self.D(self.r, k)
        self.ctx.keep.append(k)
        self.ctx.fact_once((self.name, 'at', self.r.get_id(), k.get_id()), z3.Implies(z3.And(k >= 0, k < self.n), z3.And(d >= 0, d <= self.r, self.I_(self.r, d) == k)))
        return self.half(d), d

    def half(self, d):
        d = lift(d)
        w = self.W_(self.r, d)
        self.ctx.keep.append(d)
        self.ctx.fact_once((self.name, 'half', self.r.get_id(), d.get_id()), z3.Implies(z3.And(d >= 0, d <= self.r), z3.And(w >= 0, w <= self.r)))
        return w

    def round(self, d):
        d = lift(d)
        i = self.I_(self.r, d)
        self.ctx.keep.append(d)
        self.ctx.fact_once((self.name, 'round', self.r.get_id(), d.get_id()), z3.Implies(z3.And(d >= 0, d <= self.r), z3.And(i >= 0, i < self.n, self.D(self.r, i) == d)))
        return i

    def done(self, d, k):
        """line d has been treated before round k"""
        d = lift(d)
        return z3.And(d >= 0, d <= self.r, self.round(d) < k)


def c_edge_rows(ctx, r):
    """yields (half width, row) of every row 0..r of the disc exactly once     (proved: C14)"""
    E = Edge(ctx, 'rows', r)
    return SeqObj(unlift(E.n), lambda k: tuple(E.at(k)))


def c_edge_cols(ctx, r):
    """yields (column, half height) of every column 0..r exactly once, the ends lie in the disc     (proved above, C23)"""
    E = Edge(ctx, 'columns', r)
    return SeqObj(unlift(E.n), lambda k: tuple(E.at(k)[::-1]))


def c_xorvect(ctx, u, v):
    """requires two byte arrays of the same length; ensures a list of bytes of that length     (content: C21)"""
    if not isinstance(u, Arr) or not isinstance(v, Arr):
        return NotImplemented
    ctx.prove(eqv(u.length, v.length), f'xorvect precondition: same length at {ctx.where()}', 'pre')
    return ctx.mk('list', length=u.length, view=byte_view(ctx, ctx.fresh_fun('xor')))


def c_invert(ctx, buf):
    """requires bytes; ensures a byte array with every byte complemented     (proved: C10)"""
    if not isinstance(buf, Arr):
        return NotImplemented
    v = buf.snapshot()
    return ctx.mk('B', length=buf.length, view=lambda j: unlift(255 - lift(v(j))))


def _anyfilter(buf, *par):
    pass


ROWFORM = {'monochromefiltertoBGRbuf': 'applymonochromefiltertoBGRbuf', 'colorfiltertoBGRbuf': 'applycolorfiltertoBGRbuf', 'gammaBGRbuf': 'applygammaBGRbuf',
           'applybrightnessadjtoBGRbuf': 'applybrightnessadjtoBGRbuf', 'applythresholdadjtoBGRbuf': 'applythresholdadjtoBGRbuf'}


def p_rowform(name):
    """the copying form of a row filter: the result is the filtered row, the argument is unchanged"""
    F = c19.abstract(ROWFORM[name])

    def run(ctx):
        buf, v, n = c19.rowbuf(ctx)
        r = ctx.call(getattr(c19.C, name), [buf] + ([] if name[0] == 'm' else [1]))
        ctx.prove(isinstance(r, Arr) and r.kind == 'B', 'a byte array')
        ctx.prove(eqv(r.length, 3 * n), 'same length')
        j = z3.Int('j')
        ctx.fact(z3.And(j >= 0, j < 3 * n))
        ctx.prove(lift(r.view(j)) == lift(c19.by_pixel(v, F, None)(j)), 'every pixel filtered')
    return run


def c_usefn(ctx, a, x, y, r, func, *par):
    """requires a well-formed 24 bit bitmap; ensures every chord of the circle within the image filtered by func, all else unchanged     (proved below, C23)"""
    b = pre_bmp(ctx, a, 'circular filter')
    name = ROWFORM.get(getattr(func, '__name__', ''))
    if b is None or b.bits != 24 or name is None:
        return NotImplemented
    x, y, r = lift(x), lift(y), lift(r)
    inside = ctx.decide(z3.And(x - r >= 0, x + r < lift(b.w), y - r >= 0, y + r < lift(b.h)))
    geo = Rows(ctx, b, x, y, r, not inside)
    v = v_filter(name)(geo)
    e = a.snapshot()
    a.set_view(rcview(ctx, b, e, lambda row, col, j: z3.If(geo.treated(row, col, geo.E.n), lift(v(ctx, e, row, col, j)), lift(e(j)))))


def ab(t):
    return z3.If(t >= 0, t, -t)


class Rows:
    """geometry of a circle on bitmap b: what has been treated before round k of the row walk"""
    def __init__(self, ctx, b, x, y, r, clip=False):
        self.ctx, self.b, self.x, self.y, self.r, self.clip = ctx, b, lift(x), lift(y), lift(r), clip
        self.E = Edge(ctx, 'rows', r)

    def cols(self, d):
        """byte columns from, to of row distance d"""
        w = self.E.half(d)
        l, u = self.x - w, self.x + w
        if self.clip:
            l = z3.If(l < 0, 0, l)
            u = z3.If(u > lift(self.b.w) - 1, lift(self.b.w) - 1, u)
        if self.b.bits == 24:
            return 3 * l, 3 * u
        n = 8 // self.b.bits
        return (l / n, u / n) if n > 1 else (l, u)

    def image_row(self, row):
        return lift(self.b.h) - 1 - row

    def treated(self, row, col, k):
        d = ab(self.image_row(row) - self.y)
        l, u = self.cols(d)
        return z3.And(self.E.done(d, lift(k)), col >= l, col < u)


class ChordSpec(LoopSpec):
    """bytes of treated chords are val(row, col, old byte at j, j); free: nothing is said about them"""
    def __init__(self, geo, val):
        self.g, self.val = geo, val

    def arr(self, L, a, k):
        g = self.g
        b = g.b
        if a.bmp is not b:
            return None
        ctx, e = L.ctx, L.entry(a)
        # rows of the round that comes, for the products the code builds
        if is_sym(k) and z3.is_const(k):
            w, d = g.E.at(k)
            for t in (g.y - d, g.y + d):
                ctx.register_mult(lift(b.R), lift(b.h) - 1 - t)
        if self.val is None:
            def rel(j, v):
                row, col = ctx.rc(b, j)
                return z3.Or(z3.And(lift(j) >= b.hdr, g.treated(lift(row), lift(col), k)), lift(v) == lift(e(j)))
            return ArrSpec(rel=rel, below=b.hdr)
        return ArrSpec(view=rcview(ctx, b, e, lambda row, col, j: z3.If(g.treated(row, col, k), lift(self.val(ctx, e, row, col, j)), lift(e(j)))))


def circ(ctx, b, inside=True):
    x, y, r = z3.Ints('cx cy r')
    ctx.fact(r >= 0)
    if inside:
        ctx.fact(z3.And(x - r >= 0, x + r < lift(b.w), y - r >= 0, y + r < lift(b.h)))
    return x, y, r


def pixel_frame(ctx, a, b, geo, expected=None):
    """pixels of other bytes than those of the chords are unchanged; the others are as expected (byte by byte)"""
    well_formed(ctx, a, b)
    header_frame(ctx, a, b.base, b.hdr)
    px, py = z3.Ints('px py')
    ctx.fact(b.inside(px, py))
    d = ab(py - geo.y)
    l, u = geo.cols(d)
    o = lift(b.off(ctx, px, py))
    for ch in range(3 if b.bits == 24 else 1):
        j = unlift(o + ch)
        row, col = ctx.rc(b, j)
        row, col = lift(row), lift(col)
        ins = z3.And(d <= geo.r, col >= l, col < u)
        ctx.prove(z3.Implies(z3.Not(ins), lift(a.view(j)) == lift(b.base(j))), 'pixels outside the rows and chords of the circle unchanged')
        if expected is not None:
            geo.E.round(d)
            ctx.prove(z3.Implies(ins, lift(a.view(j)) == lift(expected(ctx, b.base, row, col, j))), 'pixels inside as specified')


def p_rows(bits, fn, args=(), val=None, inside=True, clip=False):
    """val(geo) -> value function or None (only the frame is claimed)"""
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        x, y, r = circ(ctx, b, inside)
        if clip:
            clipped = True
            ctx.fact(z3.Not(z3.And(x - r >= 0, x + r < lift(b.w), y - r >= 0, y + r < lift(b.h))))
        else:
            clipped = False
        geo = Rows(ctx, b, x, y, r, clipped)
        v = val(geo) if val else None
        ctx.specs.append(lambda L: ChordSpec(geo, v))
        ctx.call(fn, [a, x, y, r, *[t(ctx) if callable(t) else t for t in args]])
        pixel_frame(ctx, a, b, geo, v)
    return run


class Cols:
    """geometry of a circle treated column by column"""
    def __init__(self, ctx, b, x, y, r):
        self.ctx, self.b, self.x, self.y, self.r = ctx, b, lift(x), lift(y), lift(r)
        self.n = 3 if b.bits == 24 else 1
        self.E = Edge(ctx, 'columns', r)

    def image_row(self, row):
        return lift(self.b.h) - 1 - row

    def column(self, col):
        return lift(unlift(col / self.n)) if self.n > 1 else col

    def within(self, row, col):
        d = ab(self.column(col) - self.x)
        return z3.And(d <= self.r, ab(self.image_row(row) - self.y) <= self.E.half(d))

    def treated(self, row, col, k):
        return z3.And(self.within(row, col), self.E.done(ab(self.column(col) - self.x), lift(k)))


class ColsSpec(ChordSpec):
    """bytes of the treated columns are val(row, col, old byte at j, j)"""
    def arr(self, L, a, k):
        g = self.g
        b = g.b
        if a.bmp is not b:
            return None
        ctx, e = L.ctx, L.entry(a)
        if is_sym(k) and z3.is_const(k):
            d, w = g.E.at(k)[::-1]
            for t in (g.y - w, g.y + w):
                ctx.register_mult(lift(b.R), lift(b.h) - 1 - t)
                ctx.register_mult(lift(b.R), t)
        if self.val is None:
            def rel(j, v):
                row, col = ctx.rc(b, j)
                return z3.Or(z3.And(lift(j) >= b.hdr, g.treated(lift(row), lift(col), k)), lift(v) == lift(e(j)))
            return ArrSpec(rel=rel, below=b.hdr)
        return ArrSpec(view=rcview(ctx, b, e, lambda row, col, j: z3.If(g.treated(row, col, k), lift(self.val(ctx, e, row, col, j)), lift(e(j)))))


def p_columns(bits, fn, takes):
    """takes(x of the column, x of the centre): the column takes the value of its mirror image"""
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x, y, r = circ(ctx, b)
        geo = Cols(ctx, b, x, y, r)

        def val(ctx, e, row, col, j):
            c = geo.column(col)
            t = takes(c, geo.x)
            m = lift(bmp_at(ctx, b, e, row, geo.n * (2 * geo.x - c) + col - geo.n * c))
            return m if t is True else z3.If(t, m, lift(e(j)))
        ctx.specs.append(lambda L: ColsSpec(geo, val))
        ctx.call(fn, [a, x, y, r])
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
        px, py = z3.Ints('px py')
        ctx.fact(b.inside(px, py))
        o = lift(b.off(ctx, px, py))
        for ch in range(geo.n):
            j = unlift(o + ch)
            row, col = [lift(t) for t in ctx.rc(b, j)]
            ins = geo.within(row, col)
            geo.E.round(ab(geo.column(col) - geo.x))
            ctx.prove(z3.Implies(z3.Not(ins), lift(a.view(j)) == lift(b.base(j))), 'pixels outside the columns of the circle unchanged')
            ctx.prove(z3.Implies(ins, lift(a.view(j)) == lift(val(ctx, b.base, row, col, j))), 'pixels of the columns mirrored as specified')
    return run


def p_columns_frame(fn, args=()):
    def run(ctx):
        a, b = sym_bmp(ctx, 24)
        ctx.ghost['b'] = b
        x, y, r = circ(ctx, b)
        geo = Cols(ctx, b, x, y, r)
        ctx.specs.append(lambda L: ColsSpec(geo, None))
        ctx.call(fn, [a, x, y, r, *[t(ctx) if callable(t) else t for t in args]])
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
        px, py = z3.Ints('px py')
        ctx.fact(b.inside(px, py))
        o = lift(b.off(ctx, px, py))
        for ch in range(3):
            j = unlift(o + ch)
            row, col = [lift(t) for t in ctx.rc(b, j)]
            geo.E.round(ab(geo.column(col) - geo.x))
            ctx.prove(z3.Implies(z3.Not(geo.within(row, col)), lift(a.view(j)) == lift(b.base(j))), 'pixels outside the columns of the circle unchanged')
    return run


def v_erase(n, m, pat):
    def val(geo):
        return lambda ctx, e, row, col, j: z3.If(REM(geo.image_row(row), n) == m, pat, lift(e(j)))
    return val


def c_larger(ctx, a, n):
    """requires a 24 bit bitmap, n >= 1; ensures a well-formed bitmap n times as wide and high     (content: C11)"""
    b = pre_bmp(ctx, a, 'resizeNtimesbigger')
    if b is None or b.bits != 24:
        return NotImplemented
    n = lift(n)
    ctx.prove(n >= 1, f'resizeNtimesbigger precondition: factor at least 1 at {ctx.where()}', 'pre')
    x, y = ctx.ghost['centre']
    for u, U in ((x, lift(b.w)), (y, lift(b.h))):
        ctx.pos(n - 1, u)
        ctx.pos(n - 1, U - 1 - u)
        ctx.pos(n - 1, U - 1)
    c, q = fresh_bmp(ctx, ctx.mul(b.w, n), ctx.mul(b.h, n), 24)
    c.set_view(byte_rest(ctx, c))
    return c


def c_blocks(ctx, a, n):
    """requires a 24 bit bitmap, n >= 1 at most its width and height; ensures a well-formed bitmap at most as wide and high     (content: C11)"""
    b = pre_bmp(ctx, a, 'pixelizenxn')
    if b is None or b.bits != 24:
        return NotImplemented
    ctx.prove(z3.And(lift(n) >= 1, lift(n) <= lift(b.w), lift(n) <= lift(b.h)), f'pixelizenxn precondition: block size at {ctx.where()}', 'pre')
    w, h = ctx.fresh('bw'), ctx.fresh('bh')
    ctx.fact(z3.And(w >= 1, w <= lift(b.w), h >= 1, h <= lift(b.h)))
    c, q = fresh_bmp(ctx, w, h, 24)
    c.set_view(byte_rest(ctx, c))
    return c


def byte_rest(ctx, c):
    """the header as it is, any pixel bytes"""
    e, v = c.snapshot(), byte_view(ctx, ctx.fresh_fun('px'))
    return lambda j: e(j) if not is_sym(j) and j < 54 else unlift(z3.If(lift(j) < 54, lift(e(j)), lift(v(j)))) if is_sym(j) else v(j)


def mirrored_column(ctx, geo, takes):
    def val(e, row, col, j):
        c = geo.column(col)
        return z3.If(takes(c, geo.x), lift(bmp_at(ctx, geo.b, e, row, geo.n * (2 * geo.x - c) + col - geo.n * c)), lift(e(j)))
    return val


def c_mirrorcols(takes):
    """requires a well-formed bitmap at 8 or 24 bits and the circle inside; ensures the columns on one side reflected, all else unchanged     (proved below, C23)"""
    def c(ctx, a, x, y, r):
        b = pre_bmp(ctx, a, 'mirror in a circle')
        if b is None or b.bits < 8:
            return NotImplemented
        x, y, r = lift(x), lift(y), lift(r)
        ctx.prove(z3.And(r >= 0, x - r >= 0, x + r < lift(b.w), y - r >= 0, y + r < lift(b.h)), 'mirror precondition: the circle is inside', 'pre')
        geo = Cols(ctx, b, x, y, r)
        val, e = mirrored_column(ctx, geo, takes), a.snapshot()

        def view(row, col, j):
            geo.E.round(ab(geo.column(col) - geo.x))
            return z3.If(geo.within(row, col), lift(val(e, row, col, j)), lift(e(j)))
        a.set_view(rcview(ctx, b, e, view))
    return c


def c_mirrorrows(cond):
    """requires a well-formed bitmap and the circle inside; ensures the chords on one side reflected, all else unchanged     (proved below, C23)"""
    def c(ctx, a, x, y, r):
        b = pre_bmp(ctx, a, 'mirror in a circle')
        if b is None:
            return NotImplemented
        x, y, r = lift(x), lift(y), lift(r)
        ctx.prove(z3.And(r >= 0, x - r >= 0, x + r < lift(b.w), y - r >= 0, y + r < lift(b.h)), 'mirror precondition: the circle is inside', 'pre')
        geo = Rows(ctx, b, x, y, r)
        v, e = v_mirror(cond)(geo), a.snapshot()

        def view(row, col, j):
            geo.E.round(ab(geo.image_row(row) - geo.y))
            return z3.If(geo.treated(row, col, geo.E.n), lift(v(ctx, e, row, col, j)), lift(e(j)))
        a.set_view(rcview(ctx, b, e, view))
    return c


LEFT, RIGHT = (lambda c, x: c > x), (lambda c, x: c < x)
TOP, BOTTOM = (lambda j, y: j > y), (lambda j, y: j < y)


def p_quarter(bits, fn, takes, cond):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x, y, r = circ(ctx, b)
        ctx.call(fn, [a, x, y, r])
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
        cols, rows = Cols(ctx, b, x, y, r), Rows(ctx, b, x, y, r)
        px, py = z3.Ints('px py')
        ctx.fact(b.inside(px, py))
        o = lift(b.off(ctx, px, py))
        side = mirrored_column(ctx, cols, takes)
        for ch in range(3 if bits == 24 else 1):
            j = unlift(o + ch)
            row, col = [lift(t) for t in ctx.rc(b, j)]
            d = ab(py - rows.y)
            rows.E.round(d)
            cols.E.round(ab(cols.column(col) - cols.x))
            l, u = rows.cols(d)
            inrow = z3.And(d <= rows.r, col >= l, col < u)
            after = lambda row, col, j: b.base(j)
            if bits >= 8:
                after = lambda row, col, j: z3.If(cols.within(row, col), lift(side(b.base, row, col, j)), lift(b.base(j)))
                ctx.prove(z3.Implies(z3.And(z3.Not(cols.within(row, col)), z3.Not(inrow)), lift(a.view(j)) == lift(b.base(j))), 'pixels outside the circle unchanged')
                ctx.prove(z3.Implies(z3.And(z3.Not(takes(px, cols.x)), z3.Not(cond(py, cols.y))), lift(a.view(j)) == lift(b.base(j))), 'the source quarter is kept')
            else:
                ctx.prove(z3.Implies(z3.Not(inrow), lift(a.view(j)) == lift(b.base(j))), 'pixels outside the chords unchanged')
            mrow = 2 * (lift(b.h) - 1 - rows.y) - row
            mj = unlift(b.hdr + lift(ctx.mul(unlift(mrow), b.R)) + col)
            m = z3.If(z3.And(cond(py, rows.y), inrow), lift(after(mrow, col, mj)), lift(after(row, col, j)))
            ctx.prove(lift(a.view(j)) == m, 'mirrored sideways, then up or down')
    return run


# ---- copy and paste ------------------------------------------------------------

def chord(ctx, b, e, x, y, w, d, below):
    """the bytes of the chord at row y-d (or y+d) without its right-most pixel, as a byte array"""
    n = 3 if b.bits == 24 else 1
    row = lift(b.h) - 1 - (lift(y) + d if below else lift(y) - d)
    ctx.register_mult(lift(b.R), row)
    o = unlift(b.hdr + lift(ctx.mul(unlift(row), b.R)) + n * (lift(x) - w))
    return ctx.mk('B', length=unlift(2 * n * w), view=lambda i: e(unlift(lift(o) + lift(i))))


def copied(ctx, b, e, x, y, r, E, opaque=False):
    """the list a copy yields: depth, radius, then the two chords of every round"""
    def view(j):
        if not is_sym(j) and j < 2:
            return (b.bits, unlift(lift(r)))[j]
        w, d = E.at(lift(j) - 2)
        if b.bits < 8:
            its = [pixel_chord(ctx, b, x, y, w, d, s, opaque) for s in (False, True)]
            for s in (0, 1):
                its[s].side = (unlift(lift(j) - 2), s)
            return ctx.mk('list', items=its)
        return ctx.mk('list', items=[chord(ctx, b, e, x, y, w, d, False), chord(ctx, b, e, x, y, w, d, True)])
    return view


def pixel_chord(ctx, b, x, y, w, d, below, opaque=False):
    yy = unlift(lift(y) + d if below else lift(y) - d)
    if opaque:
        return ctx.mk('B', length=unlift(2 * w), view=lambda i: opaque_pixel(ctx, b, unlift(lift(x) - w + lift(i)), yy))
    ctx.register_mult(lift(b.R), lift(b.h) - 1 - lift(yy))
    return ctx.mk('B', length=unlift(2 * w), view=lambda i: b.pixel(ctx, b.base, unlift(lift(x) - w + lift(i)), yy))


class CopySpec(LoopSpec):
    def __init__(self, b, x, y, r, E):
        self.a = b, x, y, r, E

    def arr(self, L, a, k):
        b, x, y, r, E = self.a
        if L.depth:     # the pixels of one chord
            ctx = L.ctx
            if a.kind == 'list' and ctx.loops[0]._entry and a.oid not in ctx.loops[0]._entry:
                y0 = frame_with(ctx, 'y0')['y0']
                w, d = E.at(ctx.loops[0].k)
                return ArrSpec(view=lambda i: b.pixel(ctx, b.base, unlift(lift(x) - w + lift(i)), y0), length=lift(k))
            return None
        if a.kind != 'list':
            return None
        if is_sym(k):
            w, d = E.at(k)
            for t in (lift(y) - d, lift(y) + d):
                L.ctx.register_mult(lift(b.R), lift(b.h) - 1 - t)
        return ArrSpec(view=copied(L.ctx, b, b.base, x, y, r, E), length=unlift(2 + lift(k)), prefix=2)


def p_copy(bits):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        freeze(ctx, a)
        x, y, r = circ(ctx, b)
        E = Edge(ctx, 'rows', r)
        ctx.specs.append(lambda L: CopySpec(b, x, y, r, E))
        buf = ctx.call(B.copycircregion2buf, [a, x, y, r])
        ctx.prove(isinstance(buf, Arr), 'a list')
        ctx.prove(lift(buf.length) == 2 + E.n, 'one entry for every pair of rows')
        ctx.prove(eqv(buf.view(0), bits), 'the depth')
        ctx.prove(eqv(buf.view(1), r), 'the radius')
        k = z3.Int('kk')
        ctx.fact(z3.And(k >= 0, k < E.n))
        ctx.prove(ctx.goal_eq(buf.view(2 + k), copied(ctx, b, b.base, x, y, r, E)(2 + k)), 'the chords as they are')
        j = z3.Int('j')
        ctx.fact(z3.And(j >= 0, j < lift(b.length)))
        ctx.prove(lift(a.view(j)) == lift(b.base(j)), 'copying changes nothing')
    return run


def sym_copy(ctx, bits, r):
    """any list of the form a copy yields"""
    E = Edge(ctx, 'rows', r)
    n = 3 if bits == 24 else 1
    T = z3.Function('chord', I, I, I, I)

    def elem(k, side, i):
        t = T(lift(k), z3.IntVal(side), lift(i))
        ctx.fact_once(('chord', t.get_id()), z3.And(t >= 0, t < 1 << min(bits, 8)))
        ctx.keep.append(t)
        return t

    def view(j):
        if not is_sym(j) and j < 2:
            return (bits, unlift(lift(r)))[j]
        k = unlift(lift(j) - 2)
        w, d = E.at(k)
        its = [ctx.mk('B', length=unlift(2 * n * w), view=lambda i, s=s: elem(k, s, i)) for s in (0, 1)]
        for s in (0, 1):
            its[s].side = (k, s)
        return ctx.mk('list', items=its)
    return ctx.mk('list', length=unlift(2 + E.n), view=view), elem


def p_paste(bits):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x, y, r = circ(ctx, b)
        buf, elem = sym_copy(ctx, bits, r)
        geo = Rows(ctx, b, x, y, r)

        def val(ctx, e, row, col, j):
            i = geo.image_row(row)
            d = ab(i - geo.y)
            k = geo.E.round(d)
            c = col - geo.cols(d)[0]
            return z3.If(i >= geo.y, elem(k, 1, c), elem(k, 0, c))
        ctx.specs.append(lambda L: ChordSpec(geo, val))
        ctx.call(B.pastecirularbuf, [a, x, y, buf])
        pixel_frame(ctx, a, b, geo, val)
    return run


class PasteSpec(PixLoops):
    """pixel by pixel: the rows of the rounds so far; the part of the row at hand"""
    def __init__(self, geo, elem):
        self.g, self.elem = geo, elem

    def colour(self, x, y):
        g = self.g
        d = ab(y - g.y)
        k = g.E.round(d)
        c = x - (g.x - g.E.half(d))
        return z3.If(y >= g.y, self.elem(k, 1, c), self.elem(k, 0, c))

    def arr(self, L, a, k):
        ctx, g = L.ctx, self.g
        if a.bmp is not g.b:
            return None
        k = lift(k)
        if L.depth == 0:
            def f(x, y, o):
                d = ab(y - g.y)
                w = g.E.half(d)
                return z3.If(z3.And(g.E.done(d, k), x >= g.x - w, x < g.x + w), self.colour(x, y), lift(o))
        else:
            side = [v.side for fr in ctx.frames for v in fr.vars.values() if hasattr(v, 'side')]
            if len(side) != 1:
                return None
            r, s = side[0]
            w, d = g.E.at(r)
            y0, x0 = (g.y + d if s else g.y - d), g.x - w

            def f(x, y, o):
                return z3.If(z3.And(y == y0, x >= x0, x < x0 + k), self.elem(r, s, x - x0), lift(o))
        return ArrSpec(view=pixmap_view(ctx, g.b, L.entry(a), f))


def p_paste_pixels(bits, source=False):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        x, y, r = circ(ctx, b)
        if source:      # copycircregion: the pixels of the circle at (sx, sy)
            freeze(ctx, a)
            sx, sy, (x, y) = x, y, z3.Ints('nx ny')
            ctx.fact(z3.And(x - r >= 0, x + r < lift(b.w), y - r >= 0, y + r < lift(b.h)))
            E = Edge(ctx, 'rows', r)

            def elem(k, s, i):
                w, d = E.at(k)
                yy = sy + d if s else sy - d
                return lift(opaque_pixel(ctx, b, unlift(sx - w + i), unlift(yy)))
        else:
            buf, elem = sym_copy(ctx, bits, r)
        geo = Rows(ctx, b, x, y, r)
        spec = PasteSpec(geo, elem)
        ctx.specs.append(lambda L: spec)
        if source:
            ctx.call(B.copycircregion, [a, sx, sy, r, (x, y)])
        else:
            ctx.call(B.pastecirularbuf, [a, x, y, buf])
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
        px, py = z3.Ints('px py')
        ctx.fact(b.inside(px, py))
        d = ab(py - y)
        w = geo.E.half(d)
        geo.E.round(d)
        prove_pixel(ctx, b, a.view, px, py, z3.If(z3.And(d <= r, px >= x - w, px < x + w), spec.colour(px, py), lift(b.pixel(ctx, b.base, px, py))), 'the chords have the copied pixels, no other changed')
    return run


def c_copied(ctx, a, x, y, r):
    """requires a well-formed bitmap; ensures the list of the chords of a circle inside, otherwise nothing     (proved above, C23)"""
    b = pre_bmp(ctx, a, 'copycircregion2buf')
    if b is None:
        return NotImplemented
    x, y, r = lift(x), lift(y), lift(r)
    if not ctx.decide(z3.And(x - r >= 0, x + r < lift(b.w), y - r >= 0, y + r < lift(b.h))):
        return None
    if b.bits < 8 and ctx.ghost.get('frozen', {}).get(a.oid) != a.ver:
        return NotImplemented       # opaque pixels are those of the bitmap at the beginning
    E = Edge(ctx, 'rows', r)
    c = ctx.mk('list', length=unlift(2 + E.n), view=copied(ctx, b, a.snapshot(), x, y, r, E, True))
    return c


def p_copypaste(bits):
    """the copying form: a pixel of the target takes the colour of the pixel at the same place in the source circle"""
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x, y, r = circ(ctx, b)
        nx, ny = z3.Ints('nx ny')
        ctx.fact(z3.And(nx - r >= 0, nx + r < lift(b.w), ny - r >= 0, ny + r < lift(b.h)))
        geo = Rows(ctx, b, nx, ny, r)
        n = 3 if bits == 24 else 1

        def val(ctx, e, row, col, j):
            return lift(bmp_at(ctx, b, b.base, row + ny - y, col + n * (x - nx)))
        ctx.specs.append(lambda L: ChordSpec(geo, val))
        ctx.call(B.copycircregion, [a, x, y, r, (nx, ny)])
        pixel_frame(ctx, a, b, geo, val)
    return run


def p_paste_outside(bits):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x, y, r = z3.Ints('cx cy r')
        ctx.fact(z3.And(r >= 0, z3.Not(z3.And(x - r >= 0, x + r < lift(b.w), y - r >= 0, y + r < lift(b.h)))))
        ctx.call(B.pastecirularbuf, [a, x, y, Arr('list', items=[bits, r], ctx=ctx)])
        well_formed(ctx, a, b)
        j = z3.Int('j')
        ctx.fact(z3.And(j >= 0, j < lift(b.length)))
        ctx.prove(lift(a.view(j)) == lift(b.base(j)), 'no byte has changed')
    return run


def v_mirror(cond):
    """the byte of the row mirrored at the centre, where cond(image row, centre row) holds"""
    def val(geo):
        def v(ctx, e, row, col, j):
            m = 2 * (lift(geo.b.h) - 1 - geo.y) - row
            c = cond(geo.image_row(row), geo.y)
            t = lift(bmp_at(ctx, geo.b, e, m, col))
            return t if c is True else z3.If(c, t, lift(e(j)))
        return v
    return val


def v_not(geo):
    return lambda ctx, e, row, col, j: 255 - lift(e(j))


def v_filter(name):
    F = c19.abstract(name)

    def val(geo):
        def v(ctx, e, row, col, j):
            s = 3 * (col / 3)
            p = [lift(bmp_at(ctx, geo.b, e, row, s + i)) for i in range(3)]
            return lift(F(col % 3, p, None))
        return v
    return val


def replay(i):
    b0 = i['bmp']
    if max(abs(i[k]) for k in ('x', 'y', 'r')) < 300 and i['r'] >= 0:
        for t in range(3):
            conc(b0, i['x'], i['y'], i['r'], random.Random(t))
    w, h, bits = geom(b0)
    if w * h > 4000:
        return
    for t in range(6):
        g = random.Random(t)
        b1 = mkbmp(13, 12, bits, g)
        for r in range(6):
            conc(b1, 6, 5, r, g)
            conc(b1, 12, 1, r, g)


def replay_walk(i):
    for r in range(0, 40):
        inputs = dict(r=r)
        got = must(call(lambda: [tuple(v) for v in P.itercirclepartvertlineedge(r)]), 'itercirclepartvertlineedge', inputs)
        D = disc(r)
        if sorted(a for a, _ in got) != list(range(r + 1)):
            raise Violation(f'itercirclepartvertlineedge({r}): columns {sorted(a for a, _ in got)}', inputs)
        for a, hh in got:
            if (a, hh) not in D:
                raise Violation(f'itercirclepartvertlineedge({r}): {(a, hh)} lies outside the disc', inputs)


_in = dict(inputs=bmp_inputs(None, x=z3.Int('cx'), y=z3.Int('cy'), r=z3.Int('r')), replay=replay, hints=small)
WREG = {('props.c23', '_column'): c_column}
CREG = {**REG, (PRIM, 'itercirclepartlineedge'): c_edge_rows, (PRIM, 'itercirclepartvertlineedge'): c_edge_cols, ('pythonbmp.mathlib', 'xorvect'): c_xorvect,
        ('pythonbmp.colors', 'invertbitsinbuffer'): c_invert, **{k: v for k, v in c19.REGF.items() if k not in REG}}
GREG = {**CREG, (c19.CM, 'applybrightnessadjtoBGRbuf'): c19.c_bright_any}
PROOFS = [Proof('column walk, radius of at least 1', ['primitives2D.itercirclepartvertlineedge'], p_columnwalk, inputs=inputs_of('r'), replay=replay_walk, registry=WREG, inline_modules=('props.c23',)),
          Proof('column walk, radius 0', ['primitives2D.itercirclepartvertlineedge'], p_column0, registry=WREG, inline_modules=('props.c23',)),
          Proof('columns of the disc are intervals', [], p_below)]


def add(title, fns, run, registry=CREG):
    PROOFS.append(Proof(title, [f'BITMAPlib.{f}' for f in fns], run, registry=registry, **_in))


for _b in BITS:
    for _n, _c in (('flipvertcircregion', lambda j, y: True), ('mirrortopincircregion', lambda j, y: j > y), ('mirrorbottomincircregion', lambda j, y: j < y)):
        add(f'{_n}, {_b} bit', [_n, 'verttransformincircregion'], p_rows(_b, getattr(B, _n), val=v_mirror(_c)))
    add(f'invertbitsincircregion, {_b} bit', ['invertbitsincircregion', '_usenoparfn2circreg'], p_rows(_b, B.invertbitsincircregion, val=v_not))
    add(f'invertbitsincircregion, clipped, {_b} bit', ['invertbitsincircregion', '_usenoparfn2circreg'], p_rows(_b, B.invertbitsincircregion, val=v_not, inside=False, clip=True))
    add(f'outlinecircregion, {_b} bit', ['outlinecircregion'], p_rows(_b, B.outlinecircregion))
    add(f'outlinecircregion, clipped, {_b} bit', ['outlinecircregion'], p_rows(_b, B.outlinecircregion, inside=False, clip=True))
# the helpers that apply a row filter to every chord: once for an arbitrary filter; the operations then against the helpers' contract
FREG = {**CREG, ('props.c23', '_anyfilter'): c19.filter_contract('any', False)}
for _h, _a in (('_use24btfn2circreg', (lambda ctx: _anyfilter, 1)), ('_usenopar24btfn2circreg', (lambda ctx: _anyfilter,))):
    add(f'{_h}, any row filter', [_h], p_rows(24, getattr(B, _h), _a, v_filter('any')), FREG)
    add(f'{_h}, any row filter, clipped', [_h], p_rows(24, getattr(B, _h), _a, v_filter('any'), inside=False, clip=True), FREG)
HREG = {**CREG, (LIB, '_use24btfn2circreg'): c_usefn, (LIB, '_usenopar24btfn2circreg'): c_usefn}
for _n, _f, _ip in (('monocircle', 'monochromefiltertoBGRbuf', ()), ('colorfiltercircregion', 'colorfiltertoBGRbuf', (1,)), ('gammacorrectcircregion', 'gammaBGRbuf', (1,)),
                    ('brightnessadjcircregion', 'applybrightnessadjtoBGRbuf', (1,)), ('thresholdadjcircregion', 'applythresholdadjtoBGRbuf', (1,))):
    add(_n, [_n], p_rows(24, getattr(B, _n), _ip, v_filter(ROWFORM[_f])), HREG)
    add(f'{_n}, clipped', [_n], p_rows(24, getattr(B, _n), _ip, v_filter(ROWFORM[_f]), inside=False, clip=True), HREG)
for _f in ROWFORM:
    if _f != ROWFORM[_f]:
        PROOFS.append(Proof(_f, [f'colors.{_f}'], p_rowform(_f), registry=CREG))
add('vertbrightnessgrad2circregion', ['vertbrightnessgrad2circregion'], p_rows(24, B.vertbrightnessgrad2circregion, (lambda ctx: tuple(z3.Reals('l0 l1')),)), GREG)

add('horibrightnessgrad2circregion', ['horibrightnessgrad2circregion', '_fnwithpar2vertslice'], p_columns_frame(B.horibrightnessgrad2circregion, (lambda ctx: tuple(z3.Reals('l0 l1')),)), GREG)


def _erasing(bits, every):
    n, m, pat = z3.Ints('n m pat')

    def run(ctx):
        ctx.ghost['modfun'] = True
        ctx.fact(z3.And(n >= 1, m >= 0, m < n, pat >= 0, pat <= 255))
        if every:
            p_rows(bits, B.eraseeverynthhorizontallineinccircregion, (n,), v_erase(n, 0, 0))(ctx)
        else:
            p_rows(bits, B.erasealternatehorizontallinesincircregion, (n, m, pat), v_erase(n, m, pat))(ctx)
    return run


def _resampled(fn, most):
    n = z3.Int('n')

    def run(ctx):
        ctx.ghost['centre'] = z3.Ints('cx cy')
        ctx.fact(z3.And(n >= 1, *([n <= z3.Int('w'), n <= z3.Int('h')] if most else [])))
        p_rows(24, fn, (n,))(ctx)
    return run


for _b in BITS:
    add(f'erasealternatehorizontallinesincircregion, {_b} bit', ['erasealternatehorizontallinesincircregion'], _erasing(_b, False))
    add(f'eraseeverynthhorizontallineinccircregion, {_b} bit', ['eraseeverynthhorizontallineinccircregion'], _erasing(_b, True))
_T = {'left': LEFT, 'right': RIGHT, 'top': TOP, 'bottom': BOTTOM}
QREG = {**CREG, **{(LIB, f'mirror{_s}incircregion'): (c_mirrorcols if _s in ('left', 'right') else c_mirrorrows)(_f) for _s, _f in _T.items()}}
for _b in BITS:
    for _v in ('top', 'bottom'):
        for _h in ('left', 'right'):
            add(f'mirror{_v}{_h}incircregion, {_b} bit', [f'mirror{_v}{_h}incircregion'], p_quarter(_b, getattr(B, f'mirror{_v}{_h}incircregion'), _T[_h], _T[_v]), QREG)
for _b in (1, 4):
    add(f'copycircregion2buf, {_b} bit', ['copycircregion2buf'], p_copy(_b), {**CREG, **REGP})
    add(f'pastecirularbuf, {_b} bit', ['pastecirularbuf'], p_paste_pixels(_b), {**CREG, **REGP})
    add(f'copycircregion, {_b} bit', ['copycircregion', 'pastecirularbuf'], p_paste_pixels(_b, True), {**CREG, **REGP, (LIB, 'copycircregion2buf'): c_copied})
for _b in (8, 24):
    add(f'copycircregion2buf, {_b} bit', ['copycircregion2buf'], p_copy(_b))
    add(f'pastecirularbuf, {_b} bit', ['pastecirularbuf'], p_paste(_b))
    add(f'copycircregion, {_b} bit', ['copycircregion', 'pastecirularbuf'], p_copypaste(_b), {**CREG, (LIB, 'copycircregion2buf'): c_copied})
MREG = {**CREG, (LIB, 'resizeNtimesbigger'): c_larger, (LIB, 'pixelizenxn'): c_blocks}
add('magnifyNtimescircregion (frame)', ['magnifyNtimescircregion'], _resampled(B.magnifyNtimescircregion, False), MREG)
add('pixelizenxncircregion (frame)', ['pixelizenxncircregion'], _resampled(B.pixelizenxncircregion, True), MREG)
for _b in (8, 24):
    for _n, _c in (('fliphoricircregion', lambda c, x: True), ('mirrorleftincircregion', lambda c, x: c > x), ('mirrorrightincircregion', lambda c, x: c < x)):
        add(f'{_n}, {_b} bit', [_n, 'horitransformincircregion'], p_columns(_b, getattr(B, _n), _c))
for _b in BITS:
    add(f'pastecirularbuf beside the image, {_b} bit', ['pastecirularbuf'], p_paste_outside(_b))

BOUNDED = [Bounded('circular regions, concrete', b_ops, 'images of all depths up to 27 pixels a side, circles up to radius 12, random parameters',
                    ['BITMAPlib.copycircregion', 'BITMAPlib.copycircregion2buf', 'BITMAPlib.pastecirularbuf', 'BITMAPlib.flipXYcircregion', 'BITMAPlib.horitransformincircregion', 'BITMAPlib.fliphoricircregion',
                     'BITMAPlib.mirrorleftincircregion', 'BITMAPlib.mirrorrightincircregion', 'BITMAPlib.mirrortopleftincircregion', 'BITMAPlib.mirrortoprightincircregion',
                     'BITMAPlib.mirrorbottomleftincircregion', 'BITMAPlib.mirrorbottomrightincircregion', 'BITMAPlib.horibrightnessgrad2circregion', 'BITMAPlib.magnifyNtimescircregion',
                     'BITMAPlib.pixelizenxncircregion', 'BITMAPlib.eraseeverynthhorizontallineinccircregion'], quick=20)]
ASSUMPTIONS = ['row operations treat each chord without its right-most pixel and, at 1 and 4 bits, in whole bytes: that is the extent the checks allow',
               'the filters, inversion and outline clip a circle that is partly outside instead of refusing it; the others refuse (C13)',
               'pixelizing is checked for block sizes up to the image size',
               'flipXYcircregion at 8 and 24 bits is a quarter turn (recorded finding); that effect is what is checked']
