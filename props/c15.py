"""C15: text is drawn glyph by glyph: exactly the cells of the set bits, scaled and placed, and every character of a string at its place."""
import functools
import os
import random
import shutil
import tempfile
import time
from .common import *
from .contracts import *
from .c03 import witness, inbyte, samepixel
with silent():
    from pythonbmp import fonts as F, textgraphics as TG, mathlib as ML
PROPERTY = 'C15'

# ---- glyphs: proof ---------------------------------------------------------------
# A witness pixel lies in cell (i, j) of the glyph (row of the pattern, bit from the left) at (u, v) within the cell.

BITCOUNT = 8


def bitsel(ctx, t, j, order=range(7, -1, -1)):
    """bit order[j] of the byte t"""
    n = bits8(ctx, t)
    return z3.Or(*[z3.And(j == q, lift(n[m]) == 1) for q, m in enumerate(order) if m is not None])


def paint(ctx, a, b, must, color):
    """the witness pixel has the colour if must, otherwise its former value; the header as before"""
    e = a.snapshot()
    f = byte_view(ctx, ctx.fresh_fun('paint'))

    def view(j):
        if not is_sym(j) and j < b.hdr:
            return e(j)
        t = f(j)
        ctx.fact_once(('paint', t.get_id()), lambda: z3.And(z3.Implies(lift(j) < b.hdr, t == lift(e(j))), at_witness(ctx, b, j, t, e(j), must, color)))
        return t
    a.set_view(view)


def at_witness(ctx, b, j, v, e, must, color):
    px, py = ctx.ghost['wit']
    o = ctx.ghost['wito']
    j = lift(j)
    if b.bits == 24:
        c = lift(color)
        ch = z3.If(j == o, c % 256, z3.If(j == o + 1, (c / 256) % 256, (c / 65536) % 256))
        return z3.Implies(z3.And(j >= o, j < o + 3), lift(v) == z3.If(must, ch, lift(e)))
    return z3.Implies(j == o, lift(inbyte(ctx, b, v, px)) == z3.If(must, lift(color), lift(inbyte(ctx, b, e, px))))


def c_plot(ctx, a, x, y, c):
    """requires a colour of the depth; colours the pixel (x,y) if it lies in the image, nothing else     (proved: C02)"""
    b = pre_bmp(ctx, a, 'plotxybit')
    if b is None:
        return NotImplemented
    ctx.prove(z3.And(lift(c) >= 0, lift(c) < 1 << b.bits), f'plotxybit precondition: valid colour at {ctx.where()}', 'pre')
    px, py = ctx.ghost['wit']
    paint(ctx, a, b, z3.And(px == lift(x), py == lift(y)), c)


def c_rect(ctx, a, x1, y1, x2, y2, c):
    """requires a colour of the depth, corners in order; inside the image colours exactly the box (8 bit: with the nearest palette entry), otherwise
    draws nothing     (proved: C04)"""
    b = pre_bmp(ctx, a, 'filledrect')
    if b is None or b.bits == 4:
        return NotImplemented
    x1, y1, x2, y2 = (lift(t) for t in (x1, y1, x2, y2))
    ctx.prove(z3.And(lift(c) >= 0, lift(c) < 1 << b.bits), f'filledrect precondition: valid colour at {ctx.where()}', 'pre')
    ctx.prove(z3.And(x1 <= x2, y1 <= y2), f'filledrect precondition: corners in order at {ctx.where()}', 'pre')
    px, py = ctx.ghost['wit']
    paint(ctx, a, b, z3.And(b.inside(x1, y1), b.inside(x2, y2), px >= x1, px <= x2, py >= y1, py <= y2), near(ctx, c) if b.bits == 8 else c)


NEAR = z3.Function('nearest', I, I)
TURN = z3.Function('turn', I, I)      # 0, 1, ..., count - 1, 0, 1, ...


def near(ctx, c):
    """the palette entry nearest to a colour"""
    t = NEAR(lift(c))
    ctx.fact_once(('near', t.get_id()), z3.And(t >= 0, t < 256))
    return t


def in_turn_of(ctx, m, k):
    """index of the colour number k when m colours are taken in turn"""
    k = z3.simplify(lift(k))
    ctx.keep.append(k)
    for q in (k, z3.simplify(k - 1)):
        t, u = TURN(q), TURN(q + 1)
        ctx.keep.append(q)
        ctx.fact_once(('turn', q.get_id()), z3.And(TURN(0) == 0, t >= 0, t < m, u == z3.If(t + 1 == m, 0, t + 1)))
    return TURN(k)


DOT = z3.Function('dot', I, I, I, z3.BoolSort())


def c_dot(ctx, a, x, y, d, c):
    """requires a side of at least 1, a colour of the depth; colours exactly the pixels of a disc in the square of that side, whose shape depends on
    the side only, clipped to the image     (C14: filled circles)"""
    b = pre_bmp(ctx, a, 'plotcircinsqr')
    if b is None or b.bits == 4:
        return NotImplemented
    x, y, d = (lift(t) for t in (x, y, d))
    ctx.prove(z3.And(lift(c) >= 0, lift(c) < 1 << b.bits), f'plotcircinsqr precondition: valid colour at {ctx.where()}', 'pre')
    ctx.prove(d >= 1, f'plotcircinsqr precondition: a side of at least 1 at {ctx.where()}', 'pre')
    px, py = ctx.ghost['wit']
    paint(ctx, a, b, z3.And(px >= x, px <= x + d, py >= y, py <= y + d, DOT(px - x, py - y, d)), c)


class Glyph:
    """geometry of a rendering: where row k starts, the step to the next bit, the pattern row shown"""
    def __init__(self, ctx, b, x, y, n, pat, s, ps, c, form, dots=False, count=None):
        self.ctx, self.b, self.n, self.pat, self.form, self.count = ctx, b, n, pat, form, count
        self.x, self.y, self.s, self.c = x, y, s, c
        self.e = z3.If(s - 1 - ps > 0, s - 1 - ps, 0)
        i, j, u, v = z3.Ints('gi gj gu gv')
        self.i, self.j, self.u, self.v = i, j, u, v
        px, py = ctx.ghost['wit']
        ctx.fact(z3.And(u >= 0, u < s, v >= 0, v < s))
        ctx.add_stride(s)
        ctx.register_mult(s, i)
        ctx.register_mult(s, j)
        for q in range(8):
            ctx.register_mult(s, z3.IntVal(q))
        if 'sideway' in form:
            Y = self.start(i)[1]
            ctx.fact(z3.And(px == x + lift(ctx.mul(i, s)) + u, py == Y - lift(ctx.mul(j, s)) + v))
        else:
            X = self.start(i)[0]
            ctx.fact(z3.And(px == X + lift(ctx.mul(j, s)) + u, py == y + lift(ctx.mul(i, s)) + v))
        t = pat(unlift(n - 1 - i) if 'upside' in form else i)
        cx, cy = px - u, py - v
        whole = z3.Or(self.e == 0, z3.And(b.inside(cx, cy), b.inside(cx + self.e, cy + self.e)))
        self.on = z3.And(i >= 0, i < n, j >= 0, j < 8, self.bit(t, j), u <= self.e, v <= self.e, whole)
        if count is not None:      # the rows take the colours in turn
            c = c(in_turn_of(ctx, count, i))
        if dots:
            self.on = z3.And(i >= 0, i < n, j >= 0, j < 8, self.bit(t, j), u <= self.e, v <= self.e, z3.Or(self.e == 0, DOT(u, v, self.e)))
            self.color = c
            return
        self.color = z3.If(self.e == 0, c, near(ctx, c)) if b.bits == 8 else c

    def bit(self, t, j):
        if 'rotated' in self.form:      # recorded finding: the bit 0 of a row is lost
            return bitsel(self.ctx, t, j, (None, 1, 2, 3, 4, 5, 6, 7))
        return bitsel(self.ctx, t, j)

    def start(self, k):
        """position of the first cell of row k"""
        ctx, s, x, y, n = self.ctx, self.s, self.x, self.y, self.n
        k = lift(k)
        ks = lift(ctx.mul(k, s))
        h = lift(ctx.binop('>>', s, 1))
        if self.form == 'italic' or self.form == 'rotateditalic':
            big = x + lift(ctx.mul(h, n)) - lift(ctx.mul(h, k))
            small = x + n / 2 - ((y + k) / 2 - y / 2)
            return z3.If(s > 1, big, small), y + ks
        if self.form == 'upsideitalic':
            return z3.If(s > 1, x - lift(ctx.mul(h, k)), x - ((y + k) / 2 - y / 2)), y + ks
        if self.form == 'sidewayitalic':
            return x + ks, z3.If(s > 1, y + lift(ctx.mul(h, k)), y - ((x + k) / 2 - x / 2))
        if self.form == 'sideway':
            return x + ks, y
        return x, y + ks


class GlyphSpec(LoopSpec):
    def __init__(self, g, L):
        self.g = g
        self.inner = len(L.ctx.loops) >= 1
        v = frame_with(L.ctx, 'x', 'y')
        zero = [n for n, t in v.items() if type(t) is int and t == 0] if v is not None and not self.inner else []
        self.counter = zero[0] if len(zero) == 1 else 'colorind' if 'colorind' in zero else None
        if self.inner:
            self.row = L.ctx.loops[-1].k
            self.split = self._split
            self.fix = self._fix

    def _split(self, L, k):
        for i in range(9):
            if L.ctx.decide(k == i):
                return i
        return k

    def _fix(self, L, k):
        v = frame_with(L.ctx, 'mask')
        if v is not None and not is_sym(k):
            L.ctx.prove(lift(v['mask']) == 128 >> k, 'mask of the bit', 'inv')
            v['mask'] = 128 >> k

    def inv(self, L, k):
        g = self.g
        if self.inner:
            v = frame_with(L.ctx, 'mask')
            if v is None:
                return []
            if is_sym(k):
                return [lift(k) <= 8]
            return [lift(v['mask']) == 128 >> k if k <= 8 else z3.BoolVal(False)]
        v = frame_with(L.ctx, 'x', 'y')
        if v is None:
            return []
        g.ctx.register_mult(g.s, lift(k))
        X, Y = g.start(k)
        A, B_ = g.start(g.i)
        g.ctx.fact(z3.Implies(g.i == lift(k), z3.And(X == A, Y == B_)))      # the same term of the same row
        return [lift(v['x']) == X, lift(v['y']) == Y] + self.turn(L, k)

    def turn(self, L, k):
        """the variable that counts the colours"""
        g = self.g
        if g.count is None:
            return []
        v = frame_with(L.ctx, self.counter) if self.counter else None
        if v is None:      # no such variable: the turn as a remainder
            for q in (g.i, k):
                t = in_turn_of(L.ctx, g.count, q)
                L.ctx.fact_once(('turn mod', t.get_id()), lambda: t == lift(L.ctx.binop('%', q, g.count)))
            return []
        return [lift(v[self.counter]) == in_turn_of(L.ctx, g.count, k)]

    def arr(self, L, a, k):
        g = self.g
        if a.bmp is not g.b:
            return None
        e = L.entry(a)
        before = z3.And(g.i == lift(self.row), g.j < lift(k)) if self.inner else g.i < lift(k)
        must = z3.And(g.on, before)
        return ArrSpec(rel=lambda j, t: at_witness(L.ctx, g.b, j, t, e(j), must, g.color), below=g.b.hdr)


def p_glyph(f, bits, form, dots=False, several=False):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        px, py, x, y, s, ps, c, n = z3.Ints('px py x y scale pixspace color rows')
        ctx.ghost['wit'] = (px, py)
        ctx.ghost['wito'] = lift(b.off(ctx, px, py))
        ctx.fact(z3.And(b.inside(px, py), s >= 1, ps >= 0, c >= 0, c < 1 << bits, n >= 0))
        P = z3.Function('pattern', I, I)
        view = byte_view(ctx, P)
        pat = ctx.mk('list', length=n, view=view)
        if bits == 4:
            ctx.fact(s - 1 - ps <= 0)
        m = z3.Int('colors') if several else None
        if several:
            C = z3.Function('color', I, I)

            def c(k):
                t = C(lift(k))
                ctx.fact_once(('color', t.get_id()), z3.And(t >= 0, t < 1 << bits))
                return t
            ctx.fact(m >= 1)
        g = Glyph(ctx, b, x, y, n, view, s, ps, c, form, dots, m)
        if several:
            c = ctx.mk('list', length=m, view=c)
        ctx.specs.append(lambda L: GlyphSpec(g, L))
        ctx.ghost['force_loop'] = lambda c_, node: len(c_.loops) >= 1
        ctx.call(f, [a, x, y, pat, s, ps, c])
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
        o = ctx.ghost['wito']
        for d in range(3 if bits == 24 else 1):
            j = unlift(o + d)
            ctx.prove(at_witness(ctx, b, j, a.view(j), b.base(j), g.on, g.color), 'exactly the cells of the set bits have the colour')
    return run


def c_rotate(ctx, t):
    """requires a byte; ensures its bits in reverse order, except that bit 0 is lost (recorded finding)     (proved below for every byte)"""
    if not ctx.in_byte(t):
        return NotImplemented
    r = ctx.fresh_fun('rotated')(lift(t))
    ctx.fact(z3.And(r >= 0, r <= 255))
    n, m = bits8(ctx, r), bits8(ctx, t)
    for i in range(7):
        ctx.fact(lift(n[i]) == lift(m[7 - i]))
    ctx.fact(lift(n[7]) == 0)
    return r


def p_rotate(ctx):
    for t in range(256):
        r = ctx.call(ML.rotatebits, [t])
        ctx.prove(r == sum(((t >> (7 - i)) & 1) << i for i in range(7)), f'rotatebits({t})')


REGG = {('pythonbmp.mathlib', 'rotatebits'): c_rotate, **REG, (LIB, 'plotxybit'): c_plot, (LIB, 'filledrect'): c_rect, (LIB, 'plotcircinsqr'): c_dot}
FORMS = {'plot8bitpattern': 'plain', 'plot8bitpatternupsidedown': 'upside', 'plot8bitpatternsideway': 'sideway', 'plotrotated8bitpattern': 'rotated', 'plotitalic8bitpattern': 'italic',
         'plotreverseditalic8bitpattern': 'rotateditalic', 'plotupsidedownitalic8bitpattern': 'upsideitalic', 'plotitalic8bitpatternsideway': 'sidewayitalic'}
PROOFS = [Proof('rotatebits', ['mathlib.rotatebits'], p_rotate)]
DOTS = {'plot8bitpatternasdots': 'plain', 'plot8bitpatternupsidedownasdots': 'upside', 'plot8bitpatternsidewaywithdots': 'sideway', 'plotrotated8bitpatternasdots': 'rotated',
        'plotitalic8bitpatternasdots': 'italic', 'plotreverseditalic8bitpatternasdots': 'rotateditalic', 'plotupsidedownitalic8bitpatternasdots': 'upsideitalic',
        'plotitalic8bitpatternsidewayasdots': 'sidewayitalic', 'plotitalic8bitpatternupdsidedownasdots': 'upsideitalic'}
for _f, _m in DOTS.items():
    for _b in (1, 4, 8, 24):
        PROOFS.append(Proof(f'{_f}, {_b} bit', [f'BITMAPlib.{_f}'], p_glyph(getattr(B, _f), _b, _m, True), registry=REGG, hints=small, inputs=bmp_inputs(None), thorough_only=_b != 24))
for _f, _m in FORMS.items():
    for _b in (1, 4, 8, 24):
        PROOFS.append(Proof(f'{_f}, {_b} bit', [f'BITMAPlib.{_f}'], p_glyph(getattr(B, _f), _b, _m), registry=REGG, hints=small, inputs=bmp_inputs(None)))

SEVERAL = [f for f in FORMS if 'rotated' not in f] + [f for f in DOTS if 'rotated' not in f]
SEVERAL += ['plotreverseditalic8bitpattern', 'plotreverseditalic8bitpatternasdots']
for _f in SEVERAL:
    for _b in (1, 4, 8, 24):
        PROOFS.append(Proof(f'{_f} in several colours, {_b} bit', [f'BITMAPlib.{_f}'], p_glyph(getattr(B, _f), _b, {**FORMS, **DOTS}[_f], _f in DOTS, True), registry=REGG, hints=small,
                            inputs=bmp_inputs(None), thorough_only=_f in DOTS and _b != 24))

# ---- strings: proof ---------------------------------------------------------------

def placed(f, *args):
    """drawn: the number of glyphs drawn so far (counted by the contract of the glyph function)"""
    drawn = 0
    f(*args)
    return drawn


class Text:
    """a string of unknown characters; KIND 0: newline, 1: tab, else a character"""
    def __init__(self):
        self.n, self.kind, self.code = z3.Int('len'), z3.Function('kind', I, I), z3.Function('code', I, I)


def letters(rev):
    def contract(ctx, st):
        T = ctx.ghost['text']
        if st is not T:
            return NotImplemented
        at = T.at = (lambda k: T.n - 1 - lift(k)) if rev else (lambda k: lift(k))

        def get(k):
            i = at(k)
            if ctx.decide(T.kind(i) == 0):
                return '\n'
            if ctx.decide(T.kind(i) == 1):
                return '\t'
            return ('char', T.code(i))
        return SeqObj(T.n, get)
    contract.__doc__ = 'yields the characters of the string' + (' from the last to the first' if rev else '') + '     (proved below)'
    return contract


GL = z3.Function('glyph', I, I, I)


def c_charfont(ctx, buf, ch):
    """requires a font and a character of it; ensures the rows of its glyph     (proved below)"""
    if buf is not ctx.ghost['font'] or not (isinstance(ch, tuple) and ch[0] == 'char'):
        return NotImplemented
    return ctx.mk('list', length=ctx.ghost['h'], view=lambda j: GL(ch[1], lift(j)))


def c_glyph(ctx, a, x, y, pat, s, ps, c):
    """draws the glyph at a place     (counted; proved above)"""
    T, P = ctx.ghost['text'], ctx.ghost['place']
    k = ctx.loops[-1].k
    i = T.at(k)
    b = pre_bmp(ctx, a, 'glyph')
    if b is None:
        return NotImplemented
    X, Y, _ = P.at(k)
    ctx.prove(z3.And(T.kind(i) != 0, T.kind(i) != 1), 'a glyph is drawn for a printable character', 'pre')
    ctx.prove(z3.And(lift(x) == X, lift(y) == Y), 'the glyph is drawn at the place of its character', 'pre')
    ctx.prove(z3.And(lift(s) == P.s, lift(ps) == P.ps, lift(c) == P.c), 'scale, gap and colour are handed on', 'pre')
    j = ctx.fresh('row')
    ok = isinstance(pat, Arr)
    ctx.prove(ok and z3.And(lift(pat.length) == ctx.ghost['h'], z3.Implies(z3.And(j >= 0, j < ctx.ghost['h']), lift(pat.view(j)) == GL(T.code(i), j))), 'the glyph is that of the character', 'pre')
    v = frame_with(ctx, 'drawn')
    v['drawn'] = unlift(lift(v['drawn']) + 1)
    f = byte_view(ctx, ctx.fresh_fun('glyph'))
    e = a.snapshot()

    def view(j):
        if not is_sym(j) and j < b.hdr:
            return e(j)
        t = f(j)
        ctx.fact_once(('gl', t.get_id()), lambda: z3.Implies(lift(j) < b.hdr, t == lift(e(j))))
        return t
    a.set_view(view)


class Place:
    """where the k-th character of the walk is drawn, and how many glyphs precede it"""
    def __init__(self, ctx, x, y, s, ps, sb, c, h, way):
        self.ctx, self.x, self.y, self.s, self.ps, self.c, self.way = ctx, x, y, s, ps, c, way
        self.F = [ctx.fresh_fun(t) for t in ('placex', 'placey', 'count')]
        gap = z3.IntVal(1) if ctx.decide(sb == 0) else sb
        ctx.add_stride(s)
        self.wide, self.tall = 8 * s + gap, lift(ctx.mul(h, s)) + gap
        z = z3.IntVal(0)
        ctx.fact(z3.And(self.F[0](z) == x, self.F[1](z) == y, self.F[2](z) == 0))

    def at(self, k):
        ctx, T = self.ctx, self.ctx.ghost['text']
        k = lift(k)
        px, py, n = (f(k) for f in self.F)
        qx, qy, m = (f(z3.simplify(k + 1)) for f in self.F)
        ctx.keep.append(k)
        nl, tab = T.kind(T.at(k)) == 0, T.kind(T.at(k)) == 1
        w, t = self.wide, self.tall
        if self.way == 'right':
            step = z3.If(nl, z3.And(qx == self.x, qy == py + t), z3.And(qy == py, qx == px + z3.If(tab, 4 * w, w)))
        elif self.way == 'up':
            step = z3.If(nl, z3.And(qx == px + t, qy == self.y), z3.And(qx == px, qy == py - z3.If(tab, 4 * w, w)))
        else:
            step = z3.If(nl, z3.And(qx == px + w, qy == self.y), z3.And(qx == px, qy == py + z3.If(tab, 4 * t, t)))
        ctx.fact_once(('place', k.get_id()), z3.And(step, m == n + z3.If(z3.Or(nl, tab), 0, 1)))
        return px, py, n


class TextSpec(LoopSpec):
    def inv(self, L, k):
        ctx = L.ctx
        v, d = frame_with(ctx, 'x', 'y'), frame_with(ctx, 'drawn')
        if v is None or d is None:
            return []
        X, Y, n = ctx.ghost['place'].at(k)
        return [lift(v['x']) == X, lift(v['y']) == Y, lift(d['drawn']) == n]

    def arr(self, L, a, k):
        b = a.bmp
        return ArrSpec(below=b.hdr) if b is not None else None


def p_string(f, way, bits=24):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x, y, s, ps, sb, c, h = z3.Ints('x y scale pixspace gap color height')
        T = ctx.ghost['text'] = Text()
        ctx.fact(z3.And(T.n >= 0, s >= 1, ps >= 0, sb >= 0, c >= 0, c < 1 << bits, h >= 0, h < 256))
        FB = z3.Function('font', I, I)
        fl = z3.Int('fontlen')
        ctx.fact(fl >= 1)
        font = ctx.ghost['font'] = ctx.mk('list', length=fl, view=lambda j: h if not is_sym(j) and j == 0 else FB(lift(j)))
        ctx.ghost['h'] = h
        P = ctx.ghost['place'] = Place(ctx, x, y, s, ps, sb, c, h, way)
        ctx.specs.append(lambda L: TextSpec())
        n = ctx.call(placed, [f, a, x, y, T, s, ps, sb, c, font])
        ctx.prove(lift(n) == P.at(T.n)[2], 'one glyph for every printable character')
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
    return run


def rows_of(f, font, ch):
    """drawn: the number of rows so far"""
    drawn = 0
    for row in f(font, ch):
        row_seen(drawn, row)
        drawn += 1
    return drawn


def row_seen(n, row):
    pass


def c_row_seen(ctx, n, row):
    ctx.prove(lift(row) == ctx.ghost['FB'](lift(n) + lift(ctx.ghost['first'])), 'the rows of the character, in order', 'pre')


class Rows(LoopSpec):
    def inv(self, L, k):
        d = frame_with(L.ctx, 'drawn')
        return [] if d is None else [lift(d['drawn']) == lift(k)]


def fontof(ctx):
    fl, h, code = z3.Ints('fontlen height code')
    FB = ctx.ghost['FB'] = z3.Function('font', I, I)
    ctx.fact(z3.And(h >= 1, h < 256, code >= 0))
    ctx.pos(h, code)
    ctx.fact(fl > lift(ctx.mul(code, h)) + h)
    ctx.ghost['first'] = unlift(lift(ctx.mul(code, h)) + 1)
    return ctx.mk('list', length=fl, view=lambda j: h if not is_sym(j) and j == 0 else FB(lift(j))), h, code


def p_fontrows(ctx):
    font, h, code = fontof(ctx)
    ctx.specs.append(lambda L: Rows())
    n = ctx.call(rows_of, [F.itergetcharfromfontbuf, font, ('char', code)])
    ctx.prove(lift(n) == h, 'as many rows as the font is high')


def c_fontrows(ctx, font, ch):
    """yields the rows of the glyph: entries code * height + 1 onwards     (proved below)"""
    h = ctx.ghost['h']
    return SeqObj(h, lambda j: ctx.ghost['FB'](lift(j) + lift(ctx.ghost['first'])))


def p_charfont(ctx):
    font, h, code = fontof(ctx)
    ctx.ghost['h'] = h
    r = ctx.call(F.getcharfont, [font, ('char', code)])
    ctx.prove(isinstance(r, Arr) and lift(r.length) == h, 'as many rows as the font is high')
    j = ctx.fresh('j')
    ctx.prove(z3.Implies(z3.And(j >= 0, j < h), lift(r.view(j)) == ctx.ghost['FB'](lift(j) + lift(ctx.ghost['first']))), 'the rows of the character')


CT, TX = 'pythonbmp.chartools', 'pythonbmp.fonts'
STRINGS = {  # function: glyph function, last character first, direction
    'plotstring': ('plot8bitpattern', False, 'right'), 'plotitalicstring': ('plotitalic8bitpattern', False, 'right'), 'plotstringasdots': ('plot8bitpatternasdots', False, 'right'),
    'plotitalicstringasdots': ('plotitalic8bitpatternasdots', False, 'right'), 'plotreversestring': ('plotrotated8bitpattern', True, 'right'),
    'plotreversestringasdots': ('plotrotated8bitpatternasdots', True, 'right'), 'plotreverseditalicstring': ('plotreverseditalic8bitpattern', True, 'right'),
    'plotreverseditalicstringasdots': ('plotreverseditalic8bitpatternasdots', True, 'right'), 'plotstringupsidedown': ('plot8bitpatternupsidedown', True, 'right'),
    'plotstringupsidedownasdots': ('plot8bitpatternupsidedownasdots', False, 'right'), 'plotupsidedownitalicstring': ('plotupsidedownitalic8bitpattern', True, 'right'),
    'plotupsidedownitalicstringasdots': ('plotupsidedownitalic8bitpatternasdots', True, 'right'),
    'plotstringsideway': ('plot8bitpatternsideway', False, 'up'), 'plotstringsidewayasdots': ('plot8bitpatternsidewaywithdots', False, 'up'),
    'plotitalicstringsideway': ('plotitalic8bitpatternsideway', False, 'up'), 'plotitalicstringsidewayasdots': ('plotitalic8bitpatternsidewayasdots', False, 'up'),
    'plotstringvertical': ('plot8bitpattern', False, 'down'), 'plotstringverticalasdots': ('plot8bitpatternasdots', False, 'down'),
    'plotitalicstringvertical': ('plotitalic8bitpattern', False, 'down'), 'plotitalicstringverticalasdots': ('plotitalic8bitpatternasdots', False, 'down')}
for _f, (_g, _r, _w) in STRINGS.items():
    PROOFS.append(Proof(_f, [f'BITMAPlib.{_f}', 'BITMAPlib.plotstringfunc' if _w == 'right' else 'BITMAPlib.plotstringsidewayfn' if _w == 'up' else 'BITMAPlib.plotstringverticalwithfn'],
                        p_string(getattr(B, _f), _w), registry={**REG, (LIB, _g): c_glyph, (TX, 'getcharfont'): c_charfont,
                                                                (CT, 'enumletters'): letters(False), (CT, 'enumreverseletters'): letters(True)}, inline_modules=('props.c15',)))
# ---- strings into a new file: proof ------------------------------------------------

def c_textsize(ctx, text):
    """the number of columns (a tab counts four) and lines of the text     (bounded check)"""
    if text is not ctx.ghost['text']:
        return NotImplemented
    return ctx.mk('list', items=list(ctx.ghost['cols']))


def c_back(ctx, a, x1, y1, x2, y2, c):
    """fills the rectangle     (C04)"""
    g = ctx.ghost
    b = pre_bmp(ctx, a, 'filledrect')
    if b is None:
        return NotImplemented
    d = frame_with(ctx, 'drawn')
    ctx.prove(lift(d['drawn']) == 0 and g.get('back') is None, 'the background is painted once and first', 'pre')
    ctx.prove(z3.And(lift(x1) == 0, lift(y1) == 0, lift(x2) == lift(b.w) - 1, lift(y2) == lift(b.h) - 1, lift(c) == g['bg']), 'the background covers the image', 'pre')
    g['back'] = True
    f = byte_view(ctx, ctx.fresh_fun('back'))
    e = a.snapshot()
    a.set_view(lambda j: e(j) if not is_sym(j) and j < b.hdr else f(j))


def c_save(ctx, name, a):
    """writes the bitmap to the file     (C05)"""
    g = ctx.ghost
    d = frame_with(ctx, 'drawn')
    ctx.prove(not g.get('saved') and name == 'out.bmp' and a is g['new'][-1].arr, 'the drawn image is saved, once, in the given file', 'pre')
    ctx.prove(lift(d['drawn']) == g['place'].at(g['text'].n)[2], 'one glyph for every printable character', 'pre')
    ctx.prove(z3.BoolVal(bool(g.get('back'))) == (g['bg'] > 0), 'the background is painted when its colour is not 0', 'pre')
    g['saved'] = True


def c_new_text(ctx, x, y, bits):
    """requires a positive size; ensures a fresh bitmap of that size     (C01)"""
    g = ctx.ghost
    P, (cols, rows) = g['place'], g['cols']
    horizontal = P.way == 'right'
    a = c_newBMP(ctx, x, y, bits)
    if a is NotImplemented:
        return a
    b = newest(ctx)
    b.arr = a
    s, h = g['scale'], g['h']
    slant = z3.If(s > 1, lift(ctx.mul(h, ctx.binop('>>', s, 1))), lift(ctx.binop('>>', h, 1))) if g['italic'] else 0
    wide, tall = (cols, rows) if horizontal else (rows, cols)
    ctx.prove(lift(x) == lift(ctx.mul(unlift(wide), unlift(P.wide))) + 2 * s + slant, 'width: the columns, a margin and room for the slant', 'pre')
    ctx.prove(lift(y) == lift(ctx.mul(unlift(tall), unlift(P.tall))) + 2 * s, 'height: the lines and a margin', 'pre')
    return a


def p_string_file(f, glyph, way, bits):
    def run(ctx):
        g = ctx.ghost
        s, ps, sb, c, h, bg, cols, rows = z3.Ints('scale pixspace gap color height background cols rows')
        T = g['text'] = Text()
        ctx.fact(z3.And(T.n >= 0, s >= 1, ps >= 0, sb >= 0, c >= 0, c < 1 << bits, h >= 1, h < 256, bg >= 0, bg < 1 << bits, cols >= 0, rows >= 1))
        FB = z3.Function('font', I, I)
        fl = z3.Int('fontlen')
        ctx.fact(fl >= 1)
        g['font'] = ctx.mk('list', length=fl, view=lambda j: h if not is_sym(j) and j == 0 else FB(lift(j)))
        g.update(h=h, bg=bg, scale=s, cols=(cols, rows), italic='italic' in glyph)
        P = g['place'] = Place(ctx, s, s, s, ps, sb, c, h, way)
        for n, st in ((cols, P.wide), (rows, P.tall), (cols, P.tall), (rows, P.wide)):
            ctx.pos(unlift(n), unlift(st))
        ctx.ghost['congr'] = True
        ctx.pos(h, ctx.binop('>>', s, 1))
        ctx.specs.append(lambda L: TextSpec())
        ctx.call(placed, [f, 'out.bmp', T, s, ps, sb, c, g['font'], bg, bits])
        ctx.prove(bool(g.get('saved')), 'the image is saved')
    return run


FILES = {  # function: glyph function, last character first, direction
    'plotstring2file': ('plot8bitpattern', False, 'right'), 'plotverticalstring2file': ('plot8bitpattern', False, 'down'), 'plotitalicstring2file': ('plotitalic8bitpattern', False, 'right'),
    'plotverticalitalicstring2file': ('plotitalic8bitpattern', False, 'down'), 'plotreverseditalicstring2file': ('plotreverseditalic8bitpattern', True, 'right'),
    'plotverticalstringasdots2file': ('plot8bitpatternasdots', False, 'down'), 'plotverticalitalicstringasdots2file': ('plotitalic8bitpatternasdots', False, 'down'),
    'plotstringasdots2file': ('plot8bitpatternasdots', False, 'right'), 'plotitalicstringasdots2file': ('plotitalic8bitpatternasdots', False, 'right'),
    'plotreversedstring2file': ('plotrotated8bitpattern', True, 'right'), 'plotreversedstringasdots2file': ('plotrotated8bitpatternasdots', True, 'right'),
    'plotupsidedownstring2file': ('plot8bitpatternupsidedown', True, 'right'), 'plotupsidedownstringasdots2file': ('plot8bitpatternupsidedownasdots', True, 'right')}
for _f, (_g, _r, _w) in FILES.items():
    for _b in (24, 1):
        PROOFS.append(Proof(f'{_f}, {_b} bit', [f'BITMAPlib.{_f}', 'BITMAPlib.plotstringfunc2file' if _w == 'right' else 'BITMAPlib.plotstringverticalwithfn2file'],
                            p_string_file(getattr(B, _f), _g, _w, _b),
                            registry={**REG, (LIB, _g): c_glyph, (TX, 'getcharfont'): c_charfont, (CT, 'enumletters'): letters(False), (CT, 'enumreverseletters'): letters(True),
                                      (LIB, 'newBMP'): c_new_text, (LIB, 'filledrect'): c_back, ('pythonbmp.textgraphics', 'computetextrowandcolcnt'): c_textsize,
                                      (LIB, 'saveBMP'): c_save}, inline_modules=('props.c15',), thorough_only=_b != 24))
PROOFS += [Proof('rows of a character', ['fonts.itergetcharfromfontbuf'], p_fontrows, registry={('props.c15', 'row_seen'): c_row_seen}, inline_modules=('props.c15',)),
           Proof('glyph of a character', ['fonts.getcharfont'], p_charfont, registry={(TX, 'itergetcharfromfontbuf'): c_fontrows})]


def letters_of(f, st):
    """drawn: the number of characters so far"""
    drawn = 0
    for c in f(st):
        letter_seen(drawn, c)
        drawn += 1
    return drawn


def letter_seen(n, c):
    pass


def p_letters(f, rev):
    def run(ctx):
        n, S = z3.Int('len'), z3.Function('text', I, I)
        ctx.fact(n >= 0)
        st = ctx.mk('list', length=n, view=lambda j: S(lift(j)))

        def seen(c_, k, c):
            i = n - 1 - lift(k) if rev else lift(k)
            c_.prove(isinstance(c, Arr) and z3.And(lift(c.length) == 1, lift(c.view(0)) == S(i)), 'one character at a time, in order', 'pre')
        ctx.ghost['seen'] = seen
        ctx.specs.append(lambda L: Letters(n, rev))
        m = ctx.call(letters_of, [f, st])
        ctx.prove(lift(m) == n, 'every character once')
    return run


class Letters(LoopSpec):
    def __init__(self, n, rev):
        self.n, self.rev = n, rev

    def inv(self, L, k):
        d = frame_with(L.ctx, 'drawn')
        out = [] if d is None else [lift(d['drawn']) == lift(k)]
        v = frame_with(L.ctx, 'i', 'st')
        if self.rev and v is not None:
            out += [lift(v['i']) == self.n - 1 - lift(k), lift(v['i']) >= -1]
        return out


def c_letter_seen(ctx, k, c):
    ctx.ghost['seen'](ctx, k, c)


with silent():
    from pythonbmp import chartools as CH
for _n, _r in (('enumletters', False), ('enumreverseletters', True)):
    PROOFS.append(Proof(_n, [f'chartools.{_n}'], p_letters(getattr(CH, _n), _r), registry={('props.c15', 'letter_seen'): c_letter_seen}, inline_modules=('props.c15',)))

# ---- concrete oracle (bounded) ----------------------------------------------------

class Sheet:
    """what the image must hold: cells painted by the reference"""
    def __init__(self, g0, bits, pal):
        self.g = [r[:] for r in g0]
        self.h, self.w, self.bits, self.pal = len(g0), len(g0[0]), bits, pal
        self.mark = [[0] * self.w for _ in g0]      # for 4-bit spans: where cells lie

    def inside(self, x, y):
        return 0 <= x < self.w and 0 <= y < self.h

    def dot(self, x, y, c):
        if self.inside(x, y):
            self.g[y][x] = c
            self.mark[y][x] = 0

    def rect(self, x1, y1, x2, y2, c):
        if self.inside(x1, y1) and self.inside(x2, y2):
            v = ('near', c) if self.bits == 8 else c
            for y in range(y1, y2 + 1):
                self.g[y][x1:x2 + 1] = [v] * (x2 + 1 - x1)
                if self.bits == 4:
                    self.mark[y][x1] = self.mark[y][x2] = 1
                    for x in (x1 - 1, x2 + 1):
                        if self.inside(x, y):
                            self.mark[y][x] = 1

    def disc(self, x, y, e, c):
        for u, v in disc(e):
            if self.inside(x + u, y + v):
                self.g[y + v][x + u] = c
        if self.bits == 4:
            for v in {q for _, q in disc(e)}:
                us = [u for u, q in disc(e) if q == v]
                for u in (min(us) - 1, min(us), max(us), max(us) + 1):
                    if self.inside(x + u, y + v):
                        self.mark[y + v][x + u] = 1
                if 0 <= y + v < self.h:
                    self.mark[y + v][self.w - 1] = self.mark[y + v][0] = 1

    def cell(self, x, y, e, c, dots):
        if e == 0:
            self.dot(x, y, c)
        elif dots:
            self.disc(x, y, e, c)
        else:
            self.rect(x, y, x + e, y + e, c)

    def same(self, v, e):
        if isinstance(e, tuple):
            c = e[1]
            d = lambda p: (p[0] - (c >> 16)) ** 2 + (p[1] - (c >> 8 & 255)) ** 2 + (p[2] - (c & 255)) ** 2
            return d(self.pal[v]) == min(map(d, self.pal))
        return v == e

    def differs(self, b):
        g = grid(b)
        for y in range(self.h):
            for x in range(self.w):
                if not self.mark[y][x] and not self.same(g[y][x], self.g[y][x]):
                    return x, y, g[y][x], self.g[y][x]
        return None


@functools.lru_cache(None)
def disc(e):
    """the disc drawn for a square of side e, on a large empty image (its shape: C14)"""
    n = 3 * e + 8
    b = mkbmp(n, n, 8)
    B.plotcircinsqr(b, e + 2, e + 2, e, 1)
    out = frozenset((x - e - 2, y - e - 2) for y in range(n) for x in range(n) if pix(b, x, y))
    if any(not (0 <= u <= e and 0 <= v <= e) for u, v in out) or not out or {(u, v) for u, v in out} != {(v, u) for u, v in out}:
        raise Violation(f'plotcircinsqr with side {e} draws {sorted(out)}', dict(side=e))
    return out


def starts(form, x, y, s, n, k):
    """position of the first cell of row k"""
    h = s >> 1
    if form in ('italic', 'rotateditalic'):
        return (x + h * (n - k) if s > 1 else x + n // 2 - ((y + k) // 2 - y // 2)), y + k * s
    if form == 'upsideitalic':
        return (x - h * k if s > 1 else x - ((y + k) // 2 - y // 2)), y + k * s
    if form == 'sidewayitalic':
        return x + k * s, (y + h * k if s > 1 else y - ((x + k) // 2 - x // 2))
    return (x + k * s, y) if form == 'sideway' else (x, y + k * s)


def ref_glyph(sh, x, y, pat, s, ps, c, form, dots, lost):
    e = max(s - 1 - ps, 0)
    n = len(pat)
    for k in range(n):
        t = pat[n - 1 - k if 'upside' in form else k]
        X, Y = starts(form, x, y, s, n, k)
        for j in range(8):
            m = 1 << j if 'rotated' in form else 128 >> j
            if t & m and not (lost and m == 1):
                sh.cell(X if 'sideway' in form else X + j * s, Y - j * s if 'sideway' in form else Y, e, c if isinstance(c, int) else c[k % len(c)], dots)


def ref_string(sh, x, y, text, s, ps, sb, c, font, glyph, rev, way, lost):
    form, dots = (FORMS[glyph], False) if glyph in FORMS else (DOTS[glyph], True)
    sb = sb or 1
    h = font[0]
    wide, tall = 8 * s + sb, h * s + sb
    X, Y = x, y
    for ch in (reversed(text) if rev else text):
        step = 4 if ch == '\t' else 1
        if ch == '\n':
            X, Y = (x, Y + tall) if way == 'right' else (X + tall, y) if way == 'up' else (X + wide, y)
            continue
        if ch != '\t':
            ref_glyph(sh, X, Y, [font[1 + ord(ch) * h + i] for i in range(h)], s, ps, c, form, dots, lost)
        X, Y = (X + step * wide, Y) if way == 'right' else (X, Y - step * wide) if way == 'up' else (X, Y + step * tall)


FONTS = [F.font8x8, F.font8x8thin, F.font8x14, F.font8x14thin, F.font8x8sanserif, F.font8x14sanserif]
REVERSED = [dict()]


def compare(X, b0, b, what, inputs, draw, form):
    w, h, bits = geom(b0)
    e = wf(b, w, h, bits)
    if e:
        raise Violation(f'{what}: the result is not a well-formed bitmap of the same geometry: {e}', inputs)
    if b[:HDR[bits]] != b0[:HDR[bits]]:
        raise Violation(f'{what}: the header or the palette changed', inputs)
    g0, pal = grid(b0), palette(b0)

    def sheet(lost):
        s = Sheet(g0, bits, pal)
        draw(s, lost)
        return s.differs(b)
    d = sheet(False)
    if d is None:
        return
    if 'rotated' in form and sheet(True) is None:
        X.known.append(dict(key='reversed-glyph-column', message=f'{what}: the reversed glyph lost its first column (bit 0 of its rows)', inputs=inputs))
        return
    raise Violation(f'{what}: pixel ({d[0]},{d[1]}) is {d[2]}, expected {d[3]}', inputs)


def text_of(g):
    n = g.choice((0, 1, 1, 2, 3, 5))
    if g.random() < .3:     # something behind a control character
        return ''.join(chr(g.randrange(33, 127)) for _ in range(g.choice((0, 1)))) + g.choice(('\n', '\t', '\n\n', '\t\n')) + chr(g.randrange(33, 127))
    return ''.join(g.choice('\n\t') if g.random() < 0.15 else chr(g.choice((g.randrange(256), g.randrange(33, 127)))) for _ in range(n))


def a_glyph(X, g, name, bits, form, dots):
    w, h = (g.randint(1, 40), g.randint(1, 40)) if g.random() < .7 else (g.randint(60, 120), g.randint(60, 120))
    s = g.choice((1, 1, 2, 3, 4, 5, 7))
    ps = g.choice((0, 0, 1, 2, s))
    x, y = g.randint(-20, w + 10), g.randint(-20, h + 20)
    pat = [g.choice((0, 255, g.randrange(256), g.randrange(256), g.randrange(256), g.randrange(256))) for _ in range(g.choice((1, 2, 3, 8, 14)))]
    c = g.randrange(1 << bits)
    if name in SEVERAL and g.random() < .4:
        c = g.choice((list, tuple))(g.randrange(1 << bits) for _ in range(g.choice((1, 2, 3, 5))))
    b0 = mkbmp(w, h, bits, g)
    b = b0[:]
    what = f'{name}({x}, {y}, {pat}, {s}, {ps}, {c}) on a {w}x{h} image at {bits} bits'
    inputs = dict(op=name, bmp=desc(b0), x=x, y=y, pattern=pat, scale=s, pixspace=ps, color=c)
    must(call(getattr(B, name), b, x, y, pat, s, ps, c), what, inputs)
    compare(X, b0, b, what, inputs, lambda sh, lost: ref_glyph(sh, x, y, pat, s, ps, c, form, dots, lost), form)


def a_string(X, g, name, bits, glyph, rev, way):
    form = (FORMS | DOTS)[glyph] if glyph in FORMS else DOTS[glyph]
    w, h = (g.randint(1, 40), g.randint(1, 40)) if g.random() < .3 else (g.randint(50, 90), g.randint(50, 90)) if g.random() < .7 else (g.randint(60, 140), g.randint(60, 140))
    s = g.choice((1, 1, 1, 1, 2, 3, 4))
    ps, sb = g.choice((0, 0, 1, 2)), g.choice((0, 1, 2, 5))
    x, y = g.randint(-10, w + 4), g.randint(-10, h + 4)
    if g.random() < .6:     # most of the text in the image
        x, y = g.randint(0, 9), (h - 1 - g.randint(0, 9) if way == 'up' else g.randint(0, 9))
    text, c, font = text_of(g), g.randrange(1 << bits), g.choice(FONTS)
    b0 = mkbmp(w, h, bits, g)
    b = b0[:]
    what = f'{name}({x}, {y}, {text!r}, {s}, {ps}, {sb}, {c}, font of height {font[0]}) on a {w}x{h} image at {bits} bits'
    inputs = dict(op=name, bmp=desc(b0), x=x, y=y, text=text, scale=s, pixspace=ps, gap=sb, color=c, font=FONTS.index(font))
    must(call(getattr(B, name), b, x, y, text, s, ps, sb, c, font), what, inputs)
    compare(X, b0, b, what, inputs, lambda sh, lost: ref_string(sh, x, y, text, s, ps, sb, c, font, glyph, rev, way, lost), form)


def a_file(X, g, name, bits, glyph, rev, way, tmp):
    form = FORMS[glyph] if glyph in FORMS else DOTS[glyph]
    s = g.choice((1, 1, 2, 3))
    ps, sb = g.choice((0, 0, 1)), g.choice((0, 1, 3))
    text, c, font, bg = text_of(g), g.randrange(1 << bits), g.choice(FONTS), g.choice((0, g.randrange(1 << bits)))
    p = os.path.join(tmp, 't.bmp')
    what = f'{name}({text!r}, {s}, {ps}, {sb}, {c}, font of height {font[0]}, {bg}, {bits})'
    inputs = dict(op=name, text=text, scale=s, pixspace=ps, gap=sb, color=c, font=FONTS.index(font), background=bg, bits=bits)
    if os.path.exists(p):
        os.remove(p)
    must(call(getattr(B, name), p, text, s, ps, sb, c, font, bg, bits), what, inputs)
    with open(p, 'rb') as f:
        b = array('B', f.read())
    lines = text.replace('\t', '    ').split('\n')
    cols, rows = max(map(len, lines)), len(lines)
    hf = font[0]
    wide, tall = 8 * s + (sb or 1), hf * s + (sb or 1)
    slant = (hf * (s >> 1) if s > 1 else hf >> 1) if 'italic' in glyph else 0
    w, h = (cols * wide, rows * tall) if way == 'right' else (rows * wide, cols * tall)
    w, h = w + 2 * s + slant, h + 2 * s
    e = wf(b, w, h, bits)
    if e:
        raise Violation(f'{what}: the file is not a bitmap of {w}x{h} at {bits} bits: {e}', inputs)
    b0 = mkbmp(w, h, bits, pal=palette(b))
    b0[:HDR[bits]] = b[:HDR[bits]]

    def draw(sh, lost):
        if bg:
            sh.rect(0, 0, w - 1, h - 1, bg)
        ref_string(sh, s, s, text, s, ps, sb, c, font, glyph, rev, way, lost)
    compare(X, b0, b, what, inputs, draw, form)


def in_turn(X, one, table):
    """every entry of the table again and again, beginning anywhere"""
    names = list(table)
    k = X.rng.randrange(len(names))
    while X.more():
        name = names[k % len(names)]
        k += 1
        bits = X.rng.choice(BITS)
        one(name, bits)
        X.case((name, bits, X.rng.random()), f'{name} at {bits} bits')


def b_glyphs(X):
    in_turn(X, lambda n, bits: a_glyph(X, X.rng, n, bits, FORMS[n] if n in FORMS else DOTS[n], n in DOTS), [*FORMS, *DOTS])


def b_strings(X):
    in_turn(X, lambda n, bits: a_string(X, X.rng, n, bits, *STRINGS[n]), STRINGS)


def b_files(X):
    tmp = tempfile.mkdtemp()
    try:
        in_turn(X, lambda n, bits: a_file(X, X.rng, n, bits, *FILES[n], tmp), FILES)
    finally:
        shutil.rmtree(tmp)


BOUNDED = [Bounded('glyphs, concrete', b_glyphs, 'random images of all depths up to 120 pixels a side, patterns of up to 14 rows, scales up to 7',
                   [f'BITMAPlib.{n}' for n in [*FORMS, *DOTS]], quick=25, thorough=200),
           Bounded('strings, concrete', b_strings, 'random images of all depths up to 140 pixels a side, strings of up to 5 characters with newlines and tabs, scales up to 4, all six fonts',
                   [f'BITMAPlib.{n}' for n in STRINGS], quick=35, thorough=250),
           Bounded('text files, concrete', b_files, 'the same strings in the file forms', [f'BITMAPlib.{n}' for n in FILES] + ['textgraphics.computetextrowandcolcnt'], quick=30, thorough=200)]
ASSUMPTIONS = ['partial correctness: termination is not proved',
               'glyph proofs at 4 bits: only glyphs whose cells are single pixels (scaled cells use horiline, which has a recorded finding at 4 bits); the bounded check covers the others away from the ends of the cells',
               'the shape of a dot (plotcircinsqr) is a function of its side alone, taken from C14; size of a text (computetextrowandcolcnt) is checked by the bounded oracle only',
               'patterns are lists of bytes; scale at least 1, gaps at least 0, colours of the depth; several colours: at least one',
               'reversed glyphs are proved up to the recorded finding: bit 0 of every row is lost']


class Nothing:
    def __init__(self):
        self.known = []


def search(name):
    """replay: look for a failing call of the same function on the real code"""
    def replay(i):
        g = random.Random(5)
        end = time.time() + 5
        tmp = tempfile.mkdtemp()
        try:
            while time.time() < end:
                bits = g.choice(BITS)
                try:
                    if name in FORMS:
                        a_glyph(Nothing(), g, name, bits, FORMS[name], False)
                    elif name in DOTS:
                        a_glyph(Nothing(), g, name, bits, DOTS[name], True)
                    elif name in STRINGS:
                        a_string(Nothing(), g, name, bits, *STRINGS[name])
                    elif name in FILES:
                        a_file(Nothing(), g, name, bits, *FILES[name], tmp)
                    else:
                        return None
                except Violation as e:
                    i.clear()
                    i.update(e.inputs)
                    return str(e)
        finally:
            shutil.rmtree(tmp)
        return None
    return replay


for _p in PROOFS:
    _p.replay = search(_p.name.split(',')[0])


