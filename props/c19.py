"""C19: pixel filters change exactly their region by their formula."""
import random
from fractions import Fraction as Fr
from .common import *
from .contracts import *
import pythonbmp.colors as C
PROPERTY = 'C19'
ASSUMPTIONS = ['floating-point numbers are treated as real numbers in the proofs; the concrete checks allow one unit of rounding',
               'x ** gamma is an unspecified function of its arguments, positive for positive x and at most 1 for 0 < x <= 1 and gamma > 0',
               'filter factors lie in 0..1, threshold limits in 0..255, gamma is positive: outside these the results do not fit in a byte',
               'the colour filter leaves the right-most column of its region as it was (recorded finding of C12 and C19): its proof is about the other columns']
CM = 'pythonbmp.colors'


# ---- formulas: channel ch (0 blue, 1 green, 2 red) of a pixel with bytes p -----------

def trunc(ctx, t):
    return lift(ctx.call(int, [t]))


def times(ctx, a, b):
    return lift(ctx.binop('*', a, b))


def R(t):
    t = lift(t)
    return z3.ToReal(t) if t.sort() == I else t


def biggest(p):
    m = p[0]
    for v in p[1:]:
        m = z3.If(v > m, v, m)
    return m


def near(out, v):
    """rounding to an integer, ties either way"""
    out = z3.ToReal(lift(out))
    return z3.And(2 * out <= 2 * v + 1, 2 * out >= 2 * v - 1)


def f_mono(ctx, ch, p, par, out):
    return lift(out) == (p[0] + p[1] + p[2]) / 3


def f_bright(ctx, ch, p, par, out):
    v = times(ctx, p[ch], 1 + R(par) / 100)
    return z3.And(lift(out) >= 0, lift(out) <= 255, z3.Or(near(out, v), z3.And(lift(out) == 255, v >= 255), z3.And(lift(out) == 0, v <= 0)))


def f_color(ctx, ch, p, par, out):
    return near(out, times(ctx, p[ch], par[2 - ch]))


def abstract(name):
    """the filter as an unspecified function of the three bytes, the channel and the parameter"""
    def F(ch, p, par):
        return z3.Function('filter_' + name, *[I] * 5)(lift(ch), *[lift(q) for q in p])
    F.anych = True
    return F


# ---- row buffers ---------------------------------------------------------------

def rowbuf(ctx):
    n = z3.Int('n')
    ctx.fact(n >= 1)
    v = byte_view(ctx, z3.Function('buf', I, I))
    return ctx.mk('B', length=3 * n, view=v), v, n


def by_pixel(v, F, par):
    """byte j of the filtered row"""
    def f(j):
        j = lift(j)
        s = 3 * (j / 3)
        p = [lift(v(unlift(s + i))) for i in range(3)]
        ch = j % 3
        if getattr(F, 'anych', False):
            return unlift(lift(F(ch, p, par)))
        return unlift(z3.If(ch == 0, lift(F(0, p, par)), z3.If(ch == 1, lift(F(1, p, par)), lift(F(2, p, par)))))
    return f


def p_buffer(fn, F, par, inplace, last=0):
    """par(ctx) -> (argument, its terms); last: number of pixels at the end left out of the claim"""
    def run(ctx):
        a, v, n = rowbuf(ctx)
        arg, t = par(ctx)
        r = ctx.call(fn, [a] + ([] if arg is None else [arg]))
        out = a if inplace else r
        ctx.prove(isinstance(out, Arr) and out.kind == 'B', 'a byte array')
        ctx.prove(eqv(out.length, 3 * n), 'same length')
        i = z3.Int('i')
        ctx.fact(z3.And(i >= 0, i < n - last))
        p = [lift(v(unlift(3 * i + k))) for k in range(3)]
        for ch in range(3):
            ctx.prove(F(ctx, ch, p, t, out.view(unlift(3 * i + ch))), f'every pixel follows the formula of {fn.__name__}')
    return run


class Pixels(LoopSpec):
    """the first k pixels of the row are filtered"""
    def __init__(self, F, inv=None):
        self.F, self.i = F, inv

    def inv(self, L, k):
        return self.i(L, lift(k)) if self.i else []

    def arr(self, L, a, k):
        if a.kind != 'B':
            return None
        e = L.entry(a)
        f = by_pixel(e, self.F, None)
        return ArrSpec(view=lambda j: unlift(z3.If(lift(j) < 3 * lift(k), lift(f(j)), lift(e(j)))))


def scaled(ctx, num, lum, p):
    """p * (num / lum) cut to an integer, with what makes it fit in a byte: p <= lum, so p * (num / lum) <= num"""
    q = lift(ctx.binop('/', num, lum))
    ctx.pos(q, R(lum) - R(p))
    return trunc(ctx, times(ctx, q, R(p)))


def p_threshold(ctx):
    ctx.ghost['congr'] = True
    a, v, n = rowbuf(ctx)
    lo, hi = z3.Ints('lo hi')
    ctx.fact(z3.And(lo >= 0, lo <= 255, hi >= 0, hi <= 255))
    l, h = (lo, hi) if ctx.decide(lo <= hi) else (hi, lo)

    def F(ch, p, par):
        m = biggest(p)
        lum = z3.If(m > 0, m, 1)
        return z3.If(z3.And(m > 0, m > h), scaled(ctx, h, lum, p[ch]), z3.If(z3.And(m > 0, m < l), scaled(ctx, l, lum, p[ch]), p[ch]))

    def inv(L, k):
        e = frame_with(L.ctx, 'lummin', 'lummax')
        if e is None:
            return []
        if is_sym(k):
            p = [lift(v(unlift(3 * k + i))) for i in range(3)]
            for ch in range(3):
                F(ch, p, None)
        x, y = lift(e['lummin']), lift(e['lummax'])
        return [z3.Or(z3.And(x == lo, y == hi), z3.And(x == l, y == h))]
    ctx.specs.append(lambda L: Pixels(F, inv))
    r = ctx.call(C.applythresholdadjtoBGRbuf, [a, (lo, hi)])
    ctx.prove(eqv(r.length, 3 * n), 'same length')
    i = z3.Int('i')
    ctx.fact(z3.And(i >= 0, i < n))
    p = [lift(v(unlift(3 * i + k))) for k in range(3)]
    for ch in range(3):
        ctx.prove(lift(r.view(unlift(3 * i + ch))) == lift(F(ch, p, None)), 'every pixel follows the threshold formula')


def p_gamma(ctx):
    ctx.ghost['congr'] = True
    a, v, n = rowbuf(ctx)
    g = z3.Real('gamma')
    ctx.fact(g > 0)
    ctx.ghost['pow'] = lambda x, y, r: z3.And(z3.Implies(R(x) > 0, r > 0), z3.Implies(z3.And(R(x) > 0, R(x) <= 1, R(y) > 0), r <= 1))

    def F(ch, p, par):
        m = biggest(p)
        lum = z3.If(m == 0, 1, m)
        q = lift(ctx.binop('**', R(lum) / 255, g))
        return scaled(ctx, trunc(ctx, q * 255), lum, p[ch])

    def inv(L, k):
        if is_sym(k):
            p = [lift(v(unlift(3 * k + i))) for i in range(3)]
            for ch in range(3):
                F(ch, p, None)
        return []
    ctx.specs.append(lambda L: Pixels(F, inv))
    ctx.call(C.applygammaBGRbuf, [a, g])
    ctx.prove(eqv(a.length, 3 * n), 'same length')
    i = z3.Int('i')
    ctx.fact(z3.And(i >= 0, i < n))
    p = [lift(v(unlift(3 * i + k))) for k in range(3)]
    for ch in range(3):
        ctx.prove(lift(a.view(unlift(3 * i + ch))) == lift(F(ch, p, None)), 'every pixel follows the gamma formula')


# ---- regions -------------------------------------------------------------------

def filter_contract(name, inplace, F=None):
    """ensures every pixel of the row is replaced by the filter's function of its bytes     (proved above, C19)"""
    F = F or abstract(name)

    def c(ctx, buf, *par):
        if not isinstance(buf, Arr):
            return NotImplemented
        ctx.prove(lift(buf.length) % 3 == 0, f'{name} precondition: whole pixels at {ctx.where()}', 'pre')
        v = buf.snapshot()

        def view(j):
            t = lift(by_pixel(v, F, par)(j))
            ctx.fact_once(('flt', t.get_id()), z3.And(t >= 0, t <= 255))
            ctx.keep.append(t)
            return unlift(t)
        if inplace:
            buf.set_view(view)
            return None
        return ctx.mk('B', length=buf.length, view=view)
    return c


class FilterRows(LoopSpec):
    """rows r1 .. r1+k-1 of the byte columns c1 .. c1+cn-1 are filtered; free: their content is not claimed"""
    def __init__(self, b, r1, c1, cn, F, free=False):
        self.p = (b, r1, c1, cn, F, free)

    def arr(self, L, a, k):
        b, r1, c1, cn, F, free = self.p
        if a.bmp is not b:
            return None
        ctx, e = L.ctx, L.entry(a)
        k = lift(k)

        def fn(row, col, j):
            ins = z3.And(row >= r1, row < r1 + k, col >= c1, col < c1 + cn)
            s = 3 * (col / 3)
            p = [lift(bmp_at(ctx, b, e, row, s + i)) for i in range(3)]
            ch = col % 3
            return z3.If(ins, lift(F(ch, p, None)), lift(e(j)))
        return ArrSpec(view=rcview(ctx, b, e, fn))


def p_region(fn, name, args, image=False):
    F = abstract(name)

    def run(ctx):
        a, b = sym_bmp(ctx, 24)
        ctx.ghost['b'] = b
        if image:
            reg = (z3.IntVal(0), z3.IntVal(0), lift(b.w) - 1, lift(b.h) - 1)
            call_args = []
        else:
            call_args, reg = region(ctx, b, False)
        X1, Y1, X2, Y2 = reg
        ctx.specs.append(lambda L: FilterRows(b, lift(b.h) - 1 - Y2, *bytecols(b, X1, X2), F))
        ctx.call(fn, [a, *call_args, *args])
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
        x, y = z3.Ints('px py')
        ctx.fact(b.inside(x, y))
        o = lift(b.off(ctx, x, y))
        p = [lift(b.base(unlift(o + i))) for i in range(3)]
        for ch in range(3):
            ctx.prove(lift(a.view(unlift(o + ch))) == z3.If(inrect(x, y, *reg), lift(F(ch, p, None)), p[ch]), 'pixels inside filtered, pixels outside unchanged')
    return run


class FreeRows(LoopSpec):
    """bytes outside the byte columns and rows of the region are as they were"""
    def __init__(self, b, rows, cols):
        self.p = (b, rows, cols)

    def arr(self, L, a, k):
        b, rows, cols = self.p
        if a.bmp is not b:
            return None
        ctx, e = L.ctx, L.entry(a)

        def rel(j, v):
            row, col = ctx.rc(b, j)
            row, col = lift(row), lift(col)
            return z3.Or(z3.And(lift(j) >= b.hdr, row >= rows[0], row <= rows[1], col >= cols[0], col <= cols[1]), lift(v) == lift(e(j)))
        return ArrSpec(rel=rel, below=b.hdr)


def p_grad(fn, image=False):
    def run(ctx):
        a, b = sym_bmp(ctx, 24)
        ctx.ghost['b'] = b
        l0, l1 = z3.Reals('l0 l1')
        if image:
            reg = (z3.IntVal(0), z3.IntVal(0), lift(b.w) - 1, lift(b.h) - 1)
            args = []
        else:
            args, reg = region(ctx, b, False)
        X1, Y1, X2, Y2 = reg
        ctx.specs.append(lambda L: FreeRows(b, (lift(b.h) - 1 - Y2, lift(b.h) - 1 - Y1), (3 * X1, 3 * X2 + 2)))
        ctx.call(fn, [a, *args, (l0, l1)])
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
        x, y = z3.Ints('px py')
        ctx.fact(z3.And(b.inside(x, y), z3.Not(inrect(x, y, *reg))))
        o = lift(b.off(ctx, x, y))
        for ch in range(3):
            ctx.prove(lift(a.view(unlift(o + ch))) == lift(b.base(unlift(o + ch))), 'pixels outside the gradient region unchanged')
    return run


def c_bright_any(ctx, buf, par):
    """requires bytes; ensures a byte array of the same length     (proved: C19)"""
    if not isinstance(buf, Arr):
        return NotImplemented
    v = byte_view(ctx, ctx.fresh_fun('br'))
    return ctx.mk('B', length=buf.length, view=v)


# ---- concrete oracle ------------------------------------------------------------

def formula(kind, p, par):
    """exact values of blue, green, red of the filtered pixel p = (b, g, r)"""
    if kind == 'mono':
        m = sum(p) // 3
        return [m] * 3
    if kind == 'bright':
        return [max(Fr(0), min(Fr(255), c * (1 + Fr(par) / 100))) for c in p]
    if kind == 'color':
        return [c * Fr(par[2 - i]) for i, c in enumerate(p)]
    lum = max(p)
    if kind == 'threshold':
        lo, hi = sorted(par)
        t = max(lo, min(hi, lum))
        return [Fr(c * t, lum) if lum else 0 for c in p]
    lum = lum or 1
    t = int((lum / 255) ** par * 255)
    return [Fr(c * t, lum) for c in p]


FORMS = {'mono': (B.monofilterto24bitregion, B.monofilterto24bitimage), 'bright': (B.brightnesseadjto24bitregion, B.brightnesseadjto24bitimage),
         'color': (B.colorfilterto24bitregion, B.colorfilterto24bitimage), 'threshold': (B.thresholdadjto24bitregion, B.thresholdadjto24bitimage),
         'gamma': (B.gammaadjto24bitregion, B.gammaadjto24bitimage)}


def conc(b0, kind, reg, par, image=False, known=None):
    w, h, bits = geom(b0)
    inputs = dict(bmp=desc(b0), filter=kind, region=reg, param=par)
    fn = FORMS[kind][1 if image else 0]
    args = ([] if image else list(reg)) + ([] if par is None else [par])
    b = b0[:]
    must(call(fn, b, *args), fn.__name__, inputs)
    if image:
        reg = (0, 0, w - 1, h - 1)
    X1, X2 = sorted((reg[0], reg[2]))
    Y1, Y2 = sorted((reg[1], reg[3]))
    what = f'{fn.__name__}{tuple(args)} on a {w}x{h} image'
    e = wf(b, w, h, 24)
    if e:
        raise Violation(f'{what}: malformed: {e}', inputs)
    if b[:54] != b0[:54]:
        raise Violation(f'{what}: the header changed', inputs)
    g0, g = grid(b0), grid(b)
    for y in range(h):
        for x in range(w):
            p, q = g0[y][x], g[y][x]
            if not (X1 <= x <= X2 and Y1 <= y <= Y2):
                if p != q:
                    raise Violation(f'{what}: pixel ({x},{y}) outside the region changed from {p:06x} to {q:06x}', inputs)
                continue
            bp, bq = [[v >> s & 255 for s in (0, 8, 16)] for v in (p, q)]
            exp = formula(kind, bp, par)
            tol = {'mono': Fr(1), 'bright': Fr(50001, 100000), 'color': Fr(50001, 100000)}.get(kind, Fr(1))
            if any(abs(u - v) > tol for u, v in zip(bq, exp)):
                if kind == 'color' and x == X2 and p == q:
                    if known is not None:
                        known.append((x, y))
                    continue
                raise Violation(f'{what}: pixel ({x},{y}) (b,g,r)={bp} became {bq}, the formula gives {[float(v) for v in exp]}', inputs)


def params(R, kind):
    if kind == 'mono':
        return None
    if kind == 'bright':
        return R.choice([-100, -50, -1, 0, 1, 10, 100, 300, R.uniform(-100, 200)])
    if kind == 'color':
        return [R.choice([0, 1, .5, R.random()]) for _ in range(3)]
    if kind == 'threshold':
        return [R.choice([0, 255, R.randrange(256)]), R.choice([0, 255, R.randrange(256)])]
    return R.choice([1, .5, 2, R.uniform(.1, 4)])


def conc_grad(b0, fn, reg, lr):
    w, h, bits = geom(b0)
    inputs = dict(bmp=desc(b0), region=reg, lumrange=lr)
    b = b0[:]
    must(call(fn, b, *reg, lr), fn.__name__, inputs)
    X1, X2 = sorted((reg[0], reg[2]))
    Y1, Y2 = sorted((reg[1], reg[3]))
    e = wf(b, w, h, 24)
    if e or b[:54] != b0[:54]:
        raise Violation(f'{fn.__name__}: header or size changed: {e}', inputs)
    g0, g = grid(b0), grid(b)
    for y in range(h):
        for x in range(w):
            if not (X1 <= x <= X2 and Y1 <= y <= Y2) and g0[y][x] != g[y][x]:
                raise Violation(f'{fn.__name__}{reg}: pixel ({x},{y}) outside the region changed', inputs)


def b_filters(X):
    R = X.rng
    known = []

    def rnd_reg(w, h):
        return (R.randrange(w), R.randrange(h), R.randrange(w), R.randrange(h))

    def one(w, h):
        b0 = mkbmp(w, h, 24, R)
        for kind in FORMS:
            for _ in range(2):
                conc(b0, kind, rnd_reg(w, h), params(R, kind), known=known)
            conc(b0, kind, None, params(R, kind), image=True, known=known)
        for fn in (B.verticalbrightnessgradto24bitregion, B.horizontalbrightnessgradto24bitregion):
            conc_grad(b0, fn, rnd_reg(w, h), [R.randint(-100, 100), R.randint(-100, 100)])
        X.case((w, h), f'filters on {w}x{h}')
    for w in range(1, 9):
        for h in range(1, 6):
            one(w, h)
    while X.more():
        one(*dims(R, 24, 10))
    # special colours: grey, black, one channel only
    for px in (0, 0xFFFFFF, 0x0000FF, 0x00FF00, 0xFF0000, 0x010101, 0x000001, 0x7F8081):
        b0 = mkbmp(3, 2, 24, grid=[[px] * 3] * 2)
        for kind in FORMS:
            for _ in range(6):
                conc(b0, kind, (0, 0, 1, 1), params(R, kind), known=known)
    if known:
        X.known.append(dict(key='colorfilter-last-column', message='the colour filter (image and region forms) leaves the right-most column of its region unfiltered', inputs='any 24 bit image'))


def replay(i):
    R = random.Random(1)
    b0 = i['bmp']
    w, h, bits = geom(b0)
    regs = [(i['x1'], i['y1'], i['x2'], i['y2'])] if 'x1' in i else []
    regs += [(0, 0, w - 1, h - 1), (0, 0, (w - 1) // 2, (h - 1) // 2), (w - 1, h - 1, w // 2, h // 2)]
    for kind in FORMS:
        for reg in regs:
            for _ in range(4):
                conc(b0, kind, reg, params(R, kind))
    for reg in regs:
        for fn in (B.verticalbrightnessgradto24bitregion, B.horizontalbrightnessgradto24bitregion):
            conc_grad(b0, fn, reg, [50, -40])


def replay_rows(i):
    R = random.Random(1)
    for w in (1, 2, 3, 4, 7):
        for t in range(30):
            b0 = mkbmp(w, 1, 24, R)
            for kind in FORMS:
                conc(b0, kind, (0, 0, w - 1, 0), params(R, kind))


def par_none(ctx):
    return None, None


def par_pct(ctx):
    p = z3.Real('pct')
    return p, p


def par_factors(ctx):
    f = z3.Reals('fr fg fb')
    for t in f:
        ctx.fact(z3.And(t >= 0, t <= 1))
    return tuple(f), f


_row = dict(inputs=lambda ctx, m: {}, replay=replay_rows)
_in = dict(inputs=bmp_inputs(None, **REGION_IN), replay=replay, hints=small)
PROOFS = [Proof('monochrome row', ['colors.applymonochromefiltertoBGRbuf'], p_buffer(C.applymonochromefiltertoBGRbuf, f_mono, par_none, True), **_row),
          Proof('brightness row', ['colors.applybrightnessadjtoBGRbuf', 'mathlib.intscalarmulvect', 'mathlib.setminmaxvec'], p_buffer(C.applybrightnessadjtoBGRbuf, f_bright, par_pct, False), **_row),
          Proof('colour filter row', ['colors.applycolorfiltertoBGRbuf', 'mathlib.intscalarmulvect'], p_buffer(C.applycolorfiltertoBGRbuf, f_color, par_factors, True, last=1), **_row),
          Proof('gamma row', ['colors.applygammaBGRbuf'], p_gamma, **_row),
          Proof('threshold row', ['colors.applythresholdadjtoBGRbuf'], p_threshold, **_row)]
REGF = {**REG}
for _n, _ip in (('applymonochromefiltertoBGRbuf', True), ('applybrightnessadjtoBGRbuf', False), ('applycolorfiltertoBGRbuf', True), ('applythresholdadjtoBGRbuf', False), ('applygammaBGRbuf', True)):
    REGF[(CM, _n)] = filter_contract(_n, _ip)
for _k, (_r, _i) in FORMS.items():
    _n = {'mono': 'applymonochromefiltertoBGRbuf', 'bright': 'applybrightnessadjtoBGRbuf', 'color': 'applycolorfiltertoBGRbuf', 'threshold': 'applythresholdadjtoBGRbuf', 'gamma': 'applygammaBGRbuf'}[_k]
    _w = {'mono': '_usebyrefnopar24bitfn2reg', 'bright': '_use24bitfn2reg', 'threshold': '_use24bitfn2reg'}.get(_k, '_usebyref24btfn2reg')
    _a = [] if _k == 'mono' else [1]
    PROOFS.append(Proof(f'{_r.__name__}', [f'BITMAPlib.{_r.__name__}', f'BITMAPlib.{_w}', 'BITMAPlib.itercopyrect', 'BITMAPlib.BMPbitBLTput'], p_region(_r, _n, _a), registry=REGF, **_in))
    PROOFS.append(Proof(f'{_i.__name__}', [f'BITMAPlib.{_i.__name__}'], p_region(_i, _n, _a, True), registry=REGF, inputs=bmp_inputs(None), replay=replay, hints=small))
REGG = {**REG, (CM, 'applybrightnessadjtoBGRbuf'): c_bright_any}
for _d in ('vertical', 'horizontal'):
    for _t in ('region', 'image'):
        _f = getattr(B, f'{_d}brightnessgradto24bit{_t}')
        PROOFS.append(Proof(f'{_f.__name__} (frame)', [f'BITMAPlib.{_f.__name__}'], p_grad(_f, _t == 'image'), registry=REGG, **(_in if _t == 'region' else dict(inputs=bmp_inputs(None), replay=replay, hints=small))))
BOUNDED = [Bounded('filters, concrete', b_filters, 'random 24 bit bitmaps up to 40 pixels a side, any region, random parameters in their documented ranges',
                   ['colors.applygammaBGRbuf'], quick=15)]
