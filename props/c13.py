"""C13: operations refuse unsupported depths and regions out of bounds."""
import types
from .common import *
from .contracts import *
with silent():
    import pythonbmp.primitives2D as P
    import pythonbmp.paramchecks as PC
    import pythonbmp.mathlib as ML
PROPERTY = 'C13'
ASSUMPTIONS = ['the guarded coordinates are passed by position, as the library and its documentation do',
               'the parameters after the region are given fixed valid values: a guard reads the bitmap and the region only']
ident = lambda a, b, c: a
RECT = ('x1', 'y1', 'x2', 'y2')
CIRC = ('x', 'y', 'r')
ALL = BITS
# name -> (region parameters, depths, further arguments)
OPS = {}
for _n in ('itercopyrect', 'copyrect', 'fliphorzontalpixelbased', 'fliphverticalalpixelbased', 'itergetcolorfromrectregion', 'crop', 'invertregion', 'flipverticalregion',
           'mirrorbottominregion', 'mirrortopinregion', 'fliphorizontalregion', 'mirrorleftinregion', 'mirrorrightinregion', 'mirrortopleftinregion', 'mirrortoprightinregion',
           'mirrorbottomleftinregion', 'mirrorbottomrightinregion', 'outlineregion'):
    OPS[_n] = RECT, ALL, ()
OPS['filledrect'] = RECT, ALL, (1,)
OPS['fern'] = RECT, ALL, (1,)
OPS['xygrid'] = RECT, ALL, ((2, 2), 1)
OPS['verttransregion'] = RECT, ALL, ('F',)
OPS['erasealternatehorizontallinesinregion'] = RECT, ALL, (2, 0, 0)
OPS['eraseeverynthhorilineinregion'] = RECT, ALL, (2,)
OPS['filledgradrect'] = RECT, (8, 24), ((10, 200), (1, 1, 1), 0)
OPS['filleddichromaticgradrect'] = RECT, (24,), (1, 2, 0)
for _n, _a in (('monofilterto24bitregion', ()), ('colorfilterto24bitregion', ((.5, 1, .5),)), ('brightnesseadjto24bitregion', (10,)), ('thresholdadjto24bitregion', ((0, 128),)),
               ('gammaadjto24bitregion', (2,)), ('verticalbrightnessgradto24bitregion', ((0, 255),)), ('horizontalbrightnessgradto24bitregion', ((0, 255),))):
    OPS[_n] = RECT, (24,), _a
for _n in ('copycircregion2buf', 'flipXYcircregion', 'flipvertcircregion', 'mirrortopincircregion', 'mirrorbottomincircregion'):
    OPS[_n] = CIRC, ALL, ()
OPS['verttransformincircregion'] = CIRC, ALL, ('T',)
OPS['copycircregion'] = CIRC, ALL, ((0, 0),)
OPS['eraseeverynthhorizontallineinccircregion'] = CIRC, ALL, (2,)
OPS['erasealternatehorizontallinesincircregion'] = CIRC, ALL, (2, 0, 0)
for _n in ('fliphoricircregion', 'mirrorleftincircregion', 'mirrorrightincircregion'):
    OPS[_n] = CIRC, (8, 24), ()
OPS['horitransformincircregion'] = CIRC, (8, 24), ('L',)
for _n, _a in (('monocircle', ()), ('colorfiltercircregion', ((.5, 1, .5),)), ('gammacorrectcircregion', (2,)), ('brightnessadjcircregion', (10,)), ('thresholdadjcircregion', ((0, 128),)),
               ('vertbrightnessgrad2circregion', ((0, 255),)), ('horibrightnessgrad2circregion', ((0, 255),)), ('magnifyNtimescircregion', (2,)), ('pixelizenxncircregion', (2,))):
    OPS[_n] = CIRC, (24,), _a
OPS['palshift'] = (), (4, 8), (1,)
OPS['itercolorcycle'] = (), (4, 8), ()
OPS['resizeNtimessmaller'] = (), (24,), (2,)
OPS['graddichromiccircle'] = (), (24,), (3, 3, 2, 1, 2)
# these clip the circle to the image: only their depth is guarded
CLIP = {'monocircle', 'colorfiltercircregion', 'gammacorrectcircregion', 'brightnessadjcircregion', 'thresholdadjcircregion'}
OPS = {n: v for n, v in OPS.items() if hasattr(B, n)}
# mirroring a corner applies two mirrors one after the other: the horizontal one has a depth restriction in circular regions
for _n in ('mirrortopleftincircregion', 'mirrortoprightincircregion', 'mirrorbottomleftincircregion', 'mirrorbottomrightincircregion'):
    OPS[_n] = CIRC, ALL, ()


def condition(kind, S, w, h):
    """the region is entirely inside"""
    if kind == RECT:
        return z3.And(*[z3.And(S[n] >= 0, S[n] < (w if n[0] == 'x' else h)) for n in RECT])
    if kind == CIRC:
        x, y, r = (S[n] for n in CIRC)
        return z3.And(*[z3.And(c >= 0, c < d) for c, d in ((x - r, w), (x + r, w), (y - r, h), (y + r, h))])
    return z3.BoolVal(True)


def given(ctx, bits, kind, inside):
    a, b = sym_bmp(ctx, bits)
    ctx.ghost['b'] = b
    S = {n: z3.Int(n) for n in kind}
    c = condition(kind, S, b.w, b.h)
    if inside is not None:
        ctx.fact(c if inside else z3.Not(c))
    return a, b, S


def exhaust(ctx, r):
    if r is not None and not isinstance(r, (int, float, str, Arr, tuple)):
        for _ in ctx.iterate(r) if hasattr(ctx, 'drain') else ():
            pass


def p_refuse(name, bits, kind, depths, extra):
    def run(ctx):
        a, b, S = given(ctx, bits, kind, False if bits in depths else None)
        r = ctx.call(refused, [getattr(B, name), a, *S.values(), *extra])
        ctx.prove(r is None or r == 0, 'nothing is returned')
        ctx.prove(lift(a.length) == lift(b.length), 'length unchanged')
        header_frame(ctx, a, b.base, b.hdr)
        j = z3.Int('j')
        ctx.fact(z3.And(j >= b.hdr, j < lift(b.length)))
        ctx.prove(lift(a.view(j)) == lift(b.base(j)), 'no byte has changed')
    return run


def refused(f, *args):
    return f(*args)


def stub(*args):
    pass


def started(f):
    """f with its guarded body replaced by the stub: every closure cell that holds the body"""
    body = f.__wrapped__
    cells = tuple(types.CellType(stub) if c.cell_contents is body else c for c in f.__closure__)
    if not any(c.cell_contents is stub for c in cells):
        return None
    return types.FunctionType(f.__code__, f.__globals__, f.__name__ + '.guard', f.__defaults__, cells)


def p_start(name, bits, kind, extra):
    def run(ctx):
        f = started(getattr(B, name))
        a, b, S = given(ctx, bits, kind, True)
        seen = []
        ctx.ghost['seen'] = seen
        tok = z3.Int('result')
        ctx.ghost['tok'] = tok
        r = ctx.call(f, [a, *S.values(), *extra])
        ctx.prove(len(seen) == 1, 'the operation starts, once')
        got = seen[0] if seen else ()
        ctx.prove(len(got) == 1 + len(S) + len(extra), 'with all its arguments')
        if len(got) == 1 + len(S) + len(extra):
            ctx.prove(got[0] is a, 'on the given bitmap')
            ctx.prove(z3.And(z3.BoolVal(True), *[lift(u) == v for u, v in zip(got[1:], S.values())]), 'with the given region')
            ctx.prove(all(u is v or u == v for u, v in zip(got[1 + len(S):], extra)), 'with the given parameters')
        ctx.prove(eqv(r, tok), 'and its result is returned')
        for e in seen[:1]:
            j = z3.Int('j')
            ctx.fact(z3.And(j >= b.hdr, j < lift(b.length)))
            ctx.prove(lift(a.view(j)) == lift(b.base(j)), 'the guard itself changes nothing')
    return run


def c_stub(ctx, *args):
    ctx.ghost['seen'].append(args)
    return unlift(ctx.ghost['tok'])


# ---- the inside tests --------------------------------------------------------

def p_tests(ctx):
    x, y, r, a, b, u, v, s, t = z3.Ints('x y r a b u v s t')
    iff = lambda got, exp, what: ctx.prove(liftb(got) == exp, what)
    iff(ctx.call(ML.isinrange, [x, s, u]), z3.And(x > u, x < s), 'isinrange: strictly between the limits')
    iff(ctx.call(P.isinrectbnd, [x, y, u, v, s, t]), z3.And(x > u, x < s, y > v, y < t), 'isinrectbnd: strictly between the limits in both directions')
    iff(ctx.call(P.entirecircleisinboundary, [x, y, u, s, v, t, r]), z3.And(x - r > u, x + r < s, x - r < s, x + r > u, y - r > v, y + r < t, y - r < t, y + r > v),
        'entirecircleisinboundary: all four extreme points')
    iff(ctx.call(P.entireellipseisinboundary, [x, y, u, s, v, t, b, a]), z3.And(x - a > u, x + a < s, x - a < s, x + a > u, y - b > v, y + b < t, y - b < t, y + b > v),
        'entireellipseisinboundary: all four extreme points')


def p_inbmp(bits):
    def run(ctx):
        a, b, _ = given(ctx, bits, (), None)
        x, y = z3.Ints('x y')
        ctx.prove(liftb(ctx.call(B.isinBMPrectbnd, [a, x, y])) == b.inside(x, y), 'isinBMPrectbnd: exactly the coordinates of the image')
    return run


class ListSpec(LoopSpec):
    def __init__(self, q, ok):
        self.q, self.ok = q, ok

    def inv(self, L, k):
        return [z3.Implies(z3.And(self.q >= 0, self.q < lift(k)), self.ok(self.q))]


def p_list(bits):
    """point lists of any length; bits: list in an image of that depth, else in a box"""
    def run(ctx):
        if bits:
            bmp, b, _ = given(ctx, bits, (), None)
            test = lambda x, y: b.inside(x, y)
        else:
            u, v, s, t = z3.Ints('u v s t')
            test = lambda x, y: z3.And(x > u, x < s, y > v, y < t)
        n, q = z3.Ints('n q')
        ctx.fact(z3.And(n >= 0, q >= 0, q < n))
        fx, fy = z3.Function('px', I, I), z3.Function('py', I, I)
        last = []

        def at(k):
            last.append(lift(k))
            return fx(lift(k)), fy(lift(k))
        ok = lambda k: test(fx(k), fy(k))
        pts = SeqObj(n, at)
        ctx.specs.append(lambda L: ListSpec(q, ok))
        r = ctx.call(B.listinBMPrecbnd, [bmp, pts]) if bits else ctx.call(P.listinrecbnd, [pts, u, v, s, t])
        if ctx.decide(liftb(r)):
            ctx.prove(ok(q), 'true only if every point is inside')
        else:
            ctx.prove(z3.Or(*[z3.And(k >= 0, k < n, z3.Not(ok(k))) for k in last[-3:]]) if last else z3.BoolVal(False), 'false only if some point is outside')
    return run


# ---- concrete oracle --------------------------------------------------------

def inside(kind, reg, w, h):
    if kind == RECT:
        return all(0 <= reg[i] < (w, h)[i % 2] for i in range(4))
    if kind == CIRC:
        x, y, r = reg
        return x - abs(r) >= 0 and y - abs(r) >= 0 and x + abs(r) < w and y + abs(r) < h
    return True


def conc_op(name, b0, reg):
    kind, depths, extra = OPS[name]
    w, h, bits = geom(b0)
    f = getattr(B, name)
    inputs = dict(bmp=desc(b0), op=name, region=reg, extra=extra)
    what = f'{name}{reg} on {w}x{h} at {bits} bits'
    if bits not in depths or not inside(kind, reg, w, h) or any(type(v) is not int for v in reg):
        b = b0[:]

        def run():
            r = f(b, *reg, *extra)
            return list(r) if hasattr(r, '__next__') else r
        must(call(run), what, inputs)
        if b != b0:
            raise Violation(f'{what}: the operation does not apply, but the bitmap has changed', inputs)
    elif hasattr(f, '__wrapped__'):
        g, seen = started(f), []
        if g is None:
            return
        tok = object()
        global stub
        cells = tuple(types.CellType(lambda *a: seen.append(a) or tok) if c.cell_contents is f.__wrapped__ else c for c in f.__closure__)
        g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, cells)
        b = b0[:]
        r = must(call(lambda: g(b, *reg, *extra)), what, inputs)
        if len(seen) != 1 or seen[0][0] is not b or tuple(seen[0][1:]) != (*reg, *extra) or r is not tok:
            raise Violation(f'{what}: the operation applies, but is not started with its arguments', inputs)
    else:
        b = b0[:]
        must(call(lambda: f(b, *reg, *extra)), what, inputs)


def conc_tests(g, w, h):
    b = mkbmp(w, h, g.choice(BITS), g)
    v = lambda n: g.choice((-1, 0, 1, n - 1, n, n + 1, g.randint(-n - 2, 2 * n + 2)))
    x, y, r, q, t = v(w), v(h), g.randint(0, 5), g.randint(0, 5), v(w)
    inputs = dict(w=w, h=h, x=x, y=y, r=r, a=q)
    for what, got, exp in (('isinBMPrectbnd', B.isinBMPrectbnd(b, x, y), 0 <= x < w and 0 <= y < h), ('isinrectbnd', P.isinrectbnd(x, y, -1, -1, w, h), 0 <= x < w and 0 <= y < h),
                           ('isinrange', ML.isinrange(x, w, t), t < x < w),
                           ('entirecircleisinboundary', P.entirecircleisinboundary(x, y, -1, w, -1, h, r), inside(CIRC, (x, y, r), w, h)),
                           ('entireellipseisinboundary', P.entireellipseisinboundary(x, y, -1, w, -1, h, r, q), x - q >= 0 and x + q < w and y - r >= 0 and y + r < h)):
        if bool(got) != exp:
            raise Violation(f'{what} is {got}, expected {exp}', inputs)
    pts = [(v(w), v(h)) if g.random() < .3 else (g.randrange(w), g.randrange(h)) for _ in range(g.randint(0, 5))]
    exp = all(0 <= i < w and 0 <= j < h for i, j in pts)
    for what, got in (('listinBMPrecbnd', B.listinBMPrecbnd(b, pts)), ('listinrecbnd', P.listinrecbnd(pts, -1, -1, w, h))):
        if bool(got) != exp:
            raise Violation(f'{what} is {got}, expected {exp}', dict(points=pts, w=w, h=h))


def b_guards(X):
    g = X.rng
    while True:
        for name, (kind, depths, extra) in OPS.items():
            for bits in BITS:
                w, h = g.randint(1, 12), g.randint(1, 12)
                b0 = mkbmp(w, h, bits, g)
                for _ in range(3):
                    if kind == RECT:
                        reg = [g.randrange(w), g.randrange(h), g.randrange(w), g.randrange(h)]
                        if g.random() < .7:
                            i = g.randrange(4)
                            n = (w, h)[i % 2]
                            reg[i] = g.choice((-1, n, n + g.randint(0, 300), -g.randint(1, 300), n - 1, 0, .5))
                    elif kind == CIRC:
                        r = g.randint(0, 5)
                        reg = [g.choice((r - 1, r, w - 1 - r, w - r, g.randint(-3, w + 3))), g.choice((r - 1, r, h - 1 - r, h - r, g.randint(-3, h + 3))), r]
                    else:
                        reg = []
                    if not kind and bits in depths and not hasattr(getattr(B, name), '__wrapped__'):
                        continue
                    # inside operations on regions are the subject of other properties
                    if kind and bits in depths and inside(kind, reg, w, h) and not hasattr(getattr(B, name), '__wrapped__'):
                        continue
                    if name in CLIP and bits in depths:
                        continue
                    conc_op(name, b0, tuple(reg))
                    X.case((name, bits, w, h, tuple(reg)), f'{name}{tuple(reg)} on {w}x{h} at {bits} bits')
        for _ in range(300):
            conc_tests(g, g.randint(1, 9), g.randint(1, 9))
            X.case()
        if not X.more():
            break


def replay_op(name):
    def f(i):
        kind = OPS[name][0]
        conc_op(name, i['bmp'], tuple(i[n] for n in kind))
    return f


PROOFS = [Proof('the inside tests', ['mathlib.isinrange', 'primitives2D.isinrectbnd', 'primitives2D.entirecircleisinboundary', 'primitives2D.entireellipseisinboundary'], p_tests),
          Proof('listinrecbnd', ['primitives2D.listinrecbnd'], p_list(None))]
for _b in BITS:
    PROOFS.append(Proof(f'isinBMPrectbnd, {_b} bit', ['BITMAPlib.isinBMPrectbnd'], p_inbmp(_b), registry=REG))
    PROOFS.append(Proof(f'listinBMPrecbnd, {_b} bit', ['BITMAPlib.listinBMPrecbnd'], p_list(_b), registry=REG))
for _n, (_k, _d, _e) in OPS.items():
    for _b in BITS:
        _in = bmp_inputs(None, **{n: z3.Int(n) for n in _k})
        if _k and _n not in CLIP or _b not in _d:
            PROOFS.append(Proof(f'{_n} does not apply, {_b} bit', [f'BITMAPlib.{_n}'], p_refuse(_n, _b, _k, _d, _e), registry=REG, inline_modules=('props.c13',),
                                inputs=_in, replay=replay_op(_n), hints=small))
        if _b in _d and hasattr(getattr(B, _n), '__wrapped__') and started(getattr(B, _n)):
            PROOFS.append(Proof(f'{_n} starts, {_b} bit', [f'BITMAPlib.{_n} (guard)'], p_start(_n, _b, _k, _e), registry={**REG, ('props.c13', 'stub'): c_stub},
                                inline_modules=('props.c13',), inputs=_in, replay=replay_op(_n), hints=small))
BOUNDED = [Bounded('guards, concrete', b_guards, 'every guarded operation at every depth on images up to 12 pixels a side, regions at and beyond the edges, real coordinates; the inside tests around the limits',
                   ['BITMAPlib.' + n for n in OPS], quick=12)]
