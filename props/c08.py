"""C08: palette operations change exactly the palette entries they name."""
import inspect
import random
from .common import *
from .contracts import *
import pythonbmp.colors as COL
PROPERTY = 'C08'
ASSUMPTIONS = ['palette operations concern depths 1, 4 and 8 (rotation: 4 and 8); colour indices are valid for the depth and channels in 0..255',
               'copying a palette needs two bitmaps of the same depth']
PAL = (1, 4, 8)


def given(ctx, bits):
    a, b = sym_bmp(ctx, bits)
    ctx.ghost['b'] = b
    return a, b


def channels(ctx, *names):
    t = z3.Ints(' '.join(names))
    for v in t:
        ctx.fact(z3.And(v >= 0, v < 256))
    return t


def unchanged_but(ctx, a, b, what, lo=None, hi=None, base=None):
    """bytes outside [lo, hi) keep their value, the length is unchanged"""
    base = base or b.base
    ctx.prove(eqv(a.length, b.length), f'{what}: length unchanged')
    j = ctx.fresh('j')
    ctx.push()
    ctx.solver.add(j >= 0, j < lift(b.length))
    if lo is not None:
        ctx.solver.add(z3.Or(j < lo, j >= hi))
    ctx.prove(lift(a.view(j)) == lift(base(j)), f'{what}: every other byte unchanged')
    ctx.pop()
    for k in range(54):
        ctx.prove(eqv(a.view(k), base(k)), f'{what}: header byte unchanged')


def p_set(bits):
    def run(ctx):
        a, b = given(ctx, bits)
        c, = z3.Ints('c')
        r, g, l = channels(ctx, 'r', 'g', 'l')
        ctx.fact(z3.And(c >= 0, c < 1 << bits))
        o = ctx.call(B.getRGBpal, [a, c])
        for k in range(3):
            ctx.prove(lift(o.view(k)) == lift(b.base(54 + 4 * c + 2 - k)), 'an entry is read as red, green, blue')
        unchanged_but(ctx, a, b, 'reading an entry')
        ctx.call(B.setRGBpal, [a, c, r, g, l])
        o = ctx.call(B.getRGBpal, [a, c])
        ctx.prove(z3.And(*[lift(o.view(k)) == v for k, v in enumerate((r, g, l))]), 'a colour that was set is read back')
        unchanged_but(ctx, a, b, 'setting an entry', 54 + 4 * c, 54 + 4 * c + 3)
    return run


def p_all(bits):
    def run(ctx):
        a, b = given(ctx, bits)
        p = ctx.call(B.getallRGBpal, [a])
        ctx.prove(eqv(p.length, 1 << bits), 'one entry for every colour')
        for i in range(1 << bits):
            e = p.view(i)
            ctx.prove(z3.And(*[lift(e.view(k)) == lift(b.base(54 + 4 * i + 2 - k)) for k in range(3)]), 'every entry is the stored colour')
        unchanged_but(ctx, a, b, 'reading the palette')
        q = ctx.call(B.getBGRpalbuf, [a])
        ctx.prove(eqv(q.length, 4 << bits), 'palette buffer length')
        j = z3.Int('j')
        ctx.fact(z3.And(j >= 0, j < 4 << bits))
        ctx.prove(lift(q.view(j)) == lift(b.base(54 + j)), 'palette buffer holds the stored bytes')
    return run


def p_setall(bits, name, order, n=None):
    """order: position of red, green, blue (and the fourth byte) in an element of the list"""
    def run(ctx):
        a, b = given(ctx, bits)
        m = n or 1 << bits
        f = [z3.Function(f'c{k}', I, I) for k in range(len(order))]
        items = []
        for i in range(m):
            e = [g(z3.IntVal(i)) for g in f]
            for v in e:
                ctx.fact(z3.And(v >= 0, v < 256))
            items.append(tuple(e))
        ctx.call(getattr(B, name), [a, tuple(items)])
        if n:
            unchanged_but(ctx, a, b, 'list of another length')
            return
        for i in range(m):
            got = [a.view(54 + 4 * i + k) for k in range(4)]
            exp = {o: v for o, v in zip(order, items[i])}
            ctx.prove(z3.And(*[lift(got[k]) == (exp[o] if o in exp else lift(b.base(54 + 4 * i + 3))) for k, o in enumerate('bgra')]), f'entry of the list is stored')
        unchanged_but(ctx, a, b, 'replacing the palette', 54, 54 + (4 << bits))
    return run


def p_derived(bits, name, gen, order, args):
    """setBMP2...: the palette becomes the one the generator gives for the depth of the image (the generators themselves: C12)"""
    def run(ctx):
        a, b = given(ctx, bits)
        m = 1 << bits
        f = [z3.Function(f'c{k}', I, I) for k in range(3)]
        items, seen = [], []
        for i in range(m):
            e = [g(z3.IntVal(i)) for g in f]
            for v in e:
                ctx.fact(z3.And(v >= 0, v < 256))
            items.append(tuple(e))
        actual = args()

        def c_gen(ctx, *given, **kw):
            ba = inspect.signature(getattr(COL, gen)).bind(*given, **kw)
            seen.append(tuple(ba.arguments.values()))
            return ctx.mk('list', items=[ctx.mk('list', items=[*e, 0] if order == 'bgra' else list(e)) for e in items])
        ctx.x.registry = dict(ctx.x.registry)
        ctx.x.registry[('pythonbmp.colors', gen)] = c_gen
        ctx.reg = ctx.x.registry
        ctx.call(getattr(B, name), [a, *actual])
        ctx.prove(len(seen) == 1, 'one palette is generated')
        want = (*actual, m) if gen == 'dichromaticpal' else (bits, *actual)
        ctx.prove(and_(*[eqv(x, y) if not isinstance(y, tuple) else x is y for x, y in zip(seen[0], want)]), 'for the depth and the factors asked for')
        for i in range(m):
            got = [a.view(54 + 4 * i + k) for k in range(4)]
            rgb = items[i][::-1] if order == 'bgra' else items[i]
            ctx.prove(z3.And(*[lift(got[k]) == rgb[2 - k] for k in range(3)]), 'the generated entry is stored')
            ctx.prove(lift(got[3]) == (lift(b.base(54 + 4 * i + 3)) if name == 'setBMP2monochrome' else 0), 'the fourth byte')
        unchanged_but(ctx, a, b, 'replacing the palette', 54, 54 + (4 << bits))
    return run


def p_bright(bits):
    """the adjusted palette: entry by entry, the image itself unchanged"""
    def run(ctx):
        a, b = given(ctx, bits)
        pct = z3.Int('percent')
        F = [z3.Function(f'adjusted{k}', I, I, I, I, I) for k in range(3)]

        def c_adj(ctx, c, p):
            t = [lift(v) for v in (c.items if isinstance(c, Arr) else c)]
            return ctx.mk('list', items=[f(*t, lift(p)) for f in F])
        ctx.x.registry = dict(ctx.x.registry)
        ctx.x.registry[('pythonbmp.colors', 'brightnessadjust')] = c_adj
        ctx.reg = ctx.x.registry
        r = ctx.call(B.RGBpalbrightnessadjust, [a, pct])
        ctx.prove(eqv(r.length, 1 << bits), 'one entry for every colour')
        for i in range(1 << bits):
            e = r.view(i)
            t = [lift(b.base(54 + 4 * i + 2 - k)) for k in range(3)]
            ctx.prove(z3.And(*[lift(e.view(k)) == F[k](*t, pct) for k in range(3)]), 'every entry is the adjusted stored colour')
        unchanged_but(ctx, a, b, 'reading the palette')
    return run


def p_header(bits):
    """a blank image with the same header and palette"""
    def run(ctx):
        a, b = given(ctx, bits)
        r = ctx.call(B.copyBMPhdr, [a])
        ctx.prove(eqv(r.length, b.length), 'same length')
        j = z3.Int('j')
        ctx.fact(z3.And(j >= 0, j < lift(b.length)))
        ctx.prove(lift(r.view(j)) == z3.If(j < b.hdr, lift(b.base(j)), 0), 'header and palette copied, colour 0 everywhere')
        unchanged_but(ctx, a, b, 'copying the header')
    return run


def p_copy(bits):
    def run(ctx):
        src, s = sym_bmp(ctx, bits, tag='1')
        dst, d = sym_bmp(ctx, bits, tag='2')
        ctx.ghost['b'] = d
        ctx.call(B.copyRGBpal, [src, dst])
        j = z3.Int('j')
        ctx.push()
        ctx.solver.add(j >= 54, j < HDR[bits])
        ctx.prove(lift(dst.view(j)) == lift(s.base(j)), 'the palettes are equal')
        ctx.pop()
        unchanged_but(ctx, dst, d, 'target of the copy', 54, HDR[bits])
        unchanged_but(ctx, src, s, 'source of the copy')
    return run


def p_shift(bits):
    def run(ctx):
        a, b = given(ctx, bits)
        n = z3.Int('shift')
        ctx.call(B.palshift, [a, n])
        m = 1 << bits
        s, w = z3.Ints('s w')
        ctx.fact(z3.And(z3.If(n >= 0, n, -n) == s + m * w, s >= 0, s < m))
        i, k = z3.Ints('i k')
        ctx.fact(z3.And(i >= 0, i < m, k >= 0, k < 4))
        src = i + s if ctx.decide(i + s < m) else i + s - m
        ctx.prove(lift(a.view(54 + 4 * i + k)) == lift(b.base(54 + 4 * src + k)), 'entry i becomes entry i + shift, cyclically')
        unchanged_but(ctx, a, b, 'rotating the palette', 54, 54 + 4 * m)
    return run


def p_default(bits):
    def run(ctx):
        a, b = given(ctx, bits)
        r = ctx.call(B.isdefaultpal, [a])
        std = COL.getdefaultbitpal(bits)
        same = z3.And(*[lift(b.base(54 + 4 * i + 2 - k)) == v for i, e in enumerate(std) for k, v in enumerate(e)])
        ctx.prove(liftb(r) == same, 'true exactly when all entries are the defaults')
        unchanged_but(ctx, a, b, 'testing the palette')
    return run


# ---- concrete oracle --------------------------------------------------------

def palbytes(b):
    return bytes(b[54:HDR[b[28]]])


def check(b, b0, exp, what, inputs):
    """b is b0 with the palette bytes exp"""
    if len(b) != len(b0):
        raise Violation(f'{what}: the length changed', inputs)
    full = bytes(b0[:54]) + bytes(exp) + bytes(b0[HDR[b0[28]]:])
    if bytes(b) != full:
        j = next(i for i in range(len(full)) if b[i] != full[i])
        where = 'header' if j < 54 else f'palette entry {(j - 54) // 4} byte {(j - 54) % 4}' if j < HDR[b0[28]] else 'pixel data'
        raise Violation(f'{what}: {where} is {b[j]}, expected {full[j]}', inputs)


def conc(b0, g, c=None, rgb=None, shift=None):
    w, h, bits = geom(b0)
    m = 1 << bits
    c = g.randrange(m) if c is None else c
    rgb = [g.randrange(256) for _ in range(3)] if rgb is None else rgb
    inputs = dict(bmp=desc(b0), c=c, rgb=rgb)
    P0 = palette(b0)
    b = b0[:]
    if list(must(call(B.getRGBpal, b, c), 'getRGBpal', inputs)) != list(P0[c]):
        raise Violation(f'getRGBpal({c}) is not the stored colour {P0[c]}', inputs)
    if [tuple(e) for e in must(call(B.getallRGBpal, b), 'getallRGBpal', inputs)] != P0:
        raise Violation('getallRGBpal is not the list of stored colours', inputs)
    check(b, b0, palbytes(b0), 'reading the palette', inputs)
    must(call(B.setRGBpal, b, c, *rgb), 'setRGBpal', inputs)
    e = bytearray(palbytes(b0))
    e[4 * c: 4 * c + 3] = bytes(reversed(rgb))
    check(b, b0, e, f'setRGBpal({c}) at {bits} bits', inputs)
    if list(B.getRGBpal(b, c)) != list(rgb):
        raise Violation('a colour that was set is not read back', inputs)
    new = [[g.randrange(256) for _ in range(3)] for _ in range(m)]
    inputs['palette'] = new
    for name, lst, fourth in (('setbmppal', new, False), ('setbmppalwithBGRlist', [x[::-1] for x in new], False), ('setbmppalwithBGRAlist', [[*x[::-1], 7] for x in new], True)):
        b = b0[:]
        must(call(getattr(B, name), b, lst), name, inputs)
        e = bytearray(palbytes(b0))
        for i, x in enumerate(new):
            e[4 * i:4 * i + 3] = bytes(reversed(x))
            if fourth:
                e[4 * i + 3] = 7
        check(b, b0, e, f'{name} at {bits} bits', inputs)
        b = b0[:]
        must(call(getattr(B, name), b, lst[:-1]), name, inputs)
        check(b, b0, palbytes(b0), f'{name} with a list of another length', inputs)
    if bits > 1:
        for s in ([shift] if shift is not None else [0, 1, m - 1, m, -1, g.randint(-2 * m, 2 * m)]):
            b = b0[:]
            must(call(B.palshift, b, s), 'palshift', inputs)
            p = palbytes(b0)
            t = 4 * (abs(s) % m)
            check(b, b0, p[t:] + p[:t], f'palshift({s}) at {bits} bits', dict(inputs, shift=s))
        b = b0[:]
        B.palshift(b)
        check(b, b0, palbytes(b0)[4:] + palbytes(b0)[:4], 'palshift by default', inputs)
        b = b0[:]
        seen = [palbytes(x) for x in B.itercolorcycle(b)]
        p = palbytes(b0)
        if seen != [p[4 * i:] + p[:4 * i] for i in range(m)]:
            raise Violation(f'itercolorcycle at {bits} bits does not go once through all rotations', inputs)
    fac, c1, c2, pct = [g.random() for _ in range(3)], g.randrange(1 << 24), g.randrange(1 << 24), g.randint(-100, 100)
    inputs.update(factors=fac, colours=[c1, c2], percent=pct)
    inv = COL.monoinverseshiftablepal(bits, fac, 20, 0)
    for name, args, lst, fourth in (('setBMP2monochrome', (fac,), COL.monochromepal(bits, fac), False), ('setBMP2invshiftedmonochrome', (fac,), inv, True),
                                    ('setBMP2invshiftedmonochrome', (fac, 3, 5), COL.monoinverseshiftablepal(bits, fac, 3, 5), True),
                                    ('setBMP2dichromaticpal', (c1, c2), COL.dichromaticpal(c1, c2, m, 3), True)):
        b = b0[:]
        must(call(getattr(B, name), b, *args), name, inputs)
        e = bytearray(palbytes(b0))
        for i, x in enumerate(lst):
            e[4 * i:4 * i + 3] = bytes(reversed(x))
            if fourth:
                e[4 * i + 3] = 0
        check(b, b0, e, f'{name} at {bits} bits', inputs)
    b = b0[:]
    r = must(call(B.RGBpalbrightnessadjust, b, pct), 'RGBpalbrightnessadjust', inputs)
    if [tuple(x) for x in r] != [tuple(COL.brightnessadjust(x, pct)) for x in P0]:
        raise Violation('RGBpalbrightnessadjust is not the adjusted palette', inputs)
    r = must(call(B.copyBMPhdr, b), 'copyBMPhdr', inputs)
    if bytes(r) != bytes(b0[:HDR[bits]]) + bytes(len(b0) - HDR[bits]):
        raise Violation('copyBMPhdr is not a blank image with the same header and palette', inputs)
    n = mkbmp(3, 2, bits, g)
    n0 = n[:]
    r = must(call(B.setnewpalfromsourcebmp, b, n, 40), 'setnewpalfromsourcebmp', inputs)
    if len(r) > m or list(r[0]) != [0, 0, 0]:
        raise Violation(f'setnewpalfromsourcebmp gives {len(r)} colours beginning with {r[0]}', inputs)
    e = bytearray(palbytes(n0))
    if len(r) == m:
        for i, x in enumerate(r):
            e[4 * i:4 * i + 3] = bytes(reversed(x))
    check(n, n0, e, 'setnewpalfromsourcebmp', inputs)
    check(b, b0, palbytes(b0), 'functions that only read the palette', inputs)
    o = mkbmp(g.randint(1, 9), g.randint(1, 9), bits, g)
    b = o[:]
    s = b0[:]
    must(call(B.copyRGBpal, s, b), 'copyRGBpal', inputs)
    check(b, o, palbytes(b0), f'copyRGBpal at {bits} bits', inputs)
    if s != b0:
        raise Violation('copyRGBpal changed its source', inputs)


def conc_default(bits, g, i=None, k=0):
    std = COL.getdefaultbitpal(bits)
    b = mkbmp(3, 2, bits, g, pal=[tuple(e) for e in std])
    for j in range(1 << bits):
        b[54 + 4 * j + 3] = g.choice((0, 255))
    if not must(call(B.isdefaultpal, b), 'isdefaultpal', bits):
        raise Violation('isdefaultpal is false for the default palette', dict(bits=bits))
    for i in range(1 << bits):
        o = b[:]
        o[54 + 4 * i + g.randrange(3)] ^= 1 << g.randrange(8)
        if must(call(B.isdefaultpal, o), 'isdefaultpal', bits):
            raise Violation(f'isdefaultpal is true although entry {i} differs', dict(bits=bits, entry=i))


def b_pal(X):
    g = X.rng
    for bits in PAL:
        conc_default(bits, g)
    while True:
        for bits in PAL:
            w, h = dims(g, 0, 9)
            b0 = mkbmp(w, h, bits, g)
            for i in range(1 << bits):
                b0[54 + 4 * i + 3] = g.randrange(256)
            conc(b0, g)
            conc(b0, g, c=g.choice((0, (1 << bits) - 1)))
            X.case((bits, w, h), f'palette of a {w}x{h} image at {bits} bits')
        if not X.more():
            break


def replay(i):
    b = i['bmp']
    if geom(b)[2] == 24:
        return
    for seed in range(3):
        conc(b, random.Random(seed), c=i.get('c'), shift=i.get('shift'))
        conc_default(geom(b)[2], random.Random(seed))


PROOFS = []
for _b in PAL:
    _P = lambda name, fns, run, **t: PROOFS.append(Proof(f'{name}, {_b} bit', [f'BITMAPlib.{f}' for f in fns], run, registry=REG,
                                                        inputs=bmp_inputs(None, **{n: z3.Int(n) for n in t.get('vars', ())}), replay=replay, hints=small))
    _P('setting and reading an entry', ['setRGBpal', 'getRGBpal'], p_set(_b), vars=('c',))
    _P('reading the palette', ['getallRGBpal', 'getBGRpalbuf'], p_all(_b))
    for _n, _o in (('setbmppal', 'rgb'), ('setbmppalwithBGRlist', 'bgr'), ('setbmppalwithBGRAlist', 'bgra')):
        _P(_n, [_n], p_setall(_b, _n, _o))
        _P(f'{_n} with a list of another length', [_n], p_setall(_b, _n, _o, (1 << _b) - 1))
    _P('copyRGBpal', ['copyRGBpal'], p_copy(_b))
    _fac = lambda: (tuple(z3.Reals('f0 f1 f2')),)
    _P('setBMP2monochrome', ['setBMP2monochrome'], p_derived(_b, 'setBMP2monochrome', 'monochromepal', 'rgb', _fac))
    _P('setBMP2invshiftedmonochrome', ['setBMP2invshiftedmonochrome'], p_derived(_b, 'setBMP2invshiftedmonochrome', 'monoinverseshiftableBGRApal', 'bgra', lambda: (*_fac(), z3.Int('mult'), z3.Int('shiftby'))))
    _P('setBMP2dichromaticpal', ['setBMP2dichromaticpal'], p_derived(_b, 'setBMP2dichromaticpal', 'dichromaticpal', 'rgb', lambda: z3.Ints('c1 c2')))
    _P('RGBpalbrightnessadjust', ['RGBpalbrightnessadjust'], p_bright(_b))
    _P('copyBMPhdr', ['copyBMPhdr'], p_header(_b))
    if _b > 1:
        _P('palshift', ['palshift'], p_shift(_b), vars=('shift',))
    _P('isdefaultpal', ['isdefaultpal'], p_default(_b))
BOUNDED = [Bounded('palettes, concrete', b_pal, 'random images of depths 1, 4 and 8 up to 40 pixels a side, random palettes, rotations within two turns',
                   ['BITMAPlib.itercolorcycle', 'BITMAPlib.palshift', 'BITMAPlib.setbmppal'], quick=8)]
