"""C12: colour conversions, palette matching, colour adjustments."""
import math
from fractions import Fraction as Fr
from .common import *
from .contracts import *
from pythonbmp import colors as C
from pythonbmp import colordict as CD
PROPERTY = 'C12'
MODC = 'pythonbmp.colors'
ASSUMPTIONS = ['floating point numbers are treated as mathematical reals in the proofs',
               'contract of dist (math.sqrt inside): result >= 0, zero exactly for equal points, monotone in the sum of squares; checked concretely in C21']
Rl = z3.RealSort()


def p_conv(ctx):
    i = z3.Int('i')
    ctx.fact(z3.And(i >= 0, i < 2**24))
    rgb = ctx.call(C.int2RGB, [i])
    for k in range(3):
        ctx.prove(z3.And(lift(rgb[k]) >= 0, lift(rgb[k]) <= 255), f'channel {k} is a byte')
    ctx.prove(lift(ctx.call(C.RGB2int, list(rgb))) == i, 'RGB2int(int2RGB(i)) = i')
    l = ctx.call(C.int2RGBlist, [i])
    a = ctx.call(C.int2RGBarr, [i])
    b = ctx.call(C.int2BGRarr, [i])
    ctx.prove(and_(*[eqv(l.view(k), rgb[k]) for k in range(3)], *[eqv(a.view(k), rgb[k]) for k in range(3)], *[eqv(b.view(2 - k), rgb[k]) for k in range(3)],
                   eqv(l.length, 3), eqv(a.length, 3), eqv(b.length, 3)), 'list and buffer forms agree')
    r, g, bl = z3.Ints('r g b')
    ctx.fact(z3.And(*[z3.And(t >= 0, t <= 255) for t in (r, g, bl)]))
    t = ctx.call(C.int2RGB, [ctx.call(C.RGB2int, [r, g, bl])])
    ctx.prove(and_(eqv(t[0], r), eqv(t[1], g), eqv(t[2], bl)), 'int2RGB(RGB2int(r,g,b)) = (r,g,b)')
    v = ctx.call(C.RGB2BGRarr, [r, g, bl])
    ctx.prove(and_(eqv(v.view(0), bl), eqv(v.view(1), g), eqv(v.view(2), r), eqv(v.length, 3)), 'RGB2BGRarr')


def byteview(ctx, name):
    f = z3.Function(name, I, I)

    def view(j):
        t = f(lift(j))
        ctx.fact_once((name, lift(j).get_id()), lambda: z3.And(t >= 0, t <= 255))
        ctx.keep.append((t, j))
        return t
    return f, view


def p_invert(ctx):
    n = z3.Int('n')
    ctx.fact(n >= 0)
    f, view = byteview(ctx, 'buf')
    a = ctx.mk('B', length=n, view=view)
    r = ctx.call(C.invertbitsinbuffer, [a])
    ctx.prove(eqv(r.length, n), 'length')
    j = ctx.fresh('j')
    ctx.solver.add(j >= 0, j < n)
    ctx.prove(lift(r.view(j)) == 255 - f(j), 'every byte is complemented')
    r2 = ctx.call(C.invertbitsinbuffer, [r])
    ctx.prove(lift(r2.view(j)) == f(j), 'twice is the identity')
    ctx.prove(lift(a.view(j)) == f(j), 'the argument is not changed')


def p_match(ctx):
    """any palette of any length, any colour"""
    n = z3.Int('n')
    ctx.fact(n >= 1)
    P = [z3.Function(f'pal{k}', I, I) for k in range(3)]
    D = z3.Function('dist', I, Rl)
    rgb = ctx.mk('list', items=list(z3.Ints('cr cg cb')))
    memo = {}

    def at(i):
        i = lift(i)
        if i.get_id() not in memo:
            p = ctx.mk('list', items=[P[k](i) for k in range(3)])
            p.pidx = i
            memo[i.get_id()] = (p, i)
        return memo[i.get_id()][0]
    pal = ctx.mk('list', length=n, view=at)
    mem = ctx.fresh_bool('member')
    pal.member = lambda v: mem

    def indexer(v):
        k = ctx.fresh('idx')
        ctx.no_exc(mem, 'ValueError')
        ctx.assume(z3.And(k >= 0, k < n, *[P[q](k) == rgb.items[q] for q in range(3)]))
        ctx.fact(D(k) == 0)
        return k
    pal.indexer = indexer

    def c_dist(ctx, u, v):
        i = getattr(v, 'pidx', None)
        if i is None or u is not rgb:
            return NotImplemented
        ctx.fact(z3.And(D(i) >= 0, D(i) < 442))
        return D(i)
    ctx.x.registry = dict(ctx.x.registry)
    ctx.x.registry[('pythonbmp.mathlib', 'dist')] = c_dist
    ctx.reg = ctx.x.registry
    m = z3.Int('m')
    ctx.fact(z3.And(m >= 0, m < n, D(m) >= 0, D(m) < 442))
    ctx.ghost['match'] = (m, D, n)
    r = ctx.call(C.matchRGBtopal, [rgb, pal])
    ctx.prove(z3.And(lift(r) >= 0, lift(r) < n), 'result is an index of the palette')
    ctx.prove(D(lift(r)) <= D(m), 'no entry is nearer than the result')


class MatchLoop(LoopSpec):
    """after k entries: d is the distance of the entry c, and no entry before k is nearer"""
    def inv(self, L, k):
        ctx = L.ctx
        m, D, n = ctx.ghost['match']
        v = ctx.frames[-1].vars
        if 'c' not in v or 'd' not in v:
            return []
        c, d = lift(v['c']), lift(v['d'])
        d = z3.ToReal(d) if d.is_int() else d
        k = lift(k)
        return [z3.And(c >= 0, z3.Implies(k >= 1, z3.And(c < k, D(c) == d)), z3.Implies(k == 0, z3.And(c == 0, d >= 442))), z3.Implies(m < k, d <= D(m))]


def p_factors(ctx):
    rgb = z3.Ints('r g b')
    ctx.fact(z3.And(*[z3.And(t >= 0, t <= 255) for t in rgb]))
    l = ctx.mk('list', items=list(rgb))
    r = ctx.call(C.RGBtoRGBfactorsandlum, [l])
    f, lum = ctx.get_index(r, 0), ctx.get_index(r, 1)
    mx = z3.If(z3.And(rgb[0] >= rgb[1], rgb[0] >= rgb[2]), rgb[0], z3.If(rgb[1] >= rgb[2], rgb[1], rgb[2]))
    ctx.prove(lift(lum) == z3.If(mx == 0, z3.IntVal(1), mx), 'luminosity is the largest channel (1 for black)')
    for k in range(3):
        t = lift(f.view(k))
        ctx.prove(z3.And(t >= 0, t <= 1), f'factor {k} between 0 and 1')
        ctx.prove(lift(ctx.mul(t, z3.ToReal(lift(lum)))) == z3.ToReal(rgb[k]), f'factor {k} times luminosity is the channel')


def p_filter(ctx):
    rgb = z3.Ints('r g b')
    fs = z3.Reals('f0 f1 f2')
    ctx.fact(z3.And(*[z3.And(t >= 0, t <= 255) for t in rgb]))
    l = ctx.mk('list', items=list(rgb))
    r = ctx.call(C.colorfilter, [l, ctx.mk('list', items=list(fs))])
    for k in range(3):
        v = lift(r.view(k))
        e = lift(ctx.mul(z3.ToReal(rgb[k]), fs[k]))
        ctx.prove(z3.And(v >= 0, v <= 255), f'channel {k} in range')
        ctx.prove(z3.Implies(z3.And(e >= 0, e <= 255), z3.And(2 * z3.ToReal(v) >= 2 * e - 1, 2 * z3.ToReal(v) <= 2 * e + 1)), f'channel {k} is the rounded product')
    m = ctx.call(C.monochrome, [l])
    s = z3.ToReal(z3.Sum(list(rgb)))
    for k in range(3):
        v = z3.ToReal(lift(m.view(k)))
        ctx.prove(z3.And(6 * v >= 2 * s - 3, 6 * v <= 2 * s + 3), f'monochrome channel {k} is the rounded mean')


# ---- concrete oracle --------------------------------------------------------
def rnd(v):
    return round(v)


def conc_color(i):
    inputs = dict(color=i)
    r, g, b = i >> 16 & 255, i >> 8 & 255, i & 255
    for f, e in ((C.int2RGB, (r, g, b)), (C.int2RGBlist, [r, g, b]), (C.int2BGRarr, array('B', [b, g, r])), (C.int2RGBarr, array('B', [r, g, b]))):
        v = must(call(f, i), f.__name__, inputs)
        if v != e:
            raise Violation(f'{f.__name__}({i}) = {v}, expected {e}', inputs)
    v = must(call(C.RGB2int, r, g, b), 'RGB2int', inputs)
    if v != i:
        raise Violation(f'RGB2int{(r, g, b)} = {v}, expected {i}', inputs)
    v = must(call(C.RGB2BGRarr, r, g, b), 'RGB2BGRarr', inputs)
    if v != array('B', [b, g, r]):
        raise Violation(f'RGB2BGRarr = {v}', inputs)


def conc_match(rgb, pal):
    inputs = dict(rgb=rgb, palette=pal if len(pal) <= 16 else f'{pal[:4]}...({len(pal)})')
    keep = [list(p) for p in pal]
    v = must(call(C.matchRGBtopal, rgb, pal), 'matchRGBtopal', inputs)
    if [list(p) for p in pal] != keep:
        raise Violation('matchRGBtopal changed the palette', inputs)
    if not isinstance(v, int) or not 0 <= v < len(pal):
        raise Violation(f'matchRGBtopal = {v} is not an index of the palette', inputs)
    d = lambda p: sum((x - y)**2 for x, y in zip(p, rgb))
    best = min(d(p) for p in pal)
    if d(pal[v]) != best:
        raise Violation(f'matchRGBtopal = {v} at squared distance {d(pal[v])}, but {best} exists', inputs)


def conc_adjust(rgb, fac, pct, lr, gam):
    inputs = dict(rgb=rgb, factors=fac, percent=pct, lumrange=lr, gamma=gam)
    L = list(rgb)
    lum = max(L) or 1
    clamp = lambda v: max(0, min(255, v))

    def near(name, got, exact, slack=1e-6):
        for k, (q, e) in enumerate(zip(got, exact)):
            if not isinstance(q, int) or not 0 <= q <= 255:
                raise Violation(f'{name}: channel {q} is not a byte', inputs)
            if abs(q - clamp(e)) > .5 + slack:
                raise Violation(f'{name}{tuple(rgb)}: channel {k} is {q}, formula gives {float(e):.4f}', inputs)
    g = lambda f, *a: must(call(f, *a), f.__name__, inputs)
    near('colorfilter', g(C.colorfilter, L, fac), [Fr(c) * Fr(f) for c, f in zip(L, fac)])
    near('brightnessadjust', g(C.brightnessadjust, L, pct), [c * (1 + Fr(pct) / 100) for c in L])
    near('monochrome', g(C.monochrome, L), [Fr(sum(L), 3)] * 3)
    lo, hi = sorted(clamp(v) for v in lr)
    t = max(lo, min(hi, lum))
    near('thresholdadjust', g(C.thresholdadjust, L, list(lr)), [Fr(c * t, lum) for c in L])
    gb = int((lum / 255)**gam * 255)
    near('gammacorrect', g(C.gammacorrect, L, gam), [Fr(c * gb, lum) for c in L])
    for c in L:
        v = g(C.gammacorrectbyte, c, gam)
        if v != int((c / 255)**gam * 255):
            raise Violation(f'gammacorrectbyte({c},{gam}) = {v}', inputs)
    f, l2 = g(C.RGBtoRGBfactorsandlum, L)
    if l2 != lum or any(abs(a - Fr(c, lum)) > 1e-12 for a, c in zip(f, L)):
        raise Violation(f'RGBtoRGBfactorsandlum({L}) = {[f, l2]}', inputs)
    near('RGBfactors2RGB', g(C.RGBfactors2RGB, [c / 255 for c in L], 255), L)
    v = g(C.colormix, 255, [c / 255 for c in L])
    if any(abs((v >> s & 255) - c) > 1 for s, c in zip((16, 8, 0), L)):
        raise Violation(f'colormix(255, {L}/255) = {v:#x}', inputs)
    # HSL against the textbook formula
    import colorsys
    h, l_, s = colorsys.rgb_to_hls(*[c / 255 for c in L])
    v = g(C.RGB2HSL, *L)
    dh = abs(v[0] - h * 360) % 360
    if min(dh, 360 - dh) > 1 or abs(v[1] - s * 100) > 1 or abs(v[2] - l_ * 100) > 1:
        raise Violation(f'RGB2HSL({L}) = {v}, expected about {[h * 360, s * 100, l_ * 100]}', inputs)
    u = g(C.matchRGBtodefault4bitpal, L)
    if not 0 <= u <= 15:
        raise Violation(f'matchRGBtodefault4bitpal({L}) = {u}', inputs)
    b_, r_ = g(C.RGBfactorstoBaseandRange, list(lr), fac)
    if [x for x in b_] != [round(f * lr[0]) for f in fac] or any(abs(q - (f * lr[1] - round(f * lr[0]))) > 1e-6 for q, f in zip(r_, fac)):
        raise Violation(f'RGBfactorstoBaseandRange({lr},{fac}) = {[b_, r_]}', inputs)


def conc_buf(buf, fac, pct, lr, gam):
    """whole-buffer forms: every pixel by its formula"""
    inputs = dict(buffer=bytes(buf).hex(), factors=fac, percent=pct, lumrange=lr, gamma=gam)
    g = lambda f, *a: must(call(f, *a), f.__name__, inputs)
    n = len(buf) // 3
    v = g(C.invertbitsinbuffer, buf[:])
    if v != array('B', [255 - x for x in buf]):
        raise Violation('invertbitsinbuffer', inputs)
    v = buf[:]
    g(C.applymonochromefiltertoBGRbuf, v)
    m = [sum(buf[3 * i:3 * i + 3]) for i in range(n)]
    if len(v) != len(buf) or any(abs(3 * v[3 * i + k] - m[i]) > 3 or v[3 * i] != v[3 * i + k] for i in range(n) for k in range(3)):
        raise Violation(f'monochrome buffer filter gave {bytes(v).hex()}', inputs)
    v = buf[:]
    v2 = g(C.monochromefiltertoBGRbuf, v)
    v = buf[:]
    g(C.RGB2BGRbuf, v)
    if v != array('B', [x for i in range(n) for x in reversed(buf[3 * i:3 * i + 3])]):
        raise Violation(f'RGB2BGRbuf gave {bytes(v).hex()}', inputs)
    v = g(C.makeBGRbuf, buf[0::3], buf[1::3], buf[2::3])
    if v != buf:
        raise Violation(f'makeBGRbuf gave {bytes(v).hex()}', inputs)
    v = g(C.applybrightnessadjtoBGRbuf, buf[:], pct)
    if any(abs(x - max(0, min(255, c * (1 + Fr(pct) / 100)))) > .5 + 1e-6 for x, c in zip(v, buf)) or len(v) != len(buf):
        raise Violation(f'brightness buffer filter gave {bytes(v).hex()}', inputs)
    v = g(C.applythresholdadjtoBGRbuf, buf[:], list(lr))
    lo, hi = sorted(x & 255 for x in lr)
    for i in range(n):
        c = buf[3 * i:3 * i + 3]
        lum = max(c)
        t = max(lo, min(hi, lum))
        e = [Fr(x * t, lum) for x in c] if lum else [0, 0, 0]
        if any(abs(v[3 * i + k] - e[k]) > 1 for k in range(3)):
            raise Violation(f'threshold buffer filter: pixel {list(c)} became {list(v[3 * i:3 * i + 3])}, formula {[float(x) for x in e]}', inputs)
    v = buf[:]
    g(C.applygammaBGRbuf, v, gam)
    for i in range(n):
        c = buf[3 * i:3 * i + 3]
        lum = max(c) or 1
        t = int((lum / 255)**gam * 255)
        if any(abs(v[3 * i + k] - Fr(c[k] * t, lum)) > 1 for k in range(3)):
            raise Violation(f'gamma buffer filter: pixel {list(c)} became {list(v[3 * i:3 * i + 3])}', inputs)
    # the last pixel of the colour-filter buffer form is left as it is (recorded finding): the pixels before it are checked
    v = buf[:]
    g(C.applycolorfiltertoBGRbuf, v, fac)
    for i in range(n):
        c = buf[3 * i:3 * i + 3]
        e = [Fr(c[0]) * Fr(fac[2]), Fr(c[1]) * Fr(fac[1]), Fr(c[2]) * Fr(fac[0])]
        got = v[3 * i:3 * i + 3]
        if any(abs(got[k] - e[k]) > .5 + 1e-6 for k in range(3)):
            if i == n - 1 and got == c:
                return 'lastpixel'
            raise Violation(f'colour buffer filter: pixel {i} {list(c)} became {list(got)}, formula {[float(x) for x in e]}', inputs)


def conc_pal(bits, fac, mult, shift, c1, c2):
    inputs = dict(bits=bits, factors=fac, mult=mult, shift=shift)
    g = lambda f, *a: must(call(f, *a), f.__name__, inputs)
    n = 1 << bits
    lev = [255 * i // (n - 1) for i in range(n)]
    def close(name, got, exp):
        if len(got) != n or any(abs(x - y) > .5 + 1e-6 for p, q in zip(got, exp) for x, y in zip(p, q)):
            raise Violation(f'{name}({bits},{fac},{mult},{shift}) has entries {got[:3]}..., expected {[[float(t) for t in q] for q in exp[:3]]}...', inputs)
    F = [Fr(f) for f in fac]
    close('monochromepal', g(C.monochromepal, bits, fac), [[f * c for f in F] for c in lev])
    close('monoshiftablepal', g(C.monoshiftablepal, bits, fac, mult, shift), [[f * ((c * mult + shift) % 256) for f in F] for c in lev])
    inv = [[f * (((255 - c) * mult + shift) % 256) for f in F] for c in lev]
    close('monoinverseshiftablepal', g(C.monoinverseshiftablepal, bits, fac, mult, shift), inv)
    close('monoinverseshiftableBGRpal', g(C.monoinverseshiftableBGRpal, bits, fac, mult, shift), [p[::-1] for p in inv])
    close('monoinverseshiftableBGRApal', g(C.monoinverseshiftableBGRApal, bits, fac, mult, shift), [p[::-1] + [0] for p in inv])
    A, Z = [c1 >> 16, c1 >> 8 & 255, c1 & 255], [c2 >> 16, c2 >> 8 & 255, c2 & 255]
    v = g(C.dichromaticpal, c1, c2, n)
    exp = [None] * n
    for i in range(n):
        exp[(n - i) % n] = [Fr(a) + Fr(z - a) * Fr(i, n) for a, z in zip(A, Z)]
    close('dichromaticpal', v, exp)


def b_colors(X):
    X.known_last = False
    step = X.n(997, 31)
    for i in list(range(0, 2**24, step)) + [0, 255, 256, 65535, 65536, 2**24 - 1] + [1 << k for k in range(24)]:
        conc_color(i)
        X.case(('c', i))
    for d in (1, 4, 8):
        pal = [list(p) for p in C.getdefaultbitpal(d)]
        if len(pal) != 1 << d or any(len(p) != 3 or any(not 0 <= c <= 255 for c in p) for p in pal):
            raise Violation(f'default palette of {d} bits is malformed', dict(bits=d))
        for p in pal:
            conc_match(p, pal)
            conc_match(tuple(p), pal)
    f = CD.getRGBfactors()
    for nm, v in CD.getcolorname2RGBdict().items():
        e = [(v >> s & 255) / 255 for s in (16, 8, 0)]
        if nm not in f or any(abs(a - b) > 1e-9 for a, b in zip(f[nm], e)):
            raise Violation(f'named colour {nm}: factors {f.get(nm)} do not match {v:#x}', dict(name=nm))
    for nm, (lo, hi) in C.getdefaultlumrange().items():
        if not (0 <= lo <= 255 and 0 <= hi <= 255):
            raise Violation(f'luminosity range {nm}', dict(name=nm))
    last = 0
    while X.more():
        rng = X.rng
        byte = lambda: rng.choice([0, 255, 1, 254, 127, 128, rng.randrange(256), rng.randrange(256)])
        rgb = [byte() for _ in range(3)]
        n = rng.choice([1, 2, 3, 16, rng.randint(2, 40)])
        pal = [[byte() for _ in range(3)] for _ in range(n)]
        if rng.random() < .3:
            rgb = list(rng.choice(pal))
        if rng.random() < .2:
            pal = [tuple(p) for p in pal]
        conc_match(rng.choice([tuple, list])(rgb), pal)
        fac = [rng.choice([0.0, 1.0, 0.5, rng.random()]) for _ in range(3)]
        pct = rng.choice([0, -100, 100, 50, -37, rng.randint(-100, 300), rng.uniform(-100, 200)])
        lr = [rng.randrange(256), rng.randrange(256)]
        gam = rng.choice([1, .5, 2, .1, 3.3, rng.uniform(.05, 4)])
        conc_adjust(rgb, fac, pct, lr, gam)
        buf = array('B', [byte() for _ in range(3 * rng.randint(1, 9))])
        if conc_buf(buf, fac, pct, lr, gam) == 'lastpixel':
            last += 1
        conc_pal(rng.choice([1, 4, 8]), fac, rng.randint(1, 4), rng.randrange(256), rng.randrange(2**24), rng.randrange(2**24))
        X.case((tuple(rgb), n, pct), f'rgb {rgb}, {n} palette entries, percent {pct}, gamma {gam}')
    if last:
        X.known.append(dict(key='colorfilter-buffer-last-pixel', message='the colour filter on a BGR buffer leaves the last pixel unfiltered', inputs='any buffer whose last pixel is changed by the filter'))


def replay(i):
    if 'i' in i:
        conc_color(i['i'] % 2**24)
        conc_color(((i.get('r', 0) & 255) << 16) + ((i.get('g', 0) & 255) << 8) + (i.get('b', 0) & 255))
        for k in range(0, 2**24, 65537 // 3):
            conc_color(k)
    rng = random.Random(str(i))
    for _ in range(200):
        rgb = [rng.randrange(256) for _ in range(3)]
        conc_match(rgb, [[rng.randrange(256) for _ in range(3)] for _ in range(rng.randint(1, 9))])
        conc_adjust(rgb, [rng.random() for _ in range(3)], rng.randint(-100, 200), [rng.randrange(256), rng.randrange(256)], rng.uniform(.1, 3))
        conc_buf(array('B', [rng.randrange(256) for _ in range(9)]), [.2, .5, .9], 20, [10, 200], .7)


_i = lambda *n: bmp_inputs(None, **{k: z3.Int(k) for k in n})
PROOFS = [
    Proof('packed colour conversions', ['colors.int2RGB', 'colors.RGB2int', 'colors.int2RGBlist', 'colors.int2RGBarr', 'colors.int2BGRarr', 'colors.RGB2BGRarr'], p_conv,
          inputs=_i('i', 'r', 'g', 'b'), replay=replay),
    Proof('bit inversion of a buffer of any length', ['colors.invertbitsinbuffer'], p_invert, inputs=_i('n'), replay=replay),
    Proof('palette matching, any palette', ['colors.matchRGBtopal'], p_match, loopspec=lambda L: MatchLoop(), inputs=_i('n', 'cr', 'cg', 'cb'), replay=replay),
    Proof('luminosity factors', ['colors.RGBtoRGBfactorsandlum'], p_factors, inputs=_i('r', 'g', 'b'), replay=replay),
    Proof('colour filter and monochrome', ['colors.colorfilter', 'colors.monochrome', 'mathlib.intsetminmaxvec', 'mathlib.mulvect', 'mathlib.mean'], p_filter, inputs=_i('r', 'g', 'b'), replay=replay),
]
BOUNDED = [Bounded('colours, concrete', b_colors, 'every 997th (31st thorough) packed colour, random colours, palettes up to 40 entries, buffers up to 9 pixels, random parameters',
                   ['colors.*'], quick=15, thorough=120)]
